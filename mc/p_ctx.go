package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// E11: context values set during a request are seen by exactly that request

type ctxName struct{}

func named(name string) context.Context {
	return context.WithValue(context.Background(), ctxName{}, name)
}

var ctxScript []int // what the resolvers do
var ctxCancel func()

func ctxView(c *yarql.Ctx) string {
	v := "k="
	val, ok := c.GetValueOk("k")
	v += fmt.Sprintf("%v,%v", val, ok)
	if c.GetValue("k") != val {
		v += " (GetValue differs)"
	}
	v += fmt.Sprintf(" x=%v", c.GetValue("x"))
	if _, ok := c.GetValueOk("never"); ok || c.GetValue("never") != nil {
		v += " (found a value that was never set)"
	}
	g := c.GetContext()
	if g == nil {
		v += " ctx=nil"
	} else {
		v += fmt.Sprintf(" ctx=%v", g.Value(ctxName{}))
		if g.Err() != nil {
			v += "!"
		}
	}
	return v + " path=" + string(c.GetPath())
}

var ctxOps = []string{"nothing", "SetValue(k)", "SetValue(k,nil)", "SetValue(x)", "SetContext", "SetContext(nil)", "SetContext(ended)", "error", "scribble", "cancel", "SetValue(big)"}

func ctxOp(c *yarql.Ctx, i int) (string, error) {
	view := ctxView(c)
	var err error
	switch ctxScript[i] {
	case 1:
		c.SetValue("k", "v"+strconv.Itoa(i))
	case 2:
		c.SetValue("k", nil)
	case 3:
		c.SetValue("x", i)
	case 4:
		c.SetContext(named("own" + strconv.Itoa(i)))
	case 5:
		c.SetContext(nil)
	case 6:
		x, cancel := context.WithCancel(named("ended" + strconv.Itoa(i)))
		cancel()
		c.SetContext(x)
	case 7:
		err = errors.New("failed at " + string(c.GetPath()))
	case 8:
		p := c.GetPath()
		p = p[:cap(p)]
		for j := range p {
			p[j] = 'X'
		}
	case 9:
		if ctxCancel != nil {
			ctxCancel()
		}
	case 10:
		for j := 0; j < 40; j++ {
			c.SetValue("k", fmt.Sprint("big", i))
			c.SetValue("n"+strconv.Itoa(j), j)
		}
	}
	calls = append(calls, view)
	return view, err
}

type ctxArgs struct{ I int }

// CO is an object
type CO struct {
	N    int
	L    []CO
	Null *CO
	Fn   func(args ctxArgs, c *yarql.Ctx) (string, error)
}

// ResolveOp does what the script says
func (CO) ResolveOp(c *yarql.Ctx, args ctxArgs) (string, error) { return ctxOp(c, args.I) }

// ResolveSub does what the script says and returns an object
func (CO) ResolveSub(args ctxArgs, c *yarql.Ctx) (*CO, error) {
	_, err := ctxOp(c, args.I)
	return &CO{N: 5}, err
}

// CQ is the query root
type CQ struct {
	O CO
	N int
}

// ResolveOp does what the script says
func (CQ) ResolveOp(args ctxArgs, c *yarql.Ctx, more struct{ Z string }) (error, string) {
	s, err := ctxOp(c, args.I)
	return err, s
}

// ResolveLast only looks
func (CQ) ResolveLast(c *yarql.Ctx) string { return ctxView(c) }

// CM is the mutation root
type CM struct{}

var ctxSchema *yarql.Schema

func getCtxSchema() *yarql.Schema {
	if ctxSchema == nil {
		ctxSchema = yarql.NewSchema()
		must(ctxSchema.RegisterDirective(yarql.Directive{
			Name:  "op",
			Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline},
			Method: func(c *yarql.Ctx, args ctxArgs) yarql.DirectiveModifier {
				ctxOp(c, args.I)
				return yarql.DirectiveModifier{Skip: c.GetValue("k") == nil}
			},
		}))
		must(ctxSchema.Parse(CQ{N: 1, O: CO{N: 2, L: []CO{{N: 3}, {N: 4}}, Fn: func(args ctxArgs, c *yarql.Ctx) (string, error) { return ctxOp(c, args.I) }}}, CM{}, nil))
	}
	return ctxSchema
}

// the model of a request
type ctxModel struct {
	k, x      any
	kSet      bool
	ctx       string
	ended     bool
	canCancel bool
	log       []string
	errs      []RefErr
	b         strings.Builder
}

func (m *ctxModel) view(path string) string {
	e := ""
	if m.ended {
		e = "!"
	}
	return fmt.Sprintf("k=%v,%v x=%v ctx=%s%s path=[%s]", m.k, m.kSet, m.x, m.ctx, e, path)
}

// op is what a resolver at path does, it returns the error of the resolver
func (m *ctxModel) op(i int, path string) (view string, err string) {
	view = m.view(path)
	switch ctxScript[i] {
	case 1:
		m.k, m.kSet = "v"+strconv.Itoa(i), true
	case 2:
		m.k, m.kSet = nil, true
	case 3:
		m.x = i
	case 4:
		m.ctx, m.ended, m.canCancel = "own"+strconv.Itoa(i), false, false
	case 5:
		m.ctx, m.ended, m.canCancel = "nil", false, false
	case 6:
		m.ctx, m.ended, m.canCancel = "ended"+strconv.Itoa(i), true, false
	case 7:
		err = "failed at [" + path + "]"
	case 9:
		if m.canCancel {
			m.ended = true
		}
	case 10:
		m.k, m.kSet = "big"+strconv.Itoa(i), true
	}
	m.log = append(m.log, view)
	return
}

// field is a method field, it returns false if there is no value
func (m *ctxModel) field(key string, path string, i int, leaf bool) bool {
	m.b.WriteString(strconv.Quote(key) + ":")
	p := path + strconv.Quote(key)
	var view string
	if i >= 0 {
		var err string
		view, err = m.op(i, p)
		if err != "" {
			m.errs = append(m.errs, RefErr{Path: p, Msg: err, Resolver: true})
		}
	} else {
		view = m.view(p)
	}
	if m.ended {
		m.errs = append(m.errs, RefErr{Path: p, Msg: "context canceled", Resolver: true})
		m.b.WriteString("null")
		return false
	}
	if leaf {
		m.b.WriteString(strconv.Quote(view))
	}
	return true
}

const ctxQuery = `query($i:Int){a:op(i:0) o{b:op(i:1) n l{...F} s:sub(i:3){n c:op(i:5)} f:fn(i:5)} d:n@op(i:4) ...G@op(i:5) e:last null:n}fragment F on CO{op(i:2)}fragment G on CQ{g:last}`

func (m *ctxModel) run() {
	m.b.WriteString("{")
	m.field("a", "", 0, true)
	m.b.WriteString(`,"o":{`)
	m.field("b", `"o",`, 1, true)
	m.b.WriteString(`,"n":2,"l":[{`)
	m.field("op", `"o","l",0,`, 2, true)
	m.b.WriteString(`},{`)
	m.field("op", `"o","l",1,`, 2, true)
	m.b.WriteString(`}],`)
	if m.field("s", `"o",`, 3, false) {
		m.b.WriteString(`{"n":5,`)
		m.field("c", `"o","s",`, 5, true)
		m.b.WriteString(`}`)
	}
	m.b.WriteString(`,`)
	m.field("f", `"o",`, 5, true)
	m.b.WriteString(`}`)
	m.op(4, `"d"`)
	if m.k != nil {
		m.b.WriteString(`,"d":1`)
	}
	m.op(5, ``)
	if m.k != nil {
		m.b.WriteString(`,`)
		m.field("g", "", -1, true)
	}
	m.b.WriteString(`,`)
	m.field("e", "", -1, true)
	m.b.WriteString(`,"null":1}`)
}

// start fills in the options of a request and the matching model
func ctxStart(vals, ctx int, name string) (map[string]interface{}, bool, context.Context, *ctxModel) {
	m := &ctxModel{ctx: "nil"}
	var v map[string]interface{}
	has := true
	switch vals {
	case 0:
		has = false
	case 1: // a nil map
	case 2:
		v = map[string]interface{}{"x": "x" + name}
		m.x = "x" + name
	case 3:
		v = map[string]interface{}{"k": "k" + name}
		m.k, m.kSet = "k"+name, true
	}
	var c context.Context
	ctxCancel = nil
	switch ctx {
	case 1:
		c = named("req" + name)
		m.ctx = "req" + name
	case 2:
		c, ctxCancel = context.WithCancel(named("can" + name))
		m.ctx, m.canCancel = "can"+name, true
	case 3:
		var cancel func()
		c, cancel = context.WithCancel(named("done" + name))
		cancel()
		m.ctx, m.ended = "done"+name, true
	case 4:
		var cancel func()
		c, cancel = context.WithDeadline(named("far"+name), time.Now().Add(1000*time.Hour))
		ctxCancel = cancel
		m.ctx, m.canCancel = "far"+name, true
	}
	return v, has, c, m
}

func ctxRequest(s *yarql.Schema, transport, vals, ctx int, name string) (string, string) {
	v, has, c, m := ctxStart(vals, ctx, name)
	ctxMap = v
	before := fmt.Sprint(v)
	defer func() { ctxMapIs = fmt.Sprint(v) }()
	if ctxCancel != nil {
		defer ctxCancel()
	}
	m.run()
	calls = calls[:0]
	var r *Resp
	if transport == 0 {
		o := yarql.ResolveOptions{Context: c}
		if has {
			o.Values = &v
		}
		r = run(s, ctxQuery, o)
	} else {
		o := &yarql.RequestOptions{Context: c}
		if has {
			o.Values = v
		}
		body, _ := json.Marshal(map[string]any{"query": ctxQuery})
		raw, errs := s.HandleRequest("POST", func(string) string { return "" }, func(string) (string, error) { return "", errors.New("no") },
			func() []byte { return body }, "application/json", o)
		r = decodeResp(raw, false)
		r.Ret = errs
		r.Log = append([]string{}, calls...)
	}
	exp, err := canonJSON([]byte(m.b.String()))
	must(err)
	if f := compare(&RefRes{Data: exp, Errs: m.errs, Log: m.log}, r); f != "" {
		return f, r.Raw
	}
	// The map of the caller is as it was or has the values that were set
	if now := fmt.Sprint(v); now != before && (v["k"] != m.k || v["x"] != m.x) {
		return "the values of the caller are " + now, r.Raw
	}
	return "", r.Raw
}

// the map with values of the last request and what was in it at its end
var ctxMap map[string]interface{}
var ctxMapIs string

func init() {
	gen := func(first, second int) func(c *Chooser, e *Env) *Case {
		return func(c *Chooser, e *Env) *Case {
			n := first
			if e.Thorough {
				n++
			}
			script := make([]int, 6)
			where := [][]int{{0, 2, 4}, {0, 1, 2, 3}, {5}}[second]
			for i := 0; i < n && i < len(where); i++ {
				script[where[i]] = c.Choose(len(ctxOps))
			}
			vals, ctx := c.Choose(4), c.Choose(5)
			transport := c.Choose(2)
			// the next request
			vals2, ctx2 := c.Choose(2), c.Choose(2)
			if e.Thorough {
				vals2, ctx2 = vals2+c.Choose(2)*2, ctx2+c.Choose(2)*2
			}
			return &Case{DescF: func() string {
				d := []string{}
				for _, o := range script {
					d = append(d, ctxOps[o])
				}
				return fmt.Sprintf("resolvers do %v, values %d, context %d, transport %d, then a request with values %d, context %d", d, vals, ctx, transport, vals2, ctx2)
			}, Run: func() Result {
				s := getCtxSchema()
				ctxScript = script
				f, out := ctxRequest(s, transport, vals, ctx, "A")
				if f != "" {
					return Result{Fail: "first request: " + f, Outcome: out, Steps: 1}
				}
				ctxScript = make([]int, 6)
				first, firstIs := ctxMap, ctxMapIs
				f, out2 := ctxRequest(s, transport, vals2, ctx2, "B")
				if f != "" {
					f = "second request: " + f
				} else if vals > 1 && fmt.Sprint(first) != firstIs {
					f = fmt.Sprintf("the values of the caller of the first request are %v after the second, they were %s", first, firstIs)
				}
				return Result{Fail: f, Outcome: out + out2, Steps: 2}
			}}
		}
	}
	register(&Property{
		ID: "E11",
		Bounds: map[string]string{
			"quick":    "every combination of 11 context operations (store, overwrite, nil, context replaced, removed, ended, cancelled from outside, error, path scribbled) in 3 resolvers (root, list items, directive of a field) and in a directive of a spread together with two more resolvers, x 4 kinds of initial values x 5 kinds of contexts x Resolve and HandleRequest, followed by a request with 2 x 2 initial states on the same schema",
			"thorough": "the same in 4 resolvers, 4 x 4 initial states of the second request",
		},
		Parts: []func(c *Chooser, e *Env) *Case{gen(3, 0), gen(3, 1), gen(1, 2)},
	})
}
