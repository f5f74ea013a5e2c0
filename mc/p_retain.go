package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"mime/multipart"
	"reflect"
	"strings"

	"github.com/mjarkk/yarql"
)

// E14: values handed to resolvers stay unchanged after the request

type retainedValue struct {
	v    reflect.Value
	dump string
	from string
}

var retain bool
var retained []retainedValue

func retainValue(from string, v reflect.Value) {
	if retain {
		retained = append(retained, retainedValue{v, dump(v), from})
	}
}

func retainString(from, s string) string {
	retainValue(from, reflect.ValueOf(s))
	return s
}

// checkRetained compares everything that was kept with what it was
func checkRetained() string {
	for _, r := range retained {
		if d := dump(r.v); d != r.dump {
			return fmt.Sprintf("a value handed to %s changed after the request\n was %s\n  is %s", r.from, clip(r.dump, 500), clip(d, 500))
		}
	}
	return ""
}

func retainFile(key string) (*multipart.FileHeader, error) {
	retainString("GetFormFile", key)
	if strings.HasPrefix(key, "no") {
		return nil, errors.New(key)
	}
	return &multipart.FileHeader{Filename: key}, nil
}

// YQ is the query root
type YQ struct {
	In Q2
	L  []YO
}

// YO is an object
type YO struct{ N int }

// ResolvePath keeps the path
func (YO) ResolvePath(c *yarql.Ctx, args struct{ S string }) string {
	p := c.GetPath()
	retainValue("GetPath", reflect.ValueOf(struct{ P []byte }{p}))
	retainString("path", args.S)
	return string(p)
}

// ResolveValue keeps the text in the values of the request
func (YQ) ResolveValue(c *yarql.Ctx, args struct{ S string }) string {
	c.SetValue("s", args.S)
	return args.S
}

// ResolveFail fails
func (YQ) ResolveFail() (int, error) { return 0, errors.New("root failed") }

// ResolveFail fails
func (y YO) ResolveFail() (int, error) { return 0, fmt.Errorf("entry %d failed", y.N) }

// YM is the mutation root
type YM struct{}

func newRetainSchema() *yarql.Schema {
	s := yarql.NewSchema()
	must1(s.RegisterEnum(colorMap))
	must1(s.RegisterEnum(sizeMap))
	must1(s.RegisterEnum(levelMap))
	must(s.RegisterDirective(yarql.Directive{
		Name: "str", Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragmentInline},
		Method: func(args struct {
			S string
			L []string
		}) yarql.DirectiveModifier {
			retainValue("@str", reflect.ValueOf(args))
			return yarql.DirectiveModifier{}
		},
	}))
	must(s.Parse(YQ{In: dataQ2(), L: []YO{{1}, {2}}}, YM{}, nil))
	return s
}

// literal of the type, the texts in it depend on the variant
func variantLit(t *InT, variant, depth int) Val {
	text := strings.Repeat(string(rune('a'+variant)), 4+variant%2*200)
	switch {
	case t.K == "ptr":
		return variantLit(t.Elem, variant, depth)
	case t.K == "string" || t.K == "id:string" || t.K == "file":
		return vStr(text)
	case t.K == "list":
		return vList(variantLit(t.Elem, variant, depth), variantLit(t.Elem, variant, depth))
	case t.K == "obj":
		o := vObj()
		if depth < 3 {
			for _, f := range t.Fields {
				if f.Name != "" {
					o.O = append(o.O, Arg{f.Name, variantLit(f.T, variant, depth+1)})
				}
			}
		}
		return o
	case t.K == "bool":
		return vBool(variant%2 == 0)
	case t.K == "time":
		return vStr(fmt.Sprintf("20%02d-01-02T03:04:05.006Z", variant+10))
	case t.K == "enum":
		keys := []string{}
		for k := range t.Enum {
			keys = append(keys, k)
		}
		sortStrings(keys)
		return vEnum(keys[variant%len(keys)])
	case strings.HasPrefix(t.K, "id:"):
		return vStr(fmt.Sprint(variant + 1)) // numbers are refused in the json
	case strings.HasPrefix(t.K, "float"):
		return vFloat(fmt.Sprint(variant+1) + ".5")
	}
	return vInt(fmt.Sprint(variant + 1))
}

func litToJSON(v Val) any {
	switch v.K {
	case 's', 'e':
		return v.S
	case 'i', 'f':
		return json.Number(v.S)
	case 'b':
		return v.S == "true"
	case 'l':
		l := []any{}
		for _, x := range v.L {
			l = append(l, litToJSON(x))
		}
		return l
	case 'o':
		m := map[string]any{}
		for _, a := range v.O {
			m[a.Name] = litToJSON(a.Val)
		}
		return m
	}
	return nil
}

type retainReq struct {
	q, vars string
	desc    string
}

func retainReqs(entry inEntry, way, variant int) retainReq {
	v := variantLit(entry.t, variant, 0)
	lit := joinTokens(v.tokens(nil), " ")
	js, _ := json.Marshal(map[string]any{"v": litToJSON(v)})
	f := entry.name
	decl := declType(entry.t)
	args := "(a:$v b:$v)"
	if strings.Contains(decl, "__UnknownInput") {
		args = "(a:$v)" // each use of a struct without a name is a type of its own
	}
	r := retainReq{desc: fmt.Sprintf("%s way %d variant %d", f, way, variant)}
	text := strings.Repeat(string(rune('a'+variant)), 50)
	switch way {
	case 0:
		r.q = "{in{" + f + "(a:" + lit + ")}}"
	case 1:
		r.q = "query($v:" + decl + "){in{" + f + args + "}}"
		r.vars = string(js)
	case 2:
		r.q = "query($v:" + decl + "=" + lit + "){in{" + f + "(a:$v)}}"
	case 3: // with more texts around it
		r.q = "query($v:" + decl + `){in{str(a:"` + text + `"b:"""` + text + `""")` + f + `(a:$v)@str(s:"` + text + `"l:["` + text + `"])} l{path(s:"` + text + `")}value(s:"` + text + `")}`
		r.vars = string(js)
	}
	return r
}

// reuseBuffer uses a buffer of the caller for something else, nobody may write to it
func reuseBuffer(b []byte) {
	for i := range b {
		b[i] = 'Z'
	}
	retainValue("the parser", reflect.ValueOf(b))
}

func (r retainReq) do(s *yarql.Schema, transport int) string {
	calls = calls[:0]
	vals := map[string]interface{}{}
	var errs []error
	switch transport {
	case 0:
		q := []byte(r.q)
		errs = s.Resolve(q, yarql.ResolveOptions{Variables: r.vars, GetFormFile: retainFile, Values: &vals})
		if string(q) != r.q {
			return fmt.Sprintf("the query of the caller was changed into %q", clip(string(q), 300))
		}
		reuseBuffer(q)
	case 1, 2:
		body := map[string]any{"query": r.q}
		if r.vars != "" {
			body["variables"] = json.RawMessage(r.vars)
		}
		b, _ := json.Marshal(body)
		if transport == 2 {
			b = []byte("[" + string(b) + "," + string(b) + "]")
		}
		was := string(b)
		_, errs = s.HandleRequest("POST", func(string) string { return "" }, func(string) (string, error) { return "", nil },
			func() []byte { return b }, "application/json", &yarql.RequestOptions{GetFormFile: retainFile, Values: vals})
		if string(b) != was {
			return fmt.Sprintf("the body of the caller was changed into %q", clip(string(b), 300))
		}
		reuseBuffer(b)
	}
	if x, ok := vals["s"].(string); ok {
		retainString("Values", x)
	}
	if len(errs) > 0 {
		return fmt.Sprintf("unexpected error %v for %s %s", errs[0], r.q, r.vars)
	}
	return ""
}

// retainErrs are requests with zero or more errors
var retainErrs = []retainReq{
	{q: `{in{str(a:"x")}}`}, {q: `{a b c}`}, {q: `{fail}`}, {q: `{l{fail}}`}, {q: `{l{fail f2:fail} fail}`}, {q: `{in{nope}}`}, {q: `{`}, {q: `{a(}`}, {q: ``},
	{q: `{in{str(a:1)}}`}, {q: `query($v:String){in{str(a:$v)}}`, vars: `{`}, {q: `query($v:String){in{str(a:$v)}}`}, {q: `query($v:String){in{str(a:$v)}}`, vars: `{"v":1}`}, {q: `{l{n @nope}}`}, {q: `{...X}`}, {q: `subscription{a}`},
	{q: `{l{fail}}` + strings.Repeat(" ", 400)}, {q: `{in{str(a:"` + strings.Repeat("x", 400) + `}}`},
}

// doErrs runs a request and returns the errors and the response of a batch
func (r retainReq) doErrs(s *yarql.Schema, transport int) ([]error, []byte) {
	switch transport {
	case 0:
		return s.Resolve([]byte(r.q), yarql.ResolveOptions{Variables: r.vars}), nil
	case 1:
		_, errs := s.HandleRequest("GET", func(k string) string {
			return map[string]string{"query": r.q, "variables": r.vars}[k]
		}, func(string) (string, error) { return "", nil }, func() []byte { return nil }, "", nil)
		return errs, nil
	}
	body := map[string]any{"query": r.q}
	if json.Valid([]byte(r.vars)) {
		body["variables"] = json.RawMessage(r.vars)
	}
	b, _ := json.Marshal([]any{body, body})
	res, errs := s.HandleRequest("POST", func(string) string { return "" }, func(string) (string, error) { return "", nil }, func() []byte { return b }, "application/json", nil)
	return errs, res
}

// retainErrors checks that the errors of a request stay what they are
func retainErrors(get func(i int) *yarql.Schema) func(c *Chooser, e *Env) *Case {
	return func(c *Chooser, e *Env) *Case {
		n := 2
		if e.Thorough {
			n = 3
		}
		l, tr := []retainReq{}, []int{}
		for i := 0; i < n; i++ {
			l = append(l, retainErrs[c.Choose(len(retainErrs))])
			tr = append(tr, c.Choose(3))
		}
		cached := c.Choose(2)
		return &Case{DescF: func() string {
			d := []string{}
			for i, r := range l {
				d = append(d, fmt.Sprintf("%d %s %s", tr[i], clip(r.q, 60), r.vars))
			}
			return "errors of " + strings.Join(d, " > ")
		}, Run: func() Result {
			type kept struct {
				errs []error
				was  []error
				msgs []string
				res  []byte
				text string
			}
			all := []kept{}
			res := Result{}
			for i, r := range l {
				errs, b := r.doErrs(get(cached), tr[i])
				k := kept{errs, append([]error{}, errs...), nil, b, string(b)}
				for _, err := range errs {
					k.msgs = append(k.msgs, err.Error())
				}
				res.Outcome += fmt.Sprint(len(errs), " ")
				all = append(all, k)
				for j, k := range all {
					for x, err := range k.errs {
						if err == nil || err.Error() != k.msgs[x] || reflect.TypeOf(err) != reflect.TypeOf(k.was[x]) {
							res.Fail = fmt.Sprintf("after request %d error %d of request %d is %v, it was %s", i+1, x, j+1, err, k.msgs[x])
							return res
						}
					}
					if string(k.res) != k.text {
						res.Fail = fmt.Sprintf("after request %d the response of batch %d is %s, it was %s", i+1, j+1, k.res, k.text)
						return res
					}
				}
				res.Steps++
			}
			return res
		}}
	}
}

func init() {
	var schemas [2]*yarql.Schema
	get := func(i int) *yarql.Schema {
		if schemas[i] == nil {
			schemas[i] = newRetainSchema()
			if i == 1 {
				z := 0
				schemas[i].SetCacheRules(&z)
			}
		}
		return schemas[i]
	}
	clobber := func() []retainReq {
		return []retainReq{
			{q: "{in{str(a:\"" + strings.Repeat("q", 3000) + "\")}}", desc: "long literal"},
			{q: "query($v:[String]){in{lpStr(a:$v)}}", vars: `{"v":["` + strings.Repeat("r", 500) + `","` + strings.Repeat(`s","`, 200) + `"]}`, desc: "long variables"},
			{q: "{" + strings.Repeat("in{str(a:\"xy\")}", 20) + "}", desc: "many literals"},
			{q: "{l{n " + strings.Repeat("path ", 30) + "}}", desc: "many paths"},
		}
	}()
	cache := map[string]retainReq{}
	req := func(ei, way, variant int) retainReq {
		k := fmt.Sprint(ei, " ", way, " ", variant)
		if r, ok := cache[k]; ok {
			return r
		}
		r := retainReqs(inEntries[ei], way, variant)
		cache[k] = r
		return r
	}
	register(&Property{
		ID: "E14",
		Bounds: map[string]string{
			"quick":    "every one of 44 argument types x literal, variable, default and mixed sources, received by a resolver and kept, followed by a quarter of (thorough: all) these requests with other texts and by 5 kinds of a third request (long and short texts, batches), x Resolve, JSON and batch x cached or not; kept: arguments, directive arguments, paths, file keys, request values, and the buffers of the query and the body, which nobody may write to; every sequence of 2 (thorough: 3) out of 18 requests with 0 to 5 errors x 3 transports, the errors and the responses of batches that the caller kept",
			"thorough": "every combination of transports of the three requests",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				e1, w1 := c.Choose(len(inEntries)), c.Choose(4)
				e2, w2 := 0, c.Choose(4)
				if e.Thorough {
					e2 = c.Choose(len(inEntries))
				} else {
					e2 = (e1 + 4*c.Choose(11)) % len(inEntries) // a different quarter of them for each first one
				}
				third := c.Choose(len(clobber) + 1)
				cached := c.Choose(2)
				t1 := c.Choose(3)
				t2, t3 := t1, 0
				if e.Thorough {
					t2, t3 = c.Choose(3), c.Choose(3)
				}
				return &Case{DescF: func() string {
					return fmt.Sprintf("%s > %s > %d, cached %d transport %d", req(e1, w1, 0).desc, req(e2, w2, 1).desc, third, cached, t1)
				}, Run: func() Result {
					s := get(cached)
					retain, retained = true, retained[:0]
					defer func() { retain = false }()
					l := []retainReq{req(e1, w1, 0), req(e2, w2, 2), req(e1, w1, 1)}
					if third > 0 {
						l[2] = clobber[third-1]
					}
					res := Result{}
					for i, r := range l {
						tr := []int{t1, t2, t3}[i]
						if f := r.do(s, tr); f != "" {
							res.Fail = f
							return res
						}
						res.Steps++
						if f := checkRetained(); f != "" {
							res.Fail = fmt.Sprintf("after request %d: %s", i+1, f)
							return res
						}
					}
					res.Outcome = fmt.Sprint(len(retained), retained[0].dump)
					if retained[0].from != "Q2."+inEntries[e1].name && w1 != 3 && inEntries[e1].t.K != "file" {
						if !strings.HasPrefix(retained[0].from, "GetFormFile") {
							res.Fail = "the resolver did not run: " + retained[0].from
						}
					}
					return res
				}}
			},
			retainErrors(get),
		},
	})
}
