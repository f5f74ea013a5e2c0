package main

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// E07: every resolver error is reported once, with its message and path

// faults decides which of the resolver calls of a request fail, and how
type faultPlan struct {
	mask uint64
	kind int
	n    int // calls so far
}

var faultReal, faultModel faultPlan

type errStruct struct{ s string }

func (e errStruct) Error() string { return e.s }

var faultKinds = []func(n int) error{
	func(n int) error { return fmt.Errorf("failure %d", n) },
	func(n int) error { return errors.New("") },
	func(n int) error { return fmt.Errorf("a \"quoted\" \\ %d\n\t\x00é\u2028\U0001F600", n) },
	func(n int) error { return fmt.Errorf("wrapped: %w", io.EOF) },
	func(n int) error { return errStruct{"struct"} },
	func(n int) error { return &errStruct{"ptr"} },
	func(n int) error { return errors.New("bad utf8 \xff\xc3 end") },
	func(n int) error { return errors.New(strings.Repeat("long ", 2000)) },
	func(n int) error { return errors.Join(errors.New("one"), errors.New("two")) },
}

func (f *faultPlan) next() error {
	n := f.n
	f.n++
	if n < 64 && f.mask>>uint(n)&1 == 1 {
		return faultKinds[f.kind](n)
	}
	return nil
}

// EO is an object of which everything can fail
type EO struct {
	V    int
	Kids []EO
	Next *EO
	F    func() (int, error)
}

// ENode is an interface
type ENode interface {
	ResolveS() (string, error)
}

var _ = yarql.Implements((*ENode)(nil), EO{})

func elog(s string) error { calls = append(calls, "EO."+s); return faultReal.next() }

// ResolveS fails
func (e EO) ResolveS() (string, error) { return "s" + strconv.Itoa(e.V), elog("s") }

// ResolveE fails, the error comes first
func (e EO) ResolveE() (error, int) { err := elog("e"); return err, e.V }

// ResolveO fails
func (e EO) ResolveO() (EO, error) { return newEO(e.V+1, 1), elog("o") }

// ResolveOp fails without an object
func (e EO) ResolveOp() (*EO, error) {
	if err := elog("op"); err != nil {
		return nil, err
	}
	o := newEO(e.V+2, 1)
	return &o, nil
}

// ResolveL fails
func (e EO) ResolveL() ([]EO, error) {
	return []EO{newEO(e.V, 0), newEO(e.V+1, 0)}, elog("l")
}

// ResolveN fails without a list
func (e EO) ResolveN() ([]string, error) {
	if err := elog("n"); err != nil {
		return nil, err
	}
	return []string{"x"}, nil
}

// ResolveI fails
func (e EO) ResolveI() (ENode, error) {
	if err := elog("i"); err != nil {
		return nil, err
	}
	return newEO(e.V+3, 1), nil
}

// ResolveT fails
func (e EO) ResolveT() (time.Time, error) { return time.Unix(0, 0), elog("t") }

// ResolveId fails
func (e EO) ResolveId() (int, yarql.AttrIsID, error) { return e.V, 0, elog("id") }

// ResolveC fails
func (e EO) ResolveC(_ *yarql.Ctx, args struct{ X int }) (_ *string, err error) {
	err = elog("c")
	return nil, err
}

func newEO(v, depth int) EO {
	e := EO{V: v}
	if depth > 0 {
		k := newEO(v*2, depth-1)
		e.Next = &k
		e.Kids = []EO{newEO(v*3, depth-1), newEO(v*5, depth-1)}
		e.F = func() (int, error) { return v, elog("f") }
	}
	return e
}

var mEO = &MType{Name: "EO", Implements: []string{"ENode"}}

func modelEO(v, depth int) *MObj {
	o := &MObj{T: mEO, F: map[string]any{}}
	res := func(val any, onErr any) any {
		if err := faultModel.next(); err != nil {
			return ResolverErr{onErr, sanitize(err.Error())}
		}
		return val
	}
	m := func(name string, val, onErr func() any) {
		o.F[name] = func(c *Call) any { return res(val(), onErr()) }
	}
	same := func(name string, val func() any) { m(name, val, val) }
	null := func() any { return nil }
	o.F["v"] = lint(v)
	o.F["next"], o.F["kids"] = nil, nil
	o.F["f"] = func(c *Call) any { return nil }
	if depth > 0 {
		o.F["next"] = modelEO(v*2, depth-1)
		o.F["kids"] = []any{modelEO(v*3, depth-1), modelEO(v*5, depth-1)}
		o.F["f"] = func(c *Call) any {
			c.Ex.res.Log = append(c.Ex.res.Log, "EO.f")
			return res(lint(v), lint(v))
		}
	}
	same("s", func() any { return lstr("s" + strconv.Itoa(v)) })
	same("e", func() any { return lint(v) })
	same("o", func() any { return modelEO(v+1, 1) })
	m("op", func() any { return modelEO(v+2, 1) }, null)
	same("l", func() any { return []any{modelEO(v, 0), modelEO(v+1, 0)} })
	m("n", func() any { return []any{lstr("x")} }, null)
	m("i", func() any { return modelEO(v+3, 1) }, null)
	same("t", func() any { return lstr("1970-01-01T00:00:00.000Z") })
	same("id", func() any { return lstr(strconv.Itoa(v)) })
	same("c", null)
	return o
}

func init() {
	mEO.Fields = fields(mf("v"), mf("next"), mf("kids"), &MField{Name: "f", Method: true}, mm("s", nil), mm("e", nil), mm("o", nil), mm("op", nil), mm("l", nil), mm("n", nil), mm("i", nil), mm("t", nil), mm("id", nil), mm("c", nil))

	var errSchema *yarql.Schema
	errCase := func(d *Doc, plan faultPlan) *Case {
		return &Case{DescF: func() string {
			return fmt.Sprintf("%s failing calls %b kind %d", clip(d.String(), 1500), plan.mask, plan.kind)
		}, Run: func() Result {
			if errSchema == nil {
				errSchema = yarql.NewSchema()
				must(errSchema.Parse(newEO(1, 2), M2{}, nil))
			}
			faultReal, faultModel = plan, plan
			ref := refExec(RefReq{Doc: d, Query: modelEO(1, 2), Mutation: &MObj{T: mM1}, Directives: newScalarDirs()})
			r := run(errSchema, d.String(), optsNone)
			if ref.Dup {
				ref.DontCare = true
			}
			fail := compare(ref, r)
			if fail == "" && !ref.DontCare {
				// the returned errors carry the messages as they are
				for i, e := range r.Ret {
					if ref.Errs[i].Resolver && sanitize(e.Error()) != ref.Errs[i].Msg {
						fail = fmt.Sprintf("error %d is returned as %q, expected %q", i, e.Error(), ref.Errs[i].Msg)
					}
				}
			}
			return Result{Fail: fail, Outcome: r.Raw, Steps: 1, Skip: ref.DontCare}
		}}
	}
	subs := [][]Sel{
		{fld("s")},
		{fld("e").as("x"), fld("t")},
		{fld("o", fld("s"), fld("id")), fld("f")},
		{fld("op", fld("s"), fld("kids", fld("e"))), fld("c")},
		{fld("l", fld("s"), fld("v"), fld("op", fld("t"))), fld("n")},
		{fld("i", fld("s").as("y"), inline("EO", fld("e"))), fld("id")},
		{fld("kids", fld("kids", fld("s").as("deep")), fld("f")), fld("next", fld("l", fld("s")))},
	}
	docs := []*Doc{
		query(fld("s"), fld("e"), fld("t"), fld("id"), fld("c"), fld("n"), fld("f")),
		query(fld("kids", fld("kids", fld("s"), fld("f")), fld("e")), fld("s")),
		query(fld("l", fld("s").as("a"), fld("e").as("b")).as("first"), fld("l", fld("o", fld("s"))).as("second")),
		query(fld("i", inline("EO", fld("op", fld("s"), fld("l", fld("s")))), fld("s")), fld("op", fld("op", fld("op", fld("s"))))),
		{Defs: []any{&Op{Kind: "query", Sel: []Sel{spread("F"), fld("next", spread("F"), fld("next", spread("F")))}}, frag("F", "EO", fld("s"), fld("f"), fld("n"))}},
		query(fld("next", fld("next", fld("l", fld("o", fld("kids", fld("s")), fld("next", fld("e"))))))),
		query(fld("o", fld("s")), fld("s").dir(dirIf("skip", vBool(true))), fld("o", fld("s")).as("o2").dir(dirIf("include", vBool(true))), fld("l", fld("s").dir(dirIf("include", vBool(false))), fld("e")), fld("e")),
	}
	// number of calls per document without failures is what the reference counts
	countOf := map[*Doc]int{}
	count := func(d *Doc) int {
		if n, ok := countOf[d]; ok {
			return n
		}
		faultModel = faultPlan{}
		refExec(RefReq{Doc: d, Query: modelEO(1, 2), Directives: newScalarDirs()})
		countOf[d] = faultModel.n
		return faultModel.n
	}
	register(&Property{
		ID: "E07",
		Bounds: map[string]string{
			"quick":    "7 documents with 6..14 resolver calls (methods and func fields with the error first and last, objects, pointers, lists, interfaces, IDs, times) x every set of failing calls of up to 12 x 9 kinds of errors for sets of one or all; 7 x 7 x 7 combinations of nested selections x every pair of failing calls; aliases of 1..254 bytes and list indexes to 1100 in the path; failures in front of request errors",
			"thorough": "every set of up to 16 failing calls x 9 kinds of errors",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				d := docs[c.Choose(len(docs))]
				n := count(d)
				max := 12
				if e.Thorough {
					max = 16
				}
				if n > max {
					n = max
				}
				mask := uint64(c.Choose(1 << n))
				kind := 0
				if e.Thorough || mask&(mask-1) == 0 || mask == 1<<n-1 {
					kind = c.Choose(len(faultKinds))
				}
				return errCase(d, faultPlan{mask: mask, kind: kind})
			},
			func(c *Chooser, e *Env) *Case {
				a, b, x := subs[c.Choose(len(subs))], subs[c.Choose(len(subs))], subs[c.Choose(len(subs))]
				d := query(fld("kids", a...), fld("next", fld("l", b...), fld("f")), inline("EO", fld("i", x...)), fld("s"))
				i := c.Choose(25)
				j := c.Choose(25)
				if j < i {
					return nil
				}
				return errCase(d, faultPlan{mask: 1<<uint(i) | 1<<uint(j), kind: 2})
			},
			// long paths
			func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(254)
				a := strings.Repeat("k", n)
				d := query(fld("kids", fld("kids", fld("s").as(a), fld("e")).as(a)).as("b"), fld("s").as(a))
				return errCase(d, faultPlan{mask: 0x155 >> uint(c.Choose(3))})
			},
			// request errors after failures
			func(c *Chooser, e *Env) *Case {
				bad := []Sel{fld("nope"), fld("o"), fld("s", fld("v")), spread("Nope"), fld("s").args(Arg{"x", vInt("1")}), fld("v").dir(Dir{"nope", nil}), fld("kids", fld("nope")), fld("c").args(Arg{"x", vStr("1")})}[c.Choose(8)]
				a := subs[c.Choose(len(subs))]
				where := c.Choose(3)
				var d *Doc
				switch where {
				case 0:
					d = query(fld("s").as("k1"), fld("l", a...), bad.as2("bad"), fld("s").as("k2"))
				case 1:
					d = query(fld("s").as("k1"), fld("op", append(append([]Sel{}, a...), bad.as2("bad"))...), fld("s").as("k2"))
				case 2:
					d = query(fld("l", append(append([]Sel{}, a...), bad.as2("bad"))...), fld("s").as("k2"))
				}
				return errCase(d, faultPlan{mask: uint64(c.Choose(1 << 7))})
			},
			// list indexes
			func(c *Chooser, e *Env) *Case {
				ns := []int{1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1100}
				n := ns[c.Choose(len(ns))]
				k := []int{0, 1, n / 2, n - 1}[c.Choose(4)]
				nest := c.Bool()
				if k >= n {
					return nil
				}
				return &Case{Desc: fmt.Sprintf("item %d of %d fails (nested: %v)", k, n, nest), Run: func() Result { return wideErr(n, k, nest) }}
			},
		},
	})
}

// as2 is an alias on fields only
func (s Sel) as2(a string) Sel {
	if s.Kind == 'f' {
		s.Alias = a
	}
	return s
}

// WideItem fails at one index
type WideItem struct{ I int }

var wideFail int

// ResolveX fails at one index
func (w WideItem) ResolveX() (int, error) {
	if w.I == wideFail {
		return w.I, errors.New("here")
	}
	return w.I, nil
}

// WideQ is a query root
type WideQ struct {
	L  []WideItem
	LL [][]WideItem
}

func wideErr(n, k int, nest bool) Result {
	q := WideQ{}
	for i := 0; i < n; i++ {
		q.L = append(q.L, WideItem{i})
		q.LL = append(q.LL, []WideItem{{-1}, {i}})
	}
	s := yarql.NewSchema()
	must(s.Parse(q, M2{}, nil))
	wideFail = k
	text := "{l{x}}"
	want := fmt.Sprintf(`"l",%d,"x"`, k)
	if nest {
		text, want = "{LL{x}}", fmt.Sprintf(`"LL",%d,1,"x"`, k)
	}
	r := run(s, text, optsNone)
	res := Result{Outcome: r.Raw, Steps: 1}
	if r.Bad != "" {
		res.Fail = r.Bad
	} else if len(r.Errs) != 1 || r.Errs[0].Path != want || r.Errs[0].Message != "here" {
		res.Fail = fmt.Sprintf("expected one error at %s: %v", want, r.Errs)
	}
	return res
}
