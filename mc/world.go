package main

// The schema most of the execution properties are checked on, and its model.

import (
	"errors"
	"fmt"
	"mime/multipart"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/mjarkk/yarql"
)

// calls is the log of the resolvers that ran
var calls []string

// Color is an enum
type Color uint8

// Size is a string enum
type Size string

// Level is a signed int enum
type Level int16

var colorMap = map[string]Color{"RED": 1, "GREEN": 2, "BLUE": 200}
var sizeMap = map[string]Size{"SMALL": "s", "LARGE": "l l"}
var levelMap = map[string]Level{"LOW": -300, "MID": 0, "HIGH": 300}

// Node is an interface
type Node interface {
	ResolveLabel() string
	ResolveRank(args struct{ Plus int }) int
}

// Other is a second interface, only implemented by N2
type Other interface {
	ResolveLabel() string
}

// N1 implements Node
type N1 struct {
	Own string
	Sub *A1
}

// ResolveLabel is part of Node
func (n N1) ResolveLabel() string { calls = append(calls, "N1.label"); return "n1-" + n.Own }

// ResolveRank is part of Node
func (n N1) ResolveRank(args struct{ Plus int }) int {
	calls = append(calls, "N1.rank plus="+strconv.Itoa(args.Plus))
	return 1 + args.Plus
}

// N2 implements Node and Other
type N2 struct {
	Extra int
	Nodes []Node
}

// ResolveLabel is part of Node
func (n N2) ResolveLabel() string {
	calls = append(calls, "N2.label")
	return fmt.Sprintf("n2-%d", n.Extra)
}

// ResolveRank is part of Node
func (n N2) ResolveRank(args struct{ Plus int }) int {
	calls = append(calls, "N2.rank plus="+strconv.Itoa(args.Plus))
	return n.Extra + args.Plus
}

var _ = yarql.Implements((*Node)(nil), N1{})
var _ = yarql.Implements((*Node)(nil), N2{})
var _ = yarql.Implements((*Other)(nil), N2{})

// A1 is the object type
type A1 struct {
	Name   string
	N      int
	Opt    *string
	Child  *A1
	Kids   []A1
	Hidden string `gq:"-"`
	Fn     func() string
}

// ResolveUp has an argument
func (a A1) ResolveUp(args struct{ X int }) string {
	calls = append(calls, "A1.up x="+strconv.Itoa(args.X))
	return a.Name + "+" + strconv.Itoa(args.X)
}

// ResolveBad returns an error next to its value
func (a A1) ResolveBad() (string, error) {
	calls = append(calls, "A1.bad")
	if a.N%2 == 1 {
		return "bad", errors.New("bad " + a.Name)
	}
	return "good", nil
}

// Q1 is the query root
type Q1 struct {
	Str     string
	Num     int
	Flag    bool
	Fl      float64
	When    time.Time
	Key     string `gq:"key,ID"`
	NumID   int    `gq:"num_id,id"`
	Color   Color
	Size    Size
	Level   Level
	NoColor Color
	Obj     A1
	Ptr     *A1
	Nil     *A1
	NilStr  *string
	Pstr    *string
	List    []A1
	Empty   []A1
	NilList []A1
	PList   []*A1 `gq:"plist"`
	LL      [][]A1
	Ints    []int
	Face    Node
	NilFace Node
	Faces   []Node
	FnStr   func() string
	FnNil   func() string
	FnObj   func(args struct{ Name string }) A1
}

// ResolveMobj returns an object
func (Q1) ResolveMobj() A1 { calls = append(calls, "Q1.mobj"); return dataA("m", 1) }

// ResolveMlist returns a list of pointers
func (Q1) ResolveMlist() []*A1 {
	calls = append(calls, "Q1.mlist")
	x := dataA("l0", 0)
	return []*A1{&x, nil}
}

// ResolveNum2 returns its argument
func (Q1) ResolveNum2(args struct{ A, B int }) int {
	calls = append(calls, fmt.Sprintf("Q1.num2 a=%d b=%d", args.A, args.B))
	return args.A*10 + args.B
}

// ResolveErr always returns an error
func (Q1) ResolveErr() (string, error) {
	calls = append(calls, "Q1.err")
	return "value", errors.New(`err "quoted"` + "\n\u2028")
}

// ResolveErrObj always returns an error next to an object
func (Q1) ResolveErrObj() (*A1, error) {
	calls = append(calls, "Q1.errObj")
	x := dataA("e", 1)
	return &x, errors.New("errObj")
}

// ResolveErrNil always returns an error and no object
func (Q1) ResolveErrNil() (*A1, error) {
	calls = append(calls, "Q1.errNil")
	return nil, errors.New("errNil")
}

// ResolveFace2 returns an interface
func (Q1) ResolveFace2(args struct{ One bool }) Node {
	calls = append(calls, "Q1.face2 one="+strconv.FormatBool(args.One))
	if args.One {
		return N1{Own: "x"}
	}
	return N2{Extra: 7}
}

// ResolveSelf returns the query type again
func (q Q1) ResolveSelf() Q1 { calls = append(calls, "Q1.self"); return q }

// M1 is the mutation root
type M1 struct{}

// ResolveSetA is a mutation
func (M1) ResolveSetA(args struct{ V int }) int {
	calls = append(calls, "M1.setA v="+strconv.Itoa(args.V))
	return args.V
}

// ResolveSetB is a mutation
func (M1) ResolveSetB(args struct{ V string }) A1 {
	calls = append(calls, "M1.setB v="+strconv.Quote(args.V))
	return dataA(args.V, 0)
}

// ResolveFail is a failing mutation
func (M1) ResolveFail() (int, error) { calls = append(calls, "M1.fail"); return 0, errors.New("fail") }

func sp(s string) *string { return &s }

func dataA(name string, n int) A1 { return A1{Name: name, N: n} }

func dataQ() Q1 {
	leaf := A1{Name: "leaf", N: 5, Opt: sp("opt")}
	mid := A1{Name: "mid", N: 2, Child: &leaf, Kids: []A1{{Name: "k1", N: 1}, {Name: "k2", N: 4, Opt: sp("")}}}
	top := A1{Name: "top \"q\"", N: -3, Child: &mid, Kids: []A1{mid}, Fn: func() string { calls = append(calls, "A1.fn"); return "fn" }}
	return Q1{
		Str: "s", Num: 12, Flag: true, Fl: 1.5,
		When: time.Date(2021, 3, 4, 5, 6, 7, 89000000, time.UTC),
		Key:  "k", NumID: 99, Color: 2, Size: "l l", Level: -300, NoColor: 77,
		Obj: top, Ptr: &mid, Pstr: sp("p"),
		List: []A1{leaf, mid}, Empty: []A1{}, PList: []*A1{nil, &leaf, nil},
		LL: [][]A1{{leaf}, {}, nil, {leaf, mid}}, Ints: []int{1, -2, 3},
		Face:  N1{Own: "f", Sub: &leaf},
		Faces: []Node{N1{Own: "a"}, nil, N2{Extra: 3, Nodes: []Node{N1{Own: "in"}}}},
		FnStr: func() string { calls = append(calls, "Q1.fnStr"); return "called" },
		FnObj: func(args struct{ Name string }) A1 {
			calls = append(calls, "Q1.fnObj name="+strconv.Quote(args.Name))
			return dataA(args.Name, 1)
		},
	}
}

//
// model
//

var tInt = &InT{K: "int"}
var tStr = &InT{K: "string"}
var tBool = &InT{K: "bool"}

var (
	mA1 = &MType{Name: "A1"}
	mN1 = &MType{Name: "N1", Implements: []string{"Node"}}
	mN2 = &MType{Name: "N2", Implements: []string{"Node", "Other"}}
	mQ1 = &MType{Name: "Q1"}
	mM1 = &MType{Name: "M1"}
)

func mf(name string) *MField { return &MField{Name: name} }
func mm(name string, args map[string]*InT) *MField {
	return &MField{Name: name, Method: true, Args: args, Log: true}
}

func fields(fs ...*MField) map[string]*MField {
	res := map[string]*MField{}
	for _, f := range fs {
		res[f.Name] = f
	}
	return res
}

func init() {
	mA1.Fields = fields(mf("name"), mf("n"), mf("opt"), mf("child"), mf("kids"),
		&MField{Name: "fn", Method: true}, mm("up", map[string]*InT{"x": tInt}), mm("bad", nil))
	mN1.Fields = fields(mf("own"), mf("sub"), mm("label", nil), mm("rank", map[string]*InT{"plus": tInt}))
	mN2.Fields = fields(mf("extra"), mf("nodes"), mm("label", nil), mm("rank", map[string]*InT{"plus": tInt}))
	mQ1.Fields = fields(mf("str"), mf("num"), mf("flag"), mf("fl"), mf("when"), mf("key"), mf("num_id"),
		mf("color"), mf("size"), mf("level"), mf("noColor"), mf("obj"), mf("ptr"), mf("nil"), mf("nilStr"), mf("pstr"),
		mf("list"), mf("empty"), mf("nilList"), mf("plist"), mf("LL"), mf("ints"), mf("face"), mf("nilFace"), mf("faces"),
		mm("fnStr", nil), &MField{Name: "fnNil", Method: true}, mm("fnObj", map[string]*InT{"name": tStr}),
		mm("mobj", nil), mm("mlist", nil), mm("num2", map[string]*InT{"a": tInt, "b": tInt}),
		mm("err", nil), mm("errObj", nil), mm("errNil", nil), mm("face2", map[string]*InT{"one": tBool}), mm("self", nil))
	mM1.Fields = fields(mm("setA", map[string]*InT{"v": tInt}), mm("setB", map[string]*InT{"v": tStr}), mm("fail", nil))
}

func lstr(s string) Leaf { return Leaf(strconv.Quote(s)) }
func lint(i int) Leaf    { return Leaf(strconv.Itoa(i)) }
func lopt(s *string) any {
	if s == nil {
		return nil
	}
	return lstr(*s)
}

func atoi(s string) int   { n, _ := strconv.Atoi(s); return n }
func unq(s string) string { r, _ := strconv.Unquote(s); return r }

func modelA(a *A1) any {
	if a == nil {
		return nil
	}
	o := &MObj{T: mA1, F: map[string]any{}}
	o.F["name"] = lstr(a.Name)
	o.F["n"] = lint(a.N)
	o.F["opt"] = lopt(a.Opt)
	o.F["child"] = modelA(a.Child)
	o.F["kids"] = modelAs(a.Kids)
	o.F["fn"] = func(c *Call) any {
		if a.Fn == nil {
			return nil
		}
		c.Ex.res.Log = append(c.Ex.res.Log, "A1.fn")
		return lstr("fn")
	}
	o.F["up"] = func(c *Call) any { return lstr(a.Name + "+" + c.Args["x"]) }
	o.F["bad"] = func(c *Call) any {
		if a.N%2 == 1 {
			return ResolverErr{Value: lstr("bad"), Msg: "bad " + a.Name}
		}
		return lstr("good")
	}
	return o
}

func modelAs(l []A1) any {
	if l == nil {
		return nil
	}
	res := []any{}
	for i := range l {
		res = append(res, modelA(&l[i]))
	}
	return res
}

func modelNode(n Node) any {
	switch v := n.(type) {
	case N1:
		o := &MObj{T: mN1, F: map[string]any{}}
		o.F["own"] = lstr(v.Own)
		o.F["sub"] = modelA(v.Sub)
		o.F["label"] = func(c *Call) any { return lstr("n1-" + v.Own) }
		o.F["rank"] = func(c *Call) any { return lint(1 + atoi(c.Args["plus"])) }
		return o
	case N2:
		o := &MObj{T: mN2, F: map[string]any{}}
		o.F["extra"] = lint(v.Extra)
		o.F["nodes"] = modelNodes(v.Nodes)
		o.F["label"] = func(c *Call) any { return lstr(fmt.Sprintf("n2-%d", v.Extra)) }
		o.F["rank"] = func(c *Call) any { return lint(v.Extra + atoi(c.Args["plus"])) }
		return o
	}
	return nil
}

func modelNodes(l []Node) any {
	if l == nil {
		return nil
	}
	res := []any{}
	for _, n := range l {
		res = append(res, modelNode(n))
	}
	return res
}

func modelQ() *MObj {
	q := dataQ()
	o := &MObj{T: mQ1, F: map[string]any{}}
	o.F["str"] = lstr(q.Str)
	o.F["num"] = lint(q.Num)
	o.F["flag"] = Leaf("true")
	o.F["fl"] = Leaf("1.5")
	o.F["when"] = lstr("2021-03-04T05:06:07.089Z")
	o.F["key"] = lstr("k")
	o.F["num_id"] = lstr("99")
	o.F["color"] = lstr("GREEN")
	o.F["size"] = lstr("LARGE")
	o.F["level"] = lstr("LOW")
	o.F["noColor"] = nil
	o.F["obj"] = modelA(&q.Obj)
	o.F["ptr"] = modelA(q.Ptr)
	o.F["nil"] = nil
	o.F["nilStr"] = nil
	o.F["pstr"] = lstr("p")
	o.F["list"] = modelAs(q.List)
	o.F["empty"] = []any{}
	o.F["nilList"] = nil
	pl := []any{}
	for _, p := range q.PList {
		pl = append(pl, modelA(p))
	}
	o.F["plist"] = pl
	ll := []any{}
	for _, l := range q.LL {
		ll = append(ll, modelAs(l))
	}
	o.F["LL"] = ll
	o.F["ints"] = []any{lint(1), lint(-2), lint(3)}
	o.F["face"] = modelNode(q.Face)
	o.F["nilFace"] = nil
	o.F["faces"] = modelNodes(q.Faces)
	o.F["fnStr"] = func(c *Call) any { return lstr("called") }
	o.F["fnNil"] = func(c *Call) any { return nil }
	o.F["fnObj"] = func(c *Call) any { x := dataA(unq(c.Args["name"]), 1); return modelA(&x) }
	o.F["mobj"] = func(c *Call) any { x := dataA("m", 1); return modelA(&x) }
	o.F["mlist"] = func(c *Call) any { x := dataA("l0", 0); return []any{modelA(&x), nil} }
	o.F["num2"] = func(c *Call) any { return lint(atoi(c.Args["a"])*10 + atoi(c.Args["b"])) }
	o.F["err"] = func(c *Call) any { return ResolverErr{lstr("value"), `err "quoted"` + "\n\u2028"} }
	o.F["errObj"] = func(c *Call) any { x := dataA("e", 1); return ResolverErr{modelA(&x), "errObj"} }
	o.F["errNil"] = func(c *Call) any { return ResolverErr{nil, "errNil"} }
	o.F["face2"] = func(c *Call) any {
		if c.Args["one"] == "true" {
			return modelNode(N1{Own: "x"})
		}
		return modelNode(N2{Extra: 7})
	}
	o.F["self"] = func(c *Call) any { return o }
	return o
}

func modelM() *MObj {
	o := &MObj{T: mM1, F: map[string]any{}}
	o.F["setA"] = func(c *Call) any { return Leaf(c.Args["v"]) }
	o.F["setB"] = func(c *Call) any { x := dataA(unq(c.Args["v"]), 0); return modelA(&x) }
	o.F["fail"] = func(c *Call) any { return ResolverErr{lint(0), "fail"} }
	return o
}

var worldQ, worldM *MObj
var worldSchema *yarql.Schema

func newWorldSchema() *yarql.Schema {
	s := yarql.NewSchema()
	must1(s.RegisterEnum(colorMap))
	must1(s.RegisterEnum(sizeMap))
	must1(s.RegisterEnum(levelMap))
	for _, d := range worldDirectives() {
		must(s.RegisterDirective(d))
	}
	must(s.Parse(dataQ(), M1{}, nil))
	return s
}

// worldDirectives are custom directives
func worldDirectives() []yarql.Directive {
	all := []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}
	return []yarql.Directive{
		{
			Name: "hideAbove", Where: all, Description: "hides if n > max",
			Method: func(args struct {
				N   int
				Max int
			}) yarql.DirectiveModifier {
				return yarql.DirectiveModifier{Skip: args.N > args.Max}
			},
		},
		{
			Name: "plain", Where: all,
			Method: func() yarql.DirectiveModifier { return yarql.DirectiveModifier{} },
		},
		{
			Name: "fieldOnly", Where: all[:1],
			Method: func() yarql.DirectiveModifier { return yarql.DirectiveModifier{Skip: true} },
		},
		// the same name with another behaviour per place
		{Name: "mix", Where: all[:1], Method: func() yarql.DirectiveModifier { return yarql.DirectiveModifier{Skip: true} }},
		{Name: "mix", Where: all[1:], Method: func() yarql.DirectiveModifier { return yarql.DirectiveModifier{} }},
		{Name: "mix2", Where: all[1:2], Method: func() yarql.DirectiveModifier { return yarql.DirectiveModifier{Skip: true} }},
	}
}

func world() *yarql.Schema {
	if worldSchema == nil {
		worldSchema = newWorldSchema()
		worldQ = modelQ()
		worldM = modelM()
	}
	return worldSchema
}

func must(err error) {
	if err != nil {
		panic("harness setup: " + err.Error())
	}
}

func must1(_ bool, err error) { must(err) }

// dump writes a bound go value in the notation of the reference
func dump(v reflect.Value) string {
	if !v.CanInterface() && v.CanAddr() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	} else if !v.CanInterface() { // part of a value that was passed
		c := reflect.New(v.Type()).Elem()
		if v.IsZero() {
			v = c
		} else {
			return "unexported value"
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if f, ok := v.Interface().(*multipart.FileHeader); ok {
			return "file(" + f.Filename + ")"
		}
		return "&" + dump(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		parts := []string{}
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, dump(v.Index(i)))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			return t.UTC().Format(time.RFC3339Nano)
		}
		parts := []string{}
		for i := 0; i < v.NumField(); i++ {
			parts = append(parts, v.Type().Field(i).Name+":"+dump(v.Field(i)))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return dumpFloat(v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	}
	if v.IsZero() {
		return "nil"
	}
	return "?" + v.Kind().String()
}
