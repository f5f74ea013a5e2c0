package main

// A schema that has everything, and requests of every kind, used for the
// properties about histories of requests.

import (
	"encoding/json"
	"errors"
	"fmt"
	"mime/multipart"
	"reflect"
	"strings"

	"github.com/mjarkk/yarql"
)

// XQ is the query root
type XQ struct {
	W   Q1
	In  Q2
	Ctx CQ
	E   EO
}

// ResolvePanic panics
func (XQ) ResolvePanic() int { calls = append(calls, "XQ.panic"); panic("resolver panic") }

// ResolveCount returns a list of objects
func (XQ) ResolveCount(args struct{ N int }) []A1 {
	calls = append(calls, fmt.Sprint("XQ.count n=", args.N))
	res := make([]A1, args.N)
	for i := range res {
		res[i] = dataA(fmt.Sprint("c", i), i)
	}
	return res
}

// nestHook is what the nest resolver and directive do
var nestHook func()

func runNest() {
	if nestHook == nil {
		return
	}
	c, sc, ca, fr := calls, ctxScript, ctxCancel, faultReal
	calls = nil
	nestHook()
	calls, ctxScript, ctxCancel, faultReal = c, sc, ca, fr
}

// ResolveNest runs something else in between
func (XQ) ResolveNest(args struct{ S string }) string {
	calls = append(calls, "XQ.nest "+args.S)
	runNest()
	calls = append(calls, "XQ.nest end "+args.S)
	return args.S
}

// ResolveNestL runs something else in between
func (XQ) ResolveNestL(c *yarql.Ctx, args struct{ L []string }) ([]NO, error) {
	calls = append(calls, "XQ.nestL "+strings.Join(args.L, ","))
	p := string(c.GetPath())
	runNest()
	return []NO{{N: len(args.L)}, {N: 7}}, errors.New("nestL at " + p + string(c.GetPath()))
}

// NO is an object
type NO struct{ N int }

// ResolveNest runs something else in between
func (o NO) ResolveNest(c *yarql.Ctx, args struct{ O In1 }) (*NO, error) {
	c.SetValue("nest", o.N)
	calls = append(calls, fmt.Sprint("NO.nest ", o.N, dump(reflect.ValueOf(args.O))))
	runNest()
	calls = append(calls, fmt.Sprint("NO.nest end ", o.N, dump(reflect.ValueOf(args.O)), c.GetValue("nest")))
	return &NO{N: o.N + 1}, errors.New(string(c.GetPath()))
}

// XM is the mutation root
type XM struct{}

// ResolveSet is a mutation
func (XM) ResolveSet(args struct{ V string }) A1 {
	calls = append(calls, "XM.set v="+args.V)
	return dataA(args.V, 0)
}

// ResolveBad is a mutation that fails
func (XM) ResolveBad() (*A1, error) {
	calls = append(calls, "XM.bad")
	return nil, errors.New("mutation")
}

func newWorld3Schema() *yarql.Schema {
	s := yarql.NewSchema()
	must1(s.RegisterEnum(colorMap))
	must1(s.RegisterEnum(sizeMap))
	must1(s.RegisterEnum(levelMap))
	for _, d := range worldDirectives()[:3] {
		must(s.RegisterDirective(d))
	}
	must(s.RegisterDirective(yarql.Directive{
		Name: "str", Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField},
		Method: func(args struct{ S string }) yarql.DirectiveModifier {
			echoLog("@str", reflect.ValueOf(argsT[string]{args.S, ""}))
			return yarql.DirectiveModifier{Skip: args.S == "skip"}
		},
	}))
	must(s.RegisterDirective(yarql.Directive{
		Name: "nest", Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline},
		Method: func(args struct{ S string }) yarql.DirectiveModifier {
			runNest()
			calls = append(calls, "@nest "+args.S)
			return yarql.DirectiveModifier{Skip: args.S == "skip"}
		},
	}))
	q := XQ{W: dataQ(), In: dataQ2(), Ctx: CQ{N: 1, O: CO{N: 2, L: []CO{{N: 3}, {N: 4}}}}, E: newEO(1, 2)}
	must(s.Parse(q, XM{}, nil))
	s.MaxDepth = 12
	return s
}

// reqKind is a kind of request
type reqKind struct {
	name string
	q    string
	opts yarql.ResolveOptions
	// via the http interface
	http bool
	ct   string
	body string
	// state the resolvers use
	script []int
	fault  uint64
	panics bool
}

// The buffers of the callers of requests, nothing may be written to them
var (
	holding bool
	held    [][]byte
	heldWas []string
)

const heldSlack = "behind the query there is other data of the caller"

func holdBuf(q string) []byte {
	if !holding {
		return []byte(q)
	}
	b := append(append(make([]byte, 0, len(q)+len(heldSlack)), q...), heldSlack...)
	held = append(held, b)
	heldWas = append(heldWas, q)
	return b[:len(q)]
}

func holdStart() { holding, held, heldWas = true, held[:0], heldWas[:0] }

// holdEnd tells if one of the buffers changed
func holdEnd() string {
	holding = false
	for i, b := range held {
		if string(b) != heldWas[i]+heldSlack {
			return fmt.Sprintf("the buffer with the query of request %d was overwritten: %s", i+1, clip(string(b), 300))
		}
	}
	return ""
}

// do runs the request and describes everything that can be observed of it
func (k *reqKind) do(s *yarql.Schema) (out string) {
	calls = calls[:0]
	if k.script != nil {
		ctxScript = k.script
	} else {
		ctxScript = make([]int, 6)
	}
	ctxCancel = nil
	faultReal = faultPlan{mask: k.fault}
	defer func() {
		if k.panics {
			if r := recover(); r != nil {
				out = fmt.Sprint("panic ", r, " log ", strings.Join(calls, ";"))
			}
		}
	}()
	if k.http {
		raw, errs := s.HandleRequest("POST", func(key string) string { return "" },
			func(key string) (string, error) {
				if key == "operations" {
					return k.body, nil
				}
				return "", errors.New("no field " + key)
			},
			func() []byte { return []byte(k.body) }, k.ct, &yarql.RequestOptions{GetFormFile: formFile})
		return fmt.Sprintf("%s errs %v log %s", raw, errStrings(errs), strings.Join(calls, ";"))
	}
	opts := k.opts
	if opts.Values != nil {
		v := map[string]interface{}{}
		for key, val := range *k.opts.Values {
			v[key] = val
		}
		opts.Values = &v
	}
	errs := s.Resolve(holdBuf(k.q), opts)
	raw := string(s.Result)
	if opts.Tracing && !opts.NoMeta {
		raw = stripTracing(s.Result)
	}
	return fmt.Sprintf("%s errs %v log %s", raw, errStrings(errs), strings.Join(calls, ";"))
}

func errStrings(errs []error) []string {
	res := []string{}
	for _, e := range errs {
		res = append(res, e.Error())
	}
	return res
}

// stripTracing removes the times of a trace
func stripTracing(raw []byte) string {
	i := strings.Index(string(raw), `"extensions":`)
	var top struct {
		Extensions struct {
			Tracing struct {
				Version   int `json:"version"`
				Execution struct {
					Resolvers []struct {
						Path                              json.RawMessage
						ParentType, FieldName, ReturnType string
					}
				}
			}
		}
	}
	if err := json.Unmarshal(raw, &top); err != nil {
		return "invalid json " + string(raw)
	}
	b, _ := json.Marshal(top.Extensions)
	return string(raw[:i]) + string(b)
}

const introspectionQuery = `{__schema{queryType{name}mutationType{name}subscriptionType{name}types{...T}directives{name description locations args{name type{...R}}}}}
fragment T on __Type{kind name description fields(includeDeprecated:true){name args{name defaultValue type{...R}}type{...R}isDeprecated}inputFields{name type{...R}}interfaces{name}enumValues(includeDeprecated:true){name}possibleTypes{name}}
fragment R on __Type{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}`

func longQuery(n int, tail string) string {
	q := "{w{str"
	for i := 0; len(q)+len(tail)+2 < n; i++ {
		q += " "
	}
	return q + tail + "}}"
}

var reqKindsCache []*reqKind

// reqKinds are the kinds of requests
func reqKinds() []*reqKind {
	if reqKindsCache != nil {
		return reqKindsCache
	}
	o := yarql.ResolveOptions{}
	vals := func(m map[string]interface{}) yarql.ResolveOptions { return yarql.ResolveOptions{Values: &m} }
	vars := func(v string) yarql.ResolveOptions {
		return yarql.ResolveOptions{Variables: v, GetFormFile: formFile}
	}
	op := func(n string) yarql.ResolveOptions { return yarql.ResolveOptions{OperatorTarget: n} }
	wide := "{w{"
	for i := 0; i < 400; i++ {
		wide += fmt.Sprintf("f%d:num ", i)
	}
	wide += "}}"
	deep := strings.Repeat("{self", 11)
	lists := `{in{` + strings.Repeat("l:llInt(a:["+strings.Repeat("[1,2,3],", 30)+"]) ", 3) + `}}`
	frags := `query{w{...F obj{...G}}}fragment F on Q1{str obj{...G}}fragment G on A1{name kids{...H}}fragment H on A1{n ...I}fragment I on A1{opt}`
	many := ""
	for i := 0; i < 40; i++ {
		many += fmt.Sprintf("fragment X%d on A1{n}", i)
	}
	l := []*reqKind{
		{name: "simple", q: `{w{str num}}`, opts: o},
		{name: "nested", q: `{w{obj{name kids{n child{name}}} LL{n opt} plist{name}}}`, opts: o},
		{name: "resolver errors", q: `{w{err errNil{n} list{bad}} e{s l{s kids{s}} c(x:1)}}`, opts: o, fault: 0b10110101},
		{name: "syntax error", q: "{w{str}\n}}", opts: o},
		{name: "syntax error in fragment", q: `{w{...F}}fragment F on Q1{str(}`, opts: o},
		{name: "open string", q: `query($a:Int=1){w{num2(a:$a) fnObj(name:"abc`, opts: o},
		{name: "unknown field", q: `{w{str list{n nope} num}}`, opts: o},
		{name: "unknown field in object", q: `{w{str obj{kids{child{nope}}} num}}`, opts: o},
		{name: "variables", q: `query A($a:Int,$l:[Int!],$o:In1){in{int(a:$a,b:$a) lInt(a:$l) in1(a:$o)}}`, opts: vars(`{"a":7,"l":[1,2],"o":{"i":4,"s":"text","o":{"x":5},"e":"RED"}}`)},
		{name: "other variables", q: `query A($a:String="dflt",$l:[Int!]=[9,8],$o:In1={i:5,s:"dd"}){in{str(a:$a,b:$a) lInt(a:$l) in1(a:$o)}}`, opts: vars(`{"l":null,"x":[1]}`)},
		{name: "no variables", q: `query A($a:String="dflt",$l:[Int!]=[9,8]){in{str(a:$a) lInt(a:$l)}}`, opts: o},
		{name: "missing variable", q: `query A($a:Int!){w{str} in{int(a:$a)}}`, opts: o},
		{name: "undefined variable", q: `{w{str} in{int(a:$a)}}`, opts: vars(`{"a":7}`)},
		{name: "bad variables", q: `query($a:Int){in{int(a:$a) int2:int(b:$a)}}`, opts: vars(`{"a":7`)},
		{name: "null variables", q: `query($a:Int){in{int(a:1)}}`, opts: vars(`[1]`)},
		{name: "fragments", q: frags, opts: o},
		{name: "other fragments", q: `fragment G on Q1{num}fragment F on A1{n}{w{...G obj{...F}}}`, opts: o},
		{name: "many fragments", q: `{w{str}}` + many, opts: o},
		{name: "unknown fragment", q: `{w{str ...F}}`, opts: o},
		{name: "recursive fragment", q: `{w{str ...F}}fragment F on Q1{num ...F}`, opts: o},
		{name: "operation B", q: `query A{w{str}}query B($x:Int=3){w{num2(a:$x)}}mutation C{set(v:"c"){name}}`, opts: op("B")},
		{name: "operation C", q: `query A{w{str}}query B($x:Int=3){w{num2(a:$x)}}mutation C{set(v:"c"){name}}`, opts: op("C")},
		{name: "no operation", q: `query A{w{str}}query B($x:Int=3){w{num2(a:$x)}}mutation C{set(v:"c"){name}}`, opts: op("D")},
		{name: "directives", q: `{w@plain{str@skip(if:true) num@include(if:true) fl@str(s:"some text") flag@str(s:"skip")}}`, opts: o},
		{name: "unknown directive", q: `{w{str num@nope fl}}`, opts: o},
		{name: "context store", q: `{ctx{a:op(i:0) o{op(i:1) l{op(i:2)}} last}}`, opts: o, script: []int{1, 3, 4, 0, 0, 0}},
		{name: "context ended", q: `{ctx{a:op(i:0) last} w{num2 str}}`, opts: vals(map[string]interface{}{"x": 1}), script: []int{6, 0, 0, 0, 0, 0}},
		{name: "context look", q: `{ctx{last o{op(i:1)}}}`, opts: o},
		{name: "values", q: `{ctx{a:op(i:0) last}}`, opts: vals(map[string]interface{}{"k": "given", "x": 2}), script: []int{3, 0, 0, 0, 0, 0}},
		{name: "introspection", q: introspectionQuery, opts: o},
		{name: "type", q: `query($n:String){__type(name:$n){name fields{name type{name kind}}} b:__type(name:"In1"){inputFields{name}} c:__type(name:"Nope"){name}}`, opts: vars(`{"n":"Node"}`)},
		{name: "too deep", q: strings.Repeat("{w{self", 1) + strings.Repeat("{self", 12) + "{str" + strings.Repeat("}", 15), opts: o},
		{name: "deep", q: "{w" + strings.Replace(deep, "{self", "", 2) + "{str" + strings.Repeat("}", 11), opts: o},
		{name: "traced", q: `{w{str obj{name kids{n}} num2(a:1)}}`, opts: yarql.ResolveOptions{Tracing: true}},
		{name: "traced error", q: `{w{str obj{name nope}}}`, opts: yarql.ResolveOptions{Tracing: true}},
		{name: "no meta", q: `{w{str err nope}}`, opts: yarql.ResolveOptions{NoMeta: true}},
		{name: "long", q: longQuery(400, "num"), opts: o},
		{name: "long other", q: longQuery(400, "key"), opts: o},
		{name: "long error", q: longQuery(400, "no)"), opts: o},
		{name: "long frag", q: `{w{...F}}` + strings.Repeat(" ", 400) + `fragment F on Q1{str}`, opts: o},
		{name: "long operation", q: `query A{w{str}}` + strings.Repeat(" ", 400) + `query B{w{num}}`, opts: op("A")},
		{name: "mutation", q: `mutation{set(v:"m"){name up(x:1)} bad{name}}`, opts: o},
		{name: "bad default", q: `query($a:[Int]=[1,(]){w{str}}`, opts: o},
		{name: "variable in default", q: `query($b:Int=1,$a:In1={i:1,o:{x:$b}}){w{str}}`, opts: o},
		{name: "empty", q: ``, opts: o},
		{name: "only fragment", q: `fragment F on XQ{w{str}}`, opts: o},
		{name: "files", q: `query($f:File){in{file(a:"file1",b:$f) lFile(a:["fileA","fileB"])}}`, opts: vars(`{"f":"file2"}`)},
		{name: "no file", q: `query($f:File){in{file(a:$f)}}`, opts: vars(`{"f":"none"}`)},
		{name: "interfaces", q: `{w{faces{label ... on N1{own} ... on N2{extra nodes{label}}} face{__typename} nilFace{label}}}`, opts: o},
		{name: "wide", q: wide, opts: o},
		{name: "objects", q: `{in{in1(a:{i:1,s:"str \" x",l:[1,2],o:{x:1,r:{x:2},l:[{x:3}],p:[{x:4}]},e:GREEN,t:"2020-01-02T03:04:05.006Z",b:true,f:1.5,key:"id"}) inl(a:{x:1,y:{z:["a","b"]}})}}`, opts: o},
		{name: "block string", q: `{in{str(a:"""block "text" here""",b:"\u00e9\n")}}`, opts: o},
		{name: "bad argument", q: `{in{int(a:"x")} w{str}}`, opts: o},
		{name: "bad nested argument", q: `{in{a:in1(a:{i:1,o:{l:[{x:1},{y:2}]}}) b:in1(a:{i:2})}}`, opts: o},
		{name: "lists", q: lists, opts: o},
		{name: "count", q: `{count(n:300){name n kids{n}}}`, opts: o},
		{name: "panic", q: `{w{str obj{name}} x:panic num:panic}`, opts: o, panics: true},
		{name: "http json", http: true, ct: "application/json", body: `{"query":"query A($a:Int){in{int(a:$a)}}","variables":{"a":3},"operationName":"A"}`},
		{name: "http batch", http: true, ct: "application/json", body: `[{"query":"{w{str}}"},{"query":"{w{nope}}"},{"query":"query($f:File){in{file(a:$f)}}","variables":{"f":"fileX"}},1]`},
		{name: "http bad", http: true, ct: "application/json", body: `{"query":`},
		{name: "http form", http: true, ct: "multipart/form-data", body: `{"query":"query($f:File){in{file(a:$f)}}","variables":{"f":"fileY"}}`},
		{name: "subscription", q: `subscription{a}`, opts: o},
		{name: "operation directive", q: `query@skip(if:true){w{str}}`, opts: o},
	}
	reqKindsCache = l
	return l
}

var freshOut = map[*reqKind]string{}

// fresh is the answer of the request on a schema that was not used before
func (k *reqKind) fresh() string {
	if _, ok := freshOut[k]; !ok {
		freshOut[k] = k.do(newWorld3Schema())
	}
	return freshOut[k]
}

func init() {
	_ = formFile
	var _ *multipart.FileHeader
}
