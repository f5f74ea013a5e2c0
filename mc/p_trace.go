package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// T01: tracing describes the executed fields and changes nothing else

// traceDocs lets the cases of other properties check the trace
var traceDocs bool

type traceOut struct {
	Version    *int   `json:"version"`
	StartTime  string `json:"startTime"`
	EndTime    string `json:"endTime"`
	Duration   *int64 `json:"duration"`
	Parsing    *traceSpan
	Validation *traceSpan
	Execution  *struct {
		Resolvers *[]traceRes `json:"resolvers"`
	} `json:"execution"`
}

type traceSpan struct {
	StartOffset *int64 `json:"startOffset"`
	Duration    *int64 `json:"duration"`
}

type traceRes struct {
	Path        []json.RawMessage `json:"path"`
	ParentType  *string           `json:"parentType"`
	FieldName   *string           `json:"fieldName"`
	ReturnType  *string           `json:"returnType"`
	StartOffset *int64            `json:"startOffset"`
	Duration    *int64            `json:"duration"`
	path        string
}

func (r *traceRes) end() int64 { return *r.StartOffset + *r.Duration }

// fieldTypes are the types of all fields of a schema
func fieldTypes(s *yarql.Schema) map[string]string {
	r := run(s, `{__schema{queryType{name} types{...T}}}
fragment T on __Type{name fields(includeDeprecated:true){name type{...R}}}
fragment R on __Type{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}}`, yarql.ResolveOptions{})
	type ref struct {
		Kind, Name string
		OfType     *ref
	}
	var top struct {
		Data struct {
			Schema struct {
				QueryType struct{ Name string }
				Types     []struct {
					Name   string
					Fields []struct {
						Name string
						Type *ref
					}
				}
			} `json:"__schema"`
		}
	}
	must(json.Unmarshal([]byte(r.Raw), &top))
	res := map[string]string{}
	var str func(r *ref) string
	str = func(r *ref) string {
		switch r.Kind {
		case "NON_NULL":
			return str(r.OfType) + "!"
		case "LIST":
			return "[" + str(r.OfType) + "]"
		}
		return r.Name
	}
	for _, t := range top.Data.Schema.Types {
		for _, f := range t.Fields {
			res[t.Name+"."+f.Name] = str(f.Type)
		}
	}
	// the fields for introspection are not part of the introspected fields
	q := top.Data.Schema.QueryType.Name
	res[q+".__schema"], res[q+".__type"] = "__Schema!", "__Type"
	return res
}

var traceTypes = map[*yarql.Schema]map[string]string{}

func typesOf(s *yarql.Schema) map[string]string {
	if traceTypes[s] == nil {
		traceTypes[s] = fieldTypes(s)
	}
	return traceTypes[s]
}

// readTrace decodes a trace and checks everything that does not depend on the request
func readTrace(types map[string]string, raw string, before, after time.Time) (l []*traceRes, fail string) {
	var top struct {
		Extensions *struct {
			Tracing *traceOut `json:"tracing"`
		} `json:"extensions"`
	}
	if err := json.Unmarshal([]byte(raw), &top); err != nil {
		return nil, "malformed trace: " + err.Error()
	}
	if top.Extensions == nil || top.Extensions.Tracing == nil {
		return nil, "no trace"
	}
	t := top.Extensions.Tracing
	spanOK := func(s *traceSpan) bool {
		return s != nil && s.Duration != nil && s.StartOffset != nil && *s.Duration >= 0 && *s.StartOffset >= 0
	}
	if t.Version == nil || *t.Version != 1 || t.Duration == nil || !spanOK(t.Parsing) || !spanOK(t.Validation) || t.Execution == nil || t.Execution.Resolvers == nil {
		return nil, "incomplete trace"
	}
	start, err1 := time.Parse(time.RFC3339Nano, t.StartTime)
	end, err2 := time.Parse(time.RFC3339Nano, t.EndTime)
	if err1 != nil || err2 != nil {
		return nil, "malformed start or end time"
	}
	total := *t.Duration
	slack := time.Second // the wall clock can be adjusted
	if end.Sub(start) < -slack || start.Before(before.Add(-slack)) || end.After(after.Add(slack)) || total < 0 || time.Duration(total) > after.Sub(before) {
		return nil, fmt.Sprintf("the request ran from %s to %s, the trace says %s to %s, duration %d", before, after, t.StartTime, t.EndTime, total)
	}
	if e := *t.Parsing.StartOffset + *t.Parsing.Duration; e > total {
		return nil, "parsing ends after the request"
	}
	if v := *t.Validation.StartOffset; v < *t.Parsing.StartOffset+*t.Parsing.Duration || v+*t.Validation.Duration > total {
		return nil, fmt.Sprintf("validation starts at %d, parsing ends at %d and the request at %d", v, *t.Parsing.StartOffset+*t.Parsing.Duration, total)
	}
	for i := range *t.Execution.Resolvers {
		r := &(*t.Execution.Resolvers)[i]
		if r.Path == nil || len(r.Path) == 0 || r.ParentType == nil || r.FieldName == nil || r.ReturnType == nil || r.StartOffset == nil || r.Duration == nil {
			return nil, fmt.Sprintf("incomplete trace entry %d", i)
		}
		for j, p := range r.Path {
			if j > 0 {
				r.path += ","
			}
			r.path += string(p)
		}
		exp, ok := types[*r.ParentType+"."+*r.FieldName]
		if !ok {
			return nil, fmt.Sprintf("the trace entry of %s is about a field %s of %s that is not in the schema", r.path, *r.FieldName, *r.ParentType)
		}
		if exp != *r.ReturnType {
			return nil, fmt.Sprintf("the trace says that %s.%s has the type %s, in the schema it is %s", *r.ParentType, *r.FieldName, *r.ReturnType, exp)
		}
		if *r.StartOffset < *t.Parsing.StartOffset+*t.Parsing.Duration || *r.Duration < 0 || r.end() > total {
			return nil, fmt.Sprintf("%s starts at %d and takes %d, parsing ends at %d and the request at %d", r.path, *r.StartOffset, *r.Duration, *t.Parsing.StartOffset+*t.Parsing.Duration, total)
		}
		if *r.StartOffset < *t.Validation.StartOffset+*t.Validation.Duration {
			return nil, fmt.Sprintf("%s starts at %d, before validation ends at %d", r.path, *r.StartOffset, *t.Validation.StartOffset+*t.Validation.Duration)
		}
		l = append(l, r)
	}
	return l, ""
}

func under(p, parent string) bool { return strings.HasPrefix(p, parent+",") }

// checkOrder compares the times of the entries with the order in which the fields ended
func checkOrder(l []*traceRes) string {
	for i, b := range l {
		for _, a := range l[:i] {
			if under(a.path, b.path) {
				if *a.StartOffset < *b.StartOffset || a.end() > b.end() {
					return fmt.Sprintf("%s [%d,%d] is not within the time of %s [%d,%d]", a.path, *a.StartOffset, a.end(), b.path, *b.StartOffset, b.end())
				}
			} else if a.end() > *b.StartOffset {
				return fmt.Sprintf("%s [%d,%d] starts before %s [%d,%d] has ended", b.path, *b.StartOffset, b.end(), a.path, *a.StartOffset, a.end())
			}
		}
	}
	return ""
}

// traceRun runs a request without, with and again without tracing
func traceRun(s *yarql.Schema, q string, opts yarql.ResolveOptions, ref *RefRes) Result {
	depth := s.MaxDepth
	s.MaxDepth = 255
	types := typesOf(s)
	s.MaxDepth = depth
	plain := run(s, q, opts)
	topts := opts
	topts.Tracing = true
	before := time.Now()
	traced := run(s, q, topts)
	after := time.Now()
	again := run(s, q, opts)
	res := Result{Outcome: plain.Raw, Steps: 3}
	fail := func(msg string) Result {
		res.Fail = msg + "\n response " + clip(traced.Raw, 1500)
		return res
	}
	if traced.Bad != "" {
		return fail(traced.Bad)
	}
	if plain.Raw != again.Raw {
		return fail("a request is answered differently after one with tracing: " + clip(plain.Raw, 800) + " " + clip(again.Raw, 800))
	}
	if strings.Contains(string(plain.Ext), "tracing") {
		return fail("a trace without tracing")
	}
	if plain.JSON != traced.JSON || !reflect.DeepEqual(plain.Errs, traced.Errs) || strings.Join(plain.Log, ";") != strings.Join(traced.Log, ";") || fmt.Sprint(plain.Ret) != fmt.Sprint(traced.Ret) {
		return fail("tracing changes the response, without it is " + clip(plain.Raw, 1000) + fmt.Sprint(plain.Log, plain.Ret))
	}
	l, f := readTrace(types, traced.Raw, before, after)
	if f != "" {
		return fail(f)
	}
	if plain.syntaxErr() && len(l) > 0 {
		return fail("trace entries of a document that was not executed")
	}
	if ref == nil || ref.DontCare || ref.Dup {
		res.Skip = ref != nil
		return res
	}
	byKey := map[traceEnt]*traceRes{}
	for _, r := range l {
		k := traceEnt{r.path, *r.ParentType, *r.FieldName}
		if byKey[k] != nil {
			return fail("two trace entries for " + r.path)
		}
		byKey[k] = r
	}
	var order []*traceRes
	for _, e := range ref.Trace {
		r := byKey[e]
		if r == nil {
			return fail(fmt.Sprintf("no trace entry for %s of %s at [%s]", e.Field, e.Parent, e.Path))
		}
		order = append(order, r)
	}
	if f := checkOrder(order); f != "" {
		return fail(f)
	}
	if !ref.Critical && len(l) != len(ref.Trace) {
		var extra []string
		for k := range byKey {
			extra = append(extra, k.Path)
		}
		sort.Strings(extra)
		return fail(fmt.Sprintf("%d trace entries for %d executed fields: %s", len(l), len(ref.Trace), strings.Join(extra, " ")))
	}
	return res
}

// TrQ is the query root for measured times
type TrQ struct {
	N int
	L []TrO
}

// TrO is an object
type TrO struct {
	N     int
	Child *TrO
}

const slowTime = 200 * time.Microsecond

func slow(name string) { calls = append(calls, name); time.Sleep(slowTime) }

// ResolveSlow takes a while
func (TrQ) ResolveSlow() int { slow("TrQ.slow"); return 1 }

// ResolveObj takes a while
func (TrQ) ResolveObj(args struct{ Wait bool }) (*TrO, error) {
	if args.Wait {
		slow("TrQ.obj")
		return &TrO{N: 1, Child: &TrO{N: 2}}, errors.New("late")
	}
	return &TrO{N: 1, Child: &TrO{N: 2}}, nil
}

// ResolveList takes a while
func (TrQ) ResolveList(args struct{ Wait bool }) [][]TrO {
	if args.Wait {
		slow("TrQ.list")
	}
	return [][]TrO{{{N: 1}, {N: 2}}, nil, {{N: 3, Child: &TrO{}}}}
}

// ResolveSlow takes a while
func (TrO) ResolveSlow() int { slow("TrO.slow"); return 2 }

// ResolveFast does not
func (TrO) ResolveFast() (TrO, error) { return TrO{N: 4}, nil }

var slowSchema *yarql.Schema

func getSlowSchema() *yarql.Schema {
	if slowSchema == nil {
		slowSchema = yarql.NewSchema()
		must(slowSchema.Parse(TrQ{N: 1, L: []TrO{{N: 1}, {N: 2, Child: &TrO{N: 3}}}}, VM{}, nil))
	}
	return slowSchema
}

// slowCase checks that slow fields and everything around them take their time
func slowCase(sel []Sel) *Case {
	d := query(sel...)
	return &Case{DescF: d.String, Run: func() Result {
		s := getSlowSchema()
		types := typesOf(s)
		before := time.Now()
		r := run(s, d.String(), yarql.ResolveOptions{Tracing: true})
		after := time.Now()
		res := Result{Steps: 1}
		l, f := readTrace(types, r.Raw, before, after)
		if f == "" && r.Bad != "" {
			f = r.Bad
		}
		var total int64
		sums := map[string]int64{} // least time of a path
		for _, e := range l {
			var own int64
			isSlow := *e.FieldName == "slow"
			if *e.FieldName == "obj" || *e.FieldName == "list" {
				isSlow = strings.Contains(string(e.Path[0]), "W") // the alias tells
			}
			if isSlow {
				own = int64(slowTime)
			}
			total += own
			res.Outcome += e.path + ";"
			for _, o := range l {
				if o.path == e.path || under(e.path, o.path) {
					sums[o.path] += own
				}
			}
		}
		for _, e := range l {
			if *e.Duration < sums[e.path] && f == "" {
				f = fmt.Sprintf("%s took %d ns although it waits for %d ns", e.path, *e.Duration, sums[e.path])
			}
		}
		// fields of one object follow each other in the order they were selected
		if f == "" && len(l) == 0 {
			f = "no trace entries"
		}
		var last *traceRes
		for _, s := range sel {
			for _, e := range l {
				if e.path == `"`+s.key()+`"` {
					if last != nil && last.end() > *e.StartOffset && f == "" {
						f = fmt.Sprintf("%s starts before %s has ended", e.path, last.path)
					}
					last = e
				}
			}
		}
		_ = total
		if f != "" {
			res.Fail = f + "\n response " + clip(r.Raw, 1500)
		}
		return res
	}}
}

// tracedIntro is about the introspection fields: every key of the response has an entry
func tracedIntro(s *yarql.Schema, q string, opts yarql.ResolveOptions) *Case {
	return &Case{Desc: q, Run: func() Result {
		res := traceRun(s, q, opts, nil)
		if res.Fail != "" {
			return res
		}
		opts.Tracing = true
		b := time.Now()
		r := run(s, q, opts)
		l, f := readTrace(typesOf(s), r.Raw, b, time.Now())
		if f != "" {
			res.Fail = f
			return res
		}
		seen := map[string]int{}
		for _, e := range l {
			seen[e.path]++
		}
		var data any
		must(json.Unmarshal([]byte(r.JSON), &data))
		n := 0
		var walk func(v any, path string)
		walk = func(v any, path string) {
			switch x := v.(type) {
			case map[string]any:
				for k, e := range x {
					p := path + `,"` + k + `"`
					if k != "__typename" {
						n++
						if seen[p[1:]] != 1 && res.Fail == "" {
							res.Fail = fmt.Sprintf("%d trace entries for %s", seen[p[1:]], p[1:])
						}
					}
					walk(e, p)
				}
			case []any:
				for i, e := range x {
					walk(e, fmt.Sprint(path, ",", i))
				}
			}
		}
		walk(data, "")
		if res.Fail == "" && n != len(l) {
			res.Fail = fmt.Sprintf("%d trace entries for %d fields of the response", len(l), n)
		}
		return res
	}}
}

func traced(gen func(c *Chooser, e *Env) *Case) func(c *Chooser, e *Env) *Case {
	return func(c *Chooser, e *Env) *Case {
		k := gen(c, e)
		if k == nil {
			return nil
		}
		inner := k.Run
		k.Run = func() Result {
			traceDocs = true
			defer func() { traceDocs = false }()
			return inner()
		}
		return k
	}
}

func init() {
	slowItems := func() []Sel {
		w := func(b bool) Arg { return Arg{"wait", vBool(b)} }
		return []Sel{
			fld("n"), fld("slow"), fld("l", fld("slow")), fld("l", fld("n"), fld("child", fld("slow"))).as("l2"),
			fld("obj", fld("n")).args(w(true)).as("objW"), fld("obj", fld("slow")).args(w(false)), fld("obj", fld("fast", fld("slow"), fld("n"))).args(w(true)).as("objW2"),
			fld("list", fld("n")).args(w(true)).as("listW"), fld("list", fld("slow"), fld("child", fld("slow"))).args(w(false)),
			inline("TrQ", fld("slow").as("slow2"), fld("n").as("n2")),
		}
	}
	var copySchemas []*yarql.Schema
	histories := []string{"{str}", "{list{n bad} err}", "{obj{name child{name}}}", "{str nope}", "{str", "mutation{setA(v:1)}", "{__schema{queryType{name}}}", "{faces{label ... on N2{nodes{rank}}}}", "{LL{n}}", "query A{num}query B{flag}"}
	register(&Property{
		ID: "T01",
		Bounds: map[string]string{
			"quick":    "every root selection of E01 alone and in pairs with 24 selections; all triples of 24 selections; chains of objects of depth <= 4; fragments at several places, directives, all documents of the corpus with every operation; introspection of a schema of everything; every sequence of 3 of 10 requests, traced or not, on one schema, its copies or both; every pair of 10 selections with measured waits",
			"thorough": "all pairs of the root selections, chains of depth <= 6, quadruples; sequences of 4",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			traced(func(c *Chooser, e *Env) *Case {
				sels := []Sel{topItemsList[c.Choose(len(topItemsList))]}
				if e.Thorough {
					if i := c.Choose(len(topItemsList) + 1); i > 0 {
						sels = append(sels, topItemsList[i-1])
					}
				} else if i := c.Choose(len(smallItemsList) + 1); i > 0 {
					sels = append(sels, smallItemsList[i-1])
				}
				if c.Bool() && len(sels) > 1 {
					sels[0], sels[1] = sels[1], sels[0]
				}
				if dupKeys(sels) {
					return nil
				}
				return docCase(query(sels...), "", "", 0)
			}),
			traced(func(c *Chooser, e *Env) *Case { return properties["E01"].Parts[1](c, e) }),
			traced(func(c *Chooser, e *Env) *Case { return properties["E01"].Parts[2](c, e) }),
			traced(func(c *Chooser, e *Env) *Case {
				l := corpus()
				return docCase(l[c.Choose(len(l))], c.Pick("", "A", "Q", "M"), c.Pick("", corpusVars, "[]"), []int{0, 1, 2, 3, 4}[c.Choose(5)])
			}),
			// aliases of every length and fields of every kind below lists
			traced(func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(254)
				a := strings.Repeat("a", n)
				f := fld(c.Pick("list", "LL", "faces", "obj"), fld(c.Pick("n", "label")).as(a), fld("__typename").as("t"))
				return docCase(query(f.as("b"+a[1:]), fld("str")), "", "", 0)
			}),
			// fragments and directives
			traced(func(c *Chooser, e *Env) *Case {
				place := fld(c.Pick("obj", "list", "LL", "mobj", "faces", "ptr"), spread("F"), inline("A1", fld("n").as("z")), inline("N2", fld("extra").dir(dirIf("include", vBool(c.Bool())))))
				top := fld(c.Pick("str", "fnStr", "err")).dir(dirIf(c.Pick("skip", "include"), vBool(c.Bool())))
				if c.Bool() {
					place = place.dir(dirIf("skip", vBool(c.Bool())))
				}
				fr := frag("F", c.Pick("A1", "Node", "N1", "Q1"), fld(c.Pick("n", "name", "label", "bad", "fn")), spread("G"))
				g := frag("G", "A1", withArgs(fld("up"), 2), fld("child", fld("name"), fld("nope").dir(dirIf("skip", vBool(true)))))
				sp := inline("Q1", fld("self", top, place))
				return docCase(&Doc{Defs: []any{&Op{Kind: "query", Sel: []Sel{sp, top, place}}, fr, g}}, "", "", 0)
			}),
			// introspection
			func(c *Chooser, e *Env) *Case {
				l := []string{introspectionQuery, `{__schema{__typename queryType{name fields{name type{name kind}}}}}`, `{__type(name:"Q1"){name fields{name args{name type{kind name ofType{name}}}}}}`, `{__type(name:"Nope"){name}}`, `{__type(name:"Color"){enumValues{name}}str}`, `{__schema{directives{name args{name}}}obj{__typename n}}`, `{__type(name:"Node"){possibleTypes{name interfaces{name}}}}`}
				i := c.Choose(len(l))
				q := l[i]
				if i < 4 && c.Bool() {
					return tracedIntro(newWorld3Schema(), q, yarql.ResolveOptions{})
				}
				return tracedIntro(newWorldSchema(), q, yarql.ResolveOptions{})
			},
			// histories
			func(c *Chooser, e *Env) *Case {
				n := 3
				if e.Thorough {
					n = 3 + c.Choose(2)
				}
				type step struct {
					q      int
					traced bool
					where  int
				}
				var l []step
				for i := 0; i < n; i++ {
					l = append(l, step{c.Choose(len(histories)), c.Bool(), c.Choose(3)})
				}
				return &Case{DescF: func() string {
					d := ""
					for _, s := range l {
						d += fmt.Sprintf(" > %s traced=%v schema %d", histories[s.q], s.traced, s.where)
					}
					return d[3:]
				}, Run: func() Result {
					if copySchemas == nil {
						a := newWorldSchema()
						b := a.Copy()
						copySchemas = []*yarql.Schema{a, b, b.Copy()}
					}
					world()
					res := Result{}
					for i, st := range l {
						s := copySchemas[st.where]
						opts := yarql.ResolveOptions{Tracing: st.traced}
						before := time.Now()
						r := run(s, histories[st.q], opts)
						after := time.Now()
						exp := run(world(), histories[st.q], yarql.ResolveOptions{})
						res.Steps++
						if r.JSON != exp.JSON || !reflect.DeepEqual(r.Errs, exp.Errs) {
							res.Fail = fmt.Sprintf("request %d: expected %s, got %s", i, exp.Raw, r.Raw)
							return res
						}
						if !st.traced {
							if r.Raw != exp.Raw {
								res.Fail = fmt.Sprintf("request %d: expected %s, got %s", i, exp.Raw, r.Raw)
								return res
							}
							continue
						}
						tl, f := readTrace(typesOf(world()), r.Raw, before, after)
						if f == "" {
							// the entries have to be the ones of the request alone
							var got []string
							for _, e := range tl {
								got = append(got, e.path)
							}
							f = diffOut("other trace entries than of the request alone", strings.Join(histEntries(histories[st.q]), " "), strings.Join(got, " "))
						}
						if f != "" {
							res.Fail = fmt.Sprintf("request %d: %s\n %s", i, f, clip(r.Raw, 1200))
							return res
						}
						res.Outcome += fmt.Sprint(len(tl), " ")
					}
					return res
				}}
			},
			// measured times
			func(c *Chooser, e *Env) *Case {
				l := slowItems()
				i, j := c.Choose(len(l)), c.Choose(len(l)+1)
				sels := []Sel{l[i]}
				if j > 0 {
					x := l[j-1]
					if j-1 == i {
						return nil
					}
					sels = append(sels, x)
				}
				return slowCase(sels)
			},
		},
	})
}

var histCache = map[string][]string{}

// histEntries are the trace entries on a fresh schema
func histEntries(q string) []string {
	if histCache[q] == nil {
		s := newWorldSchema()
		b := time.Now()
		r := run(s, q, yarql.ResolveOptions{Tracing: true})
		l, _ := readTrace(typesOf(world()), r.Raw, b, time.Now())
		histCache[q] = []string{}
		for _, e := range l {
			histCache[q] = append(histCache[q], e.path)
		}
	}
	return histCache[q]
}
