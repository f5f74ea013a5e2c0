package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/tester"
)

// X01: the helpers for tests report what the schema has

// TsQ is a schema with few and many fields
type TsQ struct {
	None struct{} `gq:"-"`
	One  TsOne
	Two  TsTwo
	Many TsMany
	In   func(TsArgs) int
	Err  func() (*TsOne, error)
	List [][]TsTwo
}

// TsArgs has an input
type TsArgs struct {
	V TsIn
	C Color
}

// TsIn is an input
type TsIn struct {
	A, B string
	Ab   []int
}

// TsOne has one field
type TsOne struct{ A int }

// TsTwo has two fields of which one starts with the name of the other
type TsTwo struct{ Ab, A, B int }

// TsMany has many fields
type TsMany struct {
	A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z, Aa, Ab, Ac, Ad, Ae, Af int
	LongNameOfAField, LongNameOfAFiel, LongNameOfAFields                                                 string
}

// TsM is the mutation root
type TsM struct{ TsMutate TsTwo }

func newTsSchema() *yarql.Schema {
	s := yarql.NewSchema()
	must1(s.RegisterEnum(map[string]Color{"RED": 1, "GREEN": 2, "BLUE": 3}))
	must(s.Parse(TsQ{}, TsM{}, nil))
	return s
}

type testerWorld struct {
	name   string
	new    func() *yarql.Schema
	once   sync.Once
	fail   string
	types  map[string]*iType
	names  []string // types and near misses
	objs   []string
	s      *yarql.Schema
	fields map[string][]string
}

var testerWorlds = func() (l []*testerWorld) {
	for _, w := range introWorldList {
		l = append(l, &testerWorld{name: w.name, new: w.new})
	}
	return append(l, &testerWorld{name: "world T", new: newTsSchema})
}()

func nearNames(n string) []string {
	l := []string{n, n + " ", " " + n, n + "_", "_" + n, n + n, n + "!", "[" + n + "]", n + "\x00", n + "1", "*" + n, n + "\n", strings.ToUpper(n), strings.ToLower(n),
		`"` + n + `"`, n + `"){kind}x:__type(name:"` + n, "main." + n, n + "{", n + "é", "__" + n, "$typename", n + `\u0041`, n + "__input"}
	if n != "" {
		l = append(l, n[:len(n)-1], n[1:], strings.ToUpper(n[:1])+n[1:], strings.ToLower(n[:1])+n[1:])
	}
	return l
}

func (w *testerWorld) setup() string {
	w.once.Do(func() {
		w.s = w.new()
		is, f := introspect(w.s)
		if f != "" {
			w.fail = f
			return
		}
		w.types, w.fields = map[string]*iType{}, map[string][]string{}
		names := map[string]bool{"": true, "null": true, "true": true, "1": true, strings.Repeat("a", 254): true, strings.Repeat("a", 255): true, strings.Repeat("a", 256): true, strings.Repeat("a", 70000): true}
		for i := range is.Types {
			t := &is.Types[i]
			w.types[t.Name] = t
			for _, n := range nearNames(t.Name) {
				names[n] = true
			}
			for _, f := range t.Fields {
				names[f.Name] = true
				w.fields[t.Name] = append(w.fields[t.Name], f.Name)
			}
			for _, v := range t.EnumValues {
				names[v.Name] = true
			}
			if t.Kind == "OBJECT" || t.Kind == "INTERFACE" {
				w.objs = append(w.objs, t.Name)
			}
		}
		for n := range names {
			w.names = append(w.names, n)
		}
		sort.Strings(w.names)
		sort.Strings(w.objs)
	})
	return w.fail
}

// expected results of the helpers
func (w *testerWorld) has(name string, fields []string, only bool) bool {
	t := w.types[name]
	if t == nil || t.Kind != "OBJECT" && t.Kind != "INTERFACE" {
		return false
	}
	want := map[string]bool{}
	for _, f := range fields {
		want[f] = true
	}
	n := 0
	for _, f := range t.Fields {
		if want[f.Name] {
			n++
		}
	}
	return n == len(want) && (!only || n == len(t.Fields))
}

func (w *testerWorld) check(s *yarql.Schema, name string, fields []string) string {
	bad := func(what string, exp, got any) string {
		return fmt.Sprintf("%s of %s with %q: expected %v, got %v", what, strconv.Quote(name), fields, exp, got)
	}
	t := w.types[name]
	expKind := ""
	if t != nil {
		expKind = t.Kind
	}
	if got := tester.HasType(s, name); got != (t != nil) {
		return bad("HasType", t != nil, got)
	}
	if got := tester.TypeKind(s, name); got != expKind {
		return bad("TypeKind", expKind, got)
	}
	g := tester.GetTypeByName(s, name)
	if (g != nil) != (t != nil) {
		return bad("GetTypeByName", t != nil, g)
	}
	if g != nil {
		var l, exp []string
		for _, f := range g.Fields {
			l = append(l, f.Name)
		}
		exp = append(exp, w.fields[name]...)
		sort.Strings(l)
		sort.Strings(exp)
		if g.Kind != expKind || strings.Join(l, " ") != strings.Join(exp, " ") {
			return bad("GetTypeByName", fmt.Sprint(expKind, exp), *g)
		}
	}
	given := append([]string(nil), fields...)
	if err := tester.HasFields(s, name, fields); (err == nil) != w.has(name, fields, false) {
		return bad("HasFields", w.has(name, fields, false), err)
	}
	if err := tester.OnlyHasFields(s, name, fields); (err == nil) != w.has(name, fields, true) {
		return bad("OnlyHasFields", w.has(name, fields, true), err)
	}
	if !reflect.DeepEqual(given, append([]string(nil), fields...)) {
		return "the helper changes the list of fields"
	}
	return ""
}

func testerPick(c *Chooser) (*testerWorld, *Case) {
	w := testerWorlds[c.Choose(len(testerWorlds))]
	if f := w.setup(); f != "" {
		return w, &Case{Desc: w.name, Run: func() Result { return Result{Fail: f, Steps: 1} }}
	}
	return w, nil
}

func (w *testerWorld) toCase(name string, fields []string) *Case {
	return &Case{DescF: func() string { return fmt.Sprintf("%s: %s %q", w.name, clip(strconv.Quote(name), 100), fields) }, Run: func() Result {
		return Result{Steps: 5, Fail: w.check(w.s, name, fields), Outcome: fmt.Sprint(name, " ", w.has(name, fields, false), w.has(name, fields, true))}
	}}
}

// subset is a choice of the fields of an object: all subsets of small ones,
// up to 3 present or up to 2 missing ones of large ones
func subset(c *Chooser, all []string, thorough bool) []string {
	l := []string{}
	if len(all) <= 6 || thorough && len(all) <= 10 {
		for _, f := range all {
			if c.Bool() {
				l = append(l, f)
			}
		}
		return l
	}
	present, n := c.Bool(), 2
	if thorough {
		n = 3
	}
	if present {
		n = 3
	}
	in := map[int]bool{}
	last := -1
	for i := 0; i < n; i++ {
		p := c.Choose(len(all) - last) // 0: none
		if p == 0 {
			break
		}
		last += p
		in[last] = true
	}
	for i, f := range all {
		if in[i] == present {
			l = append(l, f)
		}
	}
	return l
}

func init() {
	register(&Property{
		ID: "X01",
		Bounds: map[string]string{
			"quick":    "five schemas with 20 to 70 types: all helpers x every type name and 27 near misses of each, names of fields and enum values; every object and interface x every subset of the fields (up to 6 fields; of larger ones all with up to 3 fields or up to 2 missing) in both orders; every one of these with one field doubled; every field of every type replaced by, or followed or preceded by each of 27 near misses or each name of another type's field; sequences of 3 calls on three schemas that have types of the same name",
			"thorough": "every subset of up to 10 fields, up to 3 missing; sequences of 3 calls with more types",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			// names
			func(c *Chooser, e *Env) *Case {
				w, k := testerPick(c)
				if k != nil {
					return k
				}
				name := w.names[c.Choose(len(w.names))]
				return w.toCase(name, [][]string{nil, {}, {""}, {"a"}, {name}, w.fields[name], {"__typename"}, append(append([]string{}, w.fields[name]...), "__typename")}[c.Choose(8)])
			},
			// subsets
			func(c *Chooser, e *Env) *Case {
				w, k := testerPick(c)
				if k != nil {
					return k
				}
				name := w.objs[c.Choose(len(w.objs))]
				l := subset(c, w.fields[name], e.Thorough)
				if len(l) > 1 && c.Bool() {
					for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
						l[i], l[j] = l[j], l[i]
					}
				}
				if len(l) > 0 && (len(l) < 6 || e.Thorough) {
					if i := c.Choose(len(l) + 1); i > 0 {
						if c.Bool() {
							l = append(l, l[i-1])
						} else {
							l = append([]string{l[i-1]}, l...)
						}
					}
				}
				return w.toCase(name, l)
			},
			// near misses
			func(c *Chooser, e *Env) *Case {
				w, k := testerPick(c)
				if k != nil {
					return k
				}
				name := w.objs[c.Choose(len(w.objs))]
				all := w.fields[name]
				if len(all) == 0 {
					return nil
				}
				i := c.Choose(len(all))
				near := nearNames(all[i])[1:]
				x := near[c.Choose(len(near))]
				l := append([]string{}, all...)
				switch c.Choose(5) {
				case 0:
					l[i] = x
				case 1:
					l = append(l, x)
				case 2:
					l = append([]string{x}, l...)
				case 3:
					l = []string{x}
				case 4:
					l = []string{all[i], x}
				}
				return w.toCase(name, l)
			},
			// fields of other types
			func(c *Chooser, e *Env) *Case {
				w, k := testerPick(c)
				if k != nil {
					return k
				}
				a, b := w.objs[c.Choose(len(w.objs))], w.objs[c.Choose(len(w.objs))]
				l := append([]string{}, w.fields[b]...)
				if c.Bool() {
					l = append(l, w.fields[a]...)
				}
				return w.toCase(a, l)
			},
			// sequences on several schemas
			func(c *Chooser, e *Env) *Case {
				const n = 3
				type step struct{ where, name, fields int }
				names, nf := []string{"A1", "Q1", "Color", "TsTwo", "nope", "Node", "TsQ", "XQ"}, 3
				if !e.Thorough {
					names, nf = names[:5], 2
				}
				var l []step
				for i := 0; i < n; i++ {
					l = append(l, step{c.Choose(4), c.Choose(len(names)), c.Choose(nf)})
				}
				return &Case{DescF: func() string {
					d := ""
					for _, s := range l {
						d += fmt.Sprintf(" > schema %d %s %d", s.where, names[s.name], s.fields)
					}
					return d[3:]
				}, Run: func() Result {
					worlds := []*testerWorld{testerWorlds[0], testerWorlds[4], testerWorlds[2], testerWorlds[0]}
					for _, w := range worlds {
						if f := w.setup(); f != "" {
							return Result{Fail: f}
						}
					}
					if testerCopy == nil {
						testerCopy = worlds[0].s.Copy()
					}
					res := Result{}
					for i, st := range l {
						w := worlds[st.where]
						s := w.s
						if st.where == 3 {
							s = testerCopy
						}
						name := names[st.name]
						f := [][]string{w.fields[name], worlds[0].fields[name], {"name"}}[st.fields]
						res.Steps++
						if m := w.check(s, name, f); m != "" {
							res.Fail = fmt.Sprintf("call %d: %s", i, m)
							return res
						}
						res.Outcome += fmt.Sprint(w.has(name, f, false), w.has(name, f, true))
					}
					// the schema is as usable as before
					if r := run(worlds[0].s, "{str}", yarql.ResolveOptions{}); r.JSON != `{"str":"s"}` && r.JSON != run(world(), "{str}", yarql.ResolveOptions{}).JSON {
						res.Fail = "request after the helpers: " + r.Raw
					}
					return res
				}}
			},
		},
	})
}

var testerCopy *yarql.Schema
