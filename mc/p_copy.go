package main

import (
	"fmt"

	"github.com/mjarkk/yarql"
)

// E15: a copy of a schema answers exactly like the original

// nestKinds run another request in the middle
func nestKinds() []*reqKind {
	o := yarql.ResolveOptions{}
	vars := func(v string) yarql.ResolveOptions { return yarql.ResolveOptions{Variables: v} }
	return []*reqKind{
		{name: "nested plain", q: `{w{str} nest(s:"some text") w2:w{num list{n nope}}}`, opts: o},
		{name: "nested variables", q: `query A($a:String="dflt",$l:[String],$o:In1){nestL(l:$l){nest(o:$o){n nest(o:{s:$a,l:[1,2]}){n}} n} a:nest(s:$a)}`,
			opts: vars(`{"l":["p","qq"],"o":{"i":4,"s":"text","l":[3],"o":{"x":5},"e":"RED"}}`)},
		{name: "nested fragments", q: `{...F@nest(s:"f") ...G}fragment G on XQ{nest(s:"g") ...on XQ@nest(s:"i"){w{num}}}fragment F on XQ{w{obj{name kids@nest(s:"k"){n child{name}}}}}`, opts: o},
		{name: "nested skip", q: `{w@nest(s:"skip"){str}...F@nest(s:"skip") a:w{str@nest(s:"k")}}fragment F on XQ{w{num}}`, opts: o},
		{name: "nested traced", q: `{nestL(l:["a","b"]){n nest{n}} w{str}}`, opts: yarql.ResolveOptions{Tracing: true}},
		{name: "nested operation", q: `query A{w{str}}query B{x:nest(s:"\"text\"") err:w{err} __schema{directives{name}}}`, opts: yarql.ResolveOptions{OperatorTarget: "B"}},
		{name: "nested http", http: true, ct: "application/json", body: `[{"query":"query($a:String){nest(s:$a) in{str(a:$a)}}","variables":{"a":"vv"}},{"query":"{nestL(l:\"x\"){n} in{file(a:\"fileZ\")}}"}]`},
	}
}

func init() {
	var nk []*reqKind
	freshNest := map[string]string{}
	register(&Property{
		ID: "E15",
		Bounds: map[string]string{
			"quick":    "63 kinds of requests: every kind before the copy (or none) x every kind after it on the copy, its copy (chains of 1 and 3) and the original, every schema is asked at the end; every sequence of 5 operations out of copying any schema made so far and asking any of them one of 6 kinds; every type of 5 schemas, asked by name on a copy and the original, with the introspection run on the original before the copy, after it, or never; 7 kinds of requests that run each of the kinds on another copy from inside of a resolver or directive, also on one that is made in the middle",
			"thorough": "every triple of kinds; sequences of 6 operations with 8 kinds",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				ks := reqKinds()
				before := c.Choose(len(ks) + 1)
				chain := 1 + 2*c.Choose(2)
				if e.Thorough {
					chain = 1 + c.Choose(3)
				}
				mid := ks[c.Choose(len(ks))]
				last := ks[0]
				if e.Thorough {
					last = ks[c.Choose(len(ks))]
				}
				return &Case{DescF: func() string {
					b := "nothing"
					if before > 0 {
						b = ks[before-1].name
					}
					return fmt.Sprintf("%s, %d copies of each other, %s on the last, then %s on all", b, chain, mid.name, last.name)
				}, Run: func() Result {
					s := []*yarql.Schema{newWorld3Schema()}
					res := Result{}
					ask := func(i int, k *reqKind) bool {
						exp, got := k.fresh(), k.do(s[i])
						res.Steps++
						res.Outcome = clip(got, 200)
						res.Fail = diffOut(fmt.Sprintf("%s on schema %d differs from a new schema", k.name, i), exp, got)
						return res.Fail == ""
					}
					if before > 0 && !ask(0, ks[before-1]) {
						return res
					}
					for i := 0; i < chain; i++ {
						s = append(s, s[i].Copy())
					}
					if !ask(chain, mid) {
						return res
					}
					for i := range s {
						if !ask(i, last) {
							return res
						}
					}
					if !e.Thorough && !ask(0, mid) {
						return res
					}
					return res
				}}
			},
			func(c *Chooser, e *Env) *Case {
				names := []string{"introspection", "variables", "resolver errors", "interfaces", "directives", "values"}
				n := 5
				if e.Thorough {
					n = 6
					names = append(names, "http batch", "panic")
				}
				type op struct {
					slot int
					k    *reqKind
				}
				byName := func(n string) *reqKind {
					for _, k := range reqKinds() {
						if k.name == n {
							return k
						}
					}
					panic(n)
				}
				ops := []op{}
				slots := 1
				for i := 0; i < n; i++ {
					o := op{slot: c.Choose(slots)}
					x := 0
					if i == n-1 {
						x = 1 + c.Choose(len(names)) // a copy at the end is never asked
					} else {
						x = c.Choose(len(names) + 1)
					}
					if x > 0 {
						o.k = byName(names[x-1])
					} else {
						slots++
					}
					ops = append(ops, o)
				}
				return &Case{DescF: func() string {
					d := ""
					for _, o := range ops {
						if o.k == nil {
							d += fmt.Sprintf("copy %d; ", o.slot)
						} else {
							d += fmt.Sprintf("%s on %d; ", o.k.name, o.slot)
						}
					}
					return d
				}, Run: func() Result {
					s := []*yarql.Schema{newWorld3Schema()}
					res := Result{}
					for _, o := range ops {
						if o.k == nil {
							s = append(s, s[o.slot].Copy())
							continue
						}
						exp, got := o.k.fresh(), o.k.do(s[o.slot])
						res.Steps++
						res.Outcome = clip(got, 200)
						if res.Fail = diffOut(fmt.Sprintf("%s on schema %d differs from a new schema", o.k.name, o.slot), exp, got); res.Fail != "" {
							return res
						}
					}
					return res
				}}
			},
			// one request inside of another
			func(c *Chooser, e *Env) *Case {
				if nk == nil {
					nk = nestKinds()
				}
				ks := append(append([]*reqKind{}, reqKinds()...), nk...)
				out := nk[c.Choose(len(nk))]
				inner := ks[c.Choose(len(ks))]
				how := c.Choose(6)
				return &Case{DescF: func() string {
					return fmt.Sprintf("%s inside of %s, %s", inner.name, out.name, []string{"outer original", "outer copy", "two copies", "copy of the copy", "a copy of the original made in the middle", "a copy of the copy made in the middle"}[how])
				}, Run: func() Result {
					if _, ok := freshNest[out.name]; !ok {
						nestHook = nil
						freshNest[out.name] = out.do(newWorld3Schema())
					}
					nestHook = nil
					expInner := inner.do(newWorld3Schema())
					a := newWorld3Schema()
					var so, si *yarql.Schema
					switch how {
					case 0:
						so, si = a, a.Copy()
					case 1:
						so, si = a.Copy(), a
					case 2:
						so, si = a.Copy(), a.Copy()
					case 3:
						si = a.Copy()
						so = si.Copy()
					case 4:
						so = a
					case 5:
						so = a.Copy()
					}
					res := Result{}
					depth := 0
					nestHook = func() {
						if depth > 0 {
							return // the inner request has the same resolvers
						}
						depth++
						if how >= 4 {
							si = so.Copy()
						}
						got := inner.do(si)
						depth--
						res.Steps++
						if res.Fail == "" {
							res.Fail = diffOut("the inner request differs from the request alone", expInner, got)
						}
					}
					got := out.do(so)
					nestHook = nil
					res.Steps++
					res.Outcome = fmt.Sprint(res.Steps, clip(got, 200))
					if res.Fail == "" {
						res.Fail = diffOut("the last copy differs afterwards", expInner, inner.do(si))
					}
					if res.Fail == "" {
						res.Fail = diffOut("the outer request differs from the request alone", freshNest[out.name], got)
					}
					if res.Fail == "" && res.Steps < 2 {
						res.Fail = fmt.Sprintf("only %d nested requests", res.Steps-1)
					}
					return res
				}}
			},
			// the types of a copy, asked one by one before or after the original is asked
			func(c *Chooser, e *Env) *Case {
				w := introWorldList[c.Choose(len(introWorldList))]
				chain := 1 + 2*c.Choose(2)
				first := []string{"", typesQuery, fullIntrospection}[c.Choose(3)]
				mid := []string{"", typesQuery, fullIntrospection}[c.Choose(3)]
				names := w.typeNameList()
				name := names[c.Choose(len(names))]
				return &Case{DescF: func() string {
					return fmt.Sprintf("%s, %q on the original, %d copies of each other, %q on the original, the type %s on the last", w.name, clip(first, 20), chain, clip(mid, 20), name)
				}, Run: func() Result {
					nestHook = nil
					ctxScript = make([]int, 100)
					q := fmt.Sprintf(oneTypeQuery, name)
					a := w.new()
					exp := run(w.new(), q, yarql.ResolveOptions{}).JSON
					if first != "" {
						run(a, first, yarql.ResolveOptions{})
					}
					b := a
					for i := 0; i < chain; i++ {
						b = b.Copy()
					}
					if mid != "" {
						run(a, mid, yarql.ResolveOptions{})
					}
					res := Result{Steps: 2, Outcome: clip(exp, 200)}
					if res.Fail = diffOut("the type of the copy differs from the one of a new schema", exp, run(b, q, yarql.ResolveOptions{}).JSON); res.Fail == "" {
						res.Fail = diffOut("the type of the original differs from the one of a new schema", exp, run(a, q, yarql.ResolveOptions{}).JSON)
					}
					return res
				}}
			},
			// settings of one schema are not those of another
			func(c *Chooser, e *Env) *Case {
				ks := reqKinds()
				k := ks[c.Choose(len(ks))]
				depth := c.Choose(4)
				which := c.Choose(2)
				return &Case{DescF: func() string { return fmt.Sprintf("MaxDepth %d on schema %d, %s on both", depth, which, k.name) }, Run: func() Result {
					a := newWorld3Schema()
					a.MaxDepth = uint8(depth)
					b := a.Copy()
					res := Result{Steps: 2}
					ref := k.do(a)
					got := k.do(b)
					res.Outcome = clip(got, 200)
					if res.Fail = diffOut("the copy does not have the maximum depth of the original", ref, got); res.Fail != "" {
						return res
					}
					x, y := a, b
					if which == 1 {
						x, y = b, a
					}
					x.MaxDepth = 12
					z := 0
					x.SetCacheRules(&z)
					if res.Fail = diffOut("changed maximum depth", k.fresh(), k.do(x)); res.Fail != "" {
						return res
					}
					res.Fail = diffOut("the maximum depth of the other schema was changed", ref, k.do(y))
					return res
				}}
			},
		},
	})
}

const typesQuery = `{__schema{types{name fields{name}}}}`
const oneTypeQuery = `{__type(name:%q){kind name description fields(includeDeprecated:true){name description isDeprecated args{name type{...R}}type{...R}}inputFields{name type{...R}}interfaces{name fields{name}}enumValues(includeDeprecated:true){name}possibleTypes{name fields{name}}}}
fragment R on __Type{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}`

// typeNameList lists the names of all types
func (w *introWorld) typeNameList() []string {
	if w.allNames == nil {
		is, e := introspect(w.new())
		if e != "" {
			panic(e)
		}
		for _, t := range is.Types {
			w.allNames = append(w.allNames, t.Name)
		}
		w.allNames = append(w.allNames, "nope")
	}
	return w.allNames
}
