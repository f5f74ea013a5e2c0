package main

import (
	"fmt"
	"strings"

	"github.com/mjarkk/yarql"
)

// E13: the bytecode cache is invisible

// KQ is the query root
type KQ struct {
	A, B, C int
	O       *KQ
	F       func(args struct {
		X int
		S string
	}) string
}

// KM is the mutation root
type KM struct{ A int }

func newCacheSchema(threshold int) *yarql.Schema {
	f := func(args struct {
		X int
		S string
	}) string {
		calls = append(calls, fmt.Sprint("KQ.f ", args.X, " ", args.S))
		return fmt.Sprint(args.X, args.S)
	}
	s := yarql.NewSchema()
	must(s.Parse(KQ{A: 1, B: 2, C: 3, F: f, O: &KQ{A: 4, B: 5, C: 6, F: f}}, KM{7}, &yarql.SchemaOptions{SkipGraphqlTypesInjection: true}))
	s.SetCacheRules(&threshold)
	return s
}

const noCache = 1 << 60

type cacheReq struct {
	q, op, vars string
}

func (r cacheReq) String() string {
	s := strings.TrimSpace(clip(r.q, 120))
	if r.op != "" {
		s += " op=" + r.op
	}
	if r.vars != "" {
		s += " vars=" + r.vars
	}
	return s
}

func (r cacheReq) do(s *yarql.Schema) string {
	calls = calls[:0]
	errs := s.Resolve([]byte(r.q), yarql.ResolveOptions{OperatorTarget: r.op, Variables: r.vars})
	return string(s.Result) + fmt.Sprint(errStrings(errs), calls)
}

var cacheRef = map[cacheReq]string{}

// uncached is the answer of a schema that never caches
func (r cacheReq) uncached() string {
	if v, ok := cacheRef[r]; ok {
		return v
	}
	v := r.do(newCacheSchema(noCache))
	if len(cacheRef) < 100000 {
		cacheRef[r] = v
	}
	return v
}

func cacheSeq(threshold int, l []cacheReq, desc func() string) *Case {
	return &Case{DescF: func() string {
		if desc != nil {
			return desc()
		}
		d := fmt.Sprintf("cache from length %d", threshold)
		for _, r := range l {
			d += " > " + r.String()
		}
		return d
	}, Run: func() Result {
		s := newCacheSchema(threshold)
		res := Result{}
		for i, r := range l {
			exp := r.uncached()
			got := r.do(s)
			res.Steps++
			if f := diffOut(fmt.Sprintf("request %d (%s) has another answer with the cache", i+1, r), exp, got); f != "" {
				res.Fail = f
				return res
			}
			res.Outcome = got
		}
		return res
	}}
}

func init() {
	small := []cacheReq{
		{q: `{a}`}, {q: `{b}`}, {q: `{d}`}, {q: `{a`}, {q: `{a}`, op: "A"},
		{q: `query A{a}query B{b}`}, {q: `query A{a}query B{b}`, op: "A"}, {q: `query A{a}query B{b}`, op: "B"}, {q: `query A{a}query B{b}`, op: "C"},
		{q: `query B{a}query A{b}`, op: "A"}, {q: `query B{a}query A{b}`, op: "B"}, {q: `query A{a}query B{b)`, op: "A"},
		{q: `{...F}fragment F on KQ{a o{...G}}fragment G on KQ{b}`}, {q: `{...F}fragment F on KQ{b o{...G}}fragment G on KQ{a}`},
		{q: `{...F}fragment G on KQ{a o{...F}}fragment F on KQ{b}`}, {q: `{...H}fragment F on KQ{a o{...G}}fragment G on KQ{b}`},
		{q: `query($v:Int=3){f(x:$v)}`}, {q: `query($v:Int=3){f(x:$v)}`, vars: `{"v":9}`}, {q: `query($v:Int=4){f(x:$v)}`}, {q: `query($v:Int=3){f(x:$w)}`},
		{q: `{f(x:1,s:"ab")}`}, {q: `{f(x:1,s:"a\u0062")}`}, {q: `{f(x:2,s:"cd")}`},
		{q: `mutation A{a}query B{b}`, op: "A"}, {q: `mutation A{a}query B{b}`, op: "B"}, {q: `mutation A{a}query B{b}`}, {q: ``}, {q: ` `},
		{q: `{o{a@skip(if:true)b}}`}, {q: `{o{a@skip(if:false)}}`},
	}
	named := func(length, i int) cacheReq {
		q := fmt.Sprintf("{k%d:a o{j%d:b}}", i, i)
		if len(q) < length {
			q += strings.Repeat(" ", length-len(q))
		}
		return cacheReq{q: q}
	}
	var sharedCached *yarql.Schema
	register(&Property{
		ID: "E13",
		Bounds: map[string]string{
			"quick":    "every sequence of up to 4 out of 30 requests (same and different lengths, operation names, variables, fragments, errors) with the cache threshold 0; 1..46 documents of one length followed by every one of them again; 90..215 lengths followed by all of them again; every length 295..305 with the default threshold and every threshold around the length; every sequence of 3 out of 63 kinds of requests with threshold 0; each compared with a schema that never caches",
			"thorough": "sequences of up to 5 out of the 30 requests",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				n := 4
				if e.Thorough {
					n = 5
				}
				l := []cacheReq{}
				for i := 0; i < n; i++ {
					x := c.Choose(len(small))
					l = append(l, small[x])
				}
				return cacheSeq(0, l, nil)
			},
			func(c *Chooser, e *Env) *Case {
				// many documents of one length
				n := 1 + c.Choose(46)
				j := c.Choose(n)
				again := c.Bool()
				return cacheSeq(0, func() (l []cacheReq) {
					for i := 0; i < n; i++ {
						l = append(l, named(60, i))
					}
					for i := 0; i < 3; i++ {
						l = append(l, named(60, j))
					}
					if again {
						for i := n - 1; i >= 0; i-- {
							l = append(l, named(60, i))
						}
					}
					return
				}(), func() string { return fmt.Sprintf("%d documents of one length, then number %d again", n, j) })
			},
			func(c *Chooser, e *Env) *Case {
				// many lengths
				n := 90 + c.Choose(126)
				down := c.Bool()
				return cacheSeq(0, func() (l []cacheReq) {
					for round := 0; round < 2; round++ {
						for i := 0; i < n; i++ {
							x := i
							if down && round == 1 {
								x = n - 1 - i
							}
							l = append(l, named(40+x, x))
						}
					}
					return
				}(), func() string { return fmt.Sprintf("%d documents of different lengths, twice", n) })
			},
			func(c *Chooser, e *Env) *Case {
				// around the threshold
				length := 295 + c.Choose(11)
				threshold := 296 + c.Choose(9)
				def := c.Choose(3)
				pos := c.Choose(3) // the byte that differs
				var l []cacheReq
				for i := 0; i < 2; i++ {
					for j := 0; j < 3; j++ {
						f := string(rune('a' + j))
						var q string
						pad := length - 3
						switch pos {
						case 0:
							q = "{" + f + "}" + strings.Repeat(" ", pad)
						case 1:
							q = "{" + strings.Repeat(" ", pad/2) + f + strings.Repeat(" ", pad-pad/2) + "}"
						case 2:
							q = strings.Repeat(" ", pad) + "{" + f + "}"
						}
						l = append(l, cacheReq{q: q}, cacheReq{q: q})
					}
				}
				k := cacheSeq(threshold, l, func() string {
					return fmt.Sprintf("documents of length %d that differ at place %d, threshold %d (%d)", length, pos, threshold, def)
				})
				run := k.Run
				if def > 0 {
					k.Run = func() Result {
						s := newCacheSchema(0)
						if def == 1 {
							s = yarql.NewSchema()
							must(s.Parse(KQ{A: 1, B: 2, C: 3}, KM{7}, nil))
						} else {
							s.SetCacheRules(&threshold)
							s.SetCacheRules(nil)
						}
						res := Result{}
						for i, r := range l {
							res.Steps++
							exp, got := r.uncached(), r.do(s)
							if f := diffOut(fmt.Sprintf("request %d (%s) has another answer with the cache", i+1, r), exp, got); f != "" {
								res.Fail = f
								return res
							}
						}
						return res
					}
				} else {
					k.Run = run
				}
				return k
			},
			func(c *Chooser, e *Env) *Case {
				ks := reqKinds()
				l := make([]*reqKind, 3)
				for i := range l {
					l[i] = ks[c.Choose(len(ks))]
				}
				return seqCase(l, func() *yarql.Schema {
					if sharedCached == nil {
						sharedCached = newWorld3Schema()
						z := 0
						sharedCached.SetCacheRules(&z)
					}
					return sharedCached
				})
			},
		},
	})
}
