package main

import (
	"errors"
	"fmt"
	"strconv"

	"github.com/mjarkk/yarql"
)

// E09: every selected resolver runs exactly once and in document order

// the state the resolvers work on
var stReal, stModel int

func stAdd(st *int, n int) int { *st = (*st*3 + n) % 100003; return *st }

// SO is an object with resolvers
type SO struct {
	At   int
	F    func(args struct{ N int }) int
	Next *SO
	Subs []SO
}

// ResolveNow changes the state
func (o SO) ResolveNow() int { calls = append(calls, "SO.now"); return stAdd(&stReal, o.At) }

// ResolveAdd changes the state
func (o *SO) ResolveAdd(args struct{ N int }) int {
	calls = append(calls, "SO.add n="+strconv.Itoa(args.N))
	return stAdd(&stReal, args.N)
}

// ResolveMake makes another object
func (o SO) ResolveMake(args struct{ N int }) *SO {
	calls = append(calls, "SO.make n="+strconv.Itoa(args.N))
	stAdd(&stReal, args.N)
	return newSO(args.N)
}

// ResolveMany makes objects
func (o SO) ResolveMany() ([]SO, error) {
	calls = append(calls, "SO.many")
	stAdd(&stReal, 9)
	return []SO{*newSO(4), *newSO(5), *newSO(6)}, errors.New("many")
}

func newSO(at int) *SO {
	o := &SO{At: at}
	o.F = func(args struct{ N int }) int {
		calls = append(calls, "SO.f n="+strconv.Itoa(args.N))
		return stAdd(&stReal, args.N+at)
	}
	if at > 0 && at < 4 {
		o.Next = newSO(at - 1)
		o.Subs = []SO{*newSO(at - 1), {At: 0}}
	}
	return o
}

// SM is the mutation root
type SM struct{}

// ResolveNow changes the state
func (SM) ResolveNow() int { calls = append(calls, "SM.now"); return stAdd(&stReal, 3) }

// ResolveAdd changes the state
func (SM) ResolveAdd(args struct{ N int }) int {
	calls = append(calls, "SM.add n="+strconv.Itoa(args.N))
	return stAdd(&stReal, args.N)
}

// ResolveMake makes an object
func (SM) ResolveMake(args struct{ N int }) *SO {
	calls = append(calls, "SM.make n="+strconv.Itoa(args.N))
	stAdd(&stReal, args.N)
	return newSO(args.N)
}

// ResolveMany makes objects
func (SM) ResolveMany() ([]SO, error) {
	calls = append(calls, "SM.many")
	stAdd(&stReal, 9)
	return []SO{*newSO(4), *newSO(5), *newSO(6)}, errors.New("many")
}

var mSO = &MType{Name: "SO"}
var mSM = &MType{Name: "SM"}

func soMethods(at int, isObj bool) map[string]any {
	ml := func(n string, v any) any {
		if v == nil {
			return nil
		}
		return v
	}
	m := map[string]any{
		"now": func(c *Call) any {
			n := 3
			if isObj {
				n = at
			}
			return lint(stAdd(&stModel, n))
		},
		"make": func(c *Call) any { stAdd(&stModel, atoi(c.Args["n"])); return modelSO(atoi(c.Args["n"])) },
		"many": func(c *Call) any {
			stAdd(&stModel, 9)
			return ResolverErr{[]any{modelSO(4), modelSO(5), modelSO(6)}, "many"}
		},
		"add": func(c *Call) any { return ml("add", lint(stAdd(&stModel, atoi(c.Args["n"])))) },
	}
	return m
}

func modelSO(at int) *MObj {
	o := &MObj{T: mSO, F: soMethods(at, true)}
	delete(o.F, "add")
	o.F["at"] = lint(at)
	o.F["f"] = func(c *Call) any {
		c.Ex.res.Log = append(c.Ex.res.Log, "SO.f n="+c.Args["n"])
		return lint(stAdd(&stModel, atoi(c.Args["n"])+at))
	}
	o.F["next"] = nil
	o.F["subs"] = nil
	if at > 0 && at < 4 {
		o.F["next"] = modelSO(at - 1)
		zero := modelSO(0)
		zero.F["f"] = func(c *Call) any { return nil }
		o.F["subs"] = []any{modelSO(at - 1), zero}
	}
	return o
}

func init() {
	nArg := map[string]*InT{"n": tInt}
	mSO.Fields = fields(mf("at"), mf("next"), mf("subs"), &MField{Name: "f", Method: true, Args: nArg}, mm("now", nil), mm("make", nArg), mm("many", nil))
	mSM.Fields = fields(mm("now", nil), mm("make", nArg), mm("many", nil), mm("add", nArg))

	var stSchema *yarql.Schema
	st := func() *yarql.Schema {
		if stSchema == nil {
			stSchema = yarql.NewSchema()
			must(stSchema.Parse(*newSO(3), SM{}, nil))
		}
		return stSchema
	}
	stCase := func(d *Doc) *Case {
		return &Case{DescF: d.String, Run: func() Result {
			text := d.String()
			stReal, stModel = 1, 1
			ref := refExec(RefReq{Doc: d, Query: modelSO(3), Mutation: &MObj{T: mSM, F: soMethods(0, false)}, Directives: newScalarDirs()})
			s := st()
			s.MaxDepth = 255
			r := run(s, text, optsNone)
			if ref.Dup {
				ref.DontCare = true
			}
			fail := compare(ref, r)
			if fail == "" && stReal != stModel {
				fail = fmt.Sprintf("the state is %d, expected %d", stReal, stModel)
			}
			return Result{Fail: fail, Outcome: r.Raw, Steps: 1, Skip: ref.DontCare}
		}}
	}
	n := func(i int) Arg { return Arg{"n", vInt(fmt.Sprint(i))} }
	mkItems := func(i int, root string) []Sel {
		k := func(s Sel) Sel { return s.as(fmt.Sprintf("k%d", i)) }
		res := []Sel{
			k(fld("now")),
			k(fld("make", fld("now"), fld("at")).args(n(i + 1))),
			k(fld("many", fld("f").args(n(i)), fld("now"))),
			k(fld("make", fld("next", fld("now"), fld("next", fld("now"))), fld("now"), fld("subs", fld("now"), fld("f"))).args(n(3))),
			k(fld("now")).dir(dirIf("skip", vBool(true))),
			k(fld("now")).dir(dirIf("include", vBool(true))),
			inline(root, k(fld("now")), fld("make", fld("now")).args(n(7)).as(fmt.Sprintf("m%d", i))),
			inline("Other", k(fld("now"))),
			k(fld("make", fld("make", fld("now"), fld("many", fld("now"))).args(n(2)), fld("now")).args(n(1))),
			k(fld("many", fld("make", fld("at")).args(n(i)), fld("many", fld("now")))),
			k(fld("now", fld("at"))),
			k(fld("make", fld("now"), fld("nope"), fld("now").as("n2")).args(n(2))),
			spread("F").dir(dirIf("include", vBool(i%2 == 0))),
			k(fld("make", fld("now"), fld("make", fld("at")), fld("f"))),
		}
		if root == "SM" {
			return append(res, k(fld("add").args(n(i+5))), k(fld("add")))
		}
		return append(res, k(fld("f").args(n(i+5))), k(fld("subs", fld("now"), fld("f").args(n(2)), fld("next", fld("now")))))
	}
	cache := map[string][]Sel{}
	items := func(i int, root string) []Sel {
		k := fmt.Sprint(i) + root
		if cache[k] == nil {
			cache[k] = mkItems(i, root)
		}
		return cache[k]
	}
	register(&Property{
		ID: "E09",
		Bounds: map[string]string{
			"quick":    "every sequence of 1 to 5 out of 16 selections (methods with and without arguments, objects with methods, lists, fragments, directives, failing ones) in a mutation and of 1 to 4 out of 16 in a query, on resolvers that change a shared state in an order dependent way; 1..600 mutations in one request; chains of 1 to 256 nested objects (28 depths, thorough: every depth up to 260) through pairs of 8 ways to reach an object, with siblings and fragments",
			"thorough": "sequences of up to 6 and 5 selections",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				root, max, kind := "SM", 5, "mutation"
				if c.Bool() {
					root, max, kind = "SO", 4, "query"
				}
				if e.Thorough {
					max++
				}
				l := 1 + c.Choose(max)
				var sels []Sel
				for i := 0; i < l; i++ {
					it := items(i, root)
					sels = append(sels, it[c.Choose(len(it))])
				}
				return stCase(&Doc{Defs: []any{&Op{Kind: kind, Sel: sels}, frag("F", root, fld("now").as("fr"))}})
			},
			func(c *Chooser, e *Env) *Case {
				l := 1 + c.Choose(600)
				kind := c.Choose(3)
				var sels []Sel
				for i := 0; i < l; i++ {
					sels = append(sels, fld([]string{"now", "add", "make"}[(i*kind)%3]).as(fmt.Sprintf("k%d", i)))
					s := &sels[i]
					if s.Name != "now" {
						*s = s.args(n(i))
					}
					if s.Name == "make" {
						s.Sub, s.HasSub = []Sel{fld("now")}, true
					}
				}
				d := &Doc{Defs: []any{&Op{Kind: "mutation", Sel: sels}}}
				k := stCase(d)
				k.DescF = func() string { return fmt.Sprintf("%d mutations: %s", l, clip(d.String(), 200)) }
				return k
			},
			deepPart,
		},
	})
}
