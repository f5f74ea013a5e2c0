package main

import (
	"fmt"
	"strings"

	"github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/bytecode"
)

// E12: a request is answered as if it was the first one on a fresh schema

func diffOut(what, exp, got string) string {
	if exp == got {
		return ""
	}
	i := 0
	for i < len(exp) && i < len(got) && exp[i] == got[i] {
		i++
	}
	if i > 200 {
		i -= 200
	} else {
		i = 0
	}
	return fmt.Sprintf("%s\n expected ...%s\n observed ...%s", what, clip(exp[i:], 1200), clip(got[i:], 1200))
}

func seqDesc(l []*reqKind) string {
	d := ""
	for _, k := range l {
		d += " > " + k.name
	}
	return d[3:]
}

func seqCase(l []*reqKind, mk func() *yarql.Schema) *Case {
	return &Case{DescF: func() string { return seqDesc(l) }, Run: func() (res Result) {
		for _, k := range l {
			k.fresh()
		}
		s := mk()
		holdStart()
		defer func() {
			if f := holdEnd(); f != "" && res.Fail == "" {
				res.Fail = f
			}
		}()
		for i, k := range l {
			exp := k.fresh()
			got := k.do(s)
			res.Steps++
			res.Outcome = clip(got, 200)
			if f := diffOut(fmt.Sprintf("request %d (%s) is not answered as on a fresh schema", i+1, k.name), exp, got); f != "" {
				res.Fail = f
				return res
			}
		}
		return res
	}}
}

func init() {
	var shared *yarql.Schema
	register(&Property{
		ID: "E12",
		Bounds: map[string]string{
			"quick":    "every sequence of 1 and 2 out of 63 kinds of requests on a fresh schema each; every sequence of 3, and of 4 out of 32 kinds, on a schema that was used for all requests before it; each compared with the answer on a fresh schema: response bytes, errors, calls and arguments of resolvers; every pair of 8 kinds of nesting (selections, fragments, lists, objects, types, ...) 0..3 levels above the limit followed by 0..2 below it on one parser",
			"thorough": "every sequence of 3 on a fresh schema each as well, every sequence of 4 of all kinds",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				ks := reqKinds()
				n := 1 + c.Choose(2)
				if e.Thorough {
					n += c.Choose(2)
				}
				l := make([]*reqKind, n)
				for i := range l {
					l[i] = ks[c.Choose(len(ks))]
				}
				return seqCase(l, newWorld3Schema)
			},
			func(c *Chooser, e *Env) *Case {
				ks := reqKinds()
				n := 3
				if c.Bool() {
					n = 4
					if !e.Thorough {
						ks = ks[:32]
					}
				}
				l := make([]*reqKind, n)
				for i := range l {
					l[i] = ks[c.Choose(len(ks))]
				}
				return seqCase(l, func() *yarql.Schema {
					if shared == nil {
						shared = newWorld3Schema()
					}
					return shared
				})
			},
			// documents around the limits of nesting
			func(c *Chooser, e *Env) *Case {
				first, over := c.Choose(len(nestings)), c.Choose(4)
				second, under := c.Choose(len(nestings)), c.Choose(3)
				return &Case{Desc: fmt.Sprintf("%s, %d deeper than allowed, then %s, %d below the limit", nestings[first].name, over, nestings[second].name, under), Run: func() (res Result) {
					lim, lim2 := nestings[first].limit(), nestings[second].limit()
					if lim == 0 || lim2 == 0 {
						return Result{Outcome: "no limit"}
					}
					p := bytecode.NewParserCtx()
					for i := 0; i < 2; i++ {
						p.Query = append(p.Query[:0], nestings[first].doc(lim+over)...)
						p.ParseQueryToBytecode(nil)
						if (len(p.Errors) > 0) != (over > 0) {
							return Result{Fail: fmt.Sprintf("a document with a nesting of %d has the errors %v, the first document of a parser can have %d", lim+over, p.Errors, lim)}
						}
						p.Query = append(p.Query[:0], nestings[second].doc(lim2-under)...)
						p.ParseQueryToBytecode(nil)
						if len(p.Errors) > 0 {
							return Result{Fail: fmt.Sprintf("a document with a nesting of %d is refused (%s), the first document of a parser can have %d", lim2-under, p.Errors[0], lim2)}
						}
					}
					return Result{Steps: 4, Outcome: fmt.Sprint(lim, lim2)}
				}}
			},
		},
	})
}

type nesting struct {
	name, before, open, mid, close, after string
	lim                                   int
}

func (n *nesting) doc(i int) string {
	return n.before + strings.Repeat(n.open, i) + n.mid + strings.Repeat(n.close, i) + n.after
}

// limit is how deep the first document of a parser can be nested, 0 if there is no limit
func (n *nesting) limit() int {
	if n.lim == 0 {
		ok := func(i int) bool {
			p := bytecode.NewParserCtx()
			p.Query = append(p.Query[:0], n.doc(i)...)
			p.ParseQueryToBytecode(nil)
			return len(p.Errors) == 0
		}
		lo, hi := 1, 60000
		if ok(hi) {
			return 0
		}
		for lo+1 < hi {
			if m := (lo + hi) / 2; ok(m) {
				lo = m
			} else {
				hi = m
			}
		}
		n.lim = lo
	}
	return n.lim
}

var nestings = []*nesting{
	{name: "selections", open: "{a", mid: "{b}", close: "}"},
	{name: "inline fragments", before: "{", open: "...{", mid: "a", close: "}", after: "}"},
	{name: "fragment", before: "{a}fragment F on T", open: "{a", mid: "{b}", close: "}"},
	{name: "lists", before: "{a(x:", open: "[", mid: "1", close: "]", after: ")}"},
	{name: "objects", before: "{a(x:", open: "{a:", mid: "1", close: "}", after: ")}"},
	{name: "argument of a directive", before: "{a@d(x:", open: "[", mid: "", close: "]", after: ")}"},
	{name: "default", before: "query($a:T=", open: "[{b:", mid: "1", close: "}]", after: "){a}"},
	{name: "type", before: "query($a:", open: "[", mid: "T", close: "]", after: "){a}"},
}
