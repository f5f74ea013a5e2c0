package main

import (
	"fmt"
	"strings"
)

// E04: fragments behave exactly like their selections written in place

func frag(name, on string, sels ...Sel) *Frag { return &Frag{Name: name, On: on, Sel: sels} }

var typeConds = []string{"Q1", "A1", "N1", "N2", "Node", "Other", "Nope"}

// typeCondOr is a type condition of an inline fragment, that can also be left out
func typeCondOr(c *Chooser) string {
	k := c.Choose(len(typeConds) + 1)
	if k == 0 {
		return ""
	}
	return typeConds[k-1]
}

func init() {
	opBodies := [][]Sel{
		{spread("F")},
		{fld("str").as("o1"), spread("F"), fld("num").as("o2")},
		{inline("Q1", spread("F"), fld("str").as("o1")), spread("H")},
		{fld("obj", fld("n").as("o3"), spread("G")).as("o4"), fld("str").as("o1")},
		{fld("faces", spread("G"), fld("__typename").as("o5")).as("o6")},
		{spread("H"), spread("F"), fld("list", spread("G")).as("o7"), spread("H").dir(Dir{"skip", []Arg{{"if", vBool(true)}}})},
		{fld("list", fld("name").as("o8"), spread("G"), fld("kids", spread("H")).as("o9")).as("o7"), spread("F")},
		{spread("F"), spread("Nope"), spread("H")},
		{fld("fnObj", spread("G"), spread("H")).args(Arg{"name", vStr("x")}), fld("nil", spread("G"))},
		{fld("str").as("o1")},
		{spread("FF"), fld("err").as("o2")},
		{inline("A1", spread("F")), inline("Q1", inline("Q1", spread("F"))), fld("num").as("o2")},
	}
	fBodies := [][]Sel{
		{fld("str").as("f1")},
		{fld("num").as("f2"), spread("G")},
		{spread("G"), fld("fl").as("f3"), spread("H")},
		{fld("obj", spread("H"), fld("up").as("f4").args(Arg{"x", vInt("2")})).as("f5"), fld("err").as("f6")},
		{inline("Q1", fld("flag").as("f7"), spread("H")), fld("str").as("f1")},
		{spread("F")},
		{fld("self", spread("H"), fld("str").as("f1")).as("f8")},
		{fld("name").as("f9")},
	}
	gBodies := [][]Sel{
		{fld("name").as("g1"), fld("n").as("g2")},
		{fld("child", spread("H"), fld("n").as("g2")).as("g3")},
		{fld("label").as("g4"), inline("N2", fld("extra").as("g5"))},
		{spread("H"), fld("__typename").as("g6")},
		{spread("F"), fld("str").as("g7")},
		{fld("own").as("g8")},
		{fld("n").as("g2"), fld("bad").as("g9")},
	}
	hBodies := [][]Sel{
		{fld("n").as("h1")},
		{fld("kids", fld("n").as("h1")).as("h2"), fld("name").as("h3")},
		{spread("G")},
		{spread("F"), fld("__typename").as("h4")},
		{fld("__typename").as("h4")},
		{fld("str").as("h5"), inline("A1", fld("n").as("h1"))},
	}
	register(&Property{
		ID: "E04",
		Bounds: map[string]string{
			"quick":    "12 operations x 8 bodies x 3 type conditions of fragment F x 7 x 4 of G x 6 x 4 of H x 4 orders of the definitions; inline fragments nested to depth 3 with 7 type conditions or none around every object kind; 1..300 fragments with overlapping names; chains of up to 1000 spreads",
			"thorough": "the quick space with 6 type conditions per fragment and all 24 orders, inline fragments nested to depth 4",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				ob := opBodies[c.Choose(len(opBodies))]
				fOn, gOn, hOn := []string{"Q1", "A1", "Node"}, []string{"A1", "Node", "N2", "Q1"}, []string{"A1", "Q1", "N1", "Nope"}
				if e.Thorough {
					fOn, gOn, hOn = []string{"Q1", "A1", "Node", "Q"}, []string{"A1", "Node", "N2", "Q1", "Other", "N1"}, []string{"A1", "Q1", "N1", "Nope", "Node", "A"}
				}
				f := frag("F", fOn[c.Choose(len(fOn))], fBodies[c.Choose(len(fBodies))]...)
				g := frag("G", gOn[c.Choose(len(gOn))], gBodies[c.Choose(len(gBodies))]...)
				h := frag("H", hOn[c.Choose(len(hOn))], hBodies[c.Choose(len(hBodies))]...)
				o := &Op{Kind: "query", Name: "O", Sel: ob}
				d := &Doc{}
				if e.Thorough {
					d.Defs = permute([]any{o, f, g, h}, c.Choose(24))
				} else {
					switch c.Choose(4) {
					case 0:
						d.Defs = []any{o, f, g, h}
					case 1:
						d.Defs = []any{h, g, f, o}
					case 2:
						d.Defs = []any{g, o, h, f}
					case 3:
						d.Defs = []any{f, h, o, g}
					}
				}
				return docCase(d, "", "", 0)
			},
			// nested inline fragments
			func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(3)
				if e.Thorough {
					n = 1 + c.Choose(4)
				}
				top := c.Choose(4)
				leaf := []Sel{fld("__typename").as("z")}
				cur := leaf
				where := c.Choose(4)
				for i := 0; i < n; i++ {
					in := inline(typeCondOr(c), cur...)
					cur = []Sel{in}
					if where&1 != 0 {
						cur = append([]Sel{fld("__typename").as(fmt.Sprintf("a%d", i))}, cur...)
					}
					if where&2 != 0 {
						cur = append(cur, fld("__typename").as(fmt.Sprintf("b%d", i)))
					}
				}
				var d *Doc
				switch top {
				case 0:
					d = query(append(cur, fld("str").as("end"))...)
				case 1:
					d = query(fld("list", cur...), fld("str").as("end"))
				case 2:
					d = query(fld("faces", cur...), fld("str").as("end"))
				case 3:
					// the inner fragments are named fragments
					d = query(fld("faces", spread("X")), spread("X").dir(Dir{"skip", []Arg{{"if", vBool(false)}}}), fld("str").as("end"))
					d.Defs[0].(*Op).Kind = "query"
					d.Defs = append(d.Defs, frag("X", typeConds[c.Choose(len(typeConds))], cur...))
				}
				return docCase(d, "", "", 0)
			},
			// many fragments with overlapping names
			func(c *Chooser, e *Env) *Case {
				ns := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300}
				n := ns[c.Choose(len(ns))]
				k := c.Choose(7)
				naming := c.Choose(4)
				name := func(i int) string {
					switch naming {
					case 0:
						return fmt.Sprintf("f%d", i)
					case 1:
						return "F" + strings.Repeat("a", i%250) + fmt.Sprint(i/250)
					case 2:
						return fmt.Sprintf("%dx", n-i)[0:0] + "x" + fmt.Sprintf("%03d", (i*7)%1000) + "F"
					default:
						return strings.Repeat("Z", 200) + fmt.Sprint(i)
					}
				}
				pick := []int{0, n / 2, n - 1, n / 3, n, (n * 3) / 4, n - 2}[k]
				if pick < 0 {
					return nil
				}
				o := &Op{Kind: "query", Sel: []Sel{spread(name(pick)), fld("str").as("end")}}
				d := &Doc{Defs: []any{o}}
				for i := 0; i < n; i++ {
					d.Defs = append(d.Defs, frag(name(i), "Q1", fld("num2").as(fmt.Sprintf("k%d", i)).args(Arg{"b", vInt(fmt.Sprint(i))})))
				}
				if c.Bool() {
					d.Defs = append(d.Defs[1:], o)
				}
				return docCase(d, "", "", 0)
			},
			// near misses of a fragment name
			func(c *Chooser, e *Env) *Case {
				names := []string{"Foo", "Fo", "Fooo", "foo", "FoO", "F", "oo", "Foo_", "_Foo", "Foo1", "FooBar", "BarFoo"}
				a, b, use := names[c.Choose(len(names))], names[c.Choose(len(names))], names[c.Choose(len(names))]
				if a == b {
					return nil
				}
				d := &Doc{Defs: []any{
					frag(a, "Q1", fld("str").as("fa")),
					&Op{Kind: "query", Sel: []Sel{spread(use), fld("num")}},
					frag(b, "Q1", fld("str").as("fb"), inline("Q1", fld("num").as("fb2"))),
				}}
				return docCase(d, "", "", 0)
			},
			// near misses of a type name
			func(c *Chooser, e *Env) *Case {
				on := c.Pick("Q1", "Q", "Q11", "q1", "1", "_Q1", "Query", "Nod", "Node", "Nodes", "N", "N1", "N12", "A", "A1", "Othe", "Other", "String", "__Type")
				var s Sel
				d := &Doc{}
				if c.Bool() {
					s = inline(on, fld("__typename").as("x"))
				} else {
					s = spread("F")
					d.Defs = append(d.Defs, frag("F", on, fld("__typename").as("x")))
				}
				if on == "1" {
					return nil
				}
				d.Defs = append(d.Defs, &Op{Kind: "query", Sel: []Sel{s, fld("obj", s, fld("n")), fld("faces", s, fld("__typename")), fld("face2", s), fld("num")}})
				return docCase(d, "", "", 0)
			},
			// chains and cycles
			func(c *Chooser, e *Env) *Case {
				ns := []int{1, 2, 3, 4, 5, 10, 50, 100, 254, 255, 256, 257, 300, 1000}
				n := ns[c.Choose(len(ns))]
				end := c.Choose(5)
				through := c.Choose(3)
				order := c.Bool()
				d := &Doc{}
				var frags []any
				for i := 0; i < n; i++ {
					var next []Sel
					if i+1 < n {
						next = []Sel{spread(fmt.Sprintf("f%d", i+1))}
					} else {
						switch end {
						case 0:
							next = []Sel{fld("str").as("last")}
						case 1:
							next = []Sel{spread("f0")}
						case 2:
							next = []Sel{spread(fmt.Sprintf("f%d", n/2))}
						case 3:
							next = []Sel{spread("nope")}
						case 4:
							next = []Sel{fld("str").as("last"), inline("A1", spread("f0"))}
						}
					}
					switch through {
					case 1:
						next = []Sel{inline("Q1", next...)}
					case 2:
						next = append(append([]Sel{fld("num").as(fmt.Sprintf("a%d", i))}, next...), fld("num").as(fmt.Sprintf("b%d", i)))
					}
					frags = append(frags, frag(fmt.Sprintf("f%d", i), "Q1", next...))
				}
				if order {
					for i, j := 0, len(frags)-1; i < j; i, j = i+1, j-1 {
						frags[i], frags[j] = frags[j], frags[i]
					}
				}
				d.Defs = append(d.Defs, &Op{Kind: "query", Sel: []Sel{spread("f0"), fld("num").as("end")}})
				d.Defs = append(d.Defs, frags...)
				k := docCase(d, "", "", 0)
				k.Desc = clip(k.desc(), 300)
				return k
			},
			// a fragment used at many places
			func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(6)
				body := [][]Sel{
					{fld("n"), fld("name")},
					{fld("kids", fld("n"), fld("bad")), fld("n")},
					{fld("up").args(Arg{"x", vInt("1")}), fld("child", fld("name"))},
					{inline("Node", fld("label")), inline("A1", fld("n"))},
					{fld("nope")},
				}[c.Choose(5)]
				var sels []Sel
				for i := 0; i < n; i++ {
					f := []string{"obj", "list", "faces", "mlist", "LL", "errObj", "nil", "str"}[c.Choose(8)]
					if f == "str" {
						sels = append(sels, fld("str").as(fmt.Sprintf("k%d", i)))
						continue
					}
					sels = append(sels, fld(f, spread("F")).as(fmt.Sprintf("k%d", i)))
				}
				d := &Doc{Defs: []any{&Op{Kind: "query", Sel: sels}, frag("F", "A1", body...)}}
				if n > 4 && !e.Thorough {
					return nil
				}
				return docCase(d, "", "", 0)
			},
		},
	})
}

// permute returns the k-th permutation
func permute(l []any, k int) []any {
	l = append([]any{}, l...)
	var res []any
	for len(l) > 0 {
		i := k % len(l)
		k /= len(l)
		res = append(res, l[i])
		l = append(l[:i], l[i+1:]...)
	}
	return res
}
