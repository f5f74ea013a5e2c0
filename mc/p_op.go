package main

import (
	"fmt"
	"strings"
)

// E06: exactly the requested operation is executed

func init() {
	names := []string{"A", "AB", "B", "b", "A_1", "query", "on"}
	targets := []string{"", "A", "AB", "B", "b", "A_1", "query", "on", "ABC", "a", "Q", " A", "A ", "A\x00", "mutation", "{", "F"}
	d4 := vInt("4")
	bodies := []struct {
		kind string
		vars []VarDef
		sels []Sel
	}{
		{"query", nil, []Sel{fld("fnStr")}},
		{"query", []VarDef{{"v", "Int", nil}}, []Sel{fld("num2").args(Arg{"a", vVar("v")}), fld("str")}},
		{"query", []VarDef{{"w", "Int", nil}, {"v", "Int!", &d4}}, []Sel{fld("num2").args(Arg{"b", vVar("v")}), spread("F")}},
		{"mutation", nil, []Sel{withArgs(fld("setA"), 3), fld("fail")}},
		{"mutation", []VarDef{{"v", "Int!", nil}}, []Sel{fld("setA").args(Arg{"v", vVar("v")})}},
		{"subscription", nil, []Sel{fld("fnStr")}},
	}
	mk := func(i int, name string) *Op {
		b := bodies[i]
		return &Op{Kind: b.kind, Name: name, Vars: b.vars, Sel: b.sels}
	}
	f := frag("F", "Q1", fld("err"), fld("num2").args(Arg{"a", vVar("v")}).as("x"))
	f2 := frag("A", "Q1", fld("fnStr").as("y"))
	register(&Property{
		ID: "E06",
		Bounds: map[string]string{
			"quick":    "1 to 3 operations out of 6 (query, mutation, subscription, with and without variables) x 7 names per operation (all different) x 17 requested names x 4 placements of 2 fragments; names of 1..254 bytes against near misses; 1..300 operations",
			"thorough": "the quick space with 4 operations out of 4 bodies x 5 names",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(3)
				bn := len(bodies)
				nn := len(names)
				if e.Thorough && c.Bool() {
					n, bn, nn = 4, 4, 5
				}
				var ops []any
				used := map[string]bool{}
				for i := 0; i < n; i++ {
					b := c.Choose(bn)
					name := names[c.Choose(nn)]
					if used[name] {
						return nil
					}
					used[name] = true
					ops = append(ops, mk(b, name))
				}
				t := targets[c.Choose(len(targets))]
				if t == "" && n > 1 {
					return nil
				}
				var defs []any
				switch c.Choose(4) {
				case 0:
					defs = append(ops, f, f2)
				case 1:
					defs = append([]any{f, f2}, ops...)
				case 2:
					defs = append([]any{ops[0], f2, f}, ops[1:]...)
				case 3:
					defs = append(append(append([]any{f}, ops[:n-1]...), f2), ops[n-1])
				}
				return docCase(&Doc{Defs: defs}, t, `{"v":7}`, 0)
			},
			// without a name
			func(c *Chooser, e *Env) *Case {
				o := mk(c.Choose(len(bodies)), "")
				if o.Kind == "query" && o.Vars == nil && c.Bool() {
					o.Kind = ""
				}
				defs := [][]any{{o, f}, {f, o}, {f2, o, f}}[c.Choose(3)]
				return docCase(&Doc{Defs: defs}, targets[c.Choose(len(targets))], `{"v":7}`, 0)
			},
			// no operation at all
			func(c *Chooser, e *Env) *Case {
				defs := [][]any{{}, {f}, {f, f2}, {frag("query", "Q1", fld("str"))}}[c.Choose(4)]
				return docCase(&Doc{Defs: defs}, targets[c.Choose(len(targets))], "", 0)
			},
			// name lengths
			func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(254)
				base := strings.Repeat("N", n)
				other := []string{base + "N", base[1:], base[:n-1] + "M", "M" + base[1:], strings.ToLower(base), base + "_"}[c.Choose(6)]
				if other == "" || len(other) > 254 {
					return nil
				}
				a, b := mk(0, base), mk(3, other)
				defs := []any{a, b}
				if c.Bool() {
					defs = []any{b, a}
				}
				t := []string{base, other, base + "x", base + base}[c.Choose(4)]
				k := docCase(&Doc{Defs: defs}, t, "", 0)
				k.Desc = fmt.Sprintf("operations of %d and %d bytes, requested %d bytes: %s", len(base), len(other), len(t), clip(k.desc(), 200))
				return k
			},
			// many operations
			func(c *Chooser, e *Env) *Case {
				n := []int{1, 2, 3, 10, 64, 255, 256, 257, 300}[c.Choose(9)]
				k := []int{0, 1, n / 2, n - 1, n}[c.Choose(5)]
				var defs []any
				for i := 0; i < n; i++ {
					o := &Op{Kind: "query", Name: fmt.Sprintf("Op%d", i), Sel: []Sel{fld("num2").args(Arg{"a", vInt(fmt.Sprint(i))}), spread(fmt.Sprintf("F%d", i))}}
					fr := frag(fmt.Sprintf("F%d", i), "Q1", fld("num2").args(Arg{"b", vInt(fmt.Sprint(i))}).as("x"))
					if i%2 == 0 {
						defs = append(defs, o, fr)
					} else {
						defs = append(defs, fr, o)
					}
				}
				cs := docCase(&Doc{Defs: defs}, fmt.Sprintf("Op%d", k), "", 0)
				cs.Desc = fmt.Sprintf("%d operations, requested Op%d", n, k)
				return cs
			},
		},
	})

	// E10: the depth limit
	register(&Property{
		ID: "E10",
		Bounds: map[string]string{
			"quick":    "maximum depth 1..40 and 250..255 x selections nested through 8 kinds of fields (objects, pointers, lists, methods, interfaces, fragments) to every depth from 1 to max+3; every mix of 6 kinds per level to depth 5 x maximum 1..7",
			"thorough": "maximum depth 1..255, every mix of 8 kinds per level to depth 6",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			// one kind
			func(c *Chooser, e *Env) *Case {
				max := 1 + c.Choose(255)
				if !e.Thorough && max > 40 && max < 250 {
					return nil
				}
				off := c.Choose(7) - 3
				n := max - 1 + off // selection sets below the root
				if n < 0 {
					return nil
				}
				kind := c.Choose(6)
				cur := []Sel{fld("str").as("end")}
				for i := 0; i < n; i++ {
					switch kind {
					case 0:
						cur = []Sel{fld("self", cur...)}
					case 1:
						cur = []Sel{inline("Q1", fld("self", inline("Q1", cur...)))}
					case 2:
						cur = []Sel{fld("num").as("x"), fld("self", cur...).as(fmt.Sprintf("s%d", i)), fld("flag").as("y")}
					case 3:
						if i == 0 {
							cur = []Sel{fld("name").as("end")}
						}
						f := "mid"
						if i == n-1 {
							f = "obj"
						} else {
							f = "child"
						}
						cur = []Sel{fld(f, cur...)}
					case 5:
						cur = []Sel{fld("self", fld("obj", fld("n")).as("o"), inline("Q1", cur...))}
					}
				}
				if kind == 4 {
					// the deepest selections are in a fragment
					in := []Sel{fld("str").as("end")}
					for i := 0; i < n/2; i++ {
						in = []Sel{fld("self", in...)}
					}
					out := []Sel{spread("F")}
					for i := n / 2; i < n; i++ {
						out = []Sel{fld("self", out...)}
					}
					return depthCase(&Doc{Defs: []any{&Op{Kind: "query", Sel: out}, frag("F", "Q1", in...)}}, max)
				}
				return depthCase(query(append(cur, fld("num"))...), max)
			},
			// mixes
			func(c *Chooser, e *Env) *Case {
				max := 1 + c.Choose(7)
				n := 5
				if e.Thorough {
					n = 6
				}
				var build func(t string, left int) []Sel
				build = func(t string, left int) []Sel {
					leaf := map[string]string{"Q1": "str", "A1": "n", "N1": "own", "N2": "extra", "Node": "label"}[t]
					if left == 0 {
						return []Sel{fld(leaf)}
					}
					switch t {
					case "Q1":
						switch c.Choose(7) {
						case 0:
							return []Sel{fld("self", build("Q1", left-1)...)}
						case 1:
							return []Sel{fld("list", build("A1", left-1)...), fld("num")}
						case 2:
							return []Sel{fld("faces", build("Node", left-1)...)}
						case 3:
							return []Sel{fld("LL", build("A1", left-1)...)}
						case 4:
							return []Sel{fld("mobj", build("A1", left-1)...)}
						case 5:
							return []Sel{inline("Q1", fld("self", build("Q1", left-1)...))}
						default:
							return []Sel{fld("str")}
						}
					case "A1":
						switch c.Choose(4) {
						case 0:
							return []Sel{fld("child", build("A1", left-1)...)}
						case 1:
							return []Sel{fld("n"), fld("kids", build("A1", left-1)...), fld("name")}
						case 2:
							return []Sel{inline("A1", fld("child", build("A1", left-1)...))}
						default:
							return []Sel{fld("n")}
						}
					case "Node":
						switch c.Choose(3) {
						case 0:
							return []Sel{fld("__typename"), inline("N2", fld("nodes", build("Node", left-1)...))}
						case 1:
							return []Sel{inline("N1", fld("sub", build("A1", left-1)...)), fld("label")}
						default:
							return []Sel{fld("label")}
						}
					}
					return nil
				}
				return depthCase(query(build("Q1", n)...), max)
			},
		},
	})
}

// depthCase compares with the reference and, if the document is not too deep, with the answer without a limit
func depthCase(d *Doc, max int) *Case {
	k := docCase(d, "", "", max)
	k.Desc = fmt.Sprintf("maxDepth=%d %s", max, clip(d.String(), 300))
	return k
}
