package main

import (
	"fmt"
	"strings"

	"github.com/mjarkk/yarql"
)

// E05: directives decide exactly the selection they are written on

func dirIf(name string, v Val) Dir { return Dir{name, []Arg{{"if", v}}} }

var dirChoices = []Dir{
	dirIf("skip", vBool(true)), dirIf("skip", vBool(false)), dirIf("include", vBool(true)), dirIf("include", vBool(false)),
	{"plain", nil}, {"fieldOnly", nil}, {"hideAbove", []Arg{{"n", vInt("2")}, {"max", vInt("1")}}}, {"hideAbove", []Arg{{"max", vInt("3")}, {"n", vInt("2")}}},
	{"hideAbove", []Arg{{"n", vInt("1")}}}, {"hideAbove", nil},
	{"nope", nil}, {"ski", nil}, {"skipp", []Arg{{"if", vBool(true)}}}, {"Skip", nil},
	{"skip", []Arg{{"nope", vBool(true)}}}, {"skip", []Arg{{"if", vStr("true")}}}, {"plain", []Arg{{"x", vInt("1")}}}, {"deprecated", nil},
	dirIf("skip", vVar("t")), dirIf("include", vVar("f")), dirIf("include", vVar("u")), {"mix", nil}, {"mix2", nil},
}

// dirHosts are the places of a directive
var dirHosts = []func(ds []Dir) *Doc{
	func(ds []Dir) *Doc { return query(fld("num2").args(Arg{"a", vInt("4")}).dir(ds...)) },
	func(ds []Dir) *Doc {
		return query(fld("str"), fld("num2").args(Arg{"a", vInt("4")}).as("x").dir(ds...), fld("num"))
	},
	func(ds []Dir) *Doc {
		return query(fld("mobj", fld("bad").as("k"), fld("n")).dir(ds...), fld("fnStr"))
	},
	func(ds []Dir) *Doc {
		return query(fld("list", fld("bad").dir(ds...), fld("n"), fld("child", fld("name").dir(ds...))), fld("fnStr"))
	},
	func(ds []Dir) *Doc {
		return query(fld("LL", fld("n"), fld("name").dir(ds...)), fld("err"))
	},
	func(ds []Dir) *Doc {
		return query(inline("Q1", fld("num"), fld("err")).dir(ds...), fld("str"))
	},
	func(ds []Dir) *Doc {
		return query(fld("str"), inline("A1", fld("n")).dir(ds...), fld("num"))
	},
	func(ds []Dir) *Doc {
		return query(fld("str"), inline("", fld("err"), fld("mobj", inline("", fld("bad").as("k")).dir(ds...), fld("n"))).dir(ds...), fld("num"))
	},
	func(ds []Dir) *Doc {
		d := query(fld("str"), spread("F").dir(ds...), fld("num"))
		d.Defs = append(d.Defs, frag("F", "Q1", fld("err"), fld("fnStr")))
		return d
	},
	func(ds []Dir) *Doc {
		d := query(fld("faces", spread("F").dir(ds...), fld("label")), fld("num"))
		d.Defs = append(d.Defs, frag("F", "N1", fld("own")))
		return d
	},
	func(ds []Dir) *Doc {
		d := query(fld("num"), spread("F"), fld("str"))
		d.Defs = append([]any{frag("F", "Q1", fld("err").dir(ds...), fld("obj", fld("n").dir(ds...), fld("name")).as("o"))}, d.Defs...)
		return d
	},
	func(ds []Dir) *Doc {
		d := query(spread("Nope").dir(ds...), fld("str"))
		return d
	},
	func(ds []Dir) *Doc {
		return query(fld("nope").dir(ds...), fld("str"))
	},
	func(ds []Dir) *Doc {
		return query(fld("__typename").dir(ds...), fld("faces", fld("__typename").dir(ds...), inline("N2", fld("nodes", fld("label").dir(ds...))).dir(ds...)))
	},
	func(ds []Dir) *Doc {
		return &Doc{Defs: []any{&Op{Kind: "mutation", Sel: []Sel{withArgs(fld("setA"), 1), fld("fail").dir(ds...), withArgs(fld("setB", fld("name")), 2).dir(ds...)}}}}
	},
	func(ds []Dir) *Doc {
		// a nested selection behind a skipped one with the same key
		return query(fld("obj", fld("n")).as("k").dir(dirIf("skip", vBool(true))), fld("ptr", fld("name")).as("k").dir(ds...), fld("str"))
	},
}

var dirVars = []VarDef{{"t", "Boolean", nil}, {"f", "Boolean!", func() *Val { v := vBool(false); return &v }()}, {"x", "Int", nil}}

func dirDoc(d *Doc) *Doc {
	for _, x := range d.Defs {
		if o, ok := x.(*Op); ok {
			if o.Kind == "" {
				o.Kind = "query"
			}
			o.Vars = dirVars
		}
	}
	return d
}

// manyDirs is a schema with 80 directives
var manyDirsSchema *yarql.Schema
var manyDirsRef map[string]*RefDirective

func manyDirName(i int) string {
	switch {
	case i < 26:
		return strings.Repeat(string(rune('a'+i)), 1+i)
	case i < 40:
		return "d" + fmt.Sprint(i)
	case i < 60:
		return "D" + strings.Repeat("_", i-39)
	}
	return strings.Repeat("x", i*3)
}

func manyDirs() *yarql.Schema {
	if manyDirsSchema != nil {
		return manyDirsSchema
	}
	s := yarql.NewSchema()
	must1(s.RegisterEnum(colorMap))
	must1(s.RegisterEnum(sizeMap))
	must1(s.RegisterEnum(levelMap))
	manyDirsRef = newScalarDirs()
	locs := []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}
	for i := 0; i < 80; i++ {
		name := manyDirName(i)
		where := []yarql.DirectiveLocation{}
		w := ""
		for b := 0; b < 3; b++ {
			if (i+1)>>b&1 == 1 {
				where = append(where, locs[b])
				w += "fsi"[b : b+1]
			}
		}
		skip := i%3 == 0
		if len(where) == 0 {
			where, w = locs, "fsi"
		}
		must(s.RegisterDirective(yarql.Directive{Name: name, Where: where, Method: func(args struct{ X, Y int }) yarql.DirectiveModifier {
			return yarql.DirectiveModifier{Skip: skip != (args.X == i) && args.Y != i}
		}}))
		manyDirsRef[name] = &RefDirective{Where: w, Args: map[string]*InT{"x": tInt, "y": tInt}, Skip: func(a map[string]string) bool {
			return skip != (atoi(a["x"]) == i) && atoi(a["y"]) != i
		}}
	}
	must(s.Parse(dataQ(), M1{}, nil))
	manyDirsSchema = s
	return s
}

func init() {
	run1 := func(c *Chooser, n int) *Case {
		h := dirHosts[c.Choose(len(dirHosts))]
		var ds []Dir
		for i := 0; i < n; i++ {
			ds = append(ds, dirChoices[c.Choose(len(dirChoices))])
		}
		vars := c.Pick(`{"t":true,"x":5}`, `{"t":false,"f":true}`, `{}`)
		return docCase(dirDoc(h(ds)), "", vars, 0)
	}
	register(&Property{
		ID: "E05",
		Bounds: map[string]string{
			"quick":    "up to 3 of 23 directives (skip, include, custom ones, wrong places, names and arguments, variables) in every order on 15 kinds of hosts x 3 variable sets; every combination of 12 directives on 4 neighbouring selections; 0..255 directives on one selection; a schema with 80 directives x every location x argument; registration: 3800 names (every byte, pairs of special characters, every length), 39 methods x every set of places, every sequence of up to 3 out of 56 registrations, original and copy, each followed by the use in every place",
			"thorough": "the quick space with every combination of 23 directives on 3 neighbouring selections and up to 4 directives on one",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case { return run1(c, 0) },
			func(c *Chooser, e *Env) *Case { return run1(c, 1) },
			func(c *Chooser, e *Env) *Case { return run1(c, 2) },
			func(c *Chooser, e *Env) *Case { return run1(c, 3) },
			func(c *Chooser, e *Env) *Case {
				if !e.Thorough {
					return nil
				}
				return run1(c, 4)
			},
			// neighbours
			func(c *Chooser, e *Env) *Case {
				pool := append([]Dir{{}}, dirChoices[:10]...)
				pool = append(pool, dirChoices[10])
				n := 4
				if e.Thorough && c.Bool() {
					pool = append([]Dir{{}}, dirChoices...)
					n = 3
				}
				kind := c.Choose(3)
				var sels []Sel
				for i := 0; i < n; i++ {
					var s Sel
					switch (i + kind) % 3 {
					case 0:
						s = fld("num2").args(Arg{"a", vInt(fmt.Sprint(i))}).as(fmt.Sprintf("k%d", i))
					case 1:
						s = inline("Q1", fld("mobj", fld("bad")).as(fmt.Sprintf("k%d", i)))
					case 2:
						s = spread(fmt.Sprintf("F%d", i))
					}
					if d := pool[c.Choose(len(pool))]; d.Name != "" {
						s = s.dir(d)
					}
					sels = append(sels, s)
				}
				doc := dirDoc(query(sels...))
				for i := 0; i < n; i++ {
					doc.Defs = append(doc.Defs, frag(fmt.Sprintf("F%d", i), "Q1", fld("err").as(fmt.Sprintf("k%d", i))))
				}
				return docCase(doc, "", `{"t":true}`, 0)
			},
			// many directives on a selection
			func(c *Chooser, e *Env) *Case {
				n := c.Choose(256)
				var ds []Dir
				for i := 0; i < n; i++ {
					ds = append(ds, Dir{"plain", nil})
				}
				if n > 0 {
					switch c.Choose(4) {
					case 1:
						ds[n-1] = dirIf("skip", vBool(true))
					case 2:
						ds[n/2] = dirIf("include", vBool(false))
					case 3:
						ds[0] = dirIf("skip", vVar("t"))
					}
				}
				host := dirHosts[[]int{1, 3, 5, 7}[c.Choose(4)]]
				k := docCase(dirDoc(host(ds)), "", `{"t":true}`, 0)
				k.Desc = fmt.Sprintf("%d directives: %s", n, clip(k.desc(), 200))
				return k
			},
			// registration
			regNamePart, regMethodPart, regSeqPart,
			// many registered directives
			func(c *Chooser, e *Env) *Case {
				i := c.Choose(80)
				j := c.Choose(80)
				if j > i+2 && j%9 != 0 && !e.Thorough {
					return nil
				}
				h := dirHosts[[]int{1, 5, 7}[c.Choose(3)]]
				var args []Arg
				switch c.Choose(4) {
				case 1:
					args = []Arg{{"x", vInt(fmt.Sprint(i))}}
				case 2:
					args = []Arg{{"y", vInt(fmt.Sprint(i))}, {"x", vVar("x")}}
				case 3:
					args = []Arg{{"x", vInt(fmt.Sprint(j))}, {"y", vInt(fmt.Sprint(j))}}
				}
				d := dirDoc(h([]Dir{{manyDirName(i), args}, {manyDirName(j), nil}}))
				text := d.String()
				vars := fmt.Sprintf(`{"x":%d}`, i)
				return &Case{Desc: text + " variables=" + vars, Run: func() Result {
					s := manyDirs()
					world()
					ref := refExec(RefReq{Doc: d, Variables: vars, Query: worldQ, Mutation: worldM, Directives: manyDirsRef})
					r := run(s, text, yarql.ResolveOptions{Variables: vars})
					return Result{Fail: compare(ref, r), Outcome: r.Raw, Steps: 1, Skip: ref.DontCare}
				}}
			},
		},
	})
}
