package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/mjarkk/yarql/bytecode"
)

// B01: a document is compiled to exactly its bytecode
//
// encDoc writes down the layout that is described by bytecode_instructions.go
// (0 [action] ...) for the documents of the harness, independent of the parser.

type bcEnc struct {
	b      []byte
	frags  []int
	target int
	ops    int
}

func (e *bcEnc) put(b ...byte)  { e.b = append(e.b, b...) }
func (e *bcEnc) str(s string)   { e.b = append(e.b, s...) }
func (e *bcEnc) hole() int      { e.put(0, 0, 0, 0); return len(e.b) }
func (e *bcEnc) fill(after int) { binary.LittleEndian.PutUint32(e.b[after-4:], uint32(len(e.b)-after)) }
func (e *bcEnc) end()           { e.put(0, 'e') }
func (e *bcEnc) flag(on bool)   { e.put(map[bool]byte{true: 't', false: 'f'}[on]) }
func (e *bcEnc) name(s string)  { e.put(byte(len(s))); e.str(s) }
func (e *bcEnc) dirs(ds []Dir) {
	for _, d := range ds {
		e.put(0, 'd')
		e.flag(len(d.Args) > 0)
		e.str(d.Name)
		if len(d.Args) > 0 {
			e.val(Val{K: 'o', O: d.Args})
		}
	}
}

func (e *bcEnc) typ(s string) {
	if s[0] == '[' {
		c := byte('l')
		if s[len(s)-1] == '!' {
			c, s = 'L', s[:len(s)-1]
		}
		e.put(c)
		e.typ(s[1 : len(s)-1])
		return
	}
	c := byte('n')
	if s[len(s)-1] == '!' {
		c, s = 'N', s[:len(s)-1]
	}
	e.put(c)
	e.str(s)
}

func (e *bcEnc) val(v Val) {
	k := v.K
	if k == 'B' {
		k = 's'
	}
	e.put(0, 'v', k)
	at := e.hole()
	switch v.K {
	case 'i', 'f':
		s := strings.ReplaceAll(v.S, "_", "")
		s = strings.ReplaceAll(s, "+", "")
		e.str(strings.ReplaceAll(s, "e", "E"))
	case 's', 'B', 'e', '$':
		e.str(v.S)
	case 'b':
		e.put(map[string]byte{"true": '1', "false": '0'}[v.S])
	case 'l':
		for _, i := range v.L {
			e.val(i)
		}
		e.end()
	case 'o':
		for _, a := range v.O {
			e.put(0, 'u')
			e.str(a.Name)
			e.val(a.Val)
		}
		e.end()
	}
	e.fill(at)
}

func (e *bcEnc) sels(ss []Sel) {
	for _, s := range ss {
		if s.Kind != 'f' {
			e.put(0, 's')
			e.flag(s.Kind == 'i')
			e.put(byte(len(s.Dirs)))
			at := e.hole()
			e.str(s.Name)
			e.dirs(s.Dirs)
			if s.Kind == 'i' {
				e.sels(s.Sub)
				e.end()
			}
			e.fill(at)
			continue
		}
		e.put(0, 'f', byte(len(s.Dirs)))
		at := e.hole()
		h := fnv.New32()
		h.Write([]byte(s.Name))
		e.b = binary.LittleEndian.AppendUint32(e.b, h.Sum32())
		start := len(e.b)
		if s.Alias != "" {
			e.name(s.Alias)
			e.name(s.Name)
		} else {
			e.name(s.Name)
			e.put(0)
		}
		e.dirs(s.Dirs)
		if len(s.Args) > 0 {
			e.val(Val{K: 'o', O: s.Args})
		}
		e.sels(s.Sub)
		e.end()
		binary.LittleEndian.PutUint32(e.b[at-4:], uint32(len(e.b)-start))
	}
}

func encDoc(d *Doc, target string) *bcEnc {
	e := &bcEnc{target: -1}
	for _, def := range d.Defs {
		switch v := def.(type) {
		case *Op:
			e.ops++
			if target == "" || target == v.Name {
				e.target = len(e.b)
			}
			k := v.Kind
			if k == "" {
				k = "query"
			}
			e.put(0, 'o', k[0])
			e.flag(len(v.Vars) > 0)
			e.put(byte(len(v.Dirs)))
			e.str(v.Name)
			if len(v.Vars) > 0 {
				e.put(0)
				at := e.hole()
				e.put(0, 'A')
				for _, a := range v.Vars {
					e.put(0, 'a')
					arg := e.hole()
					e.str(a.Name)
					e.put(0)
					e.typ(a.Type)
					e.put(0)
					e.flag(a.Def != nil)
					if a.Def != nil {
						e.val(*a.Def)
					}
					// the length of an argument counts from its action
					binary.LittleEndian.PutUint32(e.b[arg-4:], uint32(len(e.b)-arg+5))
				}
				e.end()
				e.fill(at)
			}
			e.dirs(v.Dirs)
			e.sels(v.Sel)
			e.end()
		case *Frag:
			e.frags = append(e.frags, len(e.b)+1)
			e.put(0, 'F')
			e.str(v.Name)
			e.put(0)
			e.str(v.On)
			e.sels(v.Sel)
			e.end()
		}
	}
	return e
}

// bcCompare compares what the parser left behind with the expected bytecode
func bcCompare(p *bytecode.ParserCtx, e *bcEnc, target string) string {
	if len(p.Errors) > 0 {
		return fmt.Sprintf("a correct document is refused: %v", p.Errors)
	}
	if !bytes.Equal(p.Res, e.b) {
		i := 0
		for i < len(p.Res) && i < len(e.b) && p.Res[i] == e.b[i] {
			i++
		}
		from := max(0, i-40)
		return fmt.Sprintf("the bytecode differs at %d: ...%q, expected ...%q (%d and %d bytes)", i, p.Res[from:min(len(p.Res), i+40)], e.b[from:min(len(e.b), i+40)], len(p.Res), len(e.b))
	}
	locs := fmt.Sprint(p.FragmentLocations)
	if locs != fmt.Sprint(e.frags) {
		return fmt.Sprintf("fragments at %s, expected %v", locs, e.frags)
	}
	if p.TargetIdx != e.target && (target != "" || e.ops < 2) {
		return fmt.Sprintf("operation at %d, expected %d", p.TargetIdx, e.target)
	}
	return ""
}

var bcShared = bytecode.NewParserCtx() // has parsed everything before the case

func bcParse(p *bytecode.ParserCtx, text, target string) {
	p.Query = append(p.Query[:0], text...)
	if target == "" {
		p.ParseQueryToBytecode(nil)
	} else {
		p.ParseQueryToBytecode(&target)
	}
}

func bcCase(d *Doc, target string) *Case {
	return &Case{
		DescF: func() string { return fmt.Sprintf("bytecode of %s (operation %q)", clip(d.String(), 4000), target) },
		Run: func() Result {
			e := encDoc(d, target)
			toks := d.tokens()
			for _, text := range []string{joinTokens(toks, " "), sepAll(toks, "\n")} {
				// a new parser and one that was used before
				for i, p := range []*bytecode.ParserCtx{bytecode.NewParserCtx(), bcShared} {
					bcParse(p, text+" ", target)
					if f := bcCompare(p, e, target); f != "" {
						return Result{Fail: fmt.Sprintf("%s (%s)", f, []string{"new parser", "used parser"}[i])}
					}
				}
			}
			return Result{Steps: 4, Outcome: string(e.b)}
		},
	}
}

// bcRefused is a document that must not be accepted, a default with a variable in it
func bcRefused(d *Doc) *Case {
	return &Case{
		DescF: func() string { return fmt.Sprintf("bytecode of %s must be refused", clip(d.String(), 4000)) },
		Run: func() Result {
			text := joinTokens(d.tokens(), " ")
			for i, p := range []*bytecode.ParserCtx{bytecode.NewParserCtx(), bcShared} {
				bcParse(p, text, "")
				if len(p.Errors) == 0 {
					return Result{Fail: fmt.Sprintf("a default with a variable is accepted (%s)", []string{"new parser", "used parser"}[i])}
				}
			}
			return Result{Steps: 2, Outcome: "refused"}
		},
	}
}

// hasVar tells if there is a variable in the value
func (v Val) hasVar() bool {
	for _, w := range v.L {
		if w.hasVar() {
			return true
		}
	}
	for _, f := range v.O {
		if f.Val.hasVar() {
			return true
		}
	}
	return v.K == '$'
}

var bcVals = []Val{vInt("0"), vInt("-12"), vInt("+1_0"), vFloat("1.5"), vFloat("-0.5e-3"), vFloat("1e+2"), vFloat("1_0.2_5E1_0"), vStr(""), vStr("a b"), vStr("\"\\\n"), {K: 'B', S: "b c"}, vBool(true), vBool(false), vNull(),
	vEnum("RED"), vEnum("trueish"), vEnum("nullable"), vEnum("f"), vVar("v"), vVar("on"), vList(), vObj()}

// bcVal chooses a value with up to depth levels
func bcVal(c *Chooser, depth, width int, leafs []Val) Val {
	k := 0
	if depth > 1 {
		k = c.Choose(3)
	}
	switch k {
	case 1:
		n := 1 + c.Choose(width)
		v := Val{K: 'l'}
		for i := 0; i < n; i++ {
			v.L = append(v.L, bcVal(c, depth-1, width, leafs))
		}
		return v
	case 2:
		n := 1 + c.Choose(width)
		v := Val{K: 'o'}
		for i := 0; i < n; i++ {
			v.O = append(v.O, Arg{[]string{"a", "bc"}[i%2], bcVal(c, depth-1, width, leafs)})
		}
		return v
	}
	return leafs[c.Choose(len(leafs))]
}

func bcType(c *Chooser, depth int) string {
	t := ""
	if depth > 0 && c.Bool() {
		t = "[" + bcType(c, depth-1) + "]"
	} else {
		t = c.Pick("Int", "_T9")
	}
	if c.Bool() {
		t += "!"
	}
	return t
}

var bcDirs = [][]Dir{nil, {{Name: "d"}}, {{Name: "skip", Args: []Arg{{"if", vBool(true)}}}, {Name: "x_1"}}, {{Name: "e", Args: []Arg{{"a", vList(vObj(Arg{"k", vVar("v")}))}, {"b", vStr(")")}}}}}

// bcSels chooses selections with together exactly n nodes
func bcSels(c *Chooser, n int, dirs bool) []Sel {
	var res []Sel
	for n > 0 {
		size := 1 + c.Choose(n) // the nodes of the next selection
		var s Sel
		sub := []Sel(nil)
		switch c.Choose(6) {
		case 0:
			s = fld("a")
		case 1:
			s = fld("ab").as("a")
		case 2:
			s = fld("on").args(Arg{"x", vInt("1")})
		case 3:
			s = fld("query").as("fragment").args(Arg{"y", vObj(Arg{"z", vList()})}, Arg{"null", vNull()})
		case 4:
			if size > 1 {
				return nil
			}
			s = spread("F")
		case 5:
			if size == 1 {
				s = spread("on1")
			} else {
				s = inline(c.Pick("T", ""))
			}
		}
		if size > 1 {
			sub = bcSels(c, size-1, dirs)
			if sub == nil {
				return nil
			}
			s.Sub, s.HasSub = sub, true
		}
		if dirs {
			s.Dirs = bcDirs[c.Choose(len(bcDirs))]
			if s.Dirs != nil && len(s.Args) > 0 {
				// behind a directive without arguments the arguments are those of the directive
				s.DirsFirst = c.Bool() && len(s.Dirs[len(s.Dirs)-1].Args) > 0
			}
		}
		res = append(res, s)
		n -= size
	}
	return res
}

func init() {
	one := []Sel{fld("a")}
	register(&Property{
		ID: "B01",
		Bounds: map[string]string{
			"quick":    "every value of 22 leafs to depth 2 with up to 2 items (to depth 3 of 4 leafs), as an argument, an argument of a directive and a default; every type of up to 3 lists, with and without !, pairs of variables; every tree of up to 4 selections of 6 kinds, of up to 3 with 4 lists of directives in both places; every sequence of up to 4 of 9 operations and fragments x 6 requested names; names of 1..254 bytes in 10 places; values, lists, objects, selections and variable definitions of 200 B to 17 MB; up to 255 directives; sequences of 3 out of 14 documents on one parser, with and without the cache",
			"thorough": "trees of up to 5 selections, of up to 4 with directives, sequences of up to 5 definitions, values to depth 3 with 9 leafs",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			// values
			func(c *Chooser, e *Env) *Case {
				where := c.Choose(4)
				var v Val
				if c.Bool() {
					v = bcVal(c, 2, 2, bcVals)
				} else {
					leafs := []Val{vInt("7"), vStr("e"), vNull(), vVar("v")}
					if e.Thorough {
						leafs = append(leafs, vList(), vObj(), vBool(true), vEnum("e"), vFloat("1.0"))
					}
					v = bcVal(c, 3, 2, leafs)
				}
				op := &Op{Kind: "query", Sel: one}
				switch where {
				case 0:
					op.Sel = []Sel{fld("a", fld("b")).args(Arg{"x", v}, Arg{"y", vInt("1")})}
				case 1:
					op.Sel = []Sel{fld("a").args(Arg{"w", vInt("1")}, Arg{"x", v}).dir(Dir{"d", []Arg{{"x", v}}})}
				case 2:
					op.Vars = []VarDef{{"a", "Int", &v}, {"b", "[Int!]", nil}}
					if v.hasVar() {
						return bcRefused(&Doc{Defs: []any{op}})
					}
				case 3:
					op.Dirs = []Dir{{"d", []Arg{{"x", v}}}}
				}
				return bcCase(&Doc{Defs: []any{op}}, "")
			},
			// variables
			func(c *Chooser, e *Env) *Case {
				n := c.Choose(3)
				op := &Op{Kind: c.Pick("query", "mutation", "subscription"), Name: c.Pick("", "N"), Sel: one, Dirs: bcDirs[c.Choose(len(bcDirs))]}
				for i := 0; i < n; i++ {
					d := 3
					if n == 2 {
						d = 2
					}
					vd := VarDef{Name: []string{"v", "query"}[i], Type: bcType(c, d)}
					switch c.Choose(3) {
					case 1:
						v := vInt("1")
						vd.Def = &v
					case 2:
						v := vList(vObj(Arg{"a", vStr("e")}))
						vd.Def = &v
					}
					op.Vars = append(op.Vars, vd)
				}
				return bcCase(&Doc{Defs: []any{op}}, op.Name)
			},
			// selections
			func(c *Chooser, e *Env) *Case {
				dirs := c.Bool()
				n := 4
				if dirs {
					n = 3
				}
				if e.Thorough {
					n++
				}
				s := bcSels(c, c.Choose(n+1), dirs)
				if c.Bool() {
					return bcCase(&Doc{Defs: []any{&Op{Sel: s}}}, "")
				}
				return bcCase(&Doc{Defs: []any{frag("F", "T", s...), &Op{Kind: "mutation", Name: "M", Sel: s}}}, "M")
			},
			// definitions
			func(c *Chooser, e *Env) *Case {
				n := 4
				if e.Thorough {
					n = 5
				}
				n = c.Choose(n + 1)
				v := vInt("3")
				all := []any{&Op{Sel: one}, &Op{Kind: "query", Name: "A", Sel: []Sel{fld("b", spread("A"))}}, &Op{Kind: "mutation", Name: "AB", Vars: []VarDef{{"v", "[Int]!", &v}}, Sel: one},
					&Op{Kind: "subscription", Name: "query", Sel: one}, &Op{Kind: "query", Sel: one, Dirs: bcDirs[3]}, &Op{Kind: "query", Name: "B"},
					frag("A", "T", one...), frag("AB", "on"), frag("query", "mutation", fld("q", one...))}
				d := &Doc{}
				used := map[int]bool{}
				for i := 0; i < n; i++ {
					k := c.Choose(len(all))
					if used[k] {
						return nil
					}
					used[k] = true
					d.Defs = append(d.Defs, all[k])
				}
				return bcCase(d, c.Pick("", "A", "AB", "query", "B", "nope"))
			},
			// names
			func(c *Chooser, e *Env) *Case {
				n := strings.Repeat("N", 1+c.Choose(254))
				v := vEnum(n)
				op := &Op{Kind: "query", Name: "Q", Sel: one}
				d := &Doc{Defs: []any{op, frag("F", "T", one...)}}
				target := "Q"
				switch c.Choose(10) {
				case 0:
					op.Name, target = n, n
				case 1:
					op.Vars = []VarDef{{n, "T", nil}}
				case 2:
					op.Vars = []VarDef{{"v", n, &v}}
				case 3:
					op.Sel = []Sel{fld(n, one...)}
				case 4:
					op.Sel = []Sel{fld("x", one...).as(n)}
				case 5:
					op.Sel = []Sel{fld(n).as("x").args(Arg{n, vVar(n)})}
				case 6:
					op.Sel = []Sel{fld("x").dir(Dir{n, []Arg{{"a", v}}})}
				case 7:
					op.Sel = []Sel{spread(n), inline(n, fld(n).as(n)), fld("y")}
				case 8:
					d.Defs[1] = frag(n, "T", one...)
				case 9:
					d.Defs[1] = frag("F", n, one...)
				}
				k := bcCase(d, target)
				k.DescF = nil
				k.Desc = fmt.Sprintf("name of %d bytes in %s", len(n), clip(d.String(), 300))
				return k
			},
			// sizes
			func(c *Chooser, e *Env) *Case {
				sizes := []int{200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 2047, 2048, 2049, 4096, 65000, 65500, 65520, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65600, 70000, 1 << 20, 17 << 20}
				n := sizes[c.Choose(len(sizes))]
				kind := c.Choose(7)
				target := c.Pick("", "Q")
				return &Case{Desc: fmt.Sprintf("part %d of the document has about %d bytes, operation %q", kind, n, target), Run: func() Result {
					op := &Op{Kind: "query", Name: "Q", Sel: one}
					last := &Op{Kind: "query", Name: "R", Sel: one}
					d := &Doc{Defs: []any{op, frag("F", "T", one...)}}
					if target != "" {
						d.Defs = append(d.Defs, last)
					}
					switch kind {
					case 0:
						op.Sel = []Sel{fld("a", one...).args(Arg{"x", vStr(strings.Repeat("s", n))}, Arg{"y", vInt("1")}), fld("z")}
					case 1:
						v := vList()
						for i := 0; i < n/8; i++ {
							v.L = append(v.L, vInt("1"))
						}
						op.Sel = []Sel{fld("a").args(Arg{"x", v})}
					case 2:
						v := vObj()
						for i := 0; i < n/10; i++ {
							v.O = append(v.O, Arg{"k", vNull()})
						}
						op.Vars = []VarDef{{"v", "T", &v}, {"w", "T", nil}}
					case 3:
						var s []Sel
						for i := 0; i < n/16; i++ {
							s = append(s, fld("b"))
						}
						op.Sel = []Sel{fld("a", s...), fld("z")}
					case 4:
						var s []Sel
						for i := 0; i < n/16; i++ {
							s = append(s, spread("F"))
						}
						op.Sel = []Sel{inline("T", s...), fld("z")}
					case 5:
						for i := 0; i < n/12; i++ {
							op.Vars = append(op.Vars, VarDef{"v", "T", nil})
						}
					case 6:
						op.Dirs = []Dir{{"d", []Arg{{"x", vStr(strings.Repeat("s", n))}}}}
						op.Sel = []Sel{fld("a").dir(op.Dirs...)}
					}
					return bcCase(d, target).Run()
				}}
			},
			// directives
			func(c *Chooser, e *Env) *Case {
				n := []int{1, 2, 127, 128, 254, 255}[c.Choose(6)]
				var ds []Dir
				for i := 0; i < n; i++ {
					ds = append(ds, bcDirs[1+i%3]...)
				}
				ds = ds[:n]
				op := &Op{Kind: "query", Sel: []Sel{fld("b"), fld("c")}}
				switch c.Choose(5) {
				case 0:
					op.Dirs = ds
				case 1:
					op.Sel = append([]Sel{fld("a").args(Arg{"x", vInt("1")}).dir(ds...)}, op.Sel...)
				case 2:
					s := fld("a", fld("x")).args(Arg{"x", vInt("1")}).dir(ds...)
					s.DirsFirst = len(ds[n-1].Args) > 0
					op.Sel = append([]Sel{s}, op.Sel...)
				case 3:
					op.Sel = append([]Sel{spread("F").dir(ds...)}, op.Sel...)
				case 4:
					op.Sel = append([]Sel{inline("F", fld("a")).dir(ds...)}, op.Sel...)
				}
				return bcCase(&Doc{Defs: []any{op}}, "")
			},
			// one parser for several documents
			func(c *Chooser, e *Env) *Case {
				v := vList(vInt("1"), vStr("e"))
				docs := []*Doc{
					query(fld("a")), query(fld("b")), query(fld("a", fld("b"), spread("F"))),
					{Defs: []any{frag("F", "T", fld("x")), &Op{Kind: "query", Name: "A", Sel: one}}},
					{Defs: []any{&Op{Kind: "query", Name: "A", Sel: one}, frag("F", "T", fld("x")), frag("G", "T", fld("y"))}},
					{Defs: []any{&Op{Kind: "query", Name: "A", Vars: []VarDef{{"v", "[Int!]!", &v}}, Sel: one}, &Op{Kind: "mutation", Name: "B", Sel: one}}},
					query(fld("a").args(Arg{"x", vStr(strings.Repeat("s", 5000))})),
					query(fld("a").dir(bcDirs[3]...)),
				}
				broken := []string{"{a", "{a(x:{y:[1", "fragment F on T{x}", "query A{", "}", ""}
				total := len(docs) + len(broken)
				seq := []int{c.Choose(total), c.Choose(total), c.Choose(total)}
				targets := []string{"", "A", "B", "nope"}
				tg := []string{targets[c.Choose(4)], targets[c.Choose(4)]}
				cached := c.Choose(3)
				return &Case{
					DescF: func() string {
						return fmt.Sprintf("one parser for documents %v, operations %q, cache mode %d", seq, tg, cached)
					},
					Run: func() Result {
						p := bytecode.NewParserCtx()
						if cached > 0 {
							p.CacheableQueryMinLen = -1
						} else {
							p.CacheableQueryMinLen = 1 << 30
						}
						steps := 0
						for round := 0; round < 2; round++ {
							for i, k := range seq {
								t := tg[i%2]
								if k >= len(docs) {
									text := broken[k-len(docs)]
									bcParse(p, text, t)
									if wrong := len(p.Errors) == 0; wrong != (text == "" || text[0] == 'f') {
										return Result{Fail: fmt.Sprintf("%q in round %d: errors %v", text, round, p.Errors)}
									}
									continue
								}
								bcParse(p, docs[k].String()+" ", t)
								steps++
								if f := bcCompare(p, encDoc(docs[k], t), t); f != "" {
									return Result{Fail: fmt.Sprintf("document %d in round %d: %s", k, round, f)}
								}
								if cached == 2 {
									// the buffers belong to the user of the parser
									for _, b := range [][]byte{p.Res[:cap(p.Res)], p.Query[:cap(p.Query)]} {
										for i := range b {
											b[i] = 'x'
										}
									}
									for i := range p.FragmentLocations {
										p.FragmentLocations[i] = -7
									}
								}
							}
						}
						return Result{Steps: steps, Outcome: fmt.Sprint(seq)}
					},
				}
			},
		},
	})
}
