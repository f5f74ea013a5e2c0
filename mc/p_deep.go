package main

import (
	"fmt"
	"strconv"

	"github.com/mjarkk/yarql"
)

// Part of E09: chains of objects up to the maximum depth, through every way to reach an object

// DeepFace is an interface
type DeepFace interface {
	ResolveTick(args struct{ By int }) int
}

// Deep is an object that leads to itself
type Deep struct {
	Nr   int
	Me   *Deep
	List []*Deep
	LLLL [][][]([]*Deep)
	Face DeepFace
	Fn   func() *Deep
	Pp   **Deep
}

// ResolveTick is logged
func (d Deep) ResolveTick(args struct{ By int }) int {
	calls = append(calls, fmt.Sprintf("Deep.tick by=%d", args.By))
	return d.Nr + args.By
}

// ResolveNext leads to another object
func (d Deep) ResolveNext(args struct{ By int }) (*Deep, error) {
	calls = append(calls, fmt.Sprintf("Deep.next by=%d", args.By))
	return newDeep(d.Nr + args.By), nil
}

// ResolveNextList leads to a list of lists
func (d Deep) ResolveNextList() [][]DeepFace {
	calls = append(calls, "Deep.nextList")
	return [][]DeepFace{{}, {*newDeep(d.Nr + 100), nil}}
}

var _ = yarql.Implements((*DeepFace)(nil), Deep{})

func newDeep(nr int) *Deep {
	d := &Deep{Nr: nr}
	d.Me = d
	d.List = []*Deep{d}
	d.LLLL = [][][][]*Deep{{{{d}}}}
	d.Face = d
	d.Fn = func() *Deep { return newDeep(nr + 1) }
	d.Pp = &d.Me
	return d
}

var mDeep = &MType{Name: "Deep", Implements: []string{"DeepFace"}}

func modelDeep(nr int) *MObj {
	o := &MObj{T: mDeep, F: map[string]any{}}
	o.F["nr"] = lint(nr)
	o.F["me"], o.F["face"], o.F["pp"] = o, o, o
	o.F["list"] = []any{o}
	o.F["LLLL"] = []any{[]any{[]any{[]any{o}}}}
	o.F["fn"] = func(c *Call) any { return modelDeep(nr + 1) }
	o.F["tick"] = func(c *Call) any { return lint(nr + atoi(c.Args["by"])) }
	o.F["next"] = func(c *Call) any { return modelDeep(nr + atoi(c.Args["by"])) }
	o.F["nextList"] = func(c *Call) any { return []any{[]any{}, []any{modelDeep(nr + 100), nil}} }
	return o
}

var deepSchema *yarql.Schema

func deepPart(c *Chooser, e *Env) *Case {
	mDeep.Fields = fields(mf("nr"), mf("me"), mf("list"), mf("LLLL"), mf("face"), mf("pp"), &MField{Name: "fn", Method: true},
		mm("tick", map[string]*InT{"by": tInt}), mm("next", map[string]*InT{"by": tInt}), mm("nextList", nil))
	ways := []string{"me", "list", "LLLL", "face", "fn", "pp", "next", "nextList"}
	a := c.Choose(len(ways))
	b := c.Choose(len(ways))
	siblings := c.Choose(4) // bit 0: in front, bit 1: behind
	spreads := c.Choose(3)  // 1: every fourth level inside of an inline fragment, 2: of a fragment
	depths := []int{1, 2, 3, 7, 30, 31, 32, 33, 50, 51, 52, 62, 63, 64, 65, 84, 85, 86, 126, 127, 128, 129, 170, 200, 253, 254, 255, 256}
	if e.Thorough {
		depths = nil
		for i := 1; i <= 260; i++ {
			depths = append(depths, i)
		}
	}
	depth := depths[c.Choose(len(depths))]
	mk := func() *Doc {
		cur := []Sel{fld("nr"), fld("tick").args(Arg{"by", vInt("5")})}
		var defs []any
		for i := 0; i < depth; i++ {
			way := ways[a]
			if i%3 == 1 {
				way = ways[b]
			}
			s := fld(way, cur...)
			if way == "next" && i%2 == 0 {
				s = s.args(Arg{"by", vInt("2")})
			}
			cur = []Sel{s}
			if siblings&1 != 0 {
				cur = append([]Sel{fld("tick").as("before").args(Arg{"by", vInt(strconv.Itoa(i))})}, cur...)
			}
			if siblings&2 != 0 {
				cur = append(cur, fld("nr"), fld("tick").as("after"))
			}
			if i%4 == 3 && spreads == 1 {
				cur = []Sel{inline("Deep", cur...)}
			} else if i%4 == 3 && spreads == 2 {
				name := fmt.Sprintf("F%d", i)
				defs = append(defs, frag(name, "DeepFace", cur...))
				cur = []Sel{spread(name)}
			}
		}
		cur = append(cur, fld("tick").as("end"))
		return &Doc{Defs: append(defs, &Op{Kind: "query", Sel: cur})}
	}
	return &Case{DescF: func() string {
		return fmt.Sprintf("%d levels of %s and %s, siblings=%d fragments=%d: %s", depth, ways[a], ways[b], siblings, spreads, clip(mk().String(), 300))
	}, Run: func() Result {
		if deepSchema == nil {
			deepSchema = yarql.NewSchema()
			must(deepSchema.Parse(*newDeep(1), M1{}, nil))
			deepSchema.MaxDepth = 255
		}
		d := mk()
		ref := refExec(RefReq{Doc: d, Query: modelDeep(1), Mutation: worldM, Directives: newScalarDirs()})
		r := run(deepSchema, d.String(), optsNone)
		return Result{Fail: compare(ref, r), Outcome: fmt.Sprint(len(r.Raw), len(r.Errs)), Steps: 1, Skip: ref.DontCare}
	}}
}
