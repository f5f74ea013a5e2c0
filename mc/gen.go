package main

// Generators shared by the properties.

import (
	"fmt"
	"strings"

	"github.com/mjarkk/yarql"
)

var a1Fields = []string{"name", "n", "opt", "bad", "up", "fn"}

// q1Leafs are the scalar fields of Q1
var q1Leafs = []string{"str", "num", "flag", "fl", "when", "key", "num_id", "color", "size", "level", "noColor",
	"nilStr", "pstr", "ints", "fnStr", "fnNil", "err", "num2"}

// q1ToA1 are the fields of Q1 that end at A1
var q1ToA1 = []string{"obj", "ptr", "nil", "list", "empty", "nilList", "plist", "LL", "fnObj", "mobj", "mlist", "errObj", "errNil"}

// q1ToNode are the fields of Q1 that end at an interface
var q1ToNode = []string{"face", "nilFace", "faces", "face2"}

// withArgs fills in arguments for the fields that have them
func withArgs(s Sel, n int) Sel {
	switch s.Name {
	case "num2":
		s.Args = []Arg{{"b", vInt(fmt.Sprint(n))}, {"a", vInt(fmt.Sprint(n + 1))}}
	case "up":
		s.Args = []Arg{{"x", vInt(fmt.Sprint(n))}}
	case "fnObj":
		s.Args = []Arg{{"name", vStr(fmt.Sprintf("n%d", n))}}
	case "face2":
		s.Args = []Arg{{"one", vBool(n%2 == 0)}}
	case "rank":
		s.Args = []Arg{{"plus", vInt(fmt.Sprint(n))}}
	case "setA":
		s.Args = []Arg{{"v", vInt(fmt.Sprint(n))}}
	case "setB":
		s.Args = []Arg{{"v", vStr(fmt.Sprintf("v%d", n))}}
	}
	return s
}

// a1Subs are selection sets on A1
func a1Subs() [][]Sel {
	return [][]Sel{
		{fld("name")},
		{fld("n"), fld("name")},
		{fld("name").as("n"), fld("n").as("name")},
		{fld("opt"), fld("__typename")},
		{fld("bad"), fld("n")},
		{withArgs(fld("up"), 3), fld("bad")},
		{fld("child", fld("name"), fld("child", fld("n")))},
		{fld("name"), fld("kids", fld("n"), fld("opt")), fld("n")},
		{fld("fn"), fld("child", fld("fn"), fld("bad"))},
		{fld("child", fld("kids", fld("bad"), fld("name"))), fld("kids", fld("child", fld("n")))},
		{fld("hidden")},
		{fld("name", fld("n")), fld("n")},
		{fld("child"), fld("n")},
		{fld("n"), fld("kids")},
		{fld("name").args(Arg{"x", vInt("1")})},
		{fld("up").args(Arg{"y", vInt("1")})},
		{fld("__typename").as("t"), fld("kids", fld("__typename"))},
	}
}

func nodeSubs() [][]Sel {
	return [][]Sel{
		{fld("label")},
		{withArgs(fld("rank"), 4), fld("__typename")},
		{inline("N1", fld("own"), fld("sub", fld("name"))), inline("N2", fld("extra"))},
		{fld("label"), inline("N2", fld("nodes", fld("label"), inline("N1", fld("own"))))},
		{inline("Other", fld("label").as("o")), inline("Node", fld("label"))},
		{inline("Node", inline("N1", fld("own")), fld("label"))},
	}
}

// topItems are selections on Q1
func topItems() []Sel {
	var res []Sel
	n := 0
	add := func(s Sel) {
		n++
		res = append(res, withArgs(s, n))
	}
	for _, f := range q1Leafs {
		add(fld(f))
		add(fld(f).as("x_" + f))
	}
	for _, f := range q1ToA1 {
		for i, sub := range a1Subs() {
			s := fld(f, sub...)
			if i%3 == 1 {
				s = s.as("x_" + f)
			}
			add(s)
		}
	}
	for _, f := range q1ToNode {
		for i, sub := range nodeSubs() {
			s := fld(f, sub...)
			if i%3 == 1 {
				s = s.as("x_" + f)
			}
			add(s)
		}
	}
	add(fld("self", fld("str"), fld("self", fld("obj", fld("n")))))
	add(fld("self", fld("err"), fld("mobj", fld("bad"))))
	add(fld("__typename"))
	add(fld("__typename").as("tn"))
	for _, w := range []string{"nope", "Str", "st", "strr", "hidden", "lL", "ll", "on", "_", "__type_name"} {
		add(fld(w))
	}
	add(fld("str", fld("n")))
	add(fld("ints", fld("n")))
	add(fld("color", fld("n")))
	add(fld("fnStr", fld("n")))
	add(fld("obj"))
	add(fld("list"))
	add(fld("face"))
	add(fld("mobj"))
	add(fld("str").args(Arg{"a", vInt("1")}))
	add(fld("obj", fld("n")).args(Arg{"a", vInt("1")}))
	add(fld("num2").args(Arg{"c", vInt("1")}))
	add(fld("num2").args(Arg{"a", vInt("1")}, Arg{"b", vStr("1")}))
	add(fld("fnStr").args(Arg{"a", vInt("1")}))
	return res
}

// smallItems is a short list of selections on Q1 of every kind
func smallItems() []Sel {
	return []Sel{
		fld("str"), fld("num").as("a"), withArgs(fld("num2"), 2), fld("err"), fld("noColor"), fld("ints"),
		fld("obj", fld("name"), fld("kids", fld("n"))), fld("list", fld("bad")), fld("LL", fld("n")), fld("nil", fld("n")),
		fld("plist", fld("opt")), fld("mobj", fld("bad"), withArgs(fld("up"), 1)), fld("mlist", fld("name")), fld("errNil", fld("n")),
		fld("faces", fld("label"), inline("N2", fld("extra"))), withArgs(fld("face2", fld("label")), 1), fld("self", fld("fnStr")),
		fld("__typename"), fld("nope"), fld("obj"), fld("str", fld("n")),
		inline("Q1", fld("flag"), fld("fl")), inline("A1", fld("name")), inline("Q1"),
	}
}

// corpus is a list of documents in which every construct of the language is used
func corpus() []*Doc {
	q := func(name string, vars []VarDef, sels ...Sel) *Op {
		return &Op{Kind: "query", Name: name, Vars: vars, Sel: sels}
	}
	d := func(defs ...any) *Doc { return &Doc{Defs: defs} }
	vI := func(s string) *Val { v := vInt(s); return &v }
	return []*Doc{
		query(fld("str")),
		query(fld("str"), fld("num").as("b")),
		d(q("", nil, fld("str"))),
		d(q("A", nil, fld("str"), fld("num"))),
		query(fld("obj", fld("name"), fld("child", fld("n")))),
		query(fld("num2").args(Arg{"a", vInt("1")}, Arg{"b", vInt("-2")})),
		query(withArgs(fld("fnObj", fld("name")), 4).as("x")),
		d(q("", []VarDef{{"v", "Int", nil}}, fld("num2").args(Arg{"a", vVar("v")}))),
		d(q("Q", []VarDef{{"v", "Int!", vI("4")}, {"w", "Boolean", nil}}, fld("num2").args(Arg{"a", vVar("v")}), fld("str").dir(Dir{"skip", []Arg{{"if", vVar("w")}}}))),
		d(q("", []VarDef{{"l", "[Int!]!", func() *Val { v := vList(vInt("1"), vInt("2")); return &v }()}}, fld("str"))),
		d(&Op{Kind: "mutation", Name: "M", Sel: []Sel{withArgs(fld("setA"), 1), withArgs(fld("setB", fld("name")), 2).as("b")}}),
		d(q("", nil, fld("str"), spread("F")), &Frag{"F", "Q1", []Sel{fld("num"), fld("obj", spread("G"))}}, &Frag{"G", "A1", []Sel{fld("name")}}),
		query(inline("Q1", fld("str"), inline("Q1", fld("num"))), inline("A1", fld("name"))),
		query(inline("", fld("str"), inline("", fld("num"))), inline("", fld("flag")).dir(Dir{"skip", []Arg{{"if", vBool(false)}}}), fld("list", inline("", fld("n")))),
		query(fld("str").dir(Dir{"skip", []Arg{{"if", vBool(false)}}}, Dir{"include", []Arg{{"if", vBool(true)}}}), fld("num")),
		query(fld("obj", fld("name").dir(Dir{"plain", nil}), fld("n").dir(Dir{"fieldOnly", nil})).dir(Dir{"plain", nil})),
		d(q("", nil, spread("F").dir(Dir{"include", []Arg{{"if", vBool(true)}}}), inline("Q1", fld("num")).dir(Dir{"skip", []Arg{{"if", vBool(false)}}})), &Frag{"F", "Q1", []Sel{fld("str")}}),
		query(fld("faces", fld("label"), inline("N1", fld("own")), inline("N2", fld("extra"), fld("nodes", fld("__typename"))))),
		query(fld("fnObj", fld("name")).args(Arg{"name", vStr("a,b {\"c\"} #d \\ \n é")})),
		query(fld("fnObj", fld("name")).args(Arg{"name", Val{K: 'B', S: "a b"}})),
		query(fld("str").dir(Dir{"hideAbove", []Arg{{"max", vInt("1")}, {"n", vInt("2")}}}), fld("num").dir(Dir{"hideAbove", []Arg{{"max", vInt("2")}}})),
		query(fld("err"), fld("list", fld("bad").as("b2"), fld("up").args(Arg{"x", vInt("7")}))),
	}
}

// corpusVars are variables that fit the corpus
const corpusVars = `{"v":3,"w":true,"l":[5]}`

// corpusExtra are documents for which there is no reference result, only the parser is used for them
func corpusExtra() []string {
	return []string{
		`{str(a:{b:[1,{c:-2.5e+3}],d:{e:"f",g:null}}h:ENUM i:[[]]j:{}k:$v l:true m:[[1][2,3]])}`,
		`query Q($a:[[T!]]!=[[{x:1 y:[A B]}]]$b:X="s" $c:Y=1.5){a}`,
		`subscription S{a}`,
		`query Q@dir(a:1)@dir2{a}`,
		`query A{a}query B{b}mutation C{c}`,
		`{a @x(y:"""block "q" \""" end""") ... on T @y {b c:d} ...@y{e} ...{f} ...F @z(w:[]) e}`,
		`{true false null on2 fragment1 query mutation}`,
		`fragment F on T{a}fragment G on U{b{...F}}{...G}`,
	}
}

func sepAll(toks []string, sep string) string { return strings.Join(toks, sep) }

// freshRun runs a request on a new schema
func freshRun(q string, opts yarql.ResolveOptions) *Resp { return run(newWorldSchema(), q, opts) }

var optsNone = yarql.ResolveOptions{}
