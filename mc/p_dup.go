package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/mjarkk/yarql"
)

// R01: a response key is in the response once

// jval is a JSON value that keeps the order and the repetitions of keys
type jval struct {
	lit  string
	kind byte // 'l' literal, 'o' object, 'a' list
	keys []string
	vals []*jval
}

func parseJval(raw string) (*jval, error) {
	dec := json.NewDecoder(bytes.NewReader([]byte(raw)))
	dec.UseNumber()
	var value func() (*jval, error)
	value = func() (*jval, error) {
		t, err := dec.Token()
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case json.Delim:
			v := &jval{kind: 'a'}
			if x == '{' {
				v.kind = 'o'
			}
			for dec.More() {
				if v.kind == 'o' {
					k, err := dec.Token()
					if err != nil {
						return nil, err
					}
					v.keys = append(v.keys, k.(string))
				}
				e, err := value()
				if err != nil {
					return nil, err
				}
				v.vals = append(v.vals, e)
			}
			_, err := dec.Token()
			return v, err
		case nil:
			return &jval{kind: 'l', lit: "null"}, nil
		case string:
			return &jval{kind: 'l', lit: fmt.Sprintf("%q", x)}, nil
		}
		return &jval{kind: 'l', lit: fmt.Sprint(t)}, nil
	}
	return value()
}

// dups counts the repeated keys
func (v *jval) dups() (n int) {
	seen := map[string]bool{}
	for i, e := range v.vals {
		if v.kind == 'o' {
			if seen[v.keys[i]] {
				n++
			}
			seen[v.keys[i]] = true
		}
		n += e.dups()
	}
	return
}

// merged is the value with repeated keys merged, nil if they are in conflict
func (v *jval) merged() *jval {
	res := &jval{kind: v.kind, lit: v.lit}
	at := map[string]int{}
	for i, e := range v.vals {
		if v.kind == 'o' {
			if j, ok := at[v.keys[i]]; ok {
				if res.vals[j] = mergeVals(res.vals[j], e); res.vals[j] == nil {
					return nil
				}
				continue
			}
			at[v.keys[i]] = len(res.vals)
			res.keys = append(res.keys, v.keys[i])
		}
		m := e.merged()
		if m == nil {
			return nil
		}
		res.vals = append(res.vals, m)
	}
	return res
}

func mergeVals(a, b *jval) *jval {
	if a.kind != b.kind || a.lit != b.lit || a.kind == 'a' && len(a.vals) != len(b.vals) {
		return nil
	}
	if a.kind == 'o' {
		return (&jval{kind: 'o', keys: append(append([]string{}, a.keys...), b.keys...), vals: append(append([]*jval{}, a.vals...), b.vals...)}).merged()
	}
	res := &jval{kind: a.kind, lit: a.lit}
	for i := range a.vals {
		m := mergeVals(a.vals[i], b.vals[i])
		if m == nil {
			return nil
		}
		res.vals = append(res.vals, m)
	}
	return res
}

func (v *jval) String() string {
	if v.kind == 'l' {
		return v.lit
	}
	res := ""
	for i, e := range v.vals {
		if i > 0 {
			res += ","
		}
		if v.kind == 'o' {
			res += fmt.Sprintf("%q:", v.keys[i])
		}
		res += e.String()
	}
	if v.kind == 'o' {
		return "{" + res + "}"
	}
	return "[" + res + "]"
}

func dupCase(d *Doc, vars string) *Case {
	return &Case{DescF: func() string { return d.String() + " " + vars }, Run: func() Result {
		s := world()
		s.MaxDepth = 255
		ref := refExec(RefReq{Doc: d, Variables: vars, Query: worldQ, Mutation: worldM, Directives: worldRefDirectives})
		r := run(s, d.String(), yarql.ResolveOptions{Variables: vars})
		res := Result{Outcome: r.Raw, Steps: 1}
		if r.Bad != "" {
			res.Fail = r.Bad
			return res
		}
		if ref.DontCare {
			res.Skip = true
			return res
		}
		got, err := parseJval(r.JSON)
		if err != nil {
			res.Fail = "unreadable data: " + r.Raw
			return res
		}
		asWritten := compare(ref, r)
		if !ref.Dup {
			res.Fail = asWritten
			return res
		}
		if got.dups() > 0 {
			res.Fail = fmt.Sprintf("the response repeats keys: %s", clip(r.Raw, 1200))
			if asWritten == "" {
				// every selection of the key is answered on its own, nothing else is wrong
				res.Known = "K1-duplicate-keys"
			} else {
				res.Fail += "\n and it is not the list of what was selected either: " + asWritten
			}
			return res
		}
		// merged
		if ref.Critical {
			if len(r.Errs) == 0 {
				res.Fail = "missing error: " + clip(r.Raw, 800)
			}
			return res
		}
		exp, err := parseJval(ref.Data)
		must(err)
		m := exp.merged()
		if m == nil {
			return res // in conflict
		}
		if m.String() != got.String() {
			res.Fail = fmt.Sprintf("expected the data %s, got %s", m, clip(r.Raw, 1200))
		} else if (len(ref.Errs) == 0) != (len(r.Errs) == 0) {
			res.Fail = fmt.Sprintf("%d errors expected: %s", len(ref.Errs), clip(r.Raw, 1200))
		}
		return res
	}}
}

func init() {
	leafs := func() []Sel {
		return []Sel{
			fld("str"), fld("num").as("str"), fld("str").as("str"), fld("num"), fld("__typename"), fld("__typename").as("str"), fld("err"), fld("noColor"), fld("ints"), fld("flag").as("num"),
			withArgs(fld("num2"), 1), withArgs(fld("num2"), 2), withArgs(fld("fnStr"), 1), fld("nope").as("str"),
		}
	}
	objs := func() []Sel {
		var l []Sel
		for _, f := range []string{"obj", "list", "mobj"} {
			for _, sub := range [][]Sel{{fld("n")}, {fld("name")}, {fld("n"), fld("name")}, {fld("n").as("name")}, {fld("child", fld("n"))}, {fld("child", fld("name"), fld("bad"))}, {fld("kids", fld("n"))}, {fld("n"), fld("n")}, {}} {
				l = append(l, fld(f, sub...))
				if f != "obj" {
					l = append(l, fld(f, sub...).as("obj"))
				}
			}
		}
		l = append(l, fld("nil", fld("n")), fld("nil", fld("name")), fld("faces", fld("label")), fld("faces", inline("N1", fld("own")), inline("N2", fld("extra").as("own"))),
			fld("faces", fld("label"), inline("N1", fld("label")), inline("N2", fld("label"))), fld("self", fld("obj", fld("n"))), fld("self", fld("str")), fld("LL", fld("n")), fld("LL", fld("name")), fld("errNil", fld("n")), fld("errNil", fld("name")))
		return l
	}
	leafList, objList := leafs(), objs()
	all := append(append([]Sel{}, leafList...), objList...)
	place := func(c *Chooser, d *Doc, s Sel, i int) Sel {
		switch c.Choose(4) {
		case 1:
			return inline("Q1", s)
		case 2:
			d.Defs = append(d.Defs, frag(fmt.Sprint("F", i), "Q1", s))
			return spread(fmt.Sprint("F", i))
		case 3:
			return s.dir(dirIf(c.Pick("include", "skip"), vBool(c.Bool())))
		}
		return s
	}
	register(&Property{
		ID: "R01",
		Bounds: map[string]string{
			"quick":    "all pairs of 50 selections (equal keys of fields, aliases and __typename, the same and other arguments, objects, lists, lists of lists, interfaces with the same and other sub selections), each directly, in an inline fragment, behind a fragment spread or with @skip or @include; all triples of leafs and of objects; the same fragment spread 1 to 4 times at two levels; 2 to 300 times the same key",
			"thorough": "all triples of the 50 selections",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				d := &Doc{}
				op := &Op{Kind: "query"}
				d.Defs = append(d.Defs, op)
				for i := 0; i < 2; i++ {
					op.Sel = append(op.Sel, place(c, d, all[c.Choose(len(all))], i))
				}
				return dupCase(d, "")
			},
			func(c *Chooser, e *Env) *Case {
				l := all
				if !e.Thorough {
					l = [][]Sel{leafList, objList}[c.Choose(2)]
				}
				var sels []Sel
				for i := 0; i < 3; i++ {
					sels = append(sels, l[c.Choose(len(l))])
				}
				return dupCase(query(sels...), "")
			},
			// the same fragment several times
			func(c *Chooser, e *Env) *Case {
				var outer, inner []Sel
				for i := c.Choose(4); i >= 0; i-- {
					outer = append(outer, spread("F"))
				}
				for i := c.Choose(4); i >= 0; i-- {
					inner = append(inner, spread("G"))
				}
				if c.Bool() {
					outer = append(outer, fld("obj", fld("n")))
				}
				if c.Bool() {
					inner = append(inner, fld("n"), fld("child", spread("H")))
				}
				return dupCase(&Doc{Defs: []any{&Op{Kind: "query", Sel: outer}, frag("F", "Q1", fld("str"), fld("obj", inner...)), frag("G", "A1", fld("name"), fld("child", fld("n"))), frag("H", "A1", fld("n"), fld("name"))}}, "")
			},
			// many
			func(c *Chooser, e *Env) *Case {
				n := 2 + c.Choose(299)
				s := []Sel{fld("str"), fld("obj", fld("n")), fld("list", fld("n"), fld("n"))}[c.Choose(3)]
				var sels []Sel
				for i := 0; i < n; i++ {
					sels = append(sels, s)
				}
				return dupCase(query(sels...), "")
			},
			// mutations run one after the other
			func(c *Chooser, e *Env) *Case {
				var sels []Sel
				for i := 0; i < 3; i++ {
					sels = append(sels, []Sel{withArgs(fld("setA"), 1), withArgs(fld("setA"), 2), withArgs(fld("setB", fld("name")), 1), withArgs(fld("setB", fld("n")), 1), fld("fail"), withArgs(fld("setB", fld("n")), 1).as("setA")}[c.Choose(6)])
				}
				return dupCase(&Doc{Defs: []any{&Op{Kind: "mutation", Sel: sels}}}, "")
			},
		},
	})
}
