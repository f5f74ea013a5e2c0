package main

import (
	"fmt"
	"strings"

	"github.com/mjarkk/yarql"

	"verif/mc/other"
)

// Part of E05: which directives can be registered, and that the registered ones do what they are made for

// RegQ is the query type
type RegQ struct{ A, B string }

var regLocs = []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}

// regDoc uses a directive on a selection of B
func regDoc(loc int, dir string) string {
	switch loc {
	case 0:
		return "{a b" + dir + " x:a}"
	case 1:
		return "{a ...F" + dir + " x:a}fragment F on RegQ{b}"
	}
	return "{a ...on RegQ" + dir + "{b} x:a}"
}

func regName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_') {
			return false
		}
	}
	return s != ""
}

// regUse runs the document, want is skip, keep or error
func regUse(s *yarql.Schema, loc int, dir, want string) string {
	text := regDoc(loc, dir)
	r := run(s, text, optsNone)
	if r.Bad != "" {
		return r.Bad
	}
	exp := map[string]string{"skip": `{"a":"A","x":"A"}`, "keep": `{"a":"A","b":"B","x":"A"}`, "error": ""}[want]
	if exp == "" {
		if len(r.Errs) == 0 {
			return fmt.Sprintf("%s is not refused: %s", text, r.Raw)
		}
		return ""
	}
	if r.Data != exp || len(r.Errs) != 0 {
		return fmt.Sprintf("%s: expected the data %s, got %s", text, exp, clip(r.Raw, 400))
	}
	return ""
}

func regModifier() yarql.DirectiveModifier { return yarql.DirectiveModifier{Skip: true} }

type regMod = yarql.DirectiveModifier

type regMethod struct {
	name string
	fn   any
	ok   bool
	args string // needed in the document
}

// RegMod has the fields of a directive modifier
type RegMod struct{ Skip bool }

// RegDerived is derived from the directive modifier
type RegDerived yarql.DirectiveModifier

var regMethods = []regMethod{
	{"no arguments", regModifier, true, ""},
	{"a context", func(c *yarql.Ctx) regMod { return regMod{Skip: c != nil} }, true, ""},
	{"arguments", func(a struct{ N int }) regMod { return regMod{Skip: a.N == 3} }, true, "(n:3)"},
	{"context and arguments", func(c *yarql.Ctx, a struct{ N int }) regMod { return regMod{Skip: c != nil && a.N == 3} }, true, "(n:3)"},
	{"arguments and context", func(a struct{ N int }, c *yarql.Ctx) regMod { return regMod{Skip: c != nil && a.N == 3} }, true, "(n:3)"},
	{"two arguments", func(a struct{ N int }, b struct{ M string }) regMod { return regMod{Skip: a.N == 3 && b.M == "x"} }, true, `(m:"x" n:3)`},
	{"two contexts", func(c, d *yarql.Ctx) regMod { return regMod{Skip: c == d && c != nil} }, true, ""},
	{"list argument", func(a struct{ N []*int }) regMod { return regMod{Skip: len(a.N) == 2 && *a.N[1] == 2} }, true, "(n:[1 2])"},
	{"object argument", func(a struct{ N struct{ X struct{ Y int } } }) regMod { return regMod{Skip: a.N.X.Y == 4} }, true, "(n:{x:{y:4}})"},
	{"nothing", nil, false, ""},
	{"int", 3, false, ""},
	{"string", "x", false, ""},
	{"modifier", regMod{}, false, ""},
	{"pointer to a func", new(func() regMod), false, ""},
	{"nil func", (func() regMod)(nil), false, ""},
	{"no result", func() {}, false, ""},
	{"bool result", func() bool { return true }, false, ""},
	{"struct result", func() struct{ Skip bool } { return struct{ Skip bool }{true} }, false, ""},
	{"error result", func() error { return nil }, false, ""},
	{"interface result", func() any { return regMod{} }, false, ""},
	{"pointer result", func() *regMod { return &regMod{} }, false, ""},
	{"list result", func() []regMod { return nil }, false, ""},
	{"same name in another package", func() other.DirectiveModifier { return other.DirectiveModifier{} }, false, ""},
	{"other name", func() RegMod { return RegMod{} }, false, ""},
	{"derived type", func() RegDerived { return RegDerived{} }, false, ""},
	{"other type of the package", func() yarql.Directive { return yarql.Directive{} }, false, ""},
	{"modifier and error", func() (regMod, error) { return regMod{}, nil }, false, ""},
	{"error and modifier", func() (error, regMod) { return nil, regMod{} }, false, ""},
	{"two modifiers", func() (regMod, regMod) { return regMod{}, regMod{} }, false, ""},
	{"context by value", func(c yarql.Ctx) regMod { return regMod{} }, false, ""},
	{"int argument", func(int) regMod { return regMod{} }, false, ""},
	{"pointer to struct", func(*struct{ N int }) regMod { return regMod{} }, false, ""},
	{"variadic strings", func(...string) regMod { return regMod{} }, false, ""},
	{"variadic structs", func(...struct{ N int }) regMod { return regMod{} }, false, ""},
	{"variadic contexts", func(...*yarql.Ctx) regMod { return regMod{} }, false, ""},
	{"interface argument", func(any) regMod { return regMod{} }, false, ""},
	{"map in arguments", func(struct{ M map[string]int }) regMod { return regMod{} }, false, ""},
	{"chan in arguments", func(struct{ M []chan int }) regMod { return regMod{} }, false, ""},
	{"func in arguments", func(struct{ M func() }) regMod { return regMod{} }, false, ""},
}

// regBuild registers directives and parses, the errors of both are returned
func regBuild(dirs ...yarql.Directive) (s *yarql.Schema, errs []error, parse error) {
	s = yarql.NewSchema()
	for _, d := range dirs {
		errs = append(errs, s.RegisterDirective(d))
	}
	return s, errs, s.Parse(RegQ{"A", "B"}, M2{}, nil)
}

func regNames() []string {
	names := []string{""}
	for b := 0; b < 256; b++ {
		names = append(names, string([]byte{byte(b)}))
	}
	chars := strings.Split("a z A Z 0 9 _ - : ! @ [ ] ` { } / \\ \" # . , ; ( $ & + = | ~ % é \u0661 \U0001F600", " ")
	chars = append(chars, " ", "\x00", "\n", "\t")
	for _, a := range chars {
		for _, b := range chars {
			names = append(names, a+b, "ab"+a+"cd"+b)
		}
	}
	for n := 3; n <= 254; n++ {
		names = append(names, strings.Repeat("n", n))
	}
	return names
}

var regNameList = regNames()

// every name
func regNamePart(c *Chooser, e *Env) *Case {
	name := regNameList[c.Choose(len(regNameList))]
	return &Case{Desc: fmt.Sprintf("register the directive %q", name), Run: func() Result {
		s, errs, perr := regBuild(yarql.Directive{Name: name, Where: regLocs, Method: regModifier})
		res := Result{Steps: 5, Outcome: fmt.Sprint(errs[0], perr)}
		ok := regName(name)
		if perr != nil {
			res.Fail = "the schema cannot be parsed: " + perr.Error()
		} else if ok != (errs[0] == nil) {
			res.Fail = fmt.Sprintf("registering returns %v", errs[0])
		}
		for loc := 0; loc < 3 && res.Fail == ""; loc++ {
			if ok && !(name[0] >= '0' && name[0] <= '9') {
				res.Fail = regUse(s, loc, "@"+name, "skip")
			} else if !ok && len(name) > 0 && regName(strings.Trim(name, " \t\n,#\x00")) == false {
				res.Fail = regUse(s, loc, "@"+name, "error")
			}
			if res.Fail == "" {
				res.Fail = regUse(s, loc, "@skip(if:true)", "skip")
			}
			if res.Fail == "" {
				res.Fail = regUse(s, loc, "@nope", "error")
			}
		}
		return res
	}}
}

func regWhere(mask int) (l []yarql.DirectiveLocation) {
	for i := range regLocs {
		if mask>>i&1 == 1 {
			l = append(l, regLocs[i])
		}
	}
	return
}

// every method in every place
func regMethodPart(c *Chooser, e *Env) *Case {
	m := regMethods[c.Choose(len(regMethods))]
	mask := c.Choose(8)
	double := 0
	if mask > 0 {
		double = c.Choose(3) // the first place again, in front or behind
	}
	where := regWhere(mask)
	if double == 1 {
		where = append(where, where[0])
	} else if double == 2 {
		where = append([]yarql.DirectiveLocation{where[len(where)-1]}, where...)
	}
	return &Case{Desc: fmt.Sprintf("register a directive with the method %s for %v", m.name, where), Run: func() Result {
		s, errs, perr := regBuild(yarql.Directive{Name: "d", Where: where, Method: m.fn})
		res := Result{Steps: 5, Outcome: fmt.Sprint(errs[0], perr)}
		refused := errs[0] != nil || perr != nil
		if ok := m.ok && where != nil && double == 0; ok == refused {
			res.Fail = fmt.Sprintf("registering returns %v, parsing %v", errs[0], perr)
			return res
		}
		if perr != nil {
			return res
		}
		for loc := 0; loc < 3 && res.Fail == ""; loc++ {
			want := "error"
			if !refused && mask>>loc&1 == 1 {
				want = "skip"
			}
			res.Fail = regUse(s, loc, "@d"+m.args, want)
			if res.Fail == "" {
				res.Fail = regUse(s, loc, "@include(if:false)", "skip")
			}
			if res.Fail == "" && want == "skip" {
				res.Fail = regUse(s, loc, "@d(nope:1)", "error")
			}
		}
		if res.Fail == "" && m.fn != nil {
			// nothing can be registered later
			if s.RegisterDirective(yarql.Directive{Name: "late", Where: regLocs, Method: regModifier}) == nil {
				res.Fail = "a directive is registered after parsing"
			} else {
				res.Fail = regUse(s, 0, "@late", "error")
			}
		}
		return res
	}}
}

// sequences of registrations
func regSeqPart(c *Chooser, e *Env) *Case {
	n := 1 + c.Choose(3)
	type reg struct {
		name string
		mask int
		bad  bool
	}
	var regs []reg
	for i := 0; i < n; i++ {
		r := reg{name: c.Pick("d", "D", "skip", "d1"), mask: 1 + c.Choose(7)}
		if i < n-1 {
			r.bad = c.Bool()
		}
		regs = append(regs, r)
	}
	copied := c.Bool()
	return &Case{DescF: func() string { return fmt.Sprintf("register %+v copied=%v", regs, copied) }, Run: func() Result {
		var dirs []yarql.Directive
		table := map[string]int{} // place and name to registration
		want := []bool{}
		for i, r := range regs {
			i := i
			d := yarql.Directive{Name: r.name, Where: regWhere(r.mask), Method: func(a struct{ On int }) regMod { return regMod{Skip: a.On == i} }}
			ok := !r.bad
			if r.bad {
				d.Method = func() bool { return true }
			}
			for loc := 0; loc < 3; loc++ {
				if _, is := table[fmt.Sprint(loc, r.name)]; r.mask>>loc&1 == 1 && (is || r.name == "skip") {
					ok = false
				}
			}
			if ok {
				for loc := 0; loc < 3; loc++ {
					if r.mask>>loc&1 == 1 {
						table[fmt.Sprint(loc, r.name)] = i
					}
				}
			}
			want = append(want, ok)
			dirs = append(dirs, d)
		}
		s, errs, perr := regBuild(dirs...)
		res := Result{Steps: 40, Outcome: fmt.Sprint(errs, perr)}
		if perr != nil {
			res.Fail = "the schema cannot be parsed: " + perr.Error()
			return res
		}
		for i := range errs {
			if (errs[i] == nil) != want[i] {
				res.Fail = fmt.Sprintf("registration %d returns %v", i, errs[i])
				return res
			}
		}
		if copied {
			s = s.Copy()
		}
		for loc := 0; loc < 3; loc++ {
			for _, name := range []string{"d", "D", "d1", "d2"} {
				i, is := table[fmt.Sprint(loc, name)]
				for on := 0; on < n; on++ {
					w := "error"
					if is && i == on {
						w = "skip"
					} else if is {
						w = "keep"
					}
					if res.Fail == "" {
						res.Fail = regUse(s, loc, fmt.Sprintf("@%s(on:%d)", name, on), w)
					}
				}
			}
			if res.Fail == "" {
				res.Fail = regUse(s, loc, "@skip(if:true)", "skip")
			}
			if res.Fail == "" {
				res.Fail = regUse(s, loc, "@skip(if:false)", "keep")
			}
		}
		return res
	}}
}
