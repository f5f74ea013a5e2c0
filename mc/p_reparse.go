package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/mjarkk/yarql"
)

// Part of G02: what was tried on a schema before, also if it was refused, does not change what it becomes.
// Every sequence of registrations, parses, requests and copies is compared with a fresh schema on which
// only what was accepted is done, and the last parse.

type (
	// RpColor is registered as enum by one of the steps
	RpColor string
	// RpIn is an input
	RpIn struct {
		N    int
		More []RpIn
		C    *RpColor
	}
	// RpSub is a part of all others
	RpSub struct {
		X int
		C RpColor
	}
	// RpQ1 is a query
	RpQ1 struct {
		A   string
		Sub RpSub
		F   RpFace
	}
	// RpQ2 is another query
	RpQ2 struct {
		Subs []*RpSub
		A    int
		C    RpColor
		Q1   *RpQ1
	}
	// RpFace is an interface
	RpFace interface{ ResolveUp(struct{ In RpIn }) string }
	// RpM1 is a mutation
	RpM1 struct{ Sub *RpSub }
	// RpM2 is a mutation
	RpM2 struct{ B bool }
	// RpBad has a field that cannot be used
	RpBad struct {
		A   bool
		Sub RpSub
		Q1  *RpQ1
		C   chan int
	}
	// RpBadArg has an argument that cannot be used
	RpBadArg struct {
		A string
		F RpFace
	}
)

func rpIn(i RpIn) string {
	s := fmt.Sprint(i.N)
	if i.C != nil {
		s += string(*i.C)
	}
	for _, m := range i.More {
		s += "," + rpIn(m)
	}
	return s
}

// ResolveUp is a resolver
func (s RpSub) ResolveUp(a struct{ In RpIn }) string { return fmt.Sprint(s.X) + rpIn(a.In) }

// ResolveFoo is a resolver
func (s RpQ1) ResolveFoo(a struct {
	N  int
	In *RpIn
	A  struct{ L []int }
}) []int {
	return append(a.A.L, a.N)
}

// ResolveFoo is a resolver
func (s RpQ2) ResolveFoo(a struct{ S string }) string { return a.S }

// ResolveSet is a resolver
func (s RpM1) ResolveSet(c *yarql.Ctx, a struct{ In RpIn }) string { return rpIn(a.In) }

// ResolveGood is a resolver
func (s RpBadArg) ResolveGood(a struct{ In RpIn }) string { return rpIn(a.In) }

// ResolveBad is a resolver
func (s RpBadArg) ResolveBad(a struct{ M map[string]int }) string { return "" }

// ResolveLate is a resolver
func (s RpBadArg) ResolveLate(a struct{ In RpIn }) string { return rpIn(a.In) }

var _ = yarql.Implements((*RpFace)(nil), RpSub{})

type rpStep struct {
	name string
	// do returns if the step was accepted
	do func(s *yarql.Schema) error
	// parse: it is a call of Parse
	parse bool
}

var rpQ1 = RpQ1{A: "a", Sub: RpSub{X: 1, C: "r"}, F: RpSub{X: 5, C: "g"}}

func rpParse(name string, q, m func() interface{}, skip bool) rpStep {
	return rpStep{"parse " + name, func(s *yarql.Schema) error {
		return s.Parse(q(), m(), &yarql.SchemaOptions{SkipGraphqlTypesInjection: skip})
	}, true}
}

func rpVal(v interface{}) func() interface{} { return func() interface{} { return v } }

var rpSteps = []rpStep{
	rpParse("Q1 M1", rpVal(rpQ1), rpVal(RpM1{&RpSub{X: 7}}), false),
	rpParse("Q2 M1", rpVal(RpQ2{Subs: []*RpSub{{X: 3, C: "g"}, nil}, A: 4, C: "r", Q1: &rpQ1}), rpVal(RpM1{}), false),
	rpParse("Q1 Q2", rpVal(rpQ1), rpVal(RpQ2{A: 9}), false),
	rpParse("Q2 M2 without introspection", rpVal(RpQ2{A: 9}), rpVal(RpM2{true}), true),
	rpParse("Bad M1", rpVal(RpBad{}), rpVal(RpM1{}), false),
	rpParse("Q1 Bad", rpVal(rpQ1), rpVal(RpBad{}), false),
	rpParse("BadArg Q1", rpVal(RpBadArg{}), rpVal(rpQ1), false),
	rpParse("Q1 Q1", rpVal(rpQ1), rpVal(rpQ1), false),
	rpParse("Q1 int", rpVal(rpQ1), rpVal(3), false),
	rpParse("nothing", rpVal(nil), rpVal(rpQ1), false),
	{"enum RpColor", func(s *yarql.Schema) error {
		_, err := s.RegisterEnum(map[string]RpColor{"RED": "r", "GREEN": "g"})
		return err
	}, false},
	{"bad enum RpColor", func(s *yarql.Schema) error {
		_, err := s.RegisterEnum(map[string]RpColor{"RED": "r", "": "g"})
		return err
	}, false},
	{"directive in", func(s *yarql.Schema) error {
		return s.RegisterDirective(yarql.Directive{Name: "in", Where: regLocs, Method: func(a struct {
			In RpIn
			A  *struct{ L []string }
		}) yarql.DirectiveModifier {
			return yarql.DirectiveModifier{Skip: a.In.N == 1}
		}})
	}, false},
	{"directive skip", func(s *yarql.Schema) error {
		return s.RegisterDirective(yarql.Directive{Name: "skip", Where: regLocs[1:], Method: func(a struct{ In RpIn }) yarql.DirectiveModifier {
			return yarql.DirectiveModifier{Skip: a.In.N == 1}
		}})
	}, false},
	{"bad directive", func(s *yarql.Schema) error {
		return s.RegisterDirective(yarql.Directive{Name: "bad", Where: regLocs[:2], Method: func(a struct {
			In RpIn
			B  map[string]int
		}) yarql.DirectiveModifier {
			return yarql.DirectiveModifier{}
		}})
	}, false},
	{"lower maximum depth", func(s *yarql.Schema) error { s.MaxDepth = 60; return nil }, false},
	{"requests", func(s *yarql.Schema) error { rpBattery(s); return nil }, false},
	{"copy", nil, false},
}

var rpRequests = []string{
	fullIntrospection,
	`{a sub{x c up(in:{n:3,more:[{n:4}]})} f{...on RpSub{x} up(in:{n:1})} foo(n:8,in:{n:2},a:{l:[1,2]})}`,
	`{a c subs{x c up(in:{n:3,c:RED})} q1{a foo(n:8)} foo(s:"t")}`,
	`{foo}`,
	`{sub{x @in(in:{n:1}) c @in(in:{n:2},a:{l:["x"]})} a @skip(if:true)}`,
	`mutation{sub{x up(in:{n:1})} set(in:{n:3,more:[{c:GREEN}]}) b foo(s:"t")}`,
	`query($i:RpIn!){sub{up(in:$i)}}`,
	`{__type(name:"RpSub"){name fields{name}}good(in:{n:1})late(in:{n:1})}`,
}

func rpBattery(s *yarql.Schema) string {
	var b strings.Builder
	for _, q := range rpRequests {
		errs := s.Resolve([]byte(q), yarql.ResolveOptions{Variables: `{"i":{"n":6,"more":[{"n":2}]}}`})
		fmt.Fprintf(&b, "%s -> %s %v\n", q, s.Result, errs)
	}
	return b.String()
}

// rpReference is what a fresh schema becomes by the steps
var rpCache = map[string][2]string{}

func rpReference(accepted []int, parse int) (errText, battery string) {
	key := fmt.Sprint(accepted, parse)
	if r, ok := rpCache[key]; ok {
		return r[0], r[1]
	}
	s := yarql.NewSchema()
	for _, i := range accepted {
		if err := rpSteps[i].do(s); err != nil {
			return "harness: " + err.Error(), ""
		}
	}
	if err := rpSteps[parse].do(s); err != nil {
		errText = err.Error()
	} else {
		battery = rpBattery(s)
	}
	rpCache[key] = [2]string{errText, battery}
	return
}

// rpRegister is the result of a registration on a fresh schema
func rpRegister(accepted []int, i int) string {
	s := yarql.NewSchema()
	for _, a := range accepted {
		if err := rpSteps[a].do(s); err != nil {
			return "harness: " + err.Error()
		}
	}
	return fmt.Sprint(rpSteps[i].do(s))
}

func schemaReparse(c *Chooser, e *Env) *Case {
	max := 4
	if e.Thorough {
		max = 5
	}
	n := 2 + c.Choose(max-1)
	var seq []int
	var names []string
	for i := 0; i < n; i++ {
		of := len(rpSteps)
		if i == n-1 {
			of = 5 // what comes after the last parse is not looked at, refused ones are in the sequences
		}
		seq = append(seq, c.Choose(of))
		names = append(names, rpSteps[seq[i]].name)
	}
	return &Case{Desc: strings.Join(names, "; "), Run: func() Result {
		defer func(f *os.File) { os.Stdout = f }(os.Stdout)
		os.Stdout = os.Stderr // requests before the first parse print to it
		s := yarql.NewSchema()
		var accepted []int
		parsed, lastParse, outcome := "", 0, []string{}
		type kept struct {
			s    *yarql.Schema
			text string
		}
		var copies []kept
		failf := func(f string, a ...interface{}) Result {
			return Result{Steps: n, Fail: fmt.Sprintf(f, a...)}
		}
		for at, i := range seq {
			st := rpSteps[i]
			switch {
			case st.do == nil:
				if parsed != "" {
					cp := s.Copy()
					copies = append(copies, kept{cp, parsed})
				}
			case st.parse:
				err := st.do(s)
				wantErr, want := rpReference(accepted, i)
				if err != nil {
					if err.Error() != wantErr {
						return failf("step %d, %s: the error is %q, on a fresh schema %q", at+1, st.name, err, wantErr)
					}
					got := ""
					if parsed != "" {
						// the schema may stay what it was, or be unusable
						if got = rpBattery(s); got != parsed {
							if strings.Count(got, "[invalid setup]") != len(rpRequests) {
								return failf("step %d, after the refused %s the schema answers\n%sbefore\n%s", at+1, st.name, got, parsed)
							}
							got = ""
						}
					}
					parsed = got
					outcome = append(outcome, err.Error())
					break
				}
				if wantErr != "" {
					return failf("step %d, %s: no error, on a fresh schema %q", at+1, st.name, wantErr)
				}
				lastParse = i
				parsed = rpBattery(s)
				if parsed != want {
					return failf("step %d, %s: the schema answers\n%sa fresh one\n%s", at+1, st.name, parsed, want)
				}
				outcome = append(outcome, "ok")
			default:
				if st.name == "requests" {
					st.do(s)
				} else {
					err := st.do(s)
					want := ""
					if parsed == "" {
						want = rpRegister(accepted, i)
					}
					if parsed != "" && err != nil {
						outcome = append(outcome, err.Error())
						break
					}
					if got := fmt.Sprint(err); parsed == "" && got != want && !strings.Contains(got, "cannot be ran after") {
						return failf("step %d, %s: %s, on a fresh schema %s", at+1, st.name, got, want)
					}
					if err != nil {
						outcome = append(outcome, err.Error())
						break
					}
					accepted = append(accepted, i)
					if parsed == "" {
						break
					}
					// accepted after the parse: it must have been made usable
					_, want = rpReference(accepted, lastParse)
					if parsed = rpBattery(s); parsed != want {
						return failf("step %d, %s after the parse: the schema answers\n%sa fresh one\n%s", at+1, st.name, parsed, want)
					}
				}
			}
		}
		for _, k := range copies {
			if got := rpBattery(k.s); got != k.text {
				return failf("a copy answers\n%swhen it was made the original\n%s", got, k.text)
			}
		}
		return Result{Steps: n, Outcome: strings.Join(outcome, "|")}
	}}
}
