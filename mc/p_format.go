package main

import (
	"fmt"
	"strings"

	"github.com/mjarkk/yarql"
)

// P01: insignificant characters do not change the response
// P03: syntax errors point at the offending character

// ignorables are insertions between two tokens, the bool tells if it can stand in for a required separator
var ignorables = []string{" ", "\t", "\n", "\r\n", "\r", ",", "#\n", "#c{\"}$@\r\n", "#x\r", " , ", ",,", "\n\n", "# # \"\"\" \n\t", "  \t \n", ",#a,\n,", "\r\r\n\n"}

// gapText writes the tokens with the filling in the given gaps, gap 0 is in front of the first token
func gapText(toks []string, fill map[int]string) string {
	var b strings.Builder
	for i := 0; i <= len(toks); i++ {
		f, ok := fill[i]
		if ok {
			b.WriteString(f)
		} else if i > 0 && i < len(toks) && needSep(toks[i-1], toks[i]) {
			b.WriteByte(' ')
		}
		if i < len(toks) {
			b.WriteString(toks[i])
		}
	}
	return b.String()
}

// extraDoc compares a text with the same document in its basic form
func extraDoc(base, text string) *Case {
	return &Case{Desc: text, Run: func() Result {
		s := world()
		s.MaxDepth = 255
		a := run(s, base, yarql.ResolveOptions{Variables: corpusVars})
		b := run(s, text, yarql.ResolveOptions{Variables: corpusVars})
		return Result{Fail: sameResp(a, b), Outcome: b.Raw, Steps: 2}
	}}
}

// sameResp compares two responses, the location of syntax errors is not compared
func sameResp(a, b *Resp) string {
	if a.Bad != "" {
		return a.Bad
	}
	if b.Bad != "" {
		return b.Bad
	}
	d := func(msg string) string {
		return fmt.Sprintf("%s\n expected: %s log %v\n observed: %s log %v", msg, clip(a.Raw, 1500), a.Log, clip(b.Raw, 1500), b.Log)
	}
	if a.Data != b.Data {
		return d("different data")
	}
	if len(a.Errs) != len(b.Errs) {
		return d("different number of errors")
	}
	for i := range a.Errs {
		if a.Errs[i].Message != b.Errs[i].Message || a.Errs[i].Path != b.Errs[i].Path || a.Errs[i].HasLoc != b.Errs[i].HasLoc {
			return d("different errors")
		}
	}
	if strings.Join(a.Log, "\n") != strings.Join(b.Log, "\n") {
		return d("different resolver calls")
	}
	return ""
}

// extra documents as tokens
var extraToks = [][]string{
	split(`{ str ( a : { b : [ 1 , { c : -2.5e+3 } ] d : { e : "f" g : null } } h : ENUM i : [ [ ] ] j : { } k : $ v l : true m : [ [ 1 ] [ 2 3 ] ] ) }`),
	split(`query Q ( $ a : [ [ T ! ] ] ! = [ [ { x : 1 y : [ A B ] } ] ] $ b : X = "s" $ c : Y = 1.5 ) { a }`),
	split(`subscription S { a }`),
	split(`query Q @ dir ( a : 1 ) @ dir2 { a }`),
	split(`query A { str } query B { num } mutation C { fail }`),
	split(`{ list @ plain { b : n name } ... on Q1 @ plain { x : str } ... F @ plain num } fragment F on Q1 { fl }`),
	split(`fragment F on T { a } fragment G on Q1 { flag ... F } { ... G }`),
	split(`query ( $ a : Int = 1 $ b : Int = -1 ) { num2 ( a : $ a b : $ b ) x : num2 ( a : 0 b : -0 ) }`),
}

// allToks are the token lists and, for the ones with a reference result, their document
type tokDoc struct {
	toks []string
	doc  *Doc
}

var allToks = func() []tokDoc {
	var res []tokDoc
	for _, d := range corpusDocs {
		res = append(res, tokDoc{d.tokens(), d})
	}
	for _, t := range extraToks {
		res = append(res, tokDoc{t, nil})
	}
	return res
}()

func (t tokDoc) caseFor(text string) *Case {
	if t.doc != nil {
		return docCaseText(t.doc, text, "", corpusVars, 0)
	}
	return extraDoc(gapText(t.toks, nil), text)
}

func init() {
	register(&Property{
		ID: "P01",
		Bounds: map[string]string{
			"quick":    "30 documents with every construct of the language x every gap between tokens x 16 insignificant insertions; every pair of gaps x 6 x 6 insertions in documents of <= 24 tokens; the same insertion in all gaps; insertions of 1..70000 bytes in every gap of 6 documents",
			"thorough": "every pair of gaps x 9 x 9 insertions in all documents, triples of gaps in documents of <= 14 tokens",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			// one gap
			func(c *Chooser, e *Env) *Case {
				t := allToks[c.Choose(len(allToks))]
				g := c.Choose(len(t.toks) + 1)
				return t.caseFor(gapText(t.toks, map[int]string{g: ignorables[c.Choose(len(ignorables))]}))
			},
			// all gaps
			func(c *Chooser, e *Env) *Case {
				t := allToks[c.Choose(len(allToks))]
				a := ignorables[c.Choose(len(ignorables))]
				b := ignorables[c.Choose(len(ignorables))]
				fill := map[int]string{}
				for i := 0; i <= len(t.toks); i++ {
					fill[i] = []string{a, b}[i%2]
				}
				return t.caseFor(gapText(t.toks, fill))
			},
			// two gaps
			func(c *Chooser, e *Env) *Case {
				t := allToks[c.Choose(len(allToks))]
				n, max := 6, 24
				if e.Thorough {
					n, max = 9, 1000
				}
				if len(t.toks) > max {
					return nil
				}
				g := c.Choose(len(t.toks) + 1)
				h := c.Choose(len(t.toks) + 1)
				if h <= g {
					return nil
				}
				return t.caseFor(gapText(t.toks, map[int]string{g: ignorables[c.Choose(n)], h: ignorables[c.Choose(n)]}))
			},
			// three gaps
			func(c *Chooser, e *Env) *Case {
				if !e.Thorough {
					return nil
				}
				t := allToks[c.Choose(len(allToks))]
				if len(t.toks) > 14 {
					return nil
				}
				fill := map[int]string{}
				last := -1
				for i := 0; i < 3; i++ {
					g := last + 1 + c.Choose(len(t.toks)+1)
					if g > len(t.toks) {
						return nil
					}
					last = g
					fill[g] = ignorables[c.Choose(6)]
				}
				return t.caseFor(gapText(t.toks, fill))
			},
			// long insertions
			func(c *Chooser, e *Env) *Case {
				t := allToks[[]int{1, 5, 8, 11, 12, 13}[c.Choose(6)]]
				g := c.Choose(len(t.toks) + 1)
				sizes := []int{3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 299, 300, 301, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 65535, 65536, 70000}
				n := sizes[c.Choose(len(sizes))]
				var f string
				switch c.Choose(4) {
				case 0:
					f = strings.Repeat(" ", n)
				case 1:
					f = strings.Repeat("\r\n", n)
				case 2:
					f = strings.Repeat(",", n)
				case 3:
					f = "#" + strings.Repeat("}", n) + "\n"
				}
				k := t.caseFor(gapText(t.toks, map[int]string{g: f}))
				k.Desc = fmt.Sprintf("%s with %d x %q in gap %d", gapText(t.toks, nil), n, f[1:2], g)
				return k
			},
		},
	})

	breaks := []string{"\n", "\r\n", "\r", "\n\n", "\r\r", "\n\r", "\r\n\r\n", " ", "#c\n", "#c\r\n", "#%%\r", ",\n "}
	register(&Property{
		ID: "P03",
		Bounds: map[string]string{
			"quick":    "30 documents x every gap x 9 illegal characters x 12 line break styles in all gaps; documents cut off at every token; 0..300 lines and columns in front of the error",
			"thorough": "30 documents x every gap x 9 illegal characters x all pairs of 12 line break styles",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				t := allToks[c.Choose(len(allToks))]
				g := c.Choose(len(t.toks) + 1)
				bad := c.Pick("%", "?", ";", "'", "`", "^", "\x7f", "/", "<")
				a := breaks[c.Choose(len(breaks))]
				b := a
				if e.Thorough {
					b = breaks[c.Choose(len(breaks))]
				}
				var sb strings.Builder
				at := -1
				for i := 0; i <= len(t.toks); i++ {
					if i == g {
						at = sb.Len()
						sb.WriteString(bad)
					}
					if i < len(t.toks) {
						sb.WriteString(t.toks[i])
						sb.WriteString([]string{a, b}[i%2])
					}
				}
				return locCase(sb.String(), at)
			},
			// cut off
			func(c *Chooser, e *Env) *Case {
				t := allToks[c.Choose(len(allToks))]
				g := 1 + c.Choose(len(t.toks))
				a := breaks[c.Choose(len(breaks))]
				b := breaks[c.Choose(len(breaks))]
				var sb strings.Builder
				for i := 0; i < g; i++ {
					sb.WriteString(t.toks[i])
					sb.WriteString([]string{a, b}[i%2])
				}
				text := sb.String()
				if classify(text) != mustReject {
					return nil
				}
				return locCase(text, len(text))
			},
			// many lines and columns
			func(c *Chooser, e *Env) *Case {
				n := c.Choose(301)
				m := []int{0, 1, 2, 50, 254, 255, 256, 257, 300, 65535, 65536, 70000}[c.Choose(12)]
				nl := c.Pick("\n", "\r", "\r\n")
				swap := c.Bool()
				if swap {
					n, m = m, n
				}
				text := strings.Repeat(nl, n) + strings.Repeat(" ", m)
				pre := c.Pick("", "{str", "{num2(a:1")
				k := locCase(pre+text+"%}", len(pre)+len(text))
				k.Desc = fmt.Sprintf("%s then %d x %q, %d spaces and %%", pre, n, nl, m)
				return k
			},
		},
	})
}

// position is the 1 based line and the number of bytes in front of the offset on its line
func position(text string, at int) (line, col int) {
	line = 1
	for i := 0; i < at; i++ {
		switch text[i] {
		case '\n':
			line++
			col = 0
		case '\r':
			if i+1 < at && text[i+1] == '\n' {
				i++
			}
			line++
			col = 0
		default:
			col++
		}
	}
	return
}

// columnBase is 0 or 1, and has to be the same for all errors
var columnBase = -1

func locCase(text string, at int) *Case {
	return &Case{Desc: text, Run: func() Result {
		s := world()
		s.MaxDepth = 255
		if columnBase == -1 {
			r := run(s, "{str%}", yarql.ResolveOptions{})
			if len(r.Errs) == 1 && r.Errs[0].HasLoc && (r.Errs[0].Column == 4 || r.Errs[0].Column == 5) {
				columnBase = r.Errs[0].Column - 4
			} else {
				return Result{Fail: "{str%}: wrong location: " + r.Raw}
			}
		}
		r := run(s, text, yarql.ResolveOptions{Variables: corpusVars})
		line, col := position(text, at)
		res := Result{Outcome: r.Raw, Steps: 1}
		switch {
		case r.Bad != "":
			res.Fail = r.Bad
		case len(r.Errs) != 1:
			res.Fail = "expected one error: " + clip(r.Raw, 1000)
		case !r.Errs[0].HasLoc:
			res.Fail = "the error has no location: " + clip(r.Raw, 1000)
		case r.Errs[0].HasPath:
			res.Fail = "a syntax error has a path: " + clip(r.Raw, 1000)
		case r.Errs[0].Line != line || r.Errs[0].Column != col+columnBase:
			res.Fail = fmt.Sprintf("the error is at line %d column %d, expected line %d column %d\n%s", r.Errs[0].Line, r.Errs[0].Column, line, col+columnBase, clip(r.Raw, 1000))
		}
		return res
	}}
}
