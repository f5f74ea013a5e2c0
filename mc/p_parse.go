package main

import (
	"fmt"
	"strings"

	"github.com/mjarkk/yarql"
)

var corpusDocs = corpus()
var corpusTexts = func() []string {
	var res []string
	for _, d := range corpusDocs {
		res = append(res, d.String())
	}
	return append(res, corpusExtra()...)
}()

// parseCheck decides P02 for one text
func parseCheck(text string) Result {
	s := world()
	s.MaxDepth = 255
	cl := classify(text)
	r := run(s, text, yarql.ResolveOptions{Variables: corpusVars})
	res := Result{Outcome: cl.String() + " " + r.Raw, Steps: 1, Skip: cl == either}
	switch {
	case r.Bad != "":
		res.Fail = r.Bad
	case cl == mustAccept && r.syntaxErr():
		res.Fail = "a correct document is reported as a syntax error: " + clip(r.Raw, 1000)
	case cl == mustReject && len(r.Errs) == 0:
		res.Fail = "a malformed document is accepted: " + clip(r.Raw, 1000)
	case cl == mustReject && !r.syntaxErr() && hasToken(text):
		res.Fail = "a malformed document is refused without a location: " + clip(r.Raw, 1000)
	case cl == mustReject && r.Data != "{}":
		res.Fail = "a malformed document has data: " + clip(r.Raw, 1000)
	case len(r.Log) > 0 && (cl == mustReject || r.syntaxErr()):
		res.Fail = fmt.Sprintf("resolvers ran for a malformed document: %v %s", r.Log, clip(r.Raw, 1000))
	}
	return res
}

// hasToken is false for texts that are no document because there is nothing in them
func hasToken(text string) bool {
	p := &rp{s: text, lenient: true}
	has := true
	func() {
		defer func() { recover() }() // a byte order mark
		has = p.peek() != -1
	}()
	return has
}

func parseCase(text string) *Case {
	return &Case{Desc: text, Run: func() Result { return parseCheck(text) }}
}

// seqPart is all sequences of tokens with a length up to the bound in a context
func seqPart(quick, thorough int, pre, post string, alphabet []string) func(c *Chooser, e *Env) *Case {
	return func(c *Chooser, e *Env) *Case {
		n := quick
		if e.Thorough {
			n = thorough
		}
		var toks []string
		for i := 0; i < n; i++ {
			k := c.Choose(len(alphabet) + 1)
			if k == 0 {
				break
			}
			toks = append(toks, alphabet[k-1])
		}
		return &Case{Desc: pre + joinTokens(toks, " ") + post, Run: func() Result {
			return parseCheck(pre + joinTokens(toks, " ") + post)
		}}
	}
}

func bytesPart(quick, thorough int, pre, post string, alphabet []string) func(c *Chooser, e *Env) *Case {
	return func(c *Chooser, e *Env) *Case {
		n := quick
		if e.Thorough {
			n = thorough
		}
		text := pre
		for i := 0; i < n; i++ {
			k := c.Choose(len(alphabet) + 1)
			if k == 0 {
				break
			}
			text += alphabet[k-1]
		}
		return parseCase(text + post)
	}
}

func split(s string) []string { return strings.Fields(s) }

var mutBytes = []string{"{", "}", "(", ")", "[", "]", ":", "=", "!", "@", "$", ".", "\"", "\\", "#", ",", " ", "\n", "\r", "a", "0", "-", "|", "&", "\x00", "\x80", "'", "%"}

var byteContexts = [][2]string{
	{"", ""}, {"", "{str}"}, {"{str", "}"}, {"{str}", ""}, {"{num2(a", ":1)}"}, {"{num2(a:", "1)}"}, {"{num2(a:1", ")}"},
	{`{fnObj(name:"`, `"){name}}`}, {`{fnObj(name:"""`, `"""){name}}`}, {"query ", "{str}"}, {"query(", "$a:Int){str}"}, {"query($a:Int", "){str}"},
	{"query", "{str}"}, {"{str}fragment", "F on Q1{str}"}, {"fragment F", "on Q1{str}{str}"}, {"{str}fragment F on", "Q1{str}"}, {"{str ...on", "Q1{num}}"},
	{"{...", "on Q1{str}}"}, {"{str @", "plain}"}, {"{str #", "}\n}"}, {"query($a:[", "]){str}"}, {`{fnObj(name:"\`, `0041"){name}}`},
}

func init() {
	register(&Property{
		ID: "P02",
		Bounds: map[string]string{
			"quick":    "all token sequences: length <= 5 over 18 tokens as a document, length <= 5 over 15 tokens as an argument value, length <= 6 over 10 tokens as variable definitions, length <= 5 over 14 tokens after a field, length <= 6 over 10 and 11 larger pieces (directives, arguments, selections, ..) in a selection and as a document; all byte strings of length <= 5 over 13 bytes as a number, length <= 5 over 12 bytes in a string and a block string; all bytes and pairs of bytes in 22 contexts; every truncation, deletion, replacement and insertion of 28 bytes and every deletion, duplication and swap of tokens in 30 documents; nesting of 8 constructs up to 1,000,000 levels",
			"thorough": "sequences one to two tokens longer, pairs of byte edits of the shorter documents",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			seqPart(5, 6, "", "", split(`{ } ( ) : @ ... $ mobj "s" 1 on fragment query [ ] = !`)),
			seqPart(5, 6, "{mobj{up(x:", ")}}", split(`[ ] { } : $ a 1 -1.5 "s" """b""" true null ( )`)),
			seqPart(6, 7, "query(", "){mobj{n}}", split(`$ a : = [ ] ! 1 "s" (`)),
			seqPart(5, 6, "{mobj", "{n}}", split(`@ a ( ) : 1 { } ... on ! $ [ ]`)),
			seqPart(5, 6, "fragment ", "}{mobj{n}}", split(`F on Q1 { } ... @ ( : a fragment`)),
			// sequences of larger pieces
			seqPart(6, 7, "{", "}", []string{"num2", "x:", "@plain", "@tag(s:\"x\")", "(a:1)", "()", "{n}", "...", "on Q1", "...F"}),
			seqPart(6, 7, "", "", []string{"query", "Q", "($a:Int)", "($a:Int=1)", "()", "@plain", "@tag(s:\"x\")", "{str}", "fragment F on Q1", "{}", "subscription"}),
			bytesPart(5, 6, "{num2(a:", ")}", []string{"0", "1", "9", ".", "e", "E", "+", "-", "_", "a", "\"", " ", ","}),
			bytesPart(5, 6, `{fnObj(name:"`, `"){name}}`, []string{"\"", "\\", "a", "u", "0", "n", "\n", "\r", "\x00", "\x7f", "é", "\x01"}),
			bytesPart(5, 6, `{fnObj(name:"""`, `"""){name}}`, []string{"\"", "\\", "a", "u", "0", " ", "\n", "\r", "\x00", "\t", "é", "\x01"}),
			// every byte and pair of bytes
			func(c *Chooser, e *Env) *Case {
				x := byteContexts[c.Choose(len(byteContexts))]
				a := string([]byte{byte(c.Choose(256))})
				k := c.Choose(257)
				if k > 0 {
					if !e.Thorough && a[0] >= 0x80 && k-1 < 0x80 && a[0] != 0xc3 && a[0] != 0xef {
						return nil
					}
					a += string([]byte{byte(k - 1)})
				}
				return parseCase(x[0] + a + x[1])
			},
			// edits of the corpus
			func(c *Chooser, e *Env) *Case {
				t := corpusTexts[c.Choose(len(corpusTexts))]
				at := c.Choose(len(t) + 1)
				k := c.Choose(3 + 2*len(mutBytes))
				switch {
				case k == 0:
					return parseCase(t[:at])
				case k == 1:
					return parseCase(t[at:])
				case k == 2:
					if at == len(t) {
						return nil
					}
					return parseCase(t[:at] + t[at+1:])
				case k < 3+len(mutBytes):
					return parseCase(t[:at] + mutBytes[k-3] + t[at:])
				default:
					if at == len(t) {
						return nil
					}
					return parseCase(t[:at] + mutBytes[k-3-len(mutBytes)] + t[at+1:])
				}
			},
			// edits of the tokens of the corpus
			func(c *Chooser, e *Env) *Case {
				d := corpusDocs[c.Choose(len(corpusDocs))]
				t := d.tokens()
				i := c.Choose(len(t))
				switch k := c.Choose(3); k {
				case 0:
					return parseCase(joinTokens(append(append([]string{}, t[:i]...), t[i+1:]...), " "))
				case 1:
					return parseCase(joinTokens(append(append(append([]string{}, t[:i+1]...), t[i]), t[i+1:]...), " "))
				default:
					j := c.Choose(len(t))
					n := append([]string{}, t...)
					n[i], n[j] = n[j], n[i]
					return parseCase(joinTokens(n, " "))
				}
			},
			// pairs of edits
			func(c *Chooser, e *Env) *Case {
				t := corpusTexts[c.Choose(len(corpusTexts))]
				if !e.Thorough || len(t) > 80 {
					return nil
				}
				for i := 0; i < 2; i++ {
					at := c.Choose(len(t) + 1)
					k := c.Choose(1 + len(mutBytes))
					if k == 0 {
						if at < len(t) {
							t = t[:at] + t[at+1:]
						}
					} else {
						t = t[:at] + mutBytes[k-1] + t[at:]
					}
				}
				return parseCase(t)
			},
			// nesting
			func(c *Chooser, e *Env) *Case {
				sizes := []int{1, 2, 10, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 9990, 9998, 9999, 10000, 10001, 10002, 20000, 100000, 1000000}
				n := sizes[c.Choose(len(sizes))]
				kind := c.Choose(16)
				open := []string{"{a", "[", "{a:", "[", "{...on Q1", "{a ", "(", "{a:["}[kind/2]
				closing := []string{"}", "]", "}", "]", "}", "}", ")", "]}"}[kind/2]
				mid := strings.Repeat(open, n)
				end := strings.Repeat(closing, n)
				if kind%2 == 1 {
					end = "" // never closed
				}
				var text string
				switch kind / 2 {
				case 0, 4, 5:
					text = mid + "{a}" + end
				case 1, 2, 7:
					text = "{str(a:" + mid + "1" + end + ")}"
				case 3:
					text = "query($a:" + mid + "Int" + end + "){str}"
				case 6:
					text = "{str" + mid + end + "}"
				}
				return &Case{Desc: fmt.Sprintf("%d times %s, closed: %v", n, open, kind%2 == 0), Run: func() Result {
					return parseCheck(text)
				}}
			},
			// sizes
			func(c *Chooser, e *Env) *Case {
				sizes := []int{1, 2, 7, 8, 9, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 513, 2047, 2048, 2049, 65535, 65536, 65537}
				n := sizes[c.Choose(len(sizes))]
				kind := c.Choose(10)
				a := strings.Repeat("a", n)
				sp := strings.Repeat(" ", n)
				text := []string{
					"{" + a + "}", "{" + a + ":str}", "{str:" + a + "}", "{str(" + a + ":1)}", "query " + a + "{str}", "query($" + a + ":Int){str}",
					"query($a:" + a + "){str}", "{..." + a + "}", "{" + strings.Repeat("str @plain ", 1)[:4] + strings.Repeat("@plain ", n) + "}", "{" + sp + "str" + sp + "}",
				}[kind]
				return &Case{Desc: fmt.Sprintf("size %d: %s", n, clip(text, 60)), Run: func() Result { return parseCheck(text) }}
			},
		},
	})
}
