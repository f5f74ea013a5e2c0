package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"mime/multipart"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/mjarkk/yarql"
)

// E08: every response is well formed JSON whatever the data is

// the text that all of the data below consists of
var e8text string

// Text is a string type with a name
type Text string

// JO is an object of strings
type JO struct {
	S  string
	P  *string
	PP **string
	L  []string
	LL [][]string
	LP []*string
	T  Text
	ID string `gq:"id,ID"`
	F  func() string
	Up *JO
}

// ResolveM returns the text
func (o JO) ResolveM() string { return e8text }

// ResolveMl returns the text
func (o JO) ResolveMl() []Text { return []Text{Text(e8text), "x", Text(e8text)} }

// ResolveMid returns the text
func (o JO) ResolveMid() (string, yarql.AttrIsID) { return e8text, 0 }

// ResolveErr returns the text as an error
func (o JO) ResolveErr() (string, error) { return e8text, errors.New(e8text) }

// ResolveErrs returns the text as an error
func (o JO) ResolveErrs() ([]JO, error) { return nil, fmt.Errorf("a %s b", e8text) }

// JN is an interface
type JN interface {
	ResolveMid() (string, yarql.AttrIsID)
}

var _ = yarql.Implements((*JN)(nil), JO{})

func e8arg[T any](a argsT[T]) string { return "ok" }

// JQ is the query root
type JQ struct {
	O    *JO
	Time func(argsT[time.Time]) string             `gq:"time"`
	File func(argsT[*multipart.FileHeader]) string `gq:"file"`
	Col  func(argsT[Color]) string                 `gq:"col"`
	In   func(argsT[In2]) string                   `gq:"in"`
	ID   func(argsID[int]) string                  `gq:"idi"`
	Int  func(argsT[int]) string                   `gq:"int"`
	St   func(argsT[string]) string                `gq:"st"`
}

// ResolveFace returns an interface
func (q JQ) ResolveFace() JN { return *q.O }

// JM is the mutation root
type JM struct{}

type e8ctx struct{ context.Context }

func (e8ctx) Err() error { return errors.New(e8text) }

var e8obj = &JO{}
var e8schema *yarql.Schema

func e8Set(s string) {
	e8text = s
	p := s
	pp := &p
	*e8obj = JO{S: s, P: &p, PP: &pp, L: []string{s, "", s}, LL: [][]string{{s}, {}, nil}, LP: []*string{&p, nil}, T: Text(s), ID: s, F: func() string { return s }}
	e8obj.Up = &JO{S: s}
}

func e8Schema() *yarql.Schema {
	if e8schema == nil {
		e8schema = yarql.NewSchema()
		must1(e8schema.RegisterEnum(colorMap))
		must(e8schema.Parse(JQ{O: e8obj, Time: e8arg[time.Time], File: e8arg[*multipart.FileHeader], Col: e8arg[Color], In: e8arg[In2],
			ID: func(argsID[int]) string { return "ok" }, Int: e8arg[int], St: func(a argsT[string]) string { return a.A }}, JM{}, nil))
	}
	return e8schema
}

// optionRuns runs a request with every combination of the response options
func optionRuns(s *yarql.Schema, q string, opts yarql.ResolveOptions, check func(r *Resp) string) (fail, outcome string, n int) {
	var first *Resp
	for i := 0; i < 4; i++ {
		o := opts
		o.NoMeta = i&2 != 0
		o.Tracing = i&1 != 0
		if opts.Values != nil {
			v := map[string]interface{}{}
			o.Values = &v
		}
		r := run(s, q, o)
		n++
		if r.Bad != "" {
			return fmt.Sprintf("NoMeta=%v Tracing=%v: %s", o.NoMeta, o.Tracing, r.Bad), r.Raw, n
		}
		if !utf8.ValidString(r.Raw) {
			return "the response is not valid utf8", r.Raw, n
		}
		if r.HasErrs != (len(r.Ret) != 0) && !o.NoMeta {
			return "errors in the response without errors or the other way around", r.Raw, n
		}
		if i == 0 {
			first = r
			if check != nil {
				if f := check(r); f != "" {
					return f + "\n response " + clip(r.Raw, 1000), r.Raw, n
				}
			}
			if r.Ext != nil && r.Ext[0] == '{' && len(r.Ext) > 2 {
				return "extensions without tracing", r.Raw, n
			}
			continue
		}
		if r.JSON != first.JSON {
			return fmt.Sprintf("NoMeta=%v Tracing=%v changes the data\n without %s\n with %s", o.NoMeta, o.Tracing, clip(first.Raw, 800), clip(r.Raw, 800)), r.Raw, n
		}
		if strings.Join(r.Log, "\n") != strings.Join(first.Log, "\n") {
			return fmt.Sprintf("NoMeta=%v Tracing=%v changes the resolvers that run: %v, %v", o.NoMeta, o.Tracing, first.Log, r.Log), r.Raw, n
		}
		if len(r.Ret) != len(first.Ret) {
			return fmt.Sprintf("NoMeta=%v Tracing=%v changes the errors: %v, %v", o.NoMeta, o.Tracing, first.Ret, r.Ret), r.Raw, n
		}
		for i := range r.Ret {
			if r.Ret[i].Error() != first.Ret[i].Error() {
				return fmt.Sprintf("an option changes an error: %v, %v", first.Ret, r.Ret), r.Raw, n
			}
		}
		if !o.NoMeta {
			if !reflect.DeepEqual(r.Errs, first.Errs) {
				return fmt.Sprintf("Tracing changes the errors: %v, %v", first.Errs, r.Errs), r.Raw, n
			}
			var ext struct {
				Tracing *struct {
					Version int `json:"version"`
				} `json:"tracing"`
			}
			if err := json.Unmarshal(r.Ext, &ext); err != nil || ext.Tracing == nil || ext.Tracing.Version != 1 {
				return "no tracing data", r.Raw, n
			}
		}
	}
	return "", first.Raw, n
}

const e8Query = `{o{s p pp:PP l LL LP t id f m ml mid err errs{s} up{s err}} face{mid ... on JO{s err}}}`

func e8Expected() string {
	t := sanitize(e8text)
	m := map[string]any{}
	o := map[string]any{
		"s": t, "p": t, "pp": t, "l": []any{t, "", t}, "LL": []any{[]any{t}, []any{}, nil}, "LP": []any{t, nil}, "t": t, "id": t, "f": t, "m": t,
		"ml": []any{t, "x", t}, "mid": t, "err": t, "errs": nil, "up": map[string]any{"s": t, "err": t},
	}
	m["o"] = o
	m["face"] = map[string]any{"mid": t, "s": t, "err": t}
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	must(enc.Encode(m))
	return b.String()
}

// sameJSON compares the values of two JSON texts
func sameJSON(a, b string) bool {
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// e8Case puts the text in every place where it can reach the response
func e8Case(text string, all bool) *Case {
	return &Case{DescF: func() string { return fmt.Sprintf("text %q", clip(text, 200)) }, Run: func() Result {
		e8Set(text)
		s := e8Schema()
		steps := 0
		res := Result{}
		do := func(what, q string, opts yarql.ResolveOptions, check func(r *Resp) string) bool {
			f, out, n := optionRuns(s, q, opts, check)
			steps += n
			res.Outcome += clip(out, 200)
			if f != "" {
				res.Fail = what + ": " + f
				return false
			}
			return true
		}
		san := sanitize(text)
		ok := do("data", e8Query, optsNone, func(r *Resp) string {
			if !sameJSON(r.JSON, e8Expected()) {
				return "wrong data, expected " + e8Expected()
			}
			msgs := []string{san, "a " + san + " b", san, san}
			for i, m := range msgs {
				if i >= len(r.Errs) || r.Errs[i].Message != m {
					return fmt.Sprintf("wrong errors, expected %q", msgs)
				}
			}
			if len(r.Errs) != len(msgs) {
				return fmt.Sprintf("wrong errors, expected %q", msgs)
			}
			return ""
		})
		oneErr := func(r *Resp) string {
			if len(r.Errs) != 1 {
				return "expected one error"
			}
			return ""
		}
		if ok && all {
			lit := quoteGQL(text)
			js := jsonQuote(text)
			ok = do("context error", `{o{s m}}`, yarql.ResolveOptions{Context: e8ctx{context.Background()}}, func(r *Resp) string {
				if len(r.Errs) != 1 || r.Errs[0].Message != san || r.Errs[0].Path != `"o","m"` {
					return "expected the error of the context"
				}
				return ""
			}) &&
				do("operator", `query A{o{s}}`, yarql.ResolveOptions{OperatorTarget: text}, func(r *Resp) string {
					if text == "A" || text == "" {
						return ""
					}
					return oneErr(r)
				}) &&
				do("variables text", `query($v:Int){int(a:$v)}`, yarql.ResolveOptions{Variables: text}, nil) &&
				do("variables number", `query($v:Int){int(a:$v)}`, yarql.ResolveOptions{Variables: `{"v":` + text + `}`}, nil) &&
				do("variable key", `query($v:In2){in(a:$v)}`, yarql.ResolveOptions{Variables: `{"v":{` + js + `:1}}`}, nil) &&
				do("enum variable", `query($v:Color){col(a:$v)}`, yarql.ResolveOptions{Variables: `{"v":` + js + `}`}, oneErr) &&
				do("time variable", `query($v:Time){time(a:$v)}`, yarql.ResolveOptions{Variables: `{"v":` + js + `}`}, oneErr) &&
				do("file variable", `query($v:File){file(a:$v)}`, yarql.ResolveOptions{Variables: `{"v":` + js + `}`, GetFormFile: func(key string) (*multipart.FileHeader, error) { return nil, errors.New(key) }}, oneErr) &&
				do("id variable", `query($v:ID){idi(a:$v)}`, yarql.ResolveOptions{Variables: `{"v":` + js + `}`}, nil) &&
				do("echoed variable", `query($v:String){st(a:$v)}`, yarql.ResolveOptions{Variables: `{"v":` + js + `}`}, func(r *Resp) string {
					if len(r.Errs) != 0 || !sameJSON(r.JSON, `{"st":`+js+`}`) {
						return "expected the text"
					}
					return ""
				})
			if ok && utf8.ValidString(text) && strings.IndexByte(text, 0) == -1 {
				ok = do("enum literal", `{col(a:`+lit+`)}`, optsNone, oneErr) &&
					do("time literal", `{time(a:`+lit+`)}`, optsNone, oneErr) &&
					do("file literal", `{file(a:`+lit+`)}`, yarql.ResolveOptions{GetFormFile: func(key string) (*multipart.FileHeader, error) { return nil, errors.New(key) }}, oneErr) &&
					do("id literal", `{idi(a:`+lit+`)}`, optsNone, nil) &&
					do("echoed literal", `{st(a:`+lit+`)}`, optsNone, func(r *Resp) string {
						if len(r.Errs) != 0 || !sameJSON(r.JSON, `{"st":`+js+`}`) {
							return "expected the text"
						}
						return ""
					})
			}
			if ok && utf8.ValidString(text) {
				do("document", `{o{s}}`+text, optsNone, nil)
			}
		}
		res.Steps = steps
		return res
	}}
}

// jsonQuote is the standard encoder, without the HTML escapes
func jsonQuote(s string) string {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	must(enc.Encode(s))
	return strings.TrimSuffix(b.String(), "\n")
}

// listSizes are the lengths of lists
var listSizes = func() []int {
	var l []int
	for i := 0; i <= 260; i++ {
		l = append(l, i)
	}
	for k := 9; k <= 17; k++ {
		l = append(l, 1<<k-2, 1<<k-1, 1<<k, 1<<k+1)
	}
	return append(l, 70000, 100000)
}()

var listSize int

// LQ has lists of any length
type LQ struct{ X int }

// LO is an item of a list
type LO struct{ N int }

// ResolveInts is a list of numbers
func (LQ) ResolveInts() []int {
	l := make([]int, listSize)
	for i := range l {
		l[i] = i
	}
	return l
}

// ResolveObjs is a list of objects with empty places
func (LQ) ResolveObjs() []*LO {
	l := make([]*LO, listSize)
	for i := range l {
		if i%3 != 1 {
			l[i] = &LO{i}
		}
	}
	return l
}

// ResolveLists is a list of lists
func (LQ) ResolveLists() [][]string {
	l := make([][]string, listSize)
	for i := range l {
		l[i] = [][]string{nil, {}, {"a"}, {"b", "c"}}[i%4]
	}
	return l
}

// ResolveFails is a list of which one item fails
func (LQ) ResolveFails() ([]LO, error) { return make([]LO, listSize), errors.New("list") }

// ResolveText is a long text
func (LQ) ResolveText() string { return strings.Repeat("x", listSize) }

var listSchema *yarql.Schema

func listCase(n, kind int) *Case {
	return &Case{Desc: fmt.Sprintf("lists of %d items, kind %d", n, kind), Run: func() Result {
		if listSchema == nil {
			listSchema = yarql.NewSchema()
			must(listSchema.Parse(LQ{}, M1{}, nil))
		}
		listSize = n
		item := func(i int) string { return fmt.Sprint(i) }
		q, errs := "{ints x}", 0
		switch kind {
		case 1:
			q = "{a:objs{n m:n}x}"
			item = func(i int) string {
				if i%3 == 1 {
					return "null"
				}
				return fmt.Sprintf(`{"n":%d,"m":%d}`, i, i)
			}
		case 2:
			q = "{lists x}"
			item = func(i int) string { return []string{"null", "[]", `["a"]`, `["b","c"]`}[i%4] }
		case 3:
			q, errs = "{fails{n}x}", 1
			item = func(i int) string { return `{"n":0}` }
		case 4:
			q = "{text x}"
		}
		var b strings.Builder
		b.WriteString(`{"` + []string{"ints", "a", "lists", "fails", "text"}[kind] + `":`)
		if kind == 4 {
			b.WriteString(`"` + strings.Repeat("x", n) + `"`)
		} else {
			b.WriteByte('[')
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(item(i))
			}
			b.WriteByte(']')
		}
		b.WriteString(`,"x":0}`)
		r := run(listSchema, q, yarql.ResolveOptions{})
		res := Result{Steps: 1, Outcome: fmt.Sprint(kind, len(r.Raw))}
		switch {
		case r.Bad != "":
			res.Fail = r.Bad
		case len(r.Errs) != errs:
			res.Fail = "unexpected errors"
		case !sameJSON(r.JSON, b.String()):
			res.Fail = "wrong data, expected " + clip(b.String(), 200)
		}
		if res.Fail != "" {
			res.Fail += " " + clip(r.Raw, 200)
		}
		return res
	}}
}

func init() {
	special := []byte{0, '"', '\\', 0x1f, 0x7f, 0x80, 0xc3, 0xa9, 0xe2, 0xa8, 0xf0, 'a', '~', '\n', '/'}
	var corpusDocs []*Doc
	var tops, smalls []Sel
	register(&Property{
		ID: "E08",
		Bounds: map[string]string{
			"quick":    "every string of up to two bytes (65793), every string of 3 and 4 out of 15 special bytes, every code point (in strings of 24 and around every block limit), strings of every length up to 300 and around powers of two up to 128 KiB with a special character at the end, lists and texts of every length up to 260 and around powers of two up to 131072, strings each as data of 16 fields, as error, context error, operator name, variable, key and literal x NoMeta x tracing; every single selection and pair of selections of the world schema and every document of the corpus x NoMeta x tracing",
			"thorough": "also every string of 5 special bytes, every code point alone",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				return listCase(listSizes[c.Choose(len(listSizes))], c.Choose(5))
			},
			func(c *Chooser, e *Env) *Case {
				switch c.Choose(3) {
				case 0:
					return e8Case("", true)
				case 1:
					return e8Case(string([]byte{byte(c.Choose(256))}), true)
				}
				a, b := byte(c.Choose(256)), byte(c.Choose(256))
				all := e.Thorough || bytes.IndexByte(special, a) >= 0 || bytes.IndexByte(special, b) >= 0
				return e8Case(string([]byte{a, b}), all)
			},
			func(c *Chooser, e *Env) *Case {
				n := 3 + c.Choose(2)
				if e.Thorough {
					n += c.Choose(2)
				}
				b := make([]byte, n)
				for i := range b {
					b[i] = special[c.Choose(len(special))]
				}
				return e8Case(string(b), n == 3)
			},
			func(c *Chooser, e *Env) *Case {
				if e.Thorough {
					return e8Case(string(rune(c.Choose(0x110000))), false)
				}
				if c.Bool() {
					p := rune(c.Choose(0x110000/24+1)) * 24
					var b strings.Builder
					for i := rune(0); i < 24; i++ {
						b.WriteRune(p + i)
					}
					return e8Case(b.String(), false)
				}
				limits := []rune{0x80, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff}
				r := limits[c.Choose(len(limits))] + rune(c.Choose(5)-2)
				return e8Case("a"+string(r)+"b", true)
			},
			func(c *Chooser, e *Env) *Case {
				var n int
				if c.Bool() {
					n = c.Choose(300)
				} else {
					n = 1<<(9+c.Choose(9)) + c.Choose(5) - 2
				}
				tail := c.Pick("", "\"", "\n", "\x00", "\xff", "\u2028", "\U0001F600")
				return e8Case(strings.Repeat("x", n)+tail, n < 300)
			},
			func(c *Chooser, e *Env) *Case {
				if corpusDocs == nil {
					corpusDocs, tops, smalls = corpus(), topItems(), smallItems()
				}
				var d *Doc
				vars := ""
				switch c.Choose(3) {
				case 0:
					d, vars = corpusDocs[c.Choose(len(corpusDocs))], corpusVars
				case 1:
					d = query(tops[c.Choose(len(tops))])
				case 2:
					d = query(smalls[c.Choose(len(smalls))].as("a"), smalls[c.Choose(len(smalls))].as("b"))
					for i := range d.Defs[0].(*Op).Sel {
						if s := &d.Defs[0].(*Op).Sel[i]; s.Kind != 'f' {
							s.Alias = ""
						}
					}
				}
				return &Case{DescF: d.String, Run: func() Result {
					f, out, n := optionRuns(world(), d.String(), yarql.ResolveOptions{Variables: vars}, nil)
					return Result{Fail: f, Outcome: out, Steps: n}
				}}
			},
		},
	})
}
