package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
)

// E02: literal arguments reach the resolver with exactly their value, or are refused
// E03: the same for variables and their defaults

var intTexts = []string{"0", "-0", "1", "-1", "7", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740993",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "100000000000000000000", "1" + strings.Repeat("0", 40), strings.Repeat("9", 310)}

var floatTexts = []string{"0.0", "-0.0", "1.5", "-1.5e3", "1e2", "1E-2", "2.5E+1", "0.1", "3.4028234e38", "3.5e38", "-3.5e38", "1e308", "1.7976931348623157e308", "1e309", "-1e400", "1e-400", "4.9e-324", "123456789.123456789", "0.30000000000000004"}

var strTexts = []string{"", "a", "1", "-1", "127", "128", "-128", "65535", "65536", "300", "9223372036854775807", "9223372036854775808", "1.5", "true", "null", "RED", "SMALL", "NOPE", "Color",
	"2020-02-29T23:59:58.120Z", "2021-02-29T00:00:00.000Z", "2021-13-01T00:00:00.000Z", "2021-01-01T24:00:00.000Z", "2021-01-01T00:00:00Z", "2021-01-01", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "-129", "-32768", "-32769", "32767", "32768", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "00", "+1", "1_0", "0x1",
	"0001-01-01T00:00:00.000Z", "9999-12-31T23:59:59.999Z",
	"file1", "other", "a\"b\\c\n\t", "é\u2028\U0001F600", " a ", "{\"a\":1}"}

// literals is the list of literal values that are bound to every type
var literals = func() []Val {
	_ = world2Ready
	var res []Val
	for _, s := range intTexts {
		res = append(res, vInt(s))
	}
	for _, s := range floatTexts {
		res = append(res, vFloat(s))
	}
	for _, s := range strTexts {
		res = append(res, vStr(s))
	}
	for _, s := range []string{"RED", "GREEN", "BLUE", "SMALL", "LARGE", "LOW", "MID", "HIGH", "NOPE", "red", "RE", "REDD", "nullx", "truex"} {
		res = append(res, vEnum(s))
	}
	o := func(a ...Arg) Val { return vObj(a...) }
	in1 := validLit(inTypeNamed("In1"))
	res = append(res, vBool(true), vBool(false), vNull(),
		vList(), vList(vInt("1")), vList(vInt("1"), vNull(), vInt("3")), vList(vList(vInt("1"), vInt("2")), vNull(), vList()), vList(vList()), vList(vStr("a"), vNull(), vStr("")),
		vList(vBool(true), vBool(false)), vList(vEnum("RED"), vEnum("BLUE")), vList(vEnum("RED"), vInt("1")), vList(vInt("1"), vStr("a")), vList(vFloat("1.5")), vList(vStr("2020-02-29T23:59:58.120Z")), vList(vNull()),
		vList(vStr("file1"), vStr("file2")),
		o(), o(Arg{"x", vInt("1")}), o(Arg{"i", vInt("1")}), o(Arg{"nope", vInt("1")}), o(Arg{"x", vStr("1")}), o(Arg{"no", vStr("1")}), o(Arg{"X", vInt("1")}),
		in1, o(Arg{"s", vNull()}, Arg{"i", vInt("9")}), o(Arg{"i", vInt("9")}, Arg{"s", vNull()}), o(Arg{"o", vNull()}), o(Arg{"o", o()}), o(Arg{"key", vStr("k")}, Arg{"u8", vInt("255")}), o(Arg{"u8", vInt("256")}),
		o(Arg{"l", vList(vInt("1"), vNull())}, Arg{"f", vInt("2")}), o(Arg{"e", vEnum("LOW")}), o(Arg{"x", vNull()}),
		o(Arg{"r", o(Arg{"r", o(Arg{"x", vInt("2")})}, Arg{"x", vInt("1")})}, Arg{"l", vList(o(Arg{"x", vInt("3")}), o(), vNull())}, Arg{"p", vList(o(Arg{"x", vInt("3")}), vNull())}),
		o(Arg{"y", o(Arg{"z", vList(vStr("q"))})}, Arg{"x", vInt("5")}), o(Arg{"y", vNull()}),
		vList(o(), o(Arg{"x", vInt("1")}), vNull()), vList(in1, o(Arg{"i", vInt("2")})),
	)
	return res
}()

func inTypeNamed(n string) *InT {
	for _, t := range inTypes {
		if t.Name == n {
			return t
		}
	}
	panic("no input type " + n)
}

func argDoc(field string, args ...Arg) *Doc {
	return query(fld(field).args(args...), fld("int").as("last").args(Arg{"a", vInt("6")}))
}

// wrapLit puts the literal in lists and objects
func wrapLits(t *InT, l Val) []Val {
	for t.K == "ptr" {
		t = t.Elem
	}
	switch {
	case t.K == "list":
		return []Val{vList(l), vList(l, validLit(t.Elem)), vList(validLit(t.Elem), l)}
	case t.K == "obj":
		var res []Val
		for _, f := range t.Fields {
			if f.Name == "" {
				continue
			}
			other := t.Fields[0]
			if f.Name == other.Name {
				other = t.Fields[1]
			}
			res = append(res, vObj(Arg{f.Name, l}), vObj(Arg{f.Name, l}, Arg{other.Name, validLit(other.T)}), vObj(Arg{other.Name, validLit(other.T)}, Arg{f.Name, l}))
		}
		return res
	}
	return nil
}

func sizedVal(kind, n int) (string, Val) {
	switch kind {
	case 0:
		return "str", vStr(strings.Repeat("a", n))
	case 1:
		return "idStr", vStr(strings.Repeat("é", n))
	case 2:
		return "str", vStr(strings.Repeat("\n", n))
	case 3:
		l := Val{K: 'l'}
		for i := 0; i < n; i++ {
			l.L = append(l.L, vInt(fmt.Sprint(i)))
		}
		return "lInt", l
	case 4:
		l := Val{K: 'l'}
		for i := 0; i < n; i++ {
			l.L = append(l.L, vList(vInt("1")))
		}
		return "llInt", l
	case 5:
		l := Val{K: 'l'}
		for i := 0; i < n; i++ {
			l.L = append(l.L, vObj(Arg{"x", vInt(fmt.Sprint(i))}))
		}
		return "lpIn2", l
	case 6:
		if n > 2000 {
			n = 2000 + n%7
		}
		v := vObj(Arg{"x", vInt("1")})
		for i := 0; i < n; i++ {
			v = vObj(Arg{"r", v}, Arg{"x", vInt("2")})
		}
		return "in2", v
	case 7:
		return "lpStr", vList(vStr(strings.Repeat("x", n)), vNull(), vStr("y"))
	}
	return "f64", vFloat("1." + strings.Repeat("0", n) + "1")
}

var sizes = []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}
var bigSizes = append(append([]int{}, sizes...), 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100000)

func init() {
	second := []int{}
	for i := range literals {
		if i%4 == 1 {
			second = append(second, i)
		}
	}
	register(&Property{
		ID: "E02",
		Bounds: map[string]string{
			"quick":    "every number of up to 5 and every text of up to 4 characters (of 8 and 12) for every type that takes one, as literal, variable and default; 45 input types (all integer widths, floats, strings, booleans, enums, times, files, IDs, pointers, lists, objects, recursive and inline objects) x ~150 literals, alone and inside of every list and object position, with a literal of another argument in front or behind it; pairs of literals; every code point as a string character, raw and escaped; block strings of up to 3 out of 8 lines with 8 indentations; all pairs of 96 characters; strings, lists, objects with sizes around powers of two up to 100000; 13 functions with up to 6 parameters x every subset of their arguments",
			"thorough": "the quick space with numbers of up to 6 and texts of up to 5 characters, all pairs of literals for every type and all triples of 40 characters",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case { return manyArgs(c, false) },
			func(c *Chooser, e *Env) *Case { return shortNumbers(c, e) },
			func(c *Chooser, e *Env) *Case { return shortTexts(c, e) },
			blockText,
			// a literal alone and next to another argument
			func(c *Chooser, e *Env) *Case {
				t := inEntries[c.Choose(len(inEntries))]
				l := literals[c.Choose(len(literals))]
				switch c.Choose(4) {
				case 0:
					return doc2Case(argDoc(t.name, Arg{"a", l}), "")
				case 1:
					return doc2Case(argDoc(t.name, Arg{"b", l}), "")
				case 2:
					return doc2Case(argDoc(t.name, Arg{"a", l}, Arg{"b", validLit(t.t)}), "")
				default:
					return doc2Case(argDoc(t.name, Arg{"b", validLit(t.t)}, Arg{"a", l}), "")
				}
			},
			// inside of lists and objects
			func(c *Chooser, e *Env) *Case {
				t := inEntries[c.Choose(len(inEntries))]
				l := literals[c.Choose(len(literals))]
				w := wrapLits(t.t, l)
				if len(w) == 0 {
					return nil
				}
				v := w[c.Choose(len(w))]
				if c.Bool() {
					return doc2Case(argDoc(t.name, Arg{"a", v}), "")
				}
				return doc2Case(argDoc(t.name, Arg{"a", v}, Arg{"b", validLit(t.t)}), "")
			},
			// pairs
			func(c *Chooser, e *Env) *Case {
				t := inEntries[c.Choose(len(inEntries))]
				l := literals[c.Choose(len(literals))]
				var m Val
				if e.Thorough {
					m = literals[c.Choose(len(literals))]
				} else {
					m = literals[second[c.Choose(len(second))]]
				}
				return doc2Case(argDoc(t.name, Arg{"b", l}, Arg{"a", m}), "")
			},
			// characters
			func(c *Chooser, e *Env) *Case {
				return charCase(c)
			},
			// pairs of characters
			func(c *Chooser, e *Env) *Case {
				chars := []string{}
				for i := 0x20; i < 0x7f; i++ {
					chars = append(chars, string(rune(i)))
				}
				chars = append(chars, "\n", "\t", "\r", "\b", "\f", "\x00", "\x01", "\x7f", "é", "\u2028", "\U0001F600", "\ufeff")
				if e.Thorough {
					chars = []string{"\"", "\\", "/", "#", ",", "{", "}", "(", ")", "[", "]", ":", "$", "@", "!", "&", "<", "'", "a", "b", "f", "n", "r", "t", "u", "0", "9", " ", "\n", "\t", "\r", "\b", "\f", "\x00", "\x1f", "é", "\u2029", "\U0001F600"}
				}
				s := chars[c.Choose(len(chars))] + chars[c.Choose(len(chars))]
				if e.Thorough {
					s += chars[c.Choose(len(chars))]
				}
				return doc2Case(argDoc("str", Arg{"a", vStr(s)}, Arg{"b", vStr("z")}), "")
			},
			// sizes
			func(c *Chooser, e *Env) *Case {
				kind := c.Choose(9)
				n := bigSizes[c.Choose(len(bigSizes))]
				name, v := sizedVal(kind, n)
				k := doc2Case(argDoc(name, Arg{"a", v}, Arg{"b", validLit(entryNamed(name))}), "")
				k.Desc = fmt.Sprintf("%s with a value of size %d: %s", name, n, clip(k.desc(), 80))
				return k
			},
		},
	})
}

// pickText chooses a text of one up to n characters
func pickText(c *Chooser, alphabet []string, n int) (s string) {
	n = 1 + c.Choose(n)
	for i := 0; i < n; i++ {
		s += alphabet[c.Choose(len(alphabet))]
	}
	return
}

// textMode hands the value over as literal, variable or default
func textMode(c *Chooser, t inEntry, v Val, json string) *Case {
	second := Arg{"b", validLit(t.t)}
	switch c.Choose(3) {
	case 0:
		return doc2Case(varDoc(nil, fld(t.name).args(Arg{"a", v}, second), lastSel), "")
	case 1:
		return doc2Case(varDoc([]VarDef{{"v", declType(t.t), nil}}, fld(t.name).args(Arg{"a", vVar("v")}, second), lastSel), `{"v":`+json+`}`)
	default:
		return doc2Case(varDoc([]VarDef{{"v", declType(t.t), &v}}, fld(t.name).args(Arg{"a", vVar("v")}, second), lastSel), "")
	}
}

var numberRe = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

// shortNumbers is every number of a few characters for every type that takes a number
func shortNumbers(c *Chooser, e *Env) *Case {
	n := 5
	if e.Thorough {
		n = 6
	}
	s := pickText(c, []string{"0", "1", "2", "9", "-", ".", "e", "+"}, n)
	if !numberRe.MatchString(s) {
		return nil
	}
	v := vInt(s)
	if strings.ContainsAny(s, ".e") {
		v = vFloat(s)
	}
	return textMode(c, numEntries[c.Choose(len(numEntries))], v, s)
}

// shortTexts is every text of a few characters for every type that takes a text
func shortTexts(c *Chooser, e *Env) *Case {
	n := 4
	if e.Thorough {
		n = 5
	}
	s := pickText(c, []string{"0", "1", "9", "-", "+", "_", "x", "e", ".", " ", "o", "b"}, n)
	j, _ := json.Marshal(s)
	return textMode(c, textEntries[c.Choose(len(textEntries))], vStr(s), string(j))
}

// blockText is a block string of several lines that have the same indentation, that of lines with
// different indentation is known to not follow the specification
func blockText(c *Chooser, e *Env) *Case {
	indent := []string{"", " ", "\t", "  ", "\t\t", " \t", "\t ", "        "}[c.Choose(8)]
	contents := []string{"a", "b c", "x\ty", `q"q""q`, `\"""`, "", "é#{,}", "end."}
	raw := ""
	start := c.Choose(3)
	n := 1 + c.Choose(3)
	for i := 0; i < n; i++ {
		l := contents[c.Choose(len(contents))]
		if l == "" && (i == 0 || i == n-1) {
			return nil
		}
		switch {
		case i > 0 || start == 1:
			raw += "\n" + indent
		case start == 2:
			raw += indent + "\n\n" + indent
		}
		raw += l
	}
	raw += []string{"", "\n", "\n" + indent, "\n" + indent + "\n"}[c.Choose(4)]
	t := []string{"str", "ppStr"}[c.Choose(2)]
	v := Val{K: 'B', S: raw}
	entry := inEntry{}
	for _, x := range textEntries {
		if x.name == t {
			entry = x
		}
	}
	if entry.t == nil {
		panic(t)
	}
	second := Arg{"b", validLit(entry.t)}
	if c.Bool() {
		return doc2Case(varDoc(nil, fld(t).args(Arg{"a", v}, second), lastSel), "")
	}
	return doc2Case(varDoc([]VarDef{{"v", declType(entry.t), &v}}, fld(t).args(Arg{"a", vVar("v")}, second), lastSel), "")
}

// numEntries and textEntries are the types without lists and objects
var numEntries, textEntries = func() (nums, texts []inEntry) {
	_ = world2Ready
	for _, t := range inEntries {
		k := t.t
		for k.K == "ptr" {
			k = k.Elem
		}
		switch {
		case k.K == "list" || k.K == "obj" || k.K == "bool" || k.K == "enum" || k.K == "time" || k.K == "file":
		case k.K == "string":
			texts = append(texts, t)
		case strings.HasPrefix(k.K, "id:"):
			nums, texts = append(nums, t), append(texts, t)
		default:
			nums = append(nums, t)
		}
	}
	return
}()

func entryNamed(n string) *InT {
	for _, e := range inEntries {
		if e.name == n {
			return e.t
		}
	}
	panic(n)
}

// charCase is one code point in a string
func charCase(c *Chooser) *Case {
	block := c.Choose(0x1100)
	i := c.Choose(256)
	r := rune(block*256 + i)
	if r >= 0xd800 && r <= 0xdfff {
		return nil
	}
	kind := c.Choose(3)
	raw := string(r)
	if kind == 0 && (r < 0x20 && r != '\t' || r == '"' || r == '\\') {
		return nil
	}
	switch kind {
	case 1:
		raw = fmt.Sprintf(`\u%04x`, r)
		if r > 0xffff {
			raw = fmt.Sprintf(`\u%04x\u%04X`, 0xd800+(r-0x10000)>>10, 0xdc00+(r-0x10000)&0x3ff)
		}
	case 2:
		raw = fmt.Sprintf(`\u%04X`, r)
		if r > 0xffff {
			raw = fmt.Sprintf(`\u%04X\u%04x`, 0xd800+(r-0x10000)>>10, 0xdc00+(r-0x10000)&0x3ff)
		}
	}
	d := query(fld("str").args(Arg{"a", vStr("x" + string(r) + "y")}))
	text := `{str(a:"x` + raw + `y")}`
	return &Case{Desc: text, Run: func() Result {
		ref := refExec(RefReq{Doc: d, Query: world2Q, Directives: newScalarDirs()})
		rr := run(world2(), text, optsNone)
		return Result{Fail: compare(ref, rr), Outcome: rr.Raw, Steps: 1}
	}}
}

//
// E03
//

var jsonTexts = func() []string {
	res := append([]string{}, intTexts...)
	res = append(res, floatTexts...)
	for _, s := range strTexts {
		b, _ := json.Marshal(s)
		res = append(res, string(b))
	}
	res = append(res, "true", "false", "null", "[]", "[1]", "[1,null,3]", "[[1,2],null,[]]", `["a",null,""]`, "[true,false]", `["RED","BLUE"]`, `["RED",1]`, `[1,"a"]`, "[1.5]", `["2020-02-29T23:59:58.120Z"]`, "[null]",
		`["file1","file2"]`, `["other"]`, "{}", `{"x":1}`, `{"i":1}`, `{"nope":1}`, `{"x":"1"}`, `{"no":"1"}`, `{"X":1}`,
		`{"i":3,"s":"x","o":{"x":4,"l":[{}]},"l":[1],"e":"RED","t":"1999-12-31T00:00:00.000Z","b":true}`,
		`{"s":null,"i":9}`, `{"i":9,"s":null}`, `{"o":null}`, `{"o":{}}`, `{"key":"k","u8":255}`, `{"u8":256}`, `{"l":[1,null],"f":2}`, `{"e":"LOW"}`, `{"x":null}`, `{"e":1}`, `{"key":1}`,
		`{"r":{"r":{"x":2},"x":1},"l":[{"x":3},{},null],"p":[{"x":3},null]}`, `{"y":{"z":["q"]},"x":5}`, `{"y":null}`, `[{},{"x":1},null]`, `[{"i":1},{"i":2}]`, `{"x":1.5}`, `{"x":true}`, `[[1],["a"]]`,
		`"\u0041\ud83d\ude00\n\/"`, `"\u00e9"`, "1e2", "1.0", "-1e0", `{"\u0078":5}`)
	return res
}()

// lenientJSON are invalid payloads the JSON parser of the project accepts
var lenientJSON = map[string]bool{`{"v":01}`: true, `{"v":.5}`: true, `{"v":+1}`: true, `{"v":NaN}`: true, "{\"v\":\"\x01\"}": true, `{"v":"\x"}`: true, `{"v":"\u12"}`: true, `{"v":1e}`: true, `{"v":-}`: true, "\xff": true}

// declType is a declared variable type that fits
func declType(t *InT) string {
	switch {
	case t.K == "ptr":
		return declType(t.Elem)
	case t.K == "list":
		return "[" + declType(t.Elem) + "]"
	case t.K == "bool":
		return "Boolean"
	case t.K == "string":
		return "String"
	case strings.HasPrefix(t.K, "float"):
		return "Float"
	case strings.HasPrefix(t.K, "id:"):
		return "ID"
	case t.K == "enum":
		return t.Name
	case t.K == "time":
		return "Time"
	case t.K == "file":
		return "File"
	case t.K == "obj":
		if t.Name == "" {
			return "__UnknownInput1"
		}
		return t.Name
	}
	return "Int"
}

func varDoc(vars []VarDef, sels ...Sel) *Doc {
	return &Doc{Defs: []any{&Op{Kind: "query", Vars: vars, Sel: sels}}}
}

var lastSel = fld("int").as("last").args(Arg{"a", vInt("6")})

var declNames = []string{"Int", "Float", "String", "Boolean", "ID", "Color", "Size", "Level", "Time", "File", "In1", "In2", "Nope", "int", "In", "In11", "Strin"}

func init() {
	varUses := []struct {
		field string
		vars  []VarDef
		val   Val
		json  []string
	}{
		{"lInt", []VarDef{{"v", "Int", nil}, {"w", "Int!", nil}}, vList(vVar("v"), vInt("1"), vVar("w"), vVar("v")), []string{`{"v":5,"w":6}`, `{"v":null,"w":6}`, `{"w":6}`, `{"v":"a","w":1}`, `{"v":5,"w":[1]}`, `{"w":1,"v":2,"x":3}`}},
		{"llInt", []VarDef{{"v", "[Int]", nil}, {"w", "Int!", nil}}, vList(vVar("v"), vList(vVar("w")), vList(), vVar("v")), []string{`{"v":[5,6],"w":6}`, `{"v":null,"w":6}`, `{"v":[],"w":0}`, `{"v":5,"w":0}`}},
		{"in1", []VarDef{{"v", "Int", nil}, {"w", "String!", nil}, {"o", "In2", nil}}, vObj(Arg{"i", vVar("v")}, Arg{"s", vVar("w")}, Arg{"o", vVar("o")}, Arg{"f", vFloat("1.5")}), []string{`{"v":5,"w":"x","o":{"x":1}}`, `{"v":5,"w":null,"o":null}`, `{"o":{"r":{"x":2}},"w":"","v":1}`, `{"o":{"q":1},"w":"","v":1}`, `{"v":1,"w":1,"o":{}}`}},
		{"in1", []VarDef{{"o", "In2", nil}, {"x", "Int", nil}}, vObj(Arg{"o", vObj(Arg{"x", vVar("x")}, Arg{"r", vVar("o")}, Arg{"l", vList(vVar("o"), vObj(Arg{"x", vVar("x")}))})}, Arg{"i", vVar("x")}), []string{`{"o":{"x":1},"x":3}`, `{"o":null,"x":3}`, `{"x":3}`, `{"o":{"x":7,"p":[{}]},"x":null}`}},
		{"lpStr", []VarDef{{"v", "String", nil}}, vList(vVar("v"), vStr("b"), vNull(), vVar("v")), []string{`{"v":"5"}`, `{"v":null}`, `{"v":5}`, `{}`}},
		{"lpIn2", []VarDef{{"v", "In2", nil}, {"l", "[In2!]", nil}}, vList(vVar("v"), vObj(Arg{"l", vVar("l")}), vObj(Arg{"p", vVar("l")})), []string{`{"v":{},"l":[{"x":1}]}`, `{"v":null,"l":[]}`, `{"v":{"x":1},"l":[null,{"x":2}]}`, `{"v":{"x":1},"l":{}}`}},
		{"inl", []VarDef{{"s", "String", nil}, {"l", "[String!]!", nil}}, vObj(Arg{"y", vObj(Arg{"z", vList(vVar("s"))})}, Arg{"x", vInt("1")}), []string{`{"s":"q","l":[]}`, `{"s":null}`}},
		{"inl", []VarDef{{"l", "[String!]!", nil}}, vObj(Arg{"x", vInt("1")}, Arg{"y", vObj(Arg{"z", vVar("l")})}), []string{`{"l":["a","b"]}`, `{"l":[null]}`, `{"l":[1]}`}},
	}
	names := []string{"v", "vv", "v1", "v10", "V", "_v", "w", "vvv", "v11", "value", "x"}
	register(&Property{
		ID: "E03",
		Bounds: map[string]string{
			"quick":    "every number of up to 5 and every text of up to 4 characters (of 8 and 12) for every type that takes one, as literal, variable and default; 45 input types x ~170 JSON values x 2 argument positions; x 17 declared type names in 6 list shapes; x ~150 default values x {absent, null, given}; variables inside lists and objects; 1..11 variables with overlapping names in both orders, every one used; variables in fragments, directives and repeated; 40 malformed or unusual variable payloads; every code point as a JSON character; sizes up to 100000; 13 functions with up to 6 parameters x every subset of their arguments",
			"thorough": "the quick space with numbers of up to 6 and texts of up to 5 characters, every default value x every JSON value, and pairs of variables",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case { return manyArgs(c, true) },
			func(c *Chooser, e *Env) *Case { return shortNumbers(c, e) },
			func(c *Chooser, e *Env) *Case { return shortTexts(c, e) },
			// values
			func(c *Chooser, e *Env) *Case {
				t := inEntries[c.Choose(len(inEntries))]
				j := jsonTexts[c.Choose(len(jsonTexts))]
				typ := declType(t.t)
				v := []VarDef{{"v", typ, nil}}
				mode := c.Choose(4)
				if t.name == "inl" && mode > 0 {
					return nil // the type of b has another generated name
				}
				switch mode {
				case 0:
					return doc2Case(varDoc(v, fld(t.name).args(Arg{"a", vVar("v")}), lastSel), `{"v":`+j+`}`)
				case 1:
					return doc2Case(varDoc(v, fld(t.name).args(Arg{"a", validLit(t.t)}, Arg{"b", vVar("v")}), lastSel), `{"u":1,"v":`+j+`}`)
				case 2:
					v[0].Type += "!"
					return doc2Case(varDoc(v, fld(t.name).args(Arg{"b", vVar("v")}, Arg{"a", validLit(t.t)}), lastSel), ` { "v" : `+j+` , "z":{} } `)
				default:
					return doc2Case(varDoc(v, fld(t.name).args(Arg{"b", vVar("v")}, Arg{"a", vVar("v")}), lastSel), `{"v":`+j+`}`)
				}
			},
			// declared types
			func(c *Chooser, e *Env) *Case {
				t := inEntries[c.Choose(len(inEntries))]
				n := declNames[c.Choose(len(declNames))]
				n = []string{n, n + "!", "[" + n + "]", "[" + n + "!]!", "[[" + n + "]]", "[[[" + n + "!]!]!]!"}[c.Choose(6)]
				j := toJSON(validLit(t.t))
				if c.Bool() {
					d := validLit(t.t)
					return doc2Case(varDoc([]VarDef{{"v", n, &d}}, fld(t.name).args(Arg{"a", vVar("v")}), lastSel), "")
				}
				return doc2Case(varDoc([]VarDef{{"v", n, nil}}, fld(t.name).args(Arg{"a", vVar("v")}), lastSel), `{"v":`+j+`}`)
			},
			// defaults
			func(c *Chooser, e *Env) *Case {
				t := inEntries[c.Choose(len(inEntries))]
				l := literals[c.Choose(len(literals))]
				v := []VarDef{{"u", "Int", nil}, {"v", declType(t.t), &l}, {"w", "[Int!]!", nil}}
				var j string
				if e.Thorough {
					k := c.Choose(len(jsonTexts) + 1)
					j = "{}"
					if k > 0 {
						j = `{"v":` + jsonTexts[k-1] + `}`
					}
				} else {
					j = []string{"", "{}", `{"u":1,"w":[]}`, `{"v":null}`, `{"v":` + toJSON(validLit(t.t)) + `}`}[c.Choose(5)]
				}
				return doc2Case(varDoc(v, fld(t.name).args(Arg{"a", vVar("v")}, Arg{"b", validLit(t.t)}), lastSel), j)
			},
			// nested
			func(c *Chooser, e *Env) *Case {
				u := varUses[c.Choose(len(varUses))]
				j := u.json[c.Choose(len(u.json))]
				x := c.Choose(4)
				args := []Arg{{"a", u.val}}
				if x&1 == 1 {
					args = append(args, Arg{"b", validLit(entryNamed(u.field))})
				}
				if x&2 == 2 {
					args = []Arg{args[len(args)-1], args[0]}
					if len(args) == 2 && args[0].Name == args[1].Name {
						return nil
					}
				}
				return doc2Case(varDoc(u.vars, fld(u.field).args(args...), lastSel), j)
			},
			// many variables
			func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(len(names))
				i := c.Choose(len(names))
				k := c.Choose(len(names))
				mode := c.Choose(8)
				var defs []VarDef
				var js []string
				for x := 0; x < n; x++ {
					d := vInt(fmt.Sprint(100 + x))
					typ := "Int"
					switch mode {
					case 0:
						defs = append(defs, VarDef{names[x], "Int", nil})
						js = append(js, fmt.Sprintf(`"%s":%d`, names[x], x))
					case 1:
						defs = append(defs, VarDef{names[x], "Int!", &d})
					case 2:
						defs = append(defs, VarDef{names[x], "Int", &d})
						if x%2 == 0 {
							js = append([]string{fmt.Sprintf(`"%s":%d`, names[x], x)}, js...)
						}
					case 3:
						// defaults that need more room
						dl := vList(vObj(Arg{"a", vStr("}])e\x01")}, Arg{"e", vInt("1")}), vInt(fmt.Sprint(x)))
						if names[x] == names[i] || names[x] == names[k] {
							defs = append(defs, VarDef{names[x], typ, &d})
						} else {
							defs = append(defs, VarDef{names[x], "[[In1!]!]", &dl})
						}
					case 4:
						// every definition twice
						defs = append(defs, VarDef{names[x], "Int", nil})
						js = append(js, fmt.Sprintf(`"%s":%d,"%s%s":7`, names[x], x, names[x], "z"))
					case 5:
						defs = append([]VarDef{{names[x], "Int", &d}}, defs...)
						js = append(js, fmt.Sprintf(`"%s":null`, names[x]))
					case 6:
						// the longer names first, without values
						defs = append([]VarDef{{names[x], "Int", &d}}, defs...)
					case 7:
						// the others have another type and no default
						if x == i || x == k {
							defs = append([]VarDef{{names[x], "Int", &d}}, defs...)
						} else {
							defs = append([]VarDef{{names[x], "String", nil}}, defs...)
						}
					}
				}
				return doc2Case(varDoc(defs, fld("int").args(Arg{"a", vVar(names[i])}, Arg{"b", vVar(names[k])}), lastSel), "{"+strings.Join(js, ",")+"}")
			},
			// where variables are used
			func(c *Chooser, e *Env) *Case {
				use := func() Sel { return fld("int").args(Arg{"a", vVar("v")}) }
				skip := func(s Sel) Sel { return s.dir(Dir{"skip", []Arg{{"if", vVar("f")}}}) }
				incl := func(s Sel) Sel { return s.dir(Dir{"include", []Arg{{"if", vVar("f")}}}) }
				d := vInt("9")
				db := vBool(true)
				vars := [][]VarDef{
					{{"v", "Int", nil}, {"f", "Boolean", nil}},
					{{"f", "Boolean!", &db}, {"v", "Int!", &d}},
					{{"v", "Int", nil}},
					{{"f", "Boolean", nil}},
				}[c.Choose(4)]
				j := c.Pick(`{"v":1,"f":true}`, `{"v":1,"f":false}`, `{"f":false}`, `{"v":2}`, `{}`, ``, `{"f":"true","v":1}`, `{"f":null,"v":null}`, `{"v":1,"f":[true]}`)
				var sels []Sel
				for x := 0; x < 2; x++ {
					a := fmt.Sprintf("k%d", x)
					switch c.Choose(8) {
					case 0:
						sels = append(sels, use().as(a))
					case 1:
						sels = append(sels, skip(use().as(a)))
					case 2:
						sels = append(sels, incl(fld("str").as(a).args(Arg{"a", vStr("q")})))
					case 3:
						sels = append(sels, skip(inline("Q2", use().as(a))))
					case 4:
						sels = append(sels, spread("F"+a))
					case 5:
						sels = append(sels, incl(spread("F"+a)))
					case 6:
						sels = append(sels, incl(skip(use().as(a))))
					case 7:
						sels = append(sels, inline("Q2", use().as(a), incl(use().as(a+"x"))))
					}
				}
				doc := varDoc(vars, append(sels, lastSel)...)
				doc.Defs = append(doc.Defs, &Frag{"Fk0", "Q2", []Sel{use().as("k0")}}, &Frag{"Fk1", "Q2", []Sel{skip(use().as("k1"))}})
				return doc2Case(doc, j)
			},
			// payloads
			func(c *Chooser, e *Env) *Case {
				payloads := []string{"", "{}", "null", "[]", "1", `"a"`, "true", "{", "}", `{"v"}`, `{"v":}`, `{"v":1`, `{"v":1}}`, `{"v":1} x`, `{v:1}`, `{'v':1}`, `{"v":01}`, `{"v":1,}`, `{"v":[1,]}`, `{"v":tru}`, `{"v":"a}`,
					" \t\r\n{\"v\"\n:\t1 } \n", `{"V":1}`, `{"v ":1}`, `{"\u0076":1}`, `{"":1}`, `{"v":{"v":1}}`, `{"a":{"v":1}}`, `{"a":{"b":[{}]},"v":1}`, "{\"v\":\"\x01\"}", "\xff", `{"v":1e}`, `{"v":-}`, `{"v":+1}`, `{"v":.5}`, `{"v":NaN}`, `{"v":"\x"}`, `{"v":"\u12"}`,
					strings.Repeat("[", 200), `{"v":` + strings.Repeat("[", 200) + strings.Repeat("]", 200) + `}`, `{"v":` + strings.Repeat(`{"a":`, 290) + "1" + strings.Repeat("}", 290) + `}`}
				j := payloads[c.Choose(len(payloads))]
				d := vInt("5")
				used := c.Choose(6)
				v := []VarDef{{"v", "Int", nil}}
				if lenientJSON[j] {
					return nil
				}
				switch used {
				case 0:
					return doc2Case(varDoc(v, lastSel), j)
				case 1:
					return doc2Case(varDoc(v, fld("int").args(Arg{"a", vVar("v")}), lastSel), j)
				case 2:
					v[0].Def = &d
					return doc2Case(varDoc(v, fld("int").args(Arg{"a", vVar("v")}), lastSel), j)
				case 3, 4:
					// the items of a list and the field behind it use the variable again
					if used == 4 {
						v[0].Def = &d
					}
					up := fld("up").args(Arg{"x", vVar("v")})
					return docCase(&Doc{Defs: []any{&Op{Kind: "query", Vars: v, Sel: []Sel{fld("mlist", up, up.as("again")), fld("mobj", up)}}}}, "", j, 0)
				default:
					v[0].Type = "[Int]"
					return doc2Case(varDoc(v, fld("lInt").args(Arg{"a", vVar("v")}), lastSel), j)
				}
			},
			// code points
			func(c *Chooser, e *Env) *Case {
				block := c.Choose(0x1100)
				r := rune(block*256 + c.Choose(256))
				if r >= 0xd800 && r <= 0xdfff {
					return nil
				}
				raw := string(r)
				b, _ := json.Marshal("x" + raw + "y")
				if c.Bool() {
					if r > 0xffff {
						h, l := 0xd800+(r-0x10000)>>10, 0xdc00+(r-0x10000)&0x3ff
						b = []byte(fmt.Sprintf(`"x\u%04x\u%04Xy"`, h, l))
					} else {
						b = []byte(fmt.Sprintf(`"x\u%04Xy"`, r))
					}
				}
				return doc2Case(varDoc([]VarDef{{"v", "String", nil}}, fld("str").args(Arg{"a", vVar("v")})), `{"v":`+string(b)+`}`)
			},
			// sizes
			func(c *Chooser, e *Env) *Case {
				kind := c.Choose(8)
				n := bigSizes[c.Choose(len(bigSizes))]
				if kind == 6 && n > 120 {
					return nil // the JSON parser limits the nesting
				}
				name, v := sizedVal(kind, n)
				t := entryNamed(name)
				var k *Case
				switch c.Choose(3) {
				case 0:
					k = doc2Case(varDoc([]VarDef{{"v", declType(t), nil}}, fld(name).args(Arg{"a", vVar("v")}, Arg{"b", validLit(t)}), lastSel), `{"v":`+toJSON(v)+`}`)
				case 1:
					k = doc2Case(varDoc([]VarDef{{"v", declType(t), &v}, {"w", "Int", nil}}, fld(name).args(Arg{"a", vVar("v")}, Arg{"b", validLit(t)}), fld("int").as("x").args(Arg{"a", vVar("w")}), lastSel), `{"w":1}`)
				default:
					if n > 254 || n == 0 {
						return nil
					}
					nm := strings.Repeat("v", n)
					k = doc2Case(varDoc([]VarDef{{nm[1:] + "x", "Int", nil}, {nm, "Int", nil}, {nm[1:] + "_", "Int", nil}}, fld("int").args(Arg{"a", vVar(nm)}, Arg{"b", vVar(nm)}), lastSel), `{"`+nm+`":4,"`+nm[1:]+`x":5}`)
				}
				k.Desc = fmt.Sprintf("%s with a value of size %d: %s", name, n, clip(k.desc(), 100))
				return k
			},
		},
	})
}

// toJSON writes a literal as JSON
func toJSON(v Val) string {
	switch v.K {
	case 's', 'e':
		b, _ := json.Marshal(v.S)
		return string(b)
	case 'n':
		return "null"
	case 'l':
		p := []string{}
		for _, x := range v.L {
			p = append(p, toJSON(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	case 'o':
		p := []string{}
		for _, x := range v.O {
			p = append(p, `"`+x.Name+`":`+toJSON(x.Val))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	return v.S
}
