package main

import (
	"fmt"
	"strings"
)

// The harness' own GraphQL documents, independent of yarql's representation.

type Doc struct {
	Defs []any // *Op or *Frag
}

type Op struct {
	Kind  string // query, mutation, "" (short form)
	Name  string
	Vars  []VarDef
	Dirs  []Dir // refused when executed
	Sel   []Sel
	Empty bool
}

type VarDef struct {
	Name string
	Type string // printed, e.g. [Int!]!
	Def  *Val
}

type Frag struct {
	Name, On string
	Sel      []Sel
}

// Sel is a selection: a field, a named spread or an inline fragment
type Sel struct {
	Kind   byte // 'f', 's', 'i'
	Alias  string
	Name   string // field name, fragment name or type condition
	Args   []Arg
	Dirs   []Dir
	Sub    []Sel
	HasSub bool
	// DirsFirst prints the directives in front of the arguments (yarql also accepts that)
	DirsFirst bool
}

type Arg struct {
	Name string
	Val  Val
}

type Dir struct {
	Name string
	Args []Arg
}

// Val is an input value
type Val struct {
	K byte   // i f s B b n e l o $
	S string // source text of numbers, the decoded string, the name
	L []Val
	O []Arg
}

func vInt(s string) Val   { return Val{K: 'i', S: s} }
func vFloat(s string) Val { return Val{K: 'f', S: s} }
func vStr(s string) Val   { return Val{K: 's', S: s} }
func vEnum(s string) Val  { return Val{K: 'e', S: s} }
func vVar(s string) Val   { return Val{K: '$', S: s} }
func vBool(b bool) Val    { return Val{K: 'b', S: fmt.Sprint(b)} }
func vList(l ...Val) Val  { return Val{K: 'l', L: l} }
func vObj(o ...Arg) Val   { return Val{K: 'o', O: o} }
func vNull() Val          { return Val{K: 'n'} }
func fld(name string, sub ...Sel) Sel {
	return Sel{Kind: 'f', Name: name, Sub: sub, HasSub: len(sub) > 0}
}
func (s Sel) as(alias string) Sel      { s.Alias = alias; return s }
func (s Sel) args(a ...Arg) Sel        { s.Args = a; return s }
func (s Sel) dir(d ...Dir) Sel         { s.Dirs = d; return s }
func spread(name string) Sel           { return Sel{Kind: 's', Name: name} }
func inline(on string, sub ...Sel) Sel { return Sel{Kind: 'i', Name: on, Sub: sub, HasSub: true} }
func query(sel ...Sel) *Doc            { return &Doc{Defs: []any{&Op{Sel: sel}}} }
func (s Sel) key() string {
	if s.Alias != "" {
		return s.Alias
	}
	return s.Name
}

// quoteGQL writes a GraphQL string literal
func quoteGQL(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\r':
			b.WriteString(`\r`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 0x20:
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// tokens of the document
func (d *Doc) tokens() []string {
	var t []string
	for _, def := range d.Defs {
		switch v := def.(type) {
		case *Op:
			if v.Kind != "" {
				t = append(t, v.Kind)
				if v.Name != "" {
					t = append(t, v.Name)
				}
				if len(v.Vars) > 0 {
					t = append(t, "(")
					for _, vd := range v.Vars {
						t = append(t, "$", vd.Name, ":")
						t = append(t, typeTokens(vd.Type)...)
						if vd.Def != nil {
							t = append(t, "=")
							t = vd.Def.tokens(t)
						}
					}
					t = append(t, ")")
				}
				t = dirTokens(t, v.Dirs)
			}
			t = selTokens(t, v.Sel)
		case *Frag:
			t = append(t, "fragment", v.Name, "on", v.On)
			t = selTokens(t, v.Sel)
		}
	}
	return t
}

func typeTokens(s string) []string {
	var res []string
	cur := ""
	for _, c := range s {
		if c == '[' || c == ']' || c == '!' {
			if cur != "" {
				res = append(res, cur)
				cur = ""
			}
			res = append(res, string(c))
		} else {
			cur += string(c)
		}
	}
	if cur != "" {
		res = append(res, cur)
	}
	return res
}

func selTokens(t []string, sels []Sel) []string {
	t = append(t, "{")
	for _, s := range sels {
		switch s.Kind {
		case 'f':
			if s.Alias != "" {
				t = append(t, s.Alias, ":")
			}
			t = append(t, s.Name)
			if s.DirsFirst {
				t = dirTokens(t, s.Dirs)
			}
			if len(s.Args) > 0 {
				t = append(t, "(")
				t = argTokens(t, s.Args)
				t = append(t, ")")
			}
			if !s.DirsFirst {
				t = dirTokens(t, s.Dirs)
			}
			if s.HasSub {
				t = selTokens(t, s.Sub)
			}
		case 's':
			t = append(t, "...", s.Name)
			t = dirTokens(t, s.Dirs)
		case 'i':
			t = append(t, "...")
			if s.Name != "" {
				t = append(t, "on", s.Name)
			}
			t = dirTokens(t, s.Dirs)
			t = selTokens(t, s.Sub)
		}
	}
	return append(t, "}")
}

func dirTokens(t []string, ds []Dir) []string {
	for _, d := range ds {
		t = append(t, "@", d.Name)
		if len(d.Args) > 0 {
			t = append(t, "(")
			t = argTokens(t, d.Args)
			t = append(t, ")")
		}
	}
	return t
}

func argTokens(t []string, as []Arg) []string {
	for _, a := range as {
		t = append(t, a.Name, ":")
		t = a.Val.tokens(t)
	}
	return t
}

func (v Val) tokens(t []string) []string {
	switch v.K {
	case 'i', 'f', 'b', 'e':
		return append(t, v.S)
	case 's':
		return append(t, quoteGQL(v.S))
	case 'B':
		return append(t, `"""`+v.S+`"""`)
	case 'n':
		return append(t, "null")
	case '$':
		return append(t, "$", v.S)
	case 'l':
		t = append(t, "[")
		for _, i := range v.L {
			t = i.tokens(t)
		}
		return append(t, "]")
	case 'o':
		t = append(t, "{")
		t = argTokens(t, v.O)
		return append(t, "}")
	}
	panic("unknown value kind")
}

func wordByte(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// needSep tells if two tokens cannot be adjacent
func needSep(a, b string) bool {
	la, fb := a[len(a)-1], b[0]
	aw := wordByte(la) || la == '.' && a != "..."
	bw := wordByte(fb) || fb == '-' || fb == '+' || fb == '.' && b != "..."
	if aw && (bw || fb == '"' || b == "...") {
		// a number must not be followed by a name, digit or dot
		return true
	}
	if la == '"' && fb == '"' {
		return true
	}
	return false
}

// joinTokens prints the tokens with sep only where it is required
func joinTokens(t []string, sep string) string {
	var b strings.Builder
	for i, s := range t {
		if i > 0 && needSep(t[i-1], s) {
			b.WriteString(sep)
		}
		b.WriteString(s)
	}
	return b.String()
}

// String prints the document
func (d *Doc) String() string { return joinTokens(d.tokens(), " ") }
