package main

// Reference parser: a scannerless recursive descent parser for executable
// documents, written from the October 2021 specification.
//
// There are documents yarql is known to be more lenient or more strict about
// than the specification (see DESIGN.md), so a document has three classes.

type class int

const (
	mustAccept class = iota
	mustReject
	either
)

func (c class) String() string {
	return [...]string{"must be accepted", "must be rejected", "either"}[c]
}

func classify(text string) class {
	strict := (&rp{s: text}).document()
	if strict {
		return mustAccept
	}
	l := &rp{s: text, lenient: true}
	if l.document() || l.unsure {
		return either
	}
	return mustReject
}

type rp struct {
	s       string
	i       int
	lenient bool // accept everything yarql is known to tolerate
	unsure  bool // something was seen on which no opinion is given
	depth   int
}

type rpFail struct{}

func (p *rp) fail() { panic(rpFail{}) }

// limited is called for constructs the specification allows and yarql refuses
func (p *rp) limited() {
	p.unsure = true
	p.fail()
}

func (p *rp) c() int {
	if p.i >= len(p.s) {
		return -1
	}
	return int(p.s[p.i])
}

func (p *rp) has(lit string) bool {
	return len(p.s)-p.i >= len(lit) && p.s[p.i:p.i+len(lit)] == lit
}

func (p *rp) ws() {
	for p.i < len(p.s) {
		switch c := p.s[p.i]; {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ',':
			p.i++
		case c == 0:
			if !p.lenient {
				p.fail()
			}
			p.i++
		case c == '#':
			p.i++
			for p.i < len(p.s) && p.s[p.i] != '\n' && p.s[p.i] != '\r' {
				if p.s[p.i] < 0x20 && p.s[p.i] != '\t' && !p.lenient {
					p.fail()
				}
				p.i++
			}
		case p.has("\ufeff"):
			p.unsure = true
			p.fail()
		default:
			return
		}
	}
}

func nameStart(c int) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c int) bool     { return c >= '0' && c <= '9' }

func (p *rp) name() string {
	p.ws()
	start := p.i
	if !nameStart(p.c()) {
		p.fail()
	}
	for nameStart(p.c()) || digit(p.c()) {
		p.i++
	}
	if p.i-start > 254 {
		p.limited()
	}
	return p.s[start:p.i]
}

func (p *rp) peekName() string {
	p.ws()
	save := p.i
	for nameStart(p.c()) || (p.i > save && digit(p.c())) {
		p.i++
	}
	r := p.s[save:p.i]
	p.i = save
	return r
}

func (p *rp) tok(c byte) {
	p.ws()
	if p.c() != int(c) {
		p.fail()
	}
	p.i++
}

func (p *rp) peek() int { p.ws(); return p.c() }

func (p *rp) nest() func() {
	p.depth++
	if p.depth > 10000 {
		p.fail()
	}
	return func() { p.depth-- }
}

func (p *rp) document() (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(rpFail); !is {
				panic(r)
			}
			ok = false
		}
	}()
	n := 0
	for p.peek() != -1 {
		p.definition()
		n++
	}
	return n > 0
}

func (p *rp) keyword(words ...string) bool {
	n := p.peekName()
	for _, w := range words {
		if n == w {
			p.i += len(w)
			return true
		}
	}
	return false
}

func (p *rp) definition() {
	if p.peek() == '{' {
		p.selections()
		return
	}
	if p.keyword("query", "mutation", "subscription") {
		if nameStart(p.peek()) {
			p.name()
		}
		if p.peek() == '(' {
			p.i++
			n := 0
			for p.peek() != ')' {
				p.tok('$')
				p.name()
				p.tok(':')
				p.typ()
				if p.peek() == '=' {
					p.i++
					p.value(true)
				}
				if p.peek() == '@' {
					p.limited()
				}
				n++
			}
			p.i++
			if n == 0 && !p.lenient {
				p.fail()
			}
		}
		p.dirs()
		p.selections()
		return
	}
	if p.keyword("fragment") {
		n := p.name()
		if n == "on" && !p.lenient {
			p.fail()
		}
		if !p.keyword("on") {
			p.fail()
		}
		p.name()
		if p.peek() == '@' {
			p.limited()
		}
		p.selections()
		return
	}
	p.fail()
}

func (p *rp) typ() {
	defer p.nest()()
	if p.peek() == '[' {
		p.i++
		p.typ()
		p.tok(']')
	} else {
		p.name()
	}
	if p.peek() == '!' {
		p.i++
	}
}

func (p *rp) dirs() int {
	n := 0
	for p.peek() == '@' {
		p.i++
		p.name()
		if p.peek() == '(' {
			p.args('(', ')', false)
		}
		n++
		if n > 255 {
			p.limited()
		}
	}
	return n
}

// args parses arguments or the fields of an object
func (p *rp) args(open, closing byte, constant bool) {
	p.tok(open)
	n := 0
	for p.peek() != int(closing) {
		p.name()
		p.tok(':')
		p.value(constant)
		n++
	}
	p.i++
	if n == 0 && open == '(' && !p.lenient {
		p.fail()
	}
}

func (p *rp) selections() {
	defer p.nest()()
	p.tok('{')
	n := 0
	for p.peek() != '}' {
		n++
		if p.has("...") {
			p.i += 3
			name := p.peekName()
			if name == "" {
				// an inline fragment without a type condition
				p.dirs()
				p.selections()
				continue
			}
			if name == "on" {
				p.i += 2
				p.name()
				p.dirs()
				p.selections()
				continue
			}
			p.name()
			p.dirs()
			continue
		}
		p.name()
		if p.peek() == ':' {
			p.i++
			p.name()
		}
		nd := 0
		if p.peek() == '@' && p.lenient {
			nd = p.dirs()
		}
		if p.peek() == '(' {
			p.args('(', ')', false)
		}
		if nd == 0 {
			p.dirs()
		}
		if p.peek() == '{' {
			p.selections()
		}
	}
	p.i++
	if n == 0 && !p.lenient {
		p.fail()
	}
}

func (p *rp) value(constant bool) {
	defer p.nest()()
	c := p.peek()
	switch {
	case c == '$':
		if constant {
			p.fail()
		}
		p.i++
		p.name()
	case c == '"':
		p.str()
	case c == '[':
		p.i++
		for p.peek() != ']' {
			p.value(constant)
		}
		p.i++
	case c == '{':
		p.args('{', '}', constant)
	case nameStart(c):
		p.name()
	case c == '-' || digit(c) || p.lenient && (c == '+' || c == '.'):
		p.number()
	default:
		p.fail()
	}
}

func (p *rp) number() {
	digits := func() int {
		n := 0
		for digit(p.c()) || p.lenient && p.c() == '_' {
			if p.c() != '_' {
				n++
			}
			p.i++
		}
		return n
	}
	if p.c() == '-' || p.lenient && p.c() == '+' {
		p.i++
	}
	start := p.i
	n := digits()
	if !p.lenient && (n == 0 || n > 1 && p.s[start] == '0') {
		p.fail()
	}
	if p.c() == '.' {
		p.i++
		k := digits()
		n += k
		if k == 0 && !p.lenient {
			p.fail()
		}
	}
	if n == 0 {
		p.fail()
	}
	if p.c() == 'e' || p.c() == 'E' {
		p.i++
		if p.c() == '+' || p.c() == '-' {
			p.i++
		}
		if digits() == 0 {
			p.fail()
		}
	}
	switch c := p.c(); {
	case c == '.' || nameStart(c) || digit(c):
		p.fail()
	case c == '"' || c == '-':
		// two values without anything in between
		p.limited()
	}
}

func (p *rp) str() {
	if p.has(`"""`) {
		p.i += 3
		for {
			c := p.c()
			switch {
			case c == -1:
				p.fail()
			case p.has(`"""`):
				p.i += 3
				return
			case c == '\\':
				p.limited()
			case c < 0x20 && c != '\t' && c != '\n' && c != '\r' && !p.lenient:
				p.fail()
			}
			p.i++
		}
	}
	p.i++
	for {
		c := p.c()
		switch {
		case c == -1 || c == '\n' || c == '\r':
			p.fail()
		case c == '"':
			p.i++
			return
		case c == '\\':
			p.i++
			switch e := p.c(); e {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			case 'u':
				for k := 0; k < 4; k++ {
					p.i++
					h := p.c()
					if !(digit(h) || h >= 'a' && h <= 'f' || h >= 'A' && h <= 'F') {
						p.fail()
					}
				}
			case -1, '\n', '\r':
				p.fail()
			default:
				if !p.lenient {
					p.fail()
				}
			}
		case c < 0x20 && c != '\t' && !p.lenient:
			p.fail()
		}
		p.i++
	}
}
