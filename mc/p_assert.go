package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"github.com/mjarkk/yarql/assert"
	"github.com/mjarkk/yarql/assert/difflib"
)

// A01: an assertion fails exactly when its condition does not hold
//
// The values of the pool are written down with what is true about them, so the
// expected outcome never comes from comparing them with reflection.

// aVal is a value and what is known about it
type aVal struct {
	name  string      // go source
	v     interface{} // the value, not shared with another pool
	key   string      // values are equal when their keys are, "" is never equal to anything
	isNil bool
	empty bool
	zero  bool
	fn    bool   // a function
	kind  string // the kind of ordered values
	num   *big.Rat
	str   string
	inf   int  // an infinite number
	nan   bool // not a number
	float bool // can be used for InDelta and InEpsilon
	basic string
	diff  bool // differences are shown line by line
}

type (
	aInt    int
	aUint8  uint8
	aFloat  float64
	aString string
	aStruct struct {
		A int
		b string
	}
	aBytes  []byte
	aEmpty  struct{}
	aStrPtr struct{ P *string }
	aIface  interface{ M() }
	aImpl   struct{ x int }
)

func (aImpl) M() {}

type aErr struct{ n int }

func (e aErr) Error() string { return "aErr" + strconv.Itoa(e.n) }

type aPtrErr struct{ s string }

func (e *aPtrErr) Error() string { return "ptr\n" + e.s }

// aIsErr claims to be an other error
type aIsErr struct{ is error }

func (e aIsErr) Error() string        { return "is%d" }
func (e aIsErr) Is(target error) bool { return target == e.is }

var aE1, aE2 = errors.New("e1"), errors.New("e2")

func aPool() []aVal {
	res := []aVal{}
	add := func(v aVal) {
		if v.name == "" {
			v.name = fmt.Sprintf("%T(%#v)", v.v, v.v)
		}
		res = append(res, v)
	}
	num := func(v interface{}, kind, basic string, n float64, r string) {
		val := aVal{v: v, kind: kind, basic: basic, float: basic != ""}
		switch {
		case math.IsNaN(n):
			val.nan = true
		case math.IsInf(n, 0):
			val.inf = 1
			if n < 0 {
				val.inf = -1
			}
			val.key = fmt.Sprintf("%T inf %d", v, val.inf)
		default:
			if r == "" {
				val.num = new(big.Rat).SetFloat64(n)
			} else {
				val.num, _ = new(big.Rat).SetString(r)
			}
			val.zero = val.num.Sign() == 0
			val.empty = val.zero
			val.key = fmt.Sprintf("%T %s", v, val.num)
		}
		add(val)
	}
	num(0, "int", "int", 0, "")
	num(1, "int", "int", 1, "")
	num(-1, "int", "int", -1, "")
	num(math.MaxInt64, "int", "int", 0, "9223372036854775807")
	num(math.MinInt64, "int", "int", 0, "-9223372036854775808")
	num(int8(0), "int8", "int8", 0, "")
	num(int8(127), "int8", "int8", 127, "")
	num(int8(-128), "int8", "int8", -128, "")
	num(int16(-32768), "int16", "int16", -32768, "")
	num(int16(1), "int16", "int16", 1, "")
	num(int16(300), "int16", "int16", 300, "")
	num(int32(1), "int32", "int32", 1, "")
	num(int32(2), "int32", "int32", 2, "")
	num(int32(math.MinInt32), "int32", "int32", math.MinInt32, "")
	num(int64(1), "int64", "int64", 1, "")
	num(int64(math.MaxInt64), "int64", "int64", 0, "9223372036854775807")
	num(int64(math.MinInt64), "int64", "int64", 0, "-9223372036854775808")
	num(uint(0), "uint", "uint", 0, "")
	num(uint(1), "uint", "uint", 1, "")
	num(uint(math.MaxUint64), "uint", "uint", 0, "18446744073709551615")
	num(uint8(0), "uint8", "uint8", 0, "")
	num(uint8(127), "uint8", "uint8", 127, "")
	num(uint8(255), "uint8", "uint8", 255, "")
	num(uint16(1), "uint16", "uint16", 1, "")
	num(uint16(65535), "uint16", "uint16", 65535, "")
	num(uint32(1), "uint32", "uint32", 1, "")
	num(uint32(math.MaxUint32), "uint32", "uint32", math.MaxUint32, "")
	num(uint64(1), "uint64", "uint64", 1, "")
	num(uint64(math.MaxUint64), "uint64", "uint64", 0, "18446744073709551615")
	num(uint64(1<<63), "uint64", "uint64", 0, "9223372036854775808")
	num(float32(0), "float32", "float32", 0, "")
	num(float32(1), "float32", "float32", 1, "")
	num(float32(-1.5), "float32", "float32", -1.5, "")
	num(float32(math.NaN()), "float32", "float32", math.NaN(), "")
	num(float32(math.Inf(1)), "float32", "float32", math.Inf(1), "")
	num(float64(0), "float64", "float64", 0, "")
	num(math.Copysign(0, -1), "float64", "float64", 0, "")
	num(float32(math.Copysign(0, -1)), "float32", "float32", 0, "")
	num(float64(1), "float64", "float64", 1, "")
	num(float64(1.5), "float64", "float64", 1.5, "")
	num(float64(-1), "float64", "float64", -1, "")
	num(math.SmallestNonzeroFloat64, "float64", "float64", math.SmallestNonzeroFloat64, "")
	num(math.MaxFloat64, "float64", "float64", math.MaxFloat64, "")
	num(math.Inf(1), "float64", "float64", math.Inf(1), "")
	num(math.Inf(-1), "float64", "float64", math.Inf(-1), "")
	num(math.NaN(), "float64", "float64", math.NaN(), "")
	num(aInt(0), "int", "", 0, "")
	num(aInt(1), "int", "", 1, "")
	num(aUint8(255), "uint8", "", 255, "")
	num(aFloat(1.5), "float64", "", 1.5, "")
	for _, s := range []string{"", "a", "b", "ab", "a\nb", "a\nc", "a\n", "\xff", "%d", strings.Repeat("x", 70000)} {
		name := ""
		if len(s) > 100 {
			name = `strings.Repeat("x", 70000)`
		}
		add(aVal{name: name, v: s, key: "string " + s, kind: "string", str: s, empty: s == "", zero: s == "", diff: true})
	}
	add(aVal{v: aString("a"), key: "aString a", kind: "string", str: "a", diff: true})
	add(aVal{v: aString(""), key: "aString ", kind: "string", str: "", empty: true, zero: true, diff: true})
	add(aVal{v: true, key: "true"})
	add(aVal{v: false, key: "false", empty: true, zero: true})
	add(aVal{v: nil, key: "nil", isNil: true, empty: true, zero: true})

	a, b, e := "a", "b", ""
	pa, pe := &a, &e
	one, null := 1, 0
	add(aVal{name: "&\"a\"", v: &a, key: "*a", diff: true})
	add(aVal{name: "&\"b\"", v: &b, key: "*b", diff: true})
	add(aVal{name: "&\"\"", v: &e, key: "*", empty: true, diff: true})
	add(aVal{name: "&&\"a\"", v: &pa, key: "**a"})
	add(aVal{name: "&&\"\"", v: &pe, key: "**", empty: true})
	add(aVal{v: (*string)(nil), key: "*string nil", isNil: true, empty: true, zero: true, diff: true})
	add(aVal{v: (*int)(nil), key: "*int nil", isNil: true, empty: true, zero: true})
	add(aVal{name: "&1", v: &one, key: "*1"})
	add(aVal{name: "&0", v: &null, key: "*0", empty: true})
	add(aVal{v: []int(nil), key: "[]int nil", isNil: true, empty: true, zero: true, diff: true})
	add(aVal{v: []int{}, key: "[]int", empty: true, diff: true})
	add(aVal{v: []int{1}, key: "[]int 1", diff: true})
	add(aVal{v: []int{1, 2}, key: "[]int 1 2", diff: true})
	add(aVal{v: []int{2, 1}, key: "[]int 2 1", diff: true})
	add(aVal{v: []float64{math.NaN()}, diff: true})
	add(aVal{name: "&[]int{}", v: &[]int{}, key: "*[]int", empty: true, diff: true})
	add(aVal{v: []byte(nil), key: "bytes nil", isNil: true, empty: true, zero: true, diff: true})
	add(aVal{v: []byte{}, key: "bytes", empty: true, diff: true})
	add(aVal{v: []byte("a"), key: "bytes a", diff: true})
	add(aVal{v: []byte("b"), key: "bytes b", diff: true})
	add(aVal{v: aBytes("a"), key: "aBytes a", diff: true})
	add(aVal{v: []interface{}{nil, 1, "a"}, key: "ifaces", diff: true})
	add(aVal{v: []interface{}{nil, int8(1), "a"}, key: "ifaces 2", diff: true})
	add(aVal{v: []string{"a", "b"}, key: "a b", diff: true})
	add(aVal{v: []string{"a b"}, key: "a_b", diff: true})
	add(aVal{v: [0]int{}, key: "[0]", empty: true, zero: true, diff: true})
	add(aVal{v: [1]int{}, key: "[1] 0", zero: true, diff: true})
	add(aVal{v: [1]int{1}, key: "[1] 1", diff: true})
	add(aVal{v: [2]int{}, key: "[2] 0", zero: true, diff: true})
	add(aVal{v: map[string]int(nil), key: "map nil", isNil: true, empty: true, zero: true, diff: true})
	add(aVal{v: map[string]int{}, key: "map", empty: true, diff: true})
	add(aVal{v: map[string]int{"a": 1}, key: "map a1", diff: true})
	add(aVal{v: map[string]int{"a": 2}, key: "map a2", diff: true})
	add(aVal{v: map[string]int{"b": 1}, key: "map b1", diff: true})
	add(aVal{v: map[string]int{"a": 1, "b": 0}, key: "map a1 b0", diff: true})
	add(aVal{v: map[string]interface{}{"a": []interface{}{1.0}}, key: "map ifaces", diff: true})
	add(aVal{v: aEmpty{}, key: "aEmpty", empty: true, zero: true, diff: true})
	add(aVal{v: aStruct{}, key: "aStruct", empty: true, zero: true, diff: true})
	add(aVal{v: aStruct{A: 1}, key: "aStruct 1", diff: true})
	add(aVal{v: aStruct{b: "x"}, key: "aStruct x", diff: true})
	add(aVal{name: "&aStruct{}", v: &aStruct{}, key: "*aStruct", empty: true, diff: true})
	add(aVal{name: "&aStruct{A:1}", v: &aStruct{A: 1}, key: "*aStruct 1", diff: true})
	add(aVal{v: (*aStruct)(nil), key: "*aStruct nil", isNil: true, empty: true, zero: true, diff: true})
	add(aVal{name: "aStrPtr{&a}", v: aStrPtr{&a}, key: "aStrPtr a", diff: true})
	add(aVal{v: aStrPtr{}, key: "aStrPtr", empty: true, zero: true, diff: true})
	add(aVal{v: aImpl{}, key: "aImpl", empty: true, zero: true, diff: true})
	add(aVal{v: aIface(aImpl{1}), key: "aImpl 1", diff: true})
	add(aVal{v: (chan int)(nil), key: "chan nil", isNil: true, empty: true, zero: true})
	add(aVal{name: "make(chan int)", v: make(chan int), empty: true})
	full := make(chan int, 1)
	full <- 1
	add(aVal{name: "chan int with an item", v: full})
	add(aVal{v: (func())(nil), fn: true, isNil: true, empty: true, zero: true})
	add(aVal{name: "func() {}", v: func() {}, fn: true})
	add(aVal{v: complex(0, 0), key: "complex", empty: true, zero: true})
	add(aVal{v: complex(0, 1), key: "complex i"})
	return res
}

// aT records what is reported
type aT struct {
	n   int
	msg string
}

func (t *aT) Errorf(format string, args ...interface{}) {
	t.n++
	t.msg = fmt.Sprintf(format, args...)
}

// aNamedT has a name
type aNamedT struct{ aT }

func (t *aNamedT) Name() string { return "TestName" }

const (
	aPass = 1
	aFail = 0
	aAny  = -1
)

// aCall is an assertion with its arguments
type aCall struct {
	name string
	run  func(t assert.TestingT, m ...interface{}) bool
	runF func(t assert.TestingT, msg string, m ...interface{}) bool
	want int
	has  string // what a failure shows
	raw  bool   // the way values are shown is not looked at
}

var aMessages = []struct {
	m    []interface{}
	text string // as it is shown
}{
	{nil, ""},
	{[]interface{}{"plain 100%"}, "plain 100%"},
	{[]interface{}{aStruct{1, "x"}}, "{A:1 b:x}"},
	{[]interface{}{"%s-%d", "x", 3}, "x-3"},
	{[]interface{}{"first\nsecond"}, "first\n\t            \tsecond"},
	{[]interface{}{"one\n%v", 2}, "one\n\t            \t2"},
}

// judge runs the call with every message
func (a *aCall) judge() (fail, outcome string, steps int) {
	for form := 0; form < 2; form++ {
		if form == 1 && a.runF == nil {
			break
		}
		for mi, m := range aMessages {
			if form == 1 {
				if mi == 0 {
					continue
				}
				if _, ok := m.m[0].(string); !ok {
					continue
				}
			}
			for named := 0; named < 2; named++ {
				rec := &aT{}
				var t assert.TestingT = rec
				if named == 1 {
					nt := &aNamedT{}
					rec, t = &nt.aT, nt
				}
				var got bool
				text := m.text
				if form == 0 {
					got = a.run(t, m.m...)
				} else {
					got = a.runF(t, m.m[0].(string), m.m[1:]...)
				}
				steps++
				what := a.name
				if form == 1 {
					what += " (f)"
				}
				if len(m.m) != 0 {
					what += fmt.Sprintf(" with the message %q", m.m)
				}
				if a.want != aAny && got != (a.want == aPass) {
					return fmt.Sprintf("%s returns %v", what, got), "", steps
				}
				if got && rec.n != 0 || !got && rec.n != 1 {
					return fmt.Sprintf("%s returns %v and reports %d failures", what, got, rec.n), rec.msg, steps
				}
				if got {
					outcome = "pass"
					continue
				}
				outcome = clip(rec.msg, 300)
				if !strings.Contains(rec.msg, "Error Trace:") || !strings.Contains(rec.msg, "p_assert.go:") {
					return fmt.Sprintf("%s: the failure does not tell where it was", what), rec.msg, steps
				}
				if !strings.Contains(rec.msg, "\tError:      \t") {
					return fmt.Sprintf("%s: the failure does not tell what happened: %q", what, clip(rec.msg, 500)), rec.msg, steps
				}
				if !a.raw && strings.Contains(rec.msg, "%!") {
					return fmt.Sprintf("%s: the failure is badly formatted: %q", what, clip(rec.msg, 800)), rec.msg, steps
				}
				if strings.Contains(rec.msg, "\tTest:       \tTestName\n") != (named == 1) {
					return fmt.Sprintf("%s: the name of the test is missing or invented: %q", what, clip(rec.msg, 500)), rec.msg, steps
				}
				if !strings.Contains(rec.msg, a.has) {
					return fmt.Sprintf("%s: the failure does not show %q: %q", what, a.has, clip(rec.msg, 500)), rec.msg, steps
				}
				if len(m.m) == 0 {
					if strings.Contains(rec.msg, "\tMessages:") {
						return fmt.Sprintf("%s: the failure has a message nobody wrote: %q", what, clip(rec.msg, 500)), rec.msg, steps
					}
				} else if !strings.HasSuffix(rec.msg, "\tMessages:   \t"+text+"\n") {
					return fmt.Sprintf("%s: the failure does not end with the message %q: %q", what, text, clip(rec.msg, 800)), rec.msg, steps
				}
			}
		}
	}
	return "", outcome, steps
}

func aCase(name string, calls func() []*aCall) *Case {
	return &Case{Desc: name, Run: func() Result {
		res := Result{}
		for _, a := range calls() {
			fail, outcome, n := a.judge()
			res.Steps += n
			res.Outcome += outcome + "\n"
			if fail != "" {
				res.Fail = fail
				return res
			}
		}
		return res
	}}
}

func want(b bool) int {
	if b {
		return aPass
	}
	return aFail
}

// aOne are the assertions about one value
func aOne(v aVal) []*aCall {
	x := v.v
	n := func(f string) string { return f + "(" + v.name + ")" }
	calls := []*aCall{
		{name: n("Nil"), want: want(v.isNil), run: func(t assert.TestingT, m ...interface{}) bool { return assert.Nil(t, x, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.Nilf(t, x, s, m...) }},
		{name: n("NotNil"), want: want(!v.isNil), run: func(t assert.TestingT, m ...interface{}) bool { return assert.NotNil(t, x, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.NotNilf(t, x, s, m...) }},
		{name: n("Empty"), want: want(v.empty), run: func(t assert.TestingT, m ...interface{}) bool { return assert.Empty(t, x, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.Emptyf(t, x, s, m...) }},
		{name: n("NotEmpty"), want: want(!v.empty), run: func(t assert.TestingT, m ...interface{}) bool { return assert.NotEmpty(t, x, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.NotEmptyf(t, x, s, m...) }},
		{name: n("Zero"), want: want(v.zero), run: func(t assert.TestingT, m ...interface{}) bool { return assert.Zero(t, x, m...) }},
		{name: n("NotZero"), want: want(!v.zero), run: func(t assert.TestingT, m ...interface{}) bool { return assert.NotZero(t, x, m...) }},
	}
	if x != nil {
		sign := v.inf
		if v.num != nil {
			sign = v.num.Sign()
		} else if v.kind == "string" && v.str != "" {
			sign = 1
		}
		calls = append(calls,
			&aCall{name: n("Positive"), want: want(v.kind != "" && sign > 0), run: func(t assert.TestingT, m ...interface{}) bool { return assert.Positive(t, x, m...) }},
			&aCall{name: n("Negative"), want: want(v.kind != "" && sign < 0), run: func(t assert.TestingT, m ...interface{}) bool { return assert.Negative(t, x, m...) },
				runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.Negativef(t, x, s, m...) }})
	}
	return calls
}

// aCmp compares two numbers
func aCmp(x, y aVal) int {
	if x.inf != 0 || y.inf != 0 {
		if x.inf < y.inf {
			return -1
		} else if x.inf > y.inf {
			return 1
		}
		return 0
	}
	return x.num.Cmp(y.num)
}

// aTwo are the assertions about two values
func aTwo(x, y aVal) []*aCall {
	n := func(f string) string { return f + "(" + x.name + ", " + y.name + ")" }
	ex, ac := x.v, y.v
	eq := x.key != "" && x.key == y.key
	fn := x.fn || y.fn
	has := ""
	if fn {
		has = "cannot take func type as argument"
		if x.v == nil && y.v == nil {
			has = ""
		}
	} else {
		has = "Not equal: "
	}
	calls := []*aCall{
		{name: n("Equal"), want: want(eq && !fn), has: has, run: func(t assert.TestingT, m ...interface{}) bool { return assert.Equal(t, ex, ac, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.Equalf(t, ex, ac, s, m...) }},
		{name: n("NotEqual"), want: want(!eq && !fn), run: func(t assert.TestingT, m ...interface{}) bool { return assert.NotEqual(t, ex, ac, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.NotEqualf(t, ex, ac, s, m...) }},
	}
	if !fn && !eq {
		// the values are shown, with their types if these differ
		e, a := fmt.Sprintf("%#v", ex), fmt.Sprintf("%#v", ac)
		te, ta := fmt.Sprintf("%T", ex), fmt.Sprintf("%T", ac)
		if te != ta {
			e, a = te+"("+e+")", ta+"("+a+")"
		}
		if len(e) < 1000 && len(a) < 1000 {
			calls[0].has = "expected: " + e + "\n\t            \tactual  : " + a + "\n"
			if x.diff && te == ta && x.kind == "string" {
				d := aDiff(lines(x.str), lines(y.str))
				calls[0].has += "\t            \t\n\t            \tDiff:\n\t            \t" + strings.ReplaceAll(strings.TrimSuffix(d, "\n"), "\n", "\n\t            \t") + "\n"
			}
		}
	}
	// the functions behind the assertions
	report := func(t assert.TestingT, ok bool, m []interface{}) bool {
		if ok {
			return true
		}
		return assert.Fail(t, "different", m...)
	}
	values := aAny
	switch {
	case eq && !fn:
		values = aPass
	case ex == nil || ac == nil || x.fn != y.fn:
		values = aFail
	case (x.nan || y.nan) && strings.HasPrefix(x.kind, "float") && strings.HasPrefix(y.kind, "float"):
		values = aFail
	case x.kind == "string" && y.kind == "string":
		values = want(x.str == y.str)
	case x.num != nil && y.num != nil && aFits(x.num, y.kind) && aFits(y.num, x.kind):
		values = want(x.num.Cmp(y.num) == 0)
	}
	calls = append(calls, &aCall{name: n("ObjectsAreEqual"), want: want(eq && !fn), run: func(t assert.TestingT, m ...interface{}) bool {
		return report(t, assert.ObjectsAreEqual(ex, ac), m)
	}})
	if x.fn && y.fn {
		calls[len(calls)-1].want = aAny // no function is equal but nil
	}
	if values != aAny {
		calls = append(calls, &aCall{name: n("ObjectsAreEqualValues"), want: values, run: func(t assert.TestingT, m ...interface{}) bool {
			return report(t, assert.ObjectsAreEqualValues(ex, ac), m)
		}})
	}
	order := func(name string, ok func(c int) bool, f func(assert.TestingT, interface{}, interface{}, ...interface{}) bool, ff func(assert.TestingT, interface{}, interface{}, string, ...interface{}) bool) {
		a := &aCall{name: n(name), want: aFail, raw: ex == nil || ac == nil, run: func(t assert.TestingT, m ...interface{}) bool { return f(t, ex, ac, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return ff(t, ex, ac, s, m...) }}
		if x.kind != "" && x.kind == y.kind && !x.nan && !y.nan {
			c := strings.Compare(x.str, y.str)
			if x.kind != "string" {
				c = aCmp(x, y)
			}
			a.want = want(ok(c))
		}
		if ex == nil && ac == nil || x.nan || y.nan {
			a.want = aFail
		}
		calls = append(calls, a)
	}
	order("Greater", func(c int) bool { return c > 0 }, assert.Greater, assert.Greaterf)
	order("GreaterOrEqual", func(c int) bool { return c >= 0 }, assert.GreaterOrEqual, assert.GreaterOrEqualf)
	order("Less", func(c int) bool { return c < 0 }, assert.Less, assert.Lessf)
	order("LessOrEqual", func(c int) bool { return c <= 0 }, assert.LessOrEqual, assert.LessOrEqualf)
	return calls
}

// aFits tells if a number is a value of a kind
func aFits(r *big.Rat, kind string) bool {
	switch kind {
	case "float64":
		f, _ := r.Float64()
		return !math.IsInf(f, 0) && new(big.Rat).SetFloat64(f).Cmp(r) == 0
	case "float32":
		f, _ := r.Float32()
		return !math.IsInf(float64(f), 0) && new(big.Rat).SetFloat64(float64(f)).Cmp(r) == 0
	}
	if !r.IsInt() {
		return false
	}
	bits := 64
	if n, err := strconv.Atoi(strings.TrimLeft(kind, "uint")); err == nil {
		bits = n
	}
	i := r.Num()
	if kind[0] == 'u' {
		return i.Sign() >= 0 && i.BitLen() <= bits
	}
	min := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
	return i.Cmp(min) >= 0 && i.Cmp(new(big.Int).Not(min)) <= 0
}

// aDiff is the diff of two texts that have at most two lines each
func aDiff(a, b []string) string {
	rng := func(n int) string {
		if n == 1 {
			return "1"
		}
		return "1," + strconv.Itoa(n)
	}
	out := "--- Expected\n+++ Actual\n@@ -" + rng(len(a)) + " +" + rng(len(b)) + " @@\n"
	// the one line both can share
	if len(a) == 2 && len(b) == 2 && a[0] == b[0] {
		return out + " " + a[0] + "-" + a[1] + "+" + b[1]
	}
	if len(a) == 2 && len(b) == 2 && a[1] == b[1] {
		return out + "-" + a[0] + "+" + b[0] + " " + a[1]
	}
	for i, l := range a {
		for j, m := range b {
			if l == m && (len(a) == 1 || len(b) == 1) {
				for _, x := range a[:i] {
					out += "-" + x
				}
				for _, x := range b[:j] {
					out += "+" + x
				}
				out += " " + l
				for _, x := range a[i+1:] {
					out += "-" + x
				}
				for _, x := range b[j+1:] {
					out += "+" + x
				}
				return out
			}
		}
	}
	for _, l := range a {
		out += "-" + l
	}
	for _, l := range b {
		out += "+" + l
	}
	return out
}

// lines splits a text, the last line ends too
func lines(s string) []string {
	res := []string{}
	for {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return append(res, s+"\n")
		}
		res = append(res, s[:i+1])
		s = s[i+1:]
	}
}

var aDeltas = []float64{0, 0.5, 1, 2, 1e300, -1, math.Inf(1)}

// aNear are the assertions about how close numbers are
func aNear(x, y aVal) []*aCall {
	calls := []*aCall{}
	asFloat := func(v aVal) float64 {
		if v.nan {
			return math.NaN()
		}
		if v.inf != 0 {
			return math.Inf(v.inf)
		}
		f, _ := v.num.Float64()
		return f
	}
	numbers := x.float && y.float
	for _, d := range aDeltas {
		d := d
		delta, eps := aFail, aFail
		if numbers && !x.nan && !y.nan {
			fx, fy := asFloat(x), asFloat(y)
			// equal infinite numbers are not a number apart
			if x.inf != 0 && y.inf != 0 {
				delta, eps = aAny, aAny
			} else {
				delta = want(math.Abs(fx-fy) <= d)
				if fx != 0 {
					e := math.Abs(fx-fy) / math.Abs(fx)
					if math.IsNaN(e) {
						eps = aAny
					} else {
						eps = want(e <= d)
					}
				}
			}
		}
		n := fmt.Sprintf("(%s, %s, %v)", x.name, y.name, d)
		ex, ac := x.v, y.v
		calls = append(calls,
			&aCall{name: "InDelta" + n, want: delta, run: func(t assert.TestingT, m ...interface{}) bool { return assert.InDelta(t, ex, ac, d, m...) }},
			&aCall{name: "InEpsilon" + n, want: eps, raw: true, run: func(t assert.TestingT, m ...interface{}) bool { return assert.InEpsilon(t, ex, ac, d, m...) }})
	}
	if numbers {
		ex, ac := x.v, y.v
		calls = append(calls, &aCall{name: fmt.Sprintf("InEpsilon(%s, %s, NaN)", x.name, y.name), want: aFail, run: func(t assert.TestingT, m ...interface{}) bool { return assert.InEpsilon(t, ex, ac, math.NaN(), m...) }})
	}
	return calls
}

// aLists are the assertions about lists and maps of numbers
func aLists(c *Chooser, max int) []*aCall {
	nums := []float64{1, 2, 4, math.NaN()}
	pick := func() []float64 {
		l := make([]float64, c.Choose(max+1))
		for i := range l {
			l[i] = nums[c.Choose(len(nums))]
		}
		return l
	}
	a, b := pick(), pick()
	dyn := c.Choose(2) == 1
	delta := []float64{0, 1, 2}[c.Choose(3)]
	near := len(a) == len(b)
	eps := near
	for i := 0; i < len(a) && i < len(b); i++ {
		d := math.Abs(a[i] - b[i])
		near = near && d <= delta
		// the relative error is about the expected value
		eps = eps && d/a[i] <= delta
	}
	var x, y interface{} = a, b
	if dyn {
		l, m := []interface{}{}, []interface{}{}
		for _, v := range a {
			l = append(l, v)
		}
		for _, v := range b {
			m = append(m, v)
		}
		x, y = l, m
	}
	ws := want(near)
	we := want(eps)
	return []*aCall{
		{name: fmt.Sprintf("InDeltaSlice(%#v, %#v, %v)", x, y, delta), want: ws, run: func(t assert.TestingT, m ...interface{}) bool { return assert.InDeltaSlice(t, x, y, delta, m...) }},
		{name: fmt.Sprintf("InEpsilonSlice(%#v, %#v, %v)", x, y, delta), want: we, run: func(t assert.TestingT, m ...interface{}) bool { return assert.InEpsilonSlice(t, x, y, delta, m...) }},
	}
}

func aMaps(c *Chooser, keys int) []*aCall {
	nums := []float64{1, 2, 4, math.NaN()}
	pick := func() (map[string]float64, map[string]interface{}) {
		m, d := map[string]float64{}, map[string]interface{}{}
		for i := 0; i < keys; i++ {
			if v := c.Choose(len(nums) + 1); v > 0 {
				m[string(rune('a'+i))] = nums[v-1]
				d[string(rune('a'+i))] = nums[v-1]
			}
		}
		return m, d
	}
	a, ad := pick()
	b, bd := pick()
	dyn := c.Choose(2) == 1
	delta := []float64{0, 1, 2}[c.Choose(3)]
	near := len(a) == len(b)
	for k, v := range a {
		w, ok := b[k]
		near = near && ok && math.Abs(v-w) <= delta
	}
	var x, y interface{} = a, b
	if dyn {
		x, y = ad, bd
	}
	return []*aCall{{name: fmt.Sprintf("InDeltaMapValues(%v, %v, %v)", a, b, delta), want: want(near), run: func(t assert.TestingT, m ...interface{}) bool {
		return assert.InDeltaMapValues(t, x, y, delta, m...)
	}}}
}

// aErrs are the assertions about errors
func aErrs() (errs []error, is map[error]map[error]bool, text map[error]string) {
	ptr := &aPtrErr{"x"}
	w1 := fmt.Errorf("w %w", aE1)
	ww := fmt.Errorf("ww %w", w1)
	wp := fmt.Errorf("wp %w", ptr)
	joined := errors.Join(aE1, aErr{2})
	isE := aIsErr{aE2}
	wi := fmt.Errorf("wi %w", isE)
	errs = []error{nil, aE1, aE2, ptr, aErr{1}, aErr{2}, w1, ww, wp, joined, isE, wi}
	m := func(l ...error) map[error]bool {
		res := map[error]bool{}
		for _, e := range l {
			res[e] = true
		}
		return res
	}
	return errs, map[error]map[error]bool{
		nil: m(nil), aE1: m(aE1), aE2: m(aE2), ptr: m(ptr), aErr{1}: m(aErr{1}), aErr{2}: m(aErr{2}),
		w1: m(w1, aE1), ww: m(ww, w1, aE1), wp: m(wp, ptr), joined: m(joined, aE1, aErr{2}), isE: m(isE, aE2), wi: m(wi, isE, aE2),
	}, map[error]string{nil: "", aE1: "e1", aE2: "e2", ptr: "ptr\nx", aErr{1}: "aErr1", aErr{2}: "aErr2", w1: "w e1", ww: "ww w e1", wp: "wp ptr\nx", joined: "e1\naErr2", isE: "is%d", wi: "wi is%d"}
}

func aErrCalls(err, target error, is, as, asPtr bool, et, tt string) []*aCall {
	n := fmt.Sprintf("(%q, %q)", fmt.Sprint(err), fmt.Sprint(target))
	// the failure lists the chain line by line
	chain := []string{}
	for e := err; e != nil; e = errors.Unwrap(e) {
		chain = append(chain, strconv.Quote(e.Error()))
	}
	found := strconv.Quote(tt) + "\n\t            \tin chain: " + strings.Join(chain, "\n\t            \t\t") + "\n"
	calls := []*aCall{
		{name: "NoError" + n, want: want(err == nil), has: et, run: func(t assert.TestingT, m ...interface{}) bool { return assert.NoError(t, err, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.NoErrorf(t, err, s, m...) }},
		{name: "Error" + n, want: want(err != nil), run: func(t assert.TestingT, m ...interface{}) bool { return assert.Error(t, err, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.Errorf(t, err, s, m...) }},
		{name: "EqualError" + n, want: want(err != nil && et == tt), run: func(t assert.TestingT, m ...interface{}) bool { return assert.EqualError(t, err, tt, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool {
				return assert.EqualErrorf(t, err, tt, s, m...)
			}},
		{name: "ErrorIs" + n, want: want(is), has: found, run: func(t assert.TestingT, m ...interface{}) bool { return assert.ErrorIs(t, err, target, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool {
				return assert.ErrorIsf(t, err, target, s, m...)
			}},
		{name: "NotErrorIs" + n, want: want(!is), has: found, run: func(t assert.TestingT, m ...interface{}) bool { return assert.NotErrorIs(t, err, target, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool {
				return assert.NotErrorIsf(t, err, target, s, m...)
			}},
	}
	as1 := func(f func(target interface{}) bool) bool {
		var e aErr
		ok := f(&e)
		if ok != (e.n != 0) {
			panic("ErrorAs sets its target only when it succeeds")
		}
		return ok
	}
	as2 := func(f func(target interface{}) bool) bool {
		var e *aPtrErr
		ok := f(&e)
		if ok != (e != nil) {
			panic("ErrorAs sets its target only when it succeeds")
		}
		return ok
	}
	return append(calls,
		&aCall{name: "ErrorAs aErr" + n, raw: true, want: want(as), run: func(t assert.TestingT, m ...interface{}) bool {
			return as1(func(target interface{}) bool { return assert.ErrorAs(t, err, target, m...) })
		}, runF: func(t assert.TestingT, s string, m ...interface{}) bool {
			return as1(func(target interface{}) bool { return assert.ErrorAsf(t, err, target, s, m...) })
		}},
		&aCall{name: "ErrorAs *aPtrErr" + n, raw: true, want: want(asPtr), run: func(t assert.TestingT, m ...interface{}) bool {
			return as2(func(target interface{}) bool { return assert.ErrorAs(t, err, target, m...) })
		}})
}

// aJSON are texts, texts with the same key mean the same and "" is not JSON
var aJSON = [][2]string{
	{`1`, "1"}, {` 1 `, "1"}, {`1.0`, "1"}, {`1e0`, "1"}, {`2`, "2"}, {`"1"`, "s1"}, {`"\u0031"`, "s1"}, {`null`, "null"}, {`true`, "true"}, {`false`, "false"},
	{`[]`, "[]"}, {`{}`, "{}"}, {`[1,2]`, "[1 2]"}, {"[1,\n2]", "[1 2]"}, {`[2,1]`, "[2 1]"}, {`[1]`, "[1]"}, {`[null]`, "[null]"},
	{`{"a":1,"b":2}`, "a1b2"}, {`{"b":2,"a":1}`, "a1b2"}, {`{"a":1}`, "a1"}, {`{"a":null}`, "anull"}, {`{"b":null}`, "bnull"}, {`{"a":[{"b":[]}]}`, "a[b[]]"}, {`{"a":[{"b":{}}]}`, "a[b{}]"},
	{``, ""}, {`{`, ""}, {`[1,]`, ""}, {`1 2`, ""}, {`nul`, ""}, {"\xff", ""}, {`{'a':1}`, ""}, {`%`, ""},
}

func aJSONCalls(a, b [2]string) []*aCall {
	return []*aCall{{name: fmt.Sprintf("JSONEq(%q, %q)", a[0], b[0]), want: want(a[1] != "" && a[1] == b[1]), run: func(t assert.TestingT, m ...interface{}) bool { return assert.JSONEq(t, a[0], b[0], m...) },
		runF: func(t assert.TestingT, s string, m ...interface{}) bool {
			return assert.JSONEqf(t, a[0], b[0], s, m...)
		}}}
}

func aRest() []*aCall {
	calls := []*aCall{
		{name: "Fail", want: aFail, has: "\tError:      \twhy\n", run: func(t assert.TestingT, m ...interface{}) bool { return assert.Fail(t, "why", m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.Failf(t, "why", s, m...) }},
		{name: "Fail with two lines", want: aFail, has: "\tError:      \twhy\n\t            \tnot\n", run: func(t assert.TestingT, m ...interface{}) bool { return assert.Fail(t, "why\nnot", m...) }},
	}
	for _, b := range []bool{true, false} {
		b := b
		calls = append(calls,
			&aCall{name: fmt.Sprintf("True(%v)", b), want: want(b), run: func(t assert.TestingT, m ...interface{}) bool { return assert.True(t, b, m...) },
				runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.Truef(t, b, s, m...) }},
			&aCall{name: fmt.Sprintf("False(%v)", b), want: want(!b), run: func(t assert.TestingT, m ...interface{}) bool { return assert.False(t, b, m...) },
				runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.Falsef(t, b, s, m...) }})
	}
	for i, f := range []func(){func() {}, func() { panic("x") }, func() { panic(errors.New("x")) }, func() { var m map[string]int; m["a"] = 1 }, func() { panic(0) }, func() { defer func() { recover() }(); panic(1) }, func() { panic(nil) }, func() { panic(error(nil)) }, func() { defer func() { panic(nil) }(); panic(1) }} {
		f := f
		calls = append(calls, &aCall{name: fmt.Sprintf("Panics(%d)", i), want: want(i != 0 && i != 5), run: func(t assert.TestingT, m ...interface{}) bool { return assert.Panics(t, f, m...) },
			runF: func(t assert.TestingT, s string, m ...interface{}) bool { return assert.Panicsf(t, f, s, m...) }})
	}
	wrong := []interface{}{nil, 1, []float64{1}, map[string]float64{"a": 1}, "a", [1]float64{1}}
	for i, a := range wrong {
		for j, b := range wrong {
			a, b := a, b
			if i != 2 || j != 2 {
				calls = append(calls, &aCall{name: fmt.Sprintf("InDeltaSlice(%v, %v)", a, b), want: aFail, run: func(t assert.TestingT, m ...interface{}) bool { return assert.InDeltaSlice(t, a, b, 1, m...) }},
					&aCall{name: fmt.Sprintf("InEpsilonSlice(%v, %v)", a, b), want: aFail, run: func(t assert.TestingT, m ...interface{}) bool { return assert.InEpsilonSlice(t, a, b, 1, m...) }})
			}
			if i != 3 || j != 3 {
				calls = append(calls, &aCall{name: fmt.Sprintf("InDeltaMapValues(%v, %v)", a, b), want: aFail, run: func(t assert.TestingT, m ...interface{}) bool { return assert.InDeltaMapValues(t, a, b, 1, m...) }})
			}
		}
	}
	return calls
}

var aPools = sync.OnceValue(func() [2][]aVal { return [2][]aVal{aPool(), aPool()} })

func init() {
	register(&Property{
		ID: "A01",
		Parts: []func(c *Chooser, e *Env) *Case{
			tracePart, truncPart,
			func(c *Chooser, e *Env) *Case {
				p := aPools()
				v := p[0][c.Choose(len(p[0]))]
				return aCase(clip(v.name, 100), func() []*aCall { return aOne(v) })
			},
			func(c *Chooser, e *Env) *Case {
				p := aPools()
				x := p[0][c.Choose(len(p[0]))]
				y := p[1][c.Choose(len(p[1]))]
				return aCase(clip(x.name, 100)+", "+clip(y.name, 100), func() []*aCall { return aTwo(x, y) })
			},
			func(c *Chooser, e *Env) *Case {
				p := aPools()
				x := p[0][c.Choose(len(p[0]))]
				y := p[1][c.Choose(len(p[1]))]
				if !e.Thorough && !x.float && !y.float {
					return nil
				}
				return aCase(clip(x.name, 100)+" close to "+clip(y.name, 100), func() []*aCall { return aNear(x, y) })
			},
			func(c *Chooser, e *Env) *Case {
				max := 2
				if e.Thorough {
					max = 3
				}
				l := aLists(c, max)
				return aCase(l[0].name, func() []*aCall { return l })
			},
			func(c *Chooser, e *Env) *Case {
				keys := 2
				if e.Thorough {
					keys = 3
				}
				l := aMaps(c, keys)
				return aCase(l[0].name, func() []*aCall { return l })
			},
			func(c *Chooser, e *Env) *Case {
				errs, is, text := aErrs()
				i, j := c.Choose(len(errs)), c.Choose(len(errs))
				as := i == 4 || i == 5 || i == 9
				asPtr := i == 3 || i == 8
				l := aErrCalls(errs[i], errs[j], is[errs[i]][errs[j]], as, asPtr, text[errs[i]], text[errs[j]])
				if strings.Contains(text[errs[i]], "\n") {
					l[0].has = ""
				}
				return aCase(l[0].name, func() []*aCall { return l })
			},
			func(c *Chooser, e *Env) *Case {
				l := aJSONCalls(aJSON[c.Choose(len(aJSON))], aJSON[c.Choose(len(aJSON))])
				return aCase(l[0].name, func() []*aCall { return l })
			},
			func(c *Chooser, e *Env) *Case {
				l := aRest()
				i := c.Choose(len(l))
				return aCase(l[i].name, func() []*aCall { return l[i : i+1] })
			},
		},
		Bounds: map[string]string{
			"quick":    "134 values with every kind of go value and the limits of the numbers, every pair of them for every comparison, 7 deltas; lists of up to 2 numbers and maps of up to 2 keys; every pair of 12 errors and of 32 JSON texts; every form of message, with and without the name of the test, and the variants that format; chains of up to 3 of 21 functions (tests, helpers, in hidden folders) to 5 failing assertions; values of 15 sizes up to 1 MB",
			"thorough": "as quick with lists of up to 3 numbers and maps of up to 3 keys, and InDelta and InEpsilon for every pair of values",
		},
	})
	register(&Property{
		ID: "A02",
		Parts: []func(c *Chooser, e *Env) *Case{
			dShort, dLong, dPopular, dSplit, dWriter,
		},
		Bounds: map[string]string{
			"quick":    "every pair of texts of up to 5 lines over 3 different lines; texts of up to 12 different lines with up to 2 edits at every place; texts of 200 to 401 lines in which lines repeat, with an edit at every 7th place; every text of up to 6 bytes over a, line feed, carriage return and space; a writer that fails after every number of bytes",
			"thorough": "every pair of texts of up to 6 lines over 3 different lines and of up to 5 lines over 4; texts of up to 14 different lines with up to 3 edits; texts of up to 9 bytes; an edit at every place of the long texts",
		},
	})
}

// A02: the diff of a failed assertion is exactly the difference

// dCheck applies the diff to a and compares the result with b
func dCheck(a, b []string, diff string, strict bool) string {
	if len(a) == len(b) {
		same := true
		for i := range a {
			same = same && a[i] == b[i]
		}
		if same {
			if diff != "" {
				return "there is a diff of equal texts"
			}
			return ""
		}
	}
	ls := strings.SplitAfter(diff, "\n")
	if ls[len(ls)-1] != "" {
		return "the diff does not end with a line"
	}
	ls = ls[:len(ls)-1]
	if len(ls) < 3 || ls[0] != "--- Expected\n" || ls[1] != "+++ Actual\n" {
		return "the diff does not start with its header"
	}
	ls = ls[2:]
	ia, ib := 0, 0 // lines done
	for len(ls) > 0 {
		a1, an, b1, bn, ok := dRange(ls[0])
		if !ok {
			return fmt.Sprintf("%q is not a header of a hunk", ls[0])
		}
		ls = ls[1:]
		// the lines before are not part of the diff
		for ia < a1 {
			if ia >= len(a) || ib >= len(b) || a[ia] != b[ib] {
				return fmt.Sprintf("line %d is different but not shown", ia+1)
			}
			ia++
			ib++
		}
		if ia != a1 || ib != b1 {
			return fmt.Sprintf("hunk at %d and %d but expected at %d and %d", a1, b1, ia, ib)
		}
		var minus, plus []string
		last := byte(0)
		changes := 0
		lead, trail := 0, 0
		run := 0
		flush := func() string {
			if strict {
				for _, x := range minus {
					for _, y := range plus {
						if x == y {
							return fmt.Sprintf("line %q is removed and added at the same place", x)
						}
					}
				}
			}
			minus, plus = nil, nil
			return ""
		}
		for ia < a1+an || ib < b1+bn {
			if len(ls) == 0 {
				return "the hunk is shorter than its header says"
			}
			l := ls[0]
			ls = ls[1:]
			op, text := l[0], l[1:]
			switch op {
			case ' ':
				if f := flush(); f != "" {
					return f
				}
				if ia >= len(a) || ib >= len(b) || a[ia] != text || b[ib] != text {
					return fmt.Sprintf("context %q is not there", text)
				}
				ia++
				ib++
				if changes == 0 {
					lead++
				}
				trail++
				run++
			case '-':
				if last == '+' {
					return "lines are removed after lines were added"
				}
				if ia >= len(a) || a[ia] != text {
					return fmt.Sprintf("removed line %q is not there", text)
				}
				ia++
				minus = append(minus, text)
			case '+':
				if ib >= len(b) || b[ib] != text {
					return fmt.Sprintf("added line %q is not there", text)
				}
				ib++
				plus = append(plus, text)
			default:
				return fmt.Sprintf("line %q is neither context nor removed nor added", l)
			}
			if op != ' ' {
				if changes > 0 && run > 2 {
					return "unchanged lines in the middle of a hunk"
				}
				changes++
				trail = 0
				run = 0
			}
			last = op
		}
		if f := flush(); f != "" {
			return f
		}
		if ia != a1+an || ib != b1+bn {
			return "the hunk is longer than its header says"
		}
		if changes == 0 {
			return "a hunk without a change"
		}
		if lead > 1 || trail > 1 {
			return fmt.Sprintf("%d lines of context before and %d after the changes", lead, trail)
		}
		// the context is there when there are lines for it
		if lead == 0 && a1 > 0 && b1 > 0 && a[a1-1] == b[b1-1] {
			return "the line before the change is missing"
		}
		if trail == 0 && ia < len(a) && ib < len(b) && a[ia] == b[ib] {
			return "the line after the change is missing"
		}
	}
	for ia < len(a) || ib < len(b) {
		if ia >= len(a) || ib >= len(b) || a[ia] != b[ib] {
			return fmt.Sprintf("lines %d and %d are different but not shown", ia+1, ib+1)
		}
		ia++
		ib++
	}
	return ""
}

// dRange reads the header of a hunk, lines are counted from zero
func dRange(l string) (a1, an, b1, bn int, ok bool) {
	if !strings.HasPrefix(l, "@@ -") || !strings.HasSuffix(l, " @@\n") {
		return
	}
	f := strings.Split(l[4:len(l)-4], " +")
	if len(f) != 2 {
		return
	}
	part := func(s string) (int, int, bool) {
		p := strings.Split(s, ",")
		n := 1
		if len(p) == 2 {
			v, err := strconv.Atoi(p[1])
			if err != nil || v == 1 || v < 0 {
				return 0, 0, false
			}
			n = v
		} else if len(p) != 1 {
			return 0, 0, false
		}
		at, err := strconv.Atoi(p[0])
		if err != nil {
			return 0, 0, false
		}
		if n > 0 {
			at--
		}
		return at, n, at >= 0
	}
	var ok1, ok2 bool
	a1, an, ok1 = part(f[0])
	b1, bn, ok2 = part(f[1])
	return a1, an, b1, bn, ok1 && ok2
}

func dCase(a, b []string, strict bool) *Case {
	return &Case{DescF: func() string { return fmt.Sprintf("diff of %q and %q", a, b) }, Run: func() Result {
		a0, b0 := append([]string{}, a...), append([]string{}, b...)
		d, err := difflib.GetUnifiedDiffString(a, b)
		if err != nil {
			return Result{Fail: "unexpected error: " + err.Error()}
		}
		if strings.Join(a, "|") != strings.Join(a0, "|") || strings.Join(b, "|") != strings.Join(b0, "|") {
			return Result{Fail: "the texts are changed"}
		}
		res := Result{Steps: 1, Outcome: d}
		if f := dCheck(a, b, d, strict); f != "" {
			res.Fail = f + "\n" + clip(d, 3000)
		}
		return res
	}}
}

func dPick(c *Chooser, max, kinds int) []string {
	l := make([]string, c.Choose(max+1))
	for i := range l {
		l[i] = string(rune('a'+c.Choose(kinds))) + "\n"
	}
	return l
}

func dShort(c *Chooser, e *Env) *Case {
	max, kinds := 5, 3
	if e.Thorough {
		if c.Bool() {
			kinds = 4
		} else {
			max = 6
		}
	}
	return dCase(dPick(c, max, kinds), dPick(c, max, kinds), true)
}

// dLong: far apart edits of different lines
func dLong(c *Chooser, e *Env) *Case {
	max, edits := 12, 2
	if e.Thorough {
		max, edits = 14, 3
	}
	n := c.Choose(max + 1)
	a := make([]string, n)
	for i := range a {
		a[i] = fmt.Sprintf("line %d\n", i)
	}
	b := append([]string{}, a...)
	at := len(b)
	for i := 0; i < edits; i++ {
		// from the end to the start
		at = c.Choose(at + 1)
		switch c.Choose(4) {
		case 0:
			b = append(b[:at:at], append([]string{fmt.Sprintf("new %d\n", i)}, b[at:]...)...)
		case 1:
			if at == len(b) {
				return nil
			}
			b = append(b[:at:at], b[at+1:]...)
		case 2:
			if at == len(b) {
				return nil
			}
			b[at] = fmt.Sprintf("%% %d\n", i)
		}
	}
	if c.Bool() {
		a, b = b, a
	}
	return dCase(a, b, true)
}

// dPopular: long texts in which a line repeats often
func dPopular(c *Chooser, e *Env) *Case {
	n := []int{199, 200, 201, 401}[c.Choose(4)]
	period := []int{1, 2, 3, 67}[c.Choose(4)]
	a := make([]string, n)
	for i := range a {
		a[i] = fmt.Sprintf("line %d\n", i)
		if i%period == 0 {
			a[i] = "same\n"
		}
	}
	step := 7
	if e.Thorough {
		step = 1
	}
	at := c.Choose(n/step) * step
	b := append([]string{}, a...)
	switch c.Choose(4) {
	case 0:
		b = append(b[:at:at], append([]string{"new\n"}, b[at:]...)...)
	case 1:
		b = append(b[:at:at], b[at+1:]...)
	case 2:
		b[at] = "other\n"
	case 3:
		b = append(b[:at:at], append([]string{"same\n"}, b[at:]...)...)
	}
	if c.Bool() {
		a, b = b, a
	}
	return dCase(a, b, false)
}

// dSplit: splitting a text into lines loses nothing
func dSplit(c *Chooser, e *Env) *Case {
	max := 6
	if e.Thorough {
		max = 9
	}
	n := c.Choose(max + 1)
	s := ""
	for i := 0; i < n; i++ {
		s += c.Pick("a", "\n", "\r", " ")
	}
	return &Case{Desc: fmt.Sprintf("lines of %q", s), Run: func() Result {
		got := difflib.SplitLines(s)
		res := Result{Steps: 1, Outcome: fmt.Sprint(len(got))}
		if strings.Join(got, "") != s+"\n" {
			res.Fail = fmt.Sprintf("the lines %q are not the text", got)
		}
		for _, l := range got {
			if strings.Count(l, "\n") != 1 || l[len(l)-1] != '\n' {
				res.Fail = fmt.Sprintf("%q is not a line", l)
			}
		}
		return res
	}}
}

// dFailing fails after a number of bytes
type dFailing struct {
	bytes.Buffer
	left int
}

func (w *dFailing) Write(p []byte) (int, error) {
	if len(p) > w.left {
		w.Buffer.Write(p[:w.left])
		n := w.left
		w.left = 0
		return n, aE1
	}
	w.left -= len(p)
	return w.Buffer.Write(p)
}

// dWriter: a write that fails is never hidden
func dWriter(c *Chooser, e *Env) *Case {
	n := []int{0, 1, 3, 300, 2000}[c.Choose(5)]
	a, b := []string{}, []string{"x\n"}
	for i := 0; i < n; i++ {
		a = append(a, fmt.Sprintf("line %d\n", i))
		b = append(b, fmt.Sprintf("line %d\n", i*2))
	}
	full, _ := difflib.GetUnifiedDiffString(a, b)
	step := 1
	if len(full) > 500 && !e.Thorough {
		step = len(full) / 200
	} else if len(full) > 5000 {
		step = len(full) / 2000
	}
	at := c.Choose(len(full)/step+1) * step
	return &Case{Desc: fmt.Sprintf("diff of %d lines, the writer fails after %d of %d bytes", n, at, len(full)), Run: func() Result {
		w := &dFailing{left: at}
		err := difflib.WriteUnifiedDiff(w, a, b)
		res := Result{Steps: 1, Outcome: fmt.Sprint(err, w.Len())}
		if !strings.HasPrefix(full, w.String()) {
			res.Fail = "what was written is not the start of the diff"
		} else if at < len(full) && err != aE1 {
			res.Fail = fmt.Sprintf("the error of the writer is lost: %v, %d bytes written", err, w.Len())
		} else if at >= len(full) && (err != nil || w.String() != full) {
			res.Fail = fmt.Sprintf("the diff is not complete: %v, %d bytes written", err, w.Len())
		}
		return res
	}}
}
