package main

import (
	"fmt"
	"strings"

	"github.com/mjarkk/yarql/assert"
)

// Part of A01: a failure tells which lines lead to it, from the line of the assertion to the one in the test

// trFrame is a function that calls the next one
type trFrame struct {
	fn   func(rest []*trFrame, t assert.TestingT)
	at   string // what is shown
	stop bool   // a test, what calls it is not shown
	name string
}

// truncPart are values that are too long to be shown
func truncPart(c *Chooser, e *Env) *Case {
	const max = 64*1024 - 100
	sizes := []int{1000, 4096, 32768, max - 4, max - 3, max - 2, max - 1, max, max + 1, 65534, 65535, 65536, 65537, 100000, 1 << 20}
	n := sizes[c.Choose(len(sizes))]
	kind := c.Choose(3)
	actual := c.Bool()
	return aCase(fmt.Sprintf("Equal with %d bytes, %d %v", n, kind, actual), func() []*aCall {
		text := strings.Repeat("x", n)
		var long, short interface{} = text, ""
		shown, other := "\""+text+"\"", "\"\""
		switch kind {
		case 1:
			long, short = aString(text), aString("")
		case 2:
			short, other = 1, "1"
		}
		if len(shown) > max {
			shown = shown[:max] + "<... truncated>"
		}
		if kind == 2 {
			shown, other = "string("+shown+")", "int("+other+")"
		}
		if actual {
			long, short, shown, other = short, long, other, shown
		}
		return []*aCall{{name: "Equal", want: aFail, has: "expected: " + shown + "\n\t            \tactual  : " + other + "\n", run: func(t assert.TestingT, m ...interface{}) bool { return assert.Equal(t, long, short, m...) }}}
	})
}

type trT struct{}

func trFrames() []*trFrame {
	x := &trT{}
	return []*trFrame{
		{TestAlpha, "alpha_test.go:7", true, "TestAlpha"}, {Test, "a.go:1", true, "Test"}, {Test_x, "x.go:900", true, "Test_x"}, {Test2, "x.go:901", true, "Test2"}, {TestÉ, "x.go:902", true, "TestÉ"},
		{Testé, "x.go:903", false, "Testé"}, {Testing, "x.go:904", false, "Testing"}, {BenchmarkB, "x.go:905", true, "BenchmarkB"}, {Benchmarker, "x.go:906", false, "Benchmarker"}, {ExampleE, "x.go:907", true, "ExampleE"}, {Examples, "x.go:908", false, "Examples"},
		{myTest, "x.go:909", false, "myTest"}, {helper, "helper.go:20", false, "helper"}, {inAssert, "", false, "inAssert"}, {inMock, "", false, "inMock"}, {inRequire, "", false, "inRequire"}, {TestHidden, "", true, "TestHidden"},
		{x.TestMethod, "m.go:3", true, "TestMethod"}, {x.method, "m.go:4", false, "method"}, {inAsserts, "x.go:30", false, "inAsserts"}, {underAssert, "x.go:31", false, "underAssert"},
	}
}

func trEnds() []*trFrame {
	return []*trFrame{
		{endFail, "end.go:1", false, "Fail"}, {endEqual, "end.go:2", false, "Equal"}, {endJSON, "end.go:3", false, "JSONEqf"}, {endSlice, "", false, "InDeltaSlice"}, {TestEnd, "end.go:5", true, "TestEnd"},
	}
}

func tracePart(c *Chooser, e *Env) *Case {
	depth := 3
	if e.Thorough {
		depth = 4
	}
	frames := trFrames()
	chain := []*trFrame{}
	for n := c.Choose(depth + 1); len(chain) < n; {
		chain = append(chain, frames[c.Choose(len(frames))])
	}
	ends := trEnds()
	chain = append(chain, ends[c.Choose(len(ends))])
	names, want, stops := []string{}, []string{}, false
	for _, f := range chain {
		names = append(names, f.name)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		if chain[i].at != "" {
			want = append(want, chain[i].at)
		}
		if chain[i].stop {
			stops = true
			break
		}
	}
	return &Case{Desc: strings.Join(names, " > "), Run: func() Result {
		t := &aT{}
		chain[0].fn(chain[1:], t)
		res := Result{Steps: 1}
		a, b := strings.Index(t.msg, "Error Trace:"), strings.Index(t.msg, "\n\tError:  ")
		if t.n != 1 || a < 0 || b < a {
			res.Fail = fmt.Sprintf("%d failures, reported is %q", t.n, t.msg)
			return res
		}
		got := []string{}
		for _, l := range strings.Split(t.msg[a+len("Error Trace:"):b], "\n") {
			if l = strings.TrimSpace(l); l != "" {
				got = append(got, l)
			}
		}
		if !stops && len(got) > len(want) {
			// what runs the checks follows
			got = got[:len(want)]
		}
		res.Outcome = strings.Join(got, " ")
		if strings.Join(got, " ") != strings.Join(want, " ") {
			res.Fail = fmt.Sprintf("the trace is %q but was expected to be %q", got, want)
		}
		return res
	}}
}

//go:noinline
//line /v/app/alpha_test.go:7
func TestAlpha(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/a.go:1
func Test(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:900
func Test_x(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:901
func Test2(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:902
func TestÉ(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:903
func Testé(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:904
func Testing(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:905
func BenchmarkB(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:906
func Benchmarker(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:907
func ExampleE(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:908
func Examples(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/x.go:909
func myTest(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/helper.go:20
func helper(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/assert/x.go:20
func inAssert(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/mock/x.go:20
func inMock(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/require/x.go:20
func inRequire(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/assert/x_test.go:21
func TestHidden(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/m.go:3
func (*trT) TestMethod(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/m.go:4
func (*trT) method(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/asserts/x.go:30
func inAsserts(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/assert/app/x.go:31
func underAssert(rest []*trFrame, t assert.TestingT) { rest[0].fn(rest[1:], t) }

//go:noinline
//line /v/app/end.go:1
func endFail(_ []*trFrame, t assert.TestingT) { assert.Fail(t, "x") }

//go:noinline
//line /v/app/end.go:2
func endEqual(_ []*trFrame, t assert.TestingT) { assert.Equal(t, 1, 2) }

//go:noinline
//line /v/app/end.go:3
func endJSON(_ []*trFrame, t assert.TestingT) { assert.JSONEqf(t, "1", "2", "x") }

//go:noinline
//line /v/assert/end.go:4
func endSlice(_ []*trFrame, t assert.TestingT) { assert.InDeltaSlice(t, []int{1}, []int{5}, 2) }

//go:noinline
//line /v/app/end.go:5
func TestEnd(_ []*trFrame, t assert.TestingT) { assert.Fail(t, "x") }
