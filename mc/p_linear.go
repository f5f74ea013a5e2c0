package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/bytecode"
)

// P04: the work for a document grows linearly with its size.
//
// Every kind of repetition a document can have is measured at n and at 32n repetitions.  Work
// that is proportional to the size takes 32 times as long, work that is quadratic 1024 times.

// threadTime is the processor time of the thread
func threadTime() time.Duration {
	var t syscall.Timespec
	const clockThreadCPUTime = 3
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, clockThreadCPUTime, uintptr(unsafe.Pointer(&t)), 0); e != 0 {
		fatalIf(e)
	}
	return time.Duration(t.Nano())
}

const linSmall, linFactor, linSlack = 1500, 32, 8

// linear measures do for a small and a large n, prepare is not part of it
func linear(prepare func(n int) func()) (fail string) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	measure := func(n int) (spent time.Duration, alloc uint64) {
		do := prepare(n)
		var a, b runtime.MemStats
		runtime.GC()
		// a garbage collection would be counted for whoever is interrupted by it
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		defer debug.SetMemoryLimit(debug.SetMemoryLimit(3 << 30))
		runtime.ReadMemStats(&a)
		t := threadTime()
		do()
		spent = threadTime() - t
		runtime.ReadMemStats(&b)
		return spent, b.TotalAlloc - a.TotalAlloc
	}
	// the first run warms up
	measure(linSmall)
	small, smallAlloc := measure(linSmall)
	large := time.Duration(1 << 62)
	for try := 0; try < 6; try++ {
		l, largeAlloc := measure(linSmall * linFactor)
		// what other programs do to the caches and the clock only adds to it
		large = min(large, l)
		limit := linFactor*linSlack*small + 30*time.Millisecond
		limitAlloc := linFactor*linSlack*smallAlloc + 1<<22
		fail = ""
		if large > limit {
			fail = fmt.Sprintf("%d repetitions take %s, %d repetitions %s", linSmall, small, linSmall*linFactor, large)
		}
		if largeAlloc > limitAlloc {
			fail = fmt.Sprintf("%d repetitions allocate %d bytes, %d repetitions %d", linSmall, smallAlloc, linSmall*linFactor, largeAlloc)
		}
		if fail == "" {
			return
		}
		if s, _ := measure(linSmall); s > small {
			small = s
		}
	}
	return fail
}

// a place where something can be repeated
type linPlace struct{ name, before, after string }

func linText(before string, units []string, n int, after string) string {
	var b strings.Builder
	b.WriteString(before)
	for i := 0; i < n; i++ {
		u := units[i%len(units)]
		if strings.Contains(u, "§") { // the number of the repetition
			u = strings.ReplaceAll(u, "§", fmt.Sprint(1000000+i))
		}
		b.WriteString(u)
	}
	b.WriteString(after)
	return b.String()
}

func linParse(desc, before string, units []string, after string, ok bool) *Case {
	return linParseAny(desc, before, units, after, ok, !ok)
}

// linParseAny tells apart if the document is valid and if it is not, both can be allowed
func linParseAny(desc, before string, units []string, after string, mayPass, mayFail bool) *Case {
	return &Case{Desc: desc, Run: func() Result {
		p := bytecode.NewParserCtx()
		p.CacheableQueryMinLen = 1 << 40
		bad := ""
		fail := linear(func(n int) func() {
			p.Query = append(p.Query[:0], linText(before, units, n, after)...)
			return func() {
				p.ParseQueryToBytecode(nil)
				if !mayFail && len(p.Errors) > 0 {
					bad = p.Errors[0].Error()
				} else if !mayPass && len(p.Errors) == 0 {
					bad = "no error"
				}
			}
		})
		if fail == "" && bad != "" {
			fail = "harness: the document is not handled as planned: " + bad
		}
		return Result{Steps: 3, Fail: fail, Outcome: desc}
	}}
}

// selections
var linSels = []string{"a ", "a,", "a\n", "a\r\n", "b:a ", "a§:a ", "a(x:1) ", `a(x:"s",y:[1,2]) `, "a{b} ", "a{b{c{d}}} ", "...F ", "...{a} ", "...on T{a} ", "...on T@d{a} ", "...F@d ", "a@d ", "t ", "o ", "query:f ", "...on1 ", "a@d(x:{y:$z})@e ", "a #comment\n", `a(x:"""b""") `, "a(x:$v) "}
var linSelPlaces = []linPlace{{"selection", "{", "x}"}, {"nested selection", "query A($v:[Int!]=[1]){a{b{", "x}}}"}, {"fragment", "{a}fragment F on T{", "x}query{b}"}, {"inline fragment", "{...on T{...{", "x}}}"}}

// values in a list
var linVals = []string{"1 ", "-1.5e3,", `"text" `, `"" `, `"\u00e9\n" `, "\"\"\"b\n c\"\"\" ", "true ", "null,", "ENUM ", "t ", "fx ", "falsey ", "nul ", "[] ", "[1] ", "[[[]]] ", "{} ", "{a:1} ", "{a:{b:[1]}} ", "1#c\n", "\n", " ", ","}
var linValPlaces = []linPlace{{"argument", "{a(x:[", "1]){b}}"}, {"argument of a directive", "{a@d(x:{y:[", "1]})}"}, {"default", "query($a:[Int!]=[", "1],$b:T){a}"}}

var linBytePlaces = []struct{ name, before, after, not, sep string }{
	{"comment", "{a #", "\n}", "\r\n\x00", "x"},
	{"comment behind the document", "{a} #", "", "\r\n\x00", " "},
	{"comment in front", "#", "\n{a}", "\r\n\x00", "#"},
	{"string", `{a(x:"`, `")}`, `"\`, `\n`},
	{"block string", `{a(x:"""`, `""")}`, `"\`, "\n"},
	{"block string with quotes", `{a(x:"""`, `x""")}`, `"\`, `"`},
	{"default", `query($a:[String]=["`, `"]){a}`, `"\`, `\u00e9`},
}

// what is repeated there might be wrong
var linTokenPlaces = []linPlace{{"list", "{a(x:[", "])}"}, {"selection", "{a ", "}"}, {"document", "", "{a}"}, {"object", "{a(x:{", "})}"}, {"list of variables", "query(", "){a}"}}
var linTokenBytes = []string{"a", "t", "f", "n", "o", "q", "m", "s", "1", "-", ".", "$", "@", "\"", ":", "{", "}", "[", "]", "(", ")", "#", "!", "\x00", "\r"}

// all sorts of other repetitions
var linOthers = []struct {
	name, before, unit, after string
	bad                       bool
}{
	{"spaces", "{a", " ", "}", false}, {"newlines", "{a", "\n", "}", false}, {"tabs and returns", "{a", "\t\r", "}", false}, {"commas", "{a", ",", "}", false},
	{"comments", "{a", "#x\n", "}", false}, {"one comment", "{a#", "x", "\n}", false}, {"spaces in front", "", " ", "{a}", false}, {"spaces behind", "{a}", " ", "", false},
	{"characters of a string", `{a(x:"`, "c", `")}`, false}, {"escapes of a string", `{a(x:"`, `\n`, `")}`, false}, {"unicode escapes", `{a(x:"`, `\u00e9`, `")}`, false},
	{"characters of a block string", `{a(x:"""`, "c\n", `""")}`, false}, {"quotes of a block string", `{a(x:"""`, `" `, `c""")}`, false}, {"digits", "{a(x:1", "2", ")}", false}, {"digits of a fraction", "{a(x:1.", "2", ")}", false},
	{"digits of an exponent", "{a(x:1e", "2", ")}", false}, {"arguments", "{a(", "x§:1 ", ")}", false}, {"members of an object", "{a(x:{", "x§:1 ", "})}", false}, {"objects in objects", "{a(x:{y:{", "x§:{a:1} ", "}})}", false},
	{"variables", "query(", "$x§:Int ", "){a}", false}, {"variables with defaults", "query(", "$x§:[Int!]!=[1] ", "){a}", false}, {"operations", "", "query A§{a} ", "", false}, {"fragments", "{a}", "fragment A§ on T{a} ", "", false},
	{"mutations", "", "mutation A§($x:Int){a(x:$x)} ", "", false}, {"fragments and operations", "", "fragment A§ on T{a}query B§{...A§} ", "", false}, {"open string", `{a(x:"`, "c", "", true}, {"open block string", `{a(x:"""`, "c\"\" ", "", true}, {"open selection", "{", "a ", "", true},
	{"error at the end", "{", "a ", ")}", true}, {"error behind lines", "{", "a\n", ")}", true}, {"error behind a list", "{a(x:[", "1 ", "&])}", true}, {"error behind comments", "{a ", "#c\n", ")}", true}, {"name that is too long", "{", "a", "}", true},
	{"nested too deep", "{a(x:", "[", "", true}, {"selections nested too deep", "", "{a", "", true}, {"objects nested too deep", "{a(x:", "{a:", "", true}, {"types nested too deep", "query($a:", "[", "", true}, {"too many directives", "{a", "@d", "}", true}, {"byte that is no part of a document", "{a}", "\x01", "", true},
}

// requests, every § is the number of the repetition
var linRequests = []struct {
	name, before, unit, after string // the query
	vBefore, vUnit, vAfter    string // the variables
	opts                      yarql.ResolveOptions
	bad                       bool
}{
	{name: "fields", before: "{w{", unit: "a§:str ", after: "}}"},
	{name: "objects", before: "{w{", unit: "a§:obj{name kids{n}} ", after: "}}"},
	{name: "root fields", before: "{", unit: "a§:w{num} ", after: "}"},
	{name: "resolvers with arguments", before: "{in{", unit: "a§:int(a:§) ", after: "}}"},
	{name: "resolvers with errors", before: "{w{", unit: "a§:err ", after: "}}", bad: true},
	{name: "traced fields", before: "{w{", unit: "a§:str ", after: "}}", opts: yarql.ResolveOptions{Tracing: true}},
	{name: "no meta", before: "{w{", unit: "a§:str ", after: "}}", opts: yarql.ResolveOptions{NoMeta: true}},
	{name: "inline fragments", before: "{w{", unit: "...on Q1{a§:num} ", after: "}}"},
	{name: "other inline fragments", before: "{w{", unit: "...on Nope{a§:num} ", after: "num}}"},
	{name: "fragments", before: "{w{", unit: "...F ", after: "}}fragment F on Q1{a:num}"},
	{name: "skipped fields", before: "{w{", unit: "a§:num@skip(if:true) ", after: "num}}"},
	{name: "included fields", before: "{w{", unit: "a§:num@include(if:true)@skip(if:false) ", after: "num}}"},
	{name: "directives that are fragments", before: "{w{", unit: "...F@skip(if:true) ", after: "num}}fragment F on Q1{num}"},
	{name: "interfaces", before: "{w{", unit: "a§:faces{label ...on N1{own}} ", after: "}}"},
	{name: "lists", before: "{w{", unit: "a§:LL{n} b§:ints ", after: "}}"},
	{name: "typename", before: "{w{", unit: "a§:__typename ", after: "}}"},
	{name: "introspection", before: "{", unit: `a§:__type(name:"Q1"){name kind} `, after: "}"},
	{name: "list argument", before: "{in{lInt(a:[", unit: "1 ", after: "])}}"},
	{name: "list of lists argument", before: "{in{llInt(a:[", unit: "[1,2] ", after: "])}}"},
	{name: "list of objects argument", before: "{in{in1(a:{i:1 o:{l:[", unit: "{x:1} ", after: "]}})}}"},
	{name: "string argument", before: `{in{str(a:"`, unit: `ab\n\u00e9`, after: `")}}`},
	{name: "one variable everywhere", before: "query($v:Int){in{", unit: "a§:int(a:$v) ", after: "}}", vBefore: `{"v":5`, vAfter: "}"},
	{name: "one default everywhere", before: "query($v:Int=7){in{", unit: "a§:int(a:$v) ", after: "}}"},
	{name: "list variable", before: "query($v:[Int!]){in{lInt(a:$v)}}", vBefore: `{"v":[1`, vUnit: ",§", vAfter: "]}"},
	{name: "string variable", before: "query($v:String){in{str(a:$v)}}", vBefore: `{"v":"`, vUnit: `x\n\u00e9`, vAfter: `"}`},
	{name: "variables that are not used", before: "query($v:Int){in{int(a:$v)}}", vBefore: `{"v":5`, vUnit: `,"x§":[§]`, vAfter: "}"},
	{name: "items", before: "{count(n:1", unit: "", after: "){name n kids{n}}}"},
	{name: "items with errors", before: "{w{list{", unit: "a§:bad ", after: "}}}", bad: true},
	{name: "operations that are not used", before: "", unit: "query A§{w{str}} ", after: "query B{w{num}}"},
	{name: "fragments that are not used", before: "{w{str}}", unit: "fragment A§ on Q1{str} ", after: ""},
	{name: "unknown field", before: "{w{", unit: "a§:num ", after: "nope}}", bad: true},
	{name: "unknown variable", before: "{in{", unit: "a§:int(a:1) ", after: "int(a:$x)}}", bad: true},
}

func init() {
	register(&Property{
		ID: "P04",
		Bounds: map[string]string{
			"quick":    "every one and every pair of 24 selections in 4 places and of 23 values in 3 places, every byte in 7 places of comments and strings, every text of up to 2 of 25 characters in 5 places with 4 separators, 39 other kinds of repetitions in documents, 32 in requests (with few fragments and variables), batches of requests; each with 1500 and with 48000 repetitions: at most 8 times more than 32 times the processor time and memory",
			"thorough": "also every sequence of three of the selections and values and texts of up to 3 characters",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				us, places := linSels, linSelPlaces
				if c.Bool() {
					us, places = linVals, linValPlaces
				}
				p := places[c.Choose(len(places))]
				n := 1 + c.Choose(2)
				if e.Thorough {
					n += c.Choose(2)
				}
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, us[c.Choose(len(us))])
				}
				return linParse(fmt.Sprintf("%q in a %s", l, p.name), p.before, l, p.after, true)
			},
			func(c *Chooser, e *Env) *Case {
				o := linOthers[c.Choose(len(linOthers))]
				return linParse(o.name, o.before, []string{o.unit}, o.after, !o.bad)
			},
			// every byte in the places where (nearly) all of them may be
			func(c *Chooser, e *Env) *Case {
				p := linBytePlaces[c.Choose(len(linBytePlaces))]
				b := string([]byte{byte(c.Choose(256))})
				if b >= "\x80" {
					b = string(rune(b[0])) // only UTF-8
				}
				if strings.Contains(p.not, b) || p.name != "comment" && b < " " {
					return nil
				}
				unit := b
				if c.Bool() {
					unit = p.sep + b
				}
				return linParse(fmt.Sprintf("%q in a %s", unit, p.name), p.before, []string{unit}, p.after, true)
			},
			// short tokens
			func(c *Chooser, e *Env) *Case {
				p := linTokenPlaces[c.Choose(len(linTokenPlaces))]
				sep := c.Pick("", " ", "\n", ",")
				n := 2
				if e.Thorough && sep == "" {
					n = 3
				}
				unit := pickText(c, linTokenBytes, n)
				return linParseAny(fmt.Sprintf("%q in a %s", unit+sep, p.name), p.before, []string{unit + sep}, p.after, true, true)
			},
			func(c *Chooser, e *Env) *Case {
				r := linRequests[c.Choose(len(linRequests))]
				return &Case{Desc: "request with many " + r.name, Run: func() Result {
					s := newWorld3Schema()
					bad := ""
					fail := linear(func(n int) func() {
						var q string
						if r.name == "items" {
							q = fmt.Sprintf("{count(n:%d){name n kids{n}}}", n/10)
						} else {
							q = linText(r.before, []string{r.unit}, n, r.after)
						}
						o := r.opts
						if r.vBefore != "" {
							o.Variables = linText(r.vBefore, []string{r.vUnit}, n, r.vAfter)
						}
						calls, ctxScript, faultReal = nil, make([]int, 6), faultPlan{}
						return func() {
							if errs := s.Resolve([]byte(q), o); len(errs) > 0 != r.bad {
								bad = fmt.Sprint(len(errs), " errors")
								if len(errs) > 0 {
									bad += ", " + errs[0].Error()
								}
							}
						}
					})
					calls = nil
					if fail == "" && bad != "" {
						fail = "harness: the request is not handled as planned: " + bad
					}
					return Result{Steps: 3, Fail: fail, Outcome: r.name}
				}}
			},
			func(c *Chooser, e *Env) *Case {
				items := []string{`{"query":"{w{str}}"}`, `{"query":"{w{nope}}"}`, `{"query":"{w{"}`, `1`, `{"query":"query($a:Int){in{int(a:$a)}}","variables":{"a":§}}`}
				item := items[c.Choose(len(items))]
				return &Case{Desc: "batch of " + item, Run: func() Result {
					s := newWorld3Schema()
					fail := linear(func(n int) func() {
						body := []byte(linText("[1", []string{"," + item}, n/10, "]"))
						calls, ctxScript, faultReal = nil, make([]int, 6), faultPlan{}
						return func() {
							s.HandleRequest("POST", func(string) string { return "" }, nil, func() []byte { return body }, "application/json", nil)
						}
					})
					calls = nil
					return Result{Steps: 3, Fail: fail, Outcome: item}
				}}
			},
		},
	})
}
