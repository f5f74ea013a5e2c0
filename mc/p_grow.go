package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// E17: what is kept between requests is bounded.
//
// A cycle of requests leads a schema back to where it was, so however often it is
// repeated the memory stays the same.  Every cycle is repeated and the memory that
// is reachable after a garbage collection is measured in between.

func heapNow() (bytes, objects int64) {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), int64(m.HeapObjects)
}

// growth repeats something and tells how much more memory it needs the more often it is done
func growth(warm, n int, do func(i int)) (steps int, fail string) {
	defer func() {
		calls = nil
	}()
	i := 0
	repeat := func(times int) {
		for j := 0; j < times; j++ {
			do(i)
			i++
		}
		if cap(calls) > 1024 {
			calls = nil
		}
	}
	// measures four times, the growth is what the least growing quarter has
	measure := func(times int) (min, total int64) {
		last, _ := heapNow()
		first := last
		min = math.MaxInt64
		for q := 0; q < 4; q++ {
			repeat(times)
			now, _ := heapNow()
			if now-last < min {
				min = now - last
			}
			last = now
		}
		return min, last - first
	}
	routines := runtime.NumGoroutine()
	repeat(warm)
	min, total := measure(n)
	if min > 0 && total >= int64(4*n) {
		// Something grows, this must end at some time
		for round := 0; round < 4; round++ {
			n *= 4
			min, total = measure(n)
			if min <= 0 || total < int64(4*n)*4 {
				break
			}
			if round == 3 {
				fail = fmt.Sprintf("%d more repetitions need %d more bytes of memory, at least %d for every %d of them", 4*n, total, min, n)
			}
		}
	}
	if fail == "" {
		for try := 0; runtime.NumGoroutine() > routines; try++ {
			if try == 100 {
				return i, fmt.Sprintf("there are %d goroutines more after %d repetitions", runtime.NumGoroutine()-routines, i)
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	return i, fail
}

// numbered is the request with every # replaced by a number
func (k *reqKind) numbered(i, width int) *reqKind {
	nr := fmt.Sprintf("%0*d", width, i)
	r := *k
	rep := func(s string) string { return strings.ReplaceAll(s, "#", nr) }
	r.q, r.body, r.opts.Variables, r.opts.OperatorTarget = rep(k.q), rep(k.body), rep(k.opts.Variables), rep(k.opts.OperatorTarget)
	if k.opts.Values != nil {
		m := map[string]interface{}{}
		for key, v := range *k.opts.Values {
			m[rep(key)] = v
		}
		r.opts.Values = &m
	}
	return &r
}

var growDistinct = []*reqKind{
	{name: "distinct aliases", q: `{a#:w{b#:str o#:obj{name}}}`},
	{name: "distinct unknown fields", q: `{w{str u#}}`},
	{name: "distinct strings", q: `{in{str(a:"text #")}}`},
	{name: "distinct variables", q: `query($v#:String){in{str(a:$v#)}}`, opts: yarql.ResolveOptions{Variables: `{"v#":"value #"}`}},
	{name: "distinct values of variables", q: `query($v:String,$l:[Int!]){in{str(a:$v) lInt(a:$l)}}`, opts: yarql.ResolveOptions{Variables: `{"v":"#","l":[1#]}`}},
	{name: "distinct variables payloads", q: `query($v:String){in{str(a:$v)}}`, opts: yarql.ResolveOptions{Variables: `{"x#":{"#":[#,"#"]},"v":"#"}`}},
	{name: "distinct bad payloads", q: `query($v:String){in{str(a:$v)}}`, opts: yarql.ResolveOptions{Variables: `{"x#":#`}},
	{name: "distinct operations", q: `query Q#{w{str}}query R#{w{num}}`, opts: yarql.ResolveOptions{OperatorTarget: "Q#"}},
	{name: "distinct unknown operations", q: `query Q{w{str}}`, opts: yarql.ResolveOptions{OperatorTarget: "Q#"}},
	{name: "distinct fragments", q: `{w{...F#}}fragment F# on Q1{str}fragment G# on Q1{str}`},
	{name: "distinct unknown fragments", q: `{w{...F#}}`},
	{name: "distinct directives", q: `{w{str@d#}}`},
	{name: "distinct enum values", q: `{in{in1(a:{e:E#})}}`},
	{name: "distinct arguments", q: `{in{str(a#:1)}}`},
	{name: "distinct properties", q: `{in{in1(a:{p#:1})}}`},
	{name: "distinct types", q: `{__type(name:"T#"){name}}`},
	{name: "distinct type conditions", q: `{w{... on T#{str}}}`},
	{name: "distinct syntax errors", q: `{w{str}} #` + "\n" + `x#`},
	{name: "distinct files", q: `{in{file(a:"file#")}}`, opts: yarql.ResolveOptions{GetFormFile: formFile}},
	{name: "distinct unknown files", q: `query($f:File){in{file(a:$f)}}`, opts: yarql.ResolveOptions{GetFormFile: formFile, Variables: `{"f":"no#"}`}},
	{name: "distinct context values", q: `{ctx{a:op(i:0) last}}`, opts: yarql.ResolveOptions{Values: &map[string]interface{}{"k#": 1}}},
	{name: "distinct times", q: `{in{in1(a:{t:"2020-01-02T03:04:05.#Z"})}}`},
	{name: "traced distinct aliases", q: `{a#:w{b#:str o#:obj{name}}}`, opts: yarql.ResolveOptions{Tracing: true}},
	{name: "no meta distinct errors", q: `{w{str u#}}`, opts: yarql.ResolveOptions{NoMeta: true}},
	{name: "http json distinct", http: true, ct: "application/json", body: `{"query":"query A#($a#:Int){in{int(a:$a#)}}","variables":{"a#":3},"operationName":"A#","x#":1}`},
	{name: "http batch distinct", http: true, ct: "application/json", body: `[{"query":"{w{a#:str}}"},{"query":"{w{nope#}}"},#,{"query":"{w{"}]`},
	{name: "http bad distinct", http: true, ct: "application/json", body: `{"query":"#`},
	{name: "cached distinct aliases", q: longQuery(400, "a#:num")},
	{name: "cached distinct errors", q: longQuery(400, "a#")},
	{name: "cached distinct syntax errors", q: longQuery(400, "a#)")},
	{name: "cached distinct targets", q: longQuery(400, "num"), opts: yarql.ResolveOptions{OperatorTarget: "T#"}},
	{name: "cached distinct operations", q: "query A# " + longQuery(400, "num") + "query B{w{str}}", opts: yarql.ResolveOptions{OperatorTarget: "A#"}},
	{name: "cached distinct fragments", q: "fragment F# on Q1{num} " + longQuery(400, "...F#")},
}

func growCase(desc string, warm, n int, l []func(i int) *reqKind, mk func() *yarql.Schema) *Case {
	return &Case{Desc: desc, Run: func() Result {
		s := mk()
		steps, fail := growth(warm, n, func(i int) {
			for _, k := range l {
				k(i).do(s)
			}
		})
		runtime.KeepAlive(s)
		return Result{Steps: steps * len(l), Fail: fail, Outcome: desc}
	}}
}

func init() {
	same := func(k *reqKind) func(i int) *reqKind { return func(int) *reqKind { return k } }
	register(&Property{
		ID: "E17",
		Bounds: map[string]string{
			"quick":    "every cycle of 1 and 2 out of 63 kinds of requests, every cycle of 1 and 2 out of 33 kinds of requests of which every one is different (names, aliases, texts, variables, operations, fragments, files, error messages, with and without the cache, of one or of changing length), cycles of one of each, cycles that make schemas and copies; each repeated 500 to 10000 times with the memory that is still reachable measured 5 to 20 times, and the goroutines counted",
			"thorough": "also every cycle of 3 out of 63 kinds, and four times as many repetitions",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			// the same requests again and again
			func(c *Chooser, e *Env) *Case {
				ks := reqKinds()
				n := 1 + c.Choose(2)
				times := 64
				if e.Thorough {
					times = 256
				}
				var l []func(int) *reqKind
				desc := ""
				for i := 0; i < n; i++ {
					k := ks[c.Choose(len(ks))]
					l = append(l, same(k))
					desc += " > " + k.name
				}
				return growCase("again and again"+desc, 32, times, l, newWorld3Schema)
			},
			// requests that are all different
			func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(2)
				cached := c.Bool()
				wide := c.Bool()
				times := 128
				if e.Thorough {
					times = 512
				}
				var l []func(int) *reqKind
				desc := "all different"
				if cached {
					desc += ", all cached"
				}
				if wide {
					desc += ", of different length"
				}
				for i := 0; i < n; i++ {
					k := growDistinct[c.Choose(len(growDistinct))]
					l = append(l, func(i int) *reqKind {
						if wide {
							return k.numbered(i, 8+i*7%150)
						}
						return k.numbered(i, 8)
					})
					desc += " > " + k.name
				}
				warm := 64
				if cached {
					warm = 128
				}
				return growCase(desc, warm, times, l, func() *yarql.Schema {
					s := newWorld3Schema()
					if cached {
						z := 0
						s.SetCacheRules(&z)
					}
					return s
				})
			},
			// one of both
			func(c *Chooser, e *Env) *Case {
				ks := reqKinds()
				a, b := ks[c.Choose(len(ks))], growDistinct[c.Choose(len(growDistinct))]
				return growCase("again and again > "+a.name+" > "+b.name, 64, 96, []func(int) *reqKind{same(a), func(i int) *reqKind { return b.numbered(i, 8) }}, newWorld3Schema)
			},
			// schemas and copies that are not used any more
			func(c *Chooser, e *Env) *Case {
				ks := append([]*reqKind{nil}, reqKinds()...)
				how := c.Choose(3)
				before, k := ks[c.Choose(len(ks))], ks[c.Choose(len(ks))]
				name := func(k *reqKind) string {
					if k == nil {
						return "no request"
					}
					return k.name
				}
				if how == 0 && before != nil {
					return nil
				}
				desc := []string{"new schemas", "copies", "copies of copies"}[how] + " > " + name(before) + " > " + name(k)
				return &Case{Desc: desc, Run: func() Result {
					s := newWorld3Schema()
					steps, fail := growth(6, 8, func(i int) {
						if before != nil {
							before.do(s)
						}
						var x *yarql.Schema
						switch how {
						case 0:
							x = newWorld3Schema()
						case 1:
							x = s.Copy()
						case 2:
							x = s.Copy()
							s = x
						}
						if k != nil {
							k.do(x)
						}
					})
					runtime.KeepAlive(s)
					return Result{Steps: steps, Fail: fail, Outcome: desc}
				}}
			},
			// cycles of three
			func(c *Chooser, e *Env) *Case {
				ks := reqKinds()
				if !e.Thorough {
					ks = ks[:1]
				}
				var l []func(int) *reqKind
				desc := ""
				for i := 0; i < 3; i++ {
					k := ks[c.Choose(len(ks))]
					l = append(l, same(k))
					desc += " > " + k.name
				}
				return growCase("again and again"+desc, 8, 16, l, newWorld3Schema)
			},
		},
	})
}
