//go:build e16

package main

// E16: copies of a schema can be used by different goroutines at once.
//
// This file is only part of the binary in which every statement of the code
// under test is preceded by a call to schedPoint, built with the race detector.
// One goroutine runs at a time and the next one is chosen by the schedule; the
// hand over is hidden from the race detector (runtime.RaceDisable), so two
// accesses of different goroutines are ordered only by what the code under test
// does itself, and every conflicting pair of accesses is reported as a race in
// every schedule.

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/mjarkk/yarql"
)

type segment struct {
	thread int
	points int // -1: until the end
}

type thread struct {
	body   func() string
	resume chan struct{}
	out    string
	done   bool
	points int
	fine   int
	// state of the harness that belongs to the running request
	calls     []string
	script    []int
	cancel    func()
	fault     faultPlan
	panicText string
}

var (
	schedOn   bool
	schedKind int // points of this kind or higher can be interrupted: 0 statements, 1 functions, 2 functions of the main package
	schedCur  *thread
	schedLeft int
	schedPlan []segment
	schedPos  int
	schedAll  []*thread
	schedEnd  chan struct{}
	switches  int
)

// schedPoint is called before every statement of the code under test
func schedPoint(kind int) {
	if !schedOn {
		return
	}
	t := schedCur
	t.fine++
	if kind < schedKind {
		return
	}
	t.points++
	if schedLeft > 0 {
		schedLeft--
		if schedLeft == 0 {
			runtime.RaceDisable()
			n := nextThread()
			if n != t {
				handOver(t, n)
				<-t.resume
			}
			runtime.RaceEnable()
		}
	}
}

// nextThread moves to the next segment of the schedule
func nextThread() *thread {
	for schedPos < len(schedPlan) {
		s := schedPlan[schedPos]
		schedPos++
		t := schedAll[s.thread]
		if !t.done {
			schedLeft = s.points
			return t
		}
	}
	schedLeft = -1
	for _, t := range schedAll {
		if !t.done {
			return t
		}
	}
	return nil
}

func handOver(from, to *thread) {
	switches++
	from.calls, from.script, from.cancel, from.fault = calls, ctxScript, ctxCancel, faultReal
	calls, ctxScript, ctxCancel, faultReal = to.calls, to.script, to.cancel, to.fault
	schedCur = to
	to.resume <- struct{}{}
}

// runSchedule runs the bodies under a schedule
func runSchedule(bodies []func() string, plan []segment, kind int) []*thread {
	schedAll = nil
	for _, b := range bodies {
		schedAll = append(schedAll, &thread{body: b, resume: make(chan struct{}, 1)})
	}
	schedPlan, schedPos, schedKind, switches = plan, 0, kind, 0
	schedEnd = make(chan struct{}, len(bodies))
	joined := make(chan struct{}, len(bodies))
	for _, t := range schedAll {
		t := t
		go func() {
			runtime.RaceDisable()
			<-t.resume
			runtime.RaceEnable()
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.panicText = fmt.Sprint("panic: ", r)
					}
				}()
				t.out = t.body()
			}()
			runtime.RaceDisable()
			t.done = true
			n := nextThread()
			if n != nil {
				handOver(t, n)
			} else {
				schedOn = false
				schedEnd <- struct{}{}
			}
			runtime.RaceEnable()
			joined <- struct{}{}
		}()
	}
	runtime.RaceDisable()
	first := nextThread()
	schedCur = first
	calls, ctxScript, ctxCancel, faultReal = nil, nil, nil, faultPlan{}
	schedOn = true
	first.resume <- struct{}{}
	<-schedEnd
	runtime.RaceEnable()
	for range bodies {
		<-joined
	}
	return schedAll
}

var lastRaces = 0

// newRaces returns the report of the races found since the last call
func newRaces() string {
	n := runtime.RaceErrors()
	if n == lastRaces {
		return ""
	}
	lastRaces = n
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p := strings.TrimPrefix(f, "log_path="); p != f {
			if m, _ := filepath.Glob(p + fmt.Sprintf(".%d", os.Getpid())); len(m) > 0 {
				b, _ := os.ReadFile(m[0])
				return string(b)
			}
		}
	}
	return "data race (no report)"
}

// a set of schemas that were made from one
type concSetup struct {
	name string
	make func() []*yarql.Schema
}

func concSetups() []concSetup {
	return []concSetup{
		{"two copies of an unused schema", func() []*yarql.Schema {
			o := newWorld3Schema()
			return []*yarql.Schema{o.Copy(), o.Copy(), o}
		}},
		{"the original and its copy", func() []*yarql.Schema {
			o := newWorld3Schema()
			return []*yarql.Schema{o, o.Copy(), o.Copy()}
		}},
		{"a schema and another that was built the same way", func() []*yarql.Schema {
			return []*yarql.Schema{newWorld3Schema(), newWorld3Schema(), newWorld3Schema()}
		}},
		{"a copy and its copy, made after they were used", func() []*yarql.Schema {
			o := newWorld3Schema()
			for _, n := range []string{"introspection", "type", "variables", "http json", "resolver errors", "long"} {
				kindByName(n).do(o)
			}
			c := o.Copy()
			for _, n := range []string{"introspection", "type", "files", "long"} {
				kindByName(n).do(c)
			}
			return []*yarql.Schema{c, c.Copy(), o}
		}},
	}
}

func kindByName(n string) *reqKind {
	for _, k := range reqKinds() {
		if k.name == n {
			return k
		}
	}
	panic(n)
}

// checks of one schedule: what the requests answered and races
func checkSchedule(ks []*reqKind, ts []*thread, what func() string) string {
	for i, t := range ts {
		if t.panicText != "" {
			return fmt.Sprintf("%s: request %d (%s) failed: %s", what(), i+1, ks[i].name, t.panicText)
		}
		if f := diffOut(fmt.Sprintf("%s: request %d (%s) is not answered as alone", what(), i+1, ks[i].name), ks[i].fresh(), t.out); f != "" {
			return f
		}
	}
	if r := newRaces(); r != "" {
		return what() + ": " + clip(r, 4500)
	}
	return ""
}

// schedule explored by a case: which requests, on schemas made how, interrupted where
type concCase struct {
	ks    []*reqKind
	su    concSetup
	copy  bool // a further thread copies the original and asks the copy
	build bool // a further thread builds a schema and asks it
	fresh bool // new schemas for every schedule
	kind  int  // which points
	first int
	pre   int // number of preemptions: 1, or 2 (the second request is interrupted as well)
	limit int // points of the first request that are tried
	// the points of the first request from .. to
	from, to int
}

func (cc concCase) desc() string {
	d := ""
	for _, k := range cc.ks {
		d += k.name + " | "
	}
	if cc.copy {
		d += "copying the original | "
	}
	if cc.build {
		d += "building another schema | "
	}
	return fmt.Sprintf("%s%s; thread %d is interrupted at points %d to %d (kind %d), %d preemptions", d, cc.su.name, cc.first+1, cc.from, cc.to, cc.kind, cc.pre)
}

func (cc concCase) run() Result {
	res := Result{}
	small := kindByName("simple")
	for _, k := range cc.ks {
		k.fresh()
	}
	small.fresh()
	var s []*yarql.Schema
	one := func(k1, k2 int) (enough1, enough2 bool) {
		if s == nil || cc.fresh {
			s = cc.su.make()
		}
		bodies := []func() string{}
		ks := append([]*reqKind{}, cc.ks...)
		for i := range cc.ks {
			i := i
			bodies = append(bodies, func() string { return ks[i].do(s[i]) })
		}
		if cc.copy {
			ks = append(ks, small)
			bodies = append(bodies, func() string { return small.do(s[2].Copy()) })
		}
		if cc.build {
			ks = append(ks, small)
			bodies = append(bodies, func() string { return small.do(newWorld3Schema()) })
		}
		plan := []segment{{cc.first, k1}}
		for i := range bodies {
			o := (cc.first + 1 + i) % len(bodies)
			if i == 0 && cc.pre == 2 {
				plan = append(plan, segment{o, k2}, segment{cc.first, -1})
			} else if o != cc.first {
				plan = append(plan, segment{o, -1})
			}
		}
		ts := runSchedule(bodies, plan, cc.kind)
		res.Steps++
		res.Fail = checkSchedule(ks, ts, func() string {
			return fmt.Sprintf("thread %d is interrupted at point %d (second preemption at %d)", cc.first+1, k1, k2)
		})
		res.Outcome = fmt.Sprint(switches, " switches ", clip(ts[0].out, 100))
		return ts[cc.first].points >= k1, ts[(cc.first+1)%len(ts)].points >= k2
	}
	for k1 := cc.from; k1 <= cc.to && res.Fail == ""; k1++ {
		if cc.pre == 2 {
			enough := false
			for k2 := 1; res.Fail == ""; k2++ {
				e1, e2 := one(k1, k2)
				enough = e1
				if !e1 || !e2 {
					break
				}
			}
			if !enough {
				break
			}
		} else if e, _ := one(k1, 0); !e {
			break // the thread has fewer points, this was the schedule without preemption
		}
	}
	return res
}

func init() {
	setups := concSetups()
	names := func(l ...string) (res []*reqKind) {
		for _, n := range l {
			res = append(res, kindByName(n))
		}
		return
	}
	chunk := func(c *Chooser, cc concCase, limit, size int) *Case {
		i := c.Choose((limit + size - 1) / size)
		cc.from, cc.to = i*size+1, (i+1)*size
		return &Case{DescF: cc.desc, Run: cc.run}
	}
	var mixed, light, tiny, lazy []*reqKind
	prepare := func() {
		if mixed == nil {
			mixed = names("simple", "variables", "resolver errors", "fragments", "directives", "values", "type", "traced error", "long frag", "files", "interfaces", "http batch", "syntax error")
			light = names("simple", "variables", "unknown field", "traced", "directives", "context store", "files", "interfaces", "block string", "http form", "operation C", "long", "long other", "nested", "undefined variable", "objects")
			tiny = names("simple", "bad argument", "http form", "operation C", "context look", "missing variable")
			lazy = names("type", "interfaces", "variables", "introspection")
		}
	}
	register(&Property{
		ID: "E16",
		Bounds: map[string]string{
			"quick":    "all interleavings with one preemption at every function entry of the main package (the first 600 of a request): 63 kinds of requests x 13 others, on two copies, original and copy, a copy and its copy, or two schemas; one preemption at every statement: all pairs of 8 kinds; two preemptions at function entries: all pairs of 3 kinds; with a third thread that copies the original, or one that builds a schema; newly made copies for every schedule, also for two introspections; every schedule with a happens-before race check of all memory accesses",
			"thorough": "61 x 63 kinds; one preemption at every statement for all pairs of 16 kinds; two preemptions for all pairs of 6 kinds",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			// one preemption at function entries
			func(c *Chooser, e *Env) *Case {
				prepare()
				all := reqKinds()
				i := c.Choose(len(all))
				second := mixed
				if e.Thorough {
					second = all
				}
				j := c.Choose(len(second))
				return chunk(c, concCase{ks: []*reqKind{all[i], second[j]}, su: setups[(i+j)%len(setups)], kind: 2, pre: 1}, 600, 300)
			},
			// one preemption at every statement
			func(c *Chooser, e *Env) *Case {
				prepare()
				l := light[:8]
				if e.Thorough {
					l = light
				}
				i, j := c.Choose(len(l)), c.Choose(len(l))
				return chunk(c, concCase{ks: []*reqKind{l[i], l[j]}, su: setups[(i+j)%len(setups)], kind: 0, pre: 1}, 10000, 250)
			},
			// two preemptions
			func(c *Chooser, e *Env) *Case {
				prepare()
				l := tiny[:3]
				if e.Thorough {
					l = tiny
				}
				i, j := c.Choose(len(l)), c.Choose(len(l))
				return chunk(c, concCase{ks: []*reqKind{l[i], l[j]}, su: setups[(i+j)%len(setups)], kind: 2, pre: 2}, 200, 10)
			},
			// copying the original at the same time
			func(c *Chooser, e *Env) *Case {
				prepare()
				i := c.Choose(len(mixed))
				j := c.Choose(2)
				first := c.Choose(2) * 2
				limit := 600
				if first == 2 {
					limit = 1500 // the thread that copies is interrupted
					if i >= 3 && !e.Thorough {
						return nil
					}
				}
				if first == 0 && j == 1 && !e.Thorough {
					return nil
				}
				return chunk(c, concCase{ks: []*reqKind{mixed[i], mixed[(i+j)%len(mixed)]}, su: setups[0], copy: true, fresh: true, kind: 2, pre: 1, first: first}, limit, 50)
			},
			// building a schema at the same time
			func(c *Chooser, e *Env) *Case {
				prepare()
				i := c.Choose(3)
				first := c.Choose(2)
				limit := 600
				if first == 1 {
					limit = 6000 // the thread that builds is interrupted
					if i > 0 && !e.Thorough {
						return nil
					}
				}
				return chunk(c, concCase{ks: []*reqKind{lazy[i]}, su: setups[0], build: true, fresh: true, kind: 2, pre: 1, first: first}, limit, 50)
			},
			// new copies every time
			func(c *Chooser, e *Env) *Case {
				prepare()
				i, j := c.Choose(len(lazy)), c.Choose(len(lazy))
				return chunk(c, concCase{ks: []*reqKind{lazy[i], lazy[j]}, su: setups[(i+j)%3], fresh: true, kind: 2, pre: 1}, 600, 50)
			},
		},
	})
	extraCommands["points"] = func([]string) {
		for _, k := range append(reqKinds(), nil) {
			s := setups[0].make()
			f := func() string { s[0].Copy(); return "" }
			name, exp := "copying", ""
			if k != nil {
				exp = k.fresh()
				name = k.name
				f = func() string { return k.do(s[0]) }
			}
			ts := runSchedule([]func() string{f}, nil, 2)
			fmt.Println(name, "function entries", ts[0].points, "statements", ts[0].fine, ts[0].out == exp)
		}
	}
}
