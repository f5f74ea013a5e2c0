package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/mjarkk/yarql/bytecode/cache"
)

// C01: the bytecode cache returns exactly what was stored and stays within its limits

type cacheWorld struct {
	c     cache.BytecodeCache
	model map[string]cacheStored // key -> what was stored last
	sets  int
	steps int
	// reused for every call, as the parser does
	query, code []byte
	frags       []int
	target      string
}

type cacheStored struct {
	code   string
	frags  string
	target int
}

func newCacheWorld() *cacheWorld {
	return &cacheWorld{c: cache.BytecodeCache{}, model: map[string]cacheStored{}}
}

func cacheKey(query string, target *string) string {
	if target == nil {
		return query + "\x00"
	}
	return query + "\x01" + *target
}

// set stores bytecode that belongs to nobody else
func (w *cacheWorld) set(query string, target *string, codeLen, frags int) string {
	w.sets++
	w.steps++
	w.query = append(w.query[:0], query...)
	w.code = w.code[:0]
	for i := 0; i < codeLen; i++ {
		w.code = append(w.code, byte(w.sets>>(8*(i%3))))
	}
	w.frags = w.frags[:0]
	for i := 0; i < frags; i++ {
		w.frags = append(w.frags, w.sets+i)
	}
	t := target
	if target != nil {
		w.target = *target
		x := w.target
		t = &x
	}
	w.c.SetEntry(w.query, w.code, t, w.sets-1, w.frags)
	w.model[cacheKey(query, target)] = cacheStored{string(w.code), fmt.Sprint(w.frags), w.sets - 1}
	// what was handed over is used for something else
	for _, b := range [][]byte{w.query[:cap(w.query)], w.code[:cap(w.code)]} {
		for i := range b {
			b[i] = 0xEE
		}
	}
	for i := range w.frags {
		w.frags[i] = -7
	}
	if t != nil {
		*t = "scribbled"
	}
	if f := w.get(query, target, true); f != "" {
		return f
	}
	return w.limits()
}

// get compares the answer with the model
func (w *cacheWorld) get(query string, target *string, must bool) string {
	w.steps++
	code, frags, idx := w.c.GetEntry([]byte(query), target)
	name := clip(fmt.Sprintf("%q", cacheKey(query, target)), 80)
	if code == nil {
		if must {
			return "what was just stored for " + name + " is not there"
		}
		return ""
	}
	m, ok := w.model[cacheKey(query, target)]
	if !ok {
		return "there is bytecode for " + name + " that was never stored"
	}
	if string(code) != m.code || fmt.Sprint(frags) != m.frags || idx != m.target {
		return fmt.Sprintf("the bytecode for %s is %q %v %d, stored was %q %s %d", name, clip(string(code), 60), frags, idx, clip(m.code, 60), m.frags, m.target)
	}
	return ""
}

// limits of the readme: 100 lengths with 20 queries each
func (w *cacheWorld) limits() string {
	lengths, _, most := w.size()
	if lengths > 100 {
		return fmt.Sprintf("there are queries of %d lengths in the cache", lengths)
	}
	if most > 20 {
		return fmt.Sprintf("there are %d queries of one length in the cache", most)
	}
	return ""
}

// size counts what is in the cache, by asking for everything that was ever stored
func (w *cacheWorld) size() (lengths, total, most int) {
	if len(w.model) <= 20 {
		return
	}
	v := reflect.ValueOf(w.c)
	if v.Kind() == reflect.Map && v.Type().Elem().Kind() == reflect.Slice {
		for i := v.MapRange(); i.Next(); {
			n := i.Value().Len()
			lengths, total, most = lengths+1, total+n, max(most, n)
		}
		return
	}
	byLen := map[int]int{}
	for k := range w.model {
		q, t := splitCacheKey(k)
		if code, _, _ := w.c.GetEntry([]byte(q), t); code != nil {
			byLen[len(q)]++
		}
	}
	for _, n := range byLen {
		lengths, total, most = lengths+1, total+n, max(most, n)
	}
	return
}

func splitCacheKey(k string) (string, *string) {
	n := strings.LastIndexAny(k, "\x00\x01")
	if k[n] == 0 {
		return k[:n], nil
	}
	t := k[n+1:]
	return k[:n], &t
}

func (w *cacheWorld) all() string {
	for i := 0; i < 3; i++ { // whatever is looked at changes nothing
		for k := range w.model {
			q, t := splitCacheKey(k)
			if f := w.get(q, t, false); f != "" {
				return f
			}
		}
	}
	return w.limits()
}

func strp(s string) *string { return &s }

func cacheCase(desc string, run func(w *cacheWorld) string) *Case {
	return &Case{Desc: desc, Run: func() Result {
		w := newCacheWorld()
		f := run(w)
		if f == "" {
			f = w.all()
		}
		lengths, total, _ := w.size()
		return Result{Fail: f, Steps: w.steps, Outcome: fmt.Sprint(lengths, " ", total, " ", w.sets)}
	}}
}

func init() {
	targets := []*string{nil, strp(""), strp("a"), strp("ab")}
	queries := []string{"", "a", "b", "ab", "ba"}
	register(&Property{
		ID: "C01",
		Bounds: map[string]string{
			"quick":    "every sequence of up to 3 writes of 5 queries x 4 targets x 3 sizes, with every entry read after each; every number of 0..45 queries of one length then again; every number of 0..230 lengths, upwards, downwards and in turns, with 1, 2 or 21 queries each, then again",
			"thorough": "sequences of up to 4 writes",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(3)
				if e.Thorough {
					n++
				}
				type op struct{ q, t, s int }
				l := make([]op, n)
				for i := range l {
					l[i] = op{c.Choose(len(queries)), c.Choose(len(targets)), c.Choose(3)}
				}
				return cacheCase(fmt.Sprint("writes ", l), func(w *cacheWorld) string {
					for _, o := range l {
						if f := w.set(queries[o.q], targets[o.t], []int{1, 2, 300}[o.s], []int{0, 1, 9}[o.s]); f != "" {
							return f
						}
						for _, q := range queries {
							for _, t := range targets {
								_, must := w.model[cacheKey(q, t)]
								if f := w.get(q, t, must); f != "" {
									return f
								}
							}
						}
					}
					return ""
				})
			},
			// one length
			func(c *Chooser, e *Env) *Case {
				n := c.Choose(46)
				byTarget := c.Bool()
				again := c.Choose(4)
				return cacheCase(fmt.Sprintf("%d queries of one length (by target %v), then again %d", n, byTarget, again), func(w *cacheWorld) string {
					for round := 0; round < 2; round++ {
						for i := 0; i < n; i++ {
							x := i
							switch again {
							case 1:
								x = n - 1 - i
							case 2:
								x = i / 2
							case 3:
								x = i * 7 % n
							}
							q, t := fmt.Sprintf("query %03d", x), (*string)(nil)
							if byTarget {
								q, t = "query", strp(fmt.Sprint(x))
							}
							if f := w.set(q, t, 5, i%3); f != "" {
								return f
							}
							if f := w.all(); f != "" {
								return f
							}
						}
					}
					return ""
				})
			},
			// many lengths
			func(c *Chooser, e *Env) *Case {
				n := c.Choose(231)
				each := []int{1, 2, 21}[c.Choose(3)]
				order := c.Choose(4)
				return cacheCase(fmt.Sprintf("%d lengths with %d queries each, order %d", n, each, order), func(w *cacheWorld) string {
					for round := 0; round < 2; round++ {
						for i := 0; i < n*each; i++ {
							l, x := i/each, i%each
							switch order {
							case 1:
								l = n - 1 - l
							case 2:
								l, x = i%n, i/n
							case 3:
								l, x = i*7%n, i%each
							}
							if f := w.set(fmt.Sprintf("%03d", x)+string(bytes.Repeat([]byte{' '}, l)), targets[x%len(targets)], 3, 1); f != "" {
								return f
							}
						}
						if f := w.all(); f != "" {
							return f
						}
					}
					return ""
				})
			},
		},
	})
}
