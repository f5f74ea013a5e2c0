package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// V02: times survive being written and read

type tArgs struct {
	T time.Time
	P *time.Time
	L []time.Time
	O *TIn
}

// TIn is an input object
type TIn struct {
	T  time.Time
	Pp **time.Time
}

// TO is an object with times
type TO struct {
	T   time.Time
	P   *time.Time
	Pp  **time.Time
	Nil *time.Time
	L   []time.Time
	Lp  []*time.Time
	Ll  [][]time.Time
	Fn  func() time.Time
}

// ResolveM returns a time
func (o TO) ResolveM() time.Time { return o.T }

// ResolveMp returns a pointer
func (o TO) ResolveMp() (*time.Time, error) { return o.P, nil }

var tCur []time.Time
var tObj TO
var tGot []time.Time

// TQ is the query root
type TQ struct{}

// ResolveL returns the times
func (TQ) ResolveL() []time.Time { return tCur }

// ResolveO returns the object
func (TQ) ResolveO() TO { return tObj }

// ResolveIn keeps its arguments
func (TQ) ResolveIn(args tArgs) int {
	tGot = append(tGot, args.T)
	if args.P != nil {
		tGot = append(tGot, *args.P)
	}
	tGot = append(tGot, args.L...)
	if args.O != nil {
		tGot = append(tGot, args.O.T)
		if args.O.Pp != nil {
			tGot = append(tGot, **args.O.Pp)
		}
	}
	return len(tGot)
}

var tSchema *yarql.Schema

func getTSchema() *yarql.Schema {
	if tSchema == nil {
		tSchema = yarql.NewSchema()
		must(tSchema.Parse(TQ{}, VM{}, nil))
	}
	return tSchema
}

// civil is the date of a number of days since 1970-01-01
func civil(days int64) (y int64, m, d int) {
	y = 1970
	leap := func(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	n := days / 146097
	if days%146097 < 0 {
		n--
	}
	y += n * 400
	days -= n * 146097
	for {
		l := int64(365)
		if leap(y) {
			l = 366
		}
		if days < l {
			break
		}
		days -= l
		y++
	}
	for i, l := range []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31} {
		if i == 1 && leap(y) {
			l = 29
		}
		if days < l {
			return y, i + 1, int(days) + 1
		}
		days -= l
	}
	panic("civil")
}

// refWrite is the expected text of a time
func refWrite(t time.Time) string {
	s := t.Unix()
	days := s / 86400
	s -= days * 86400
	if s < 0 {
		s += 86400
		days--
	}
	y, m, d := civil(days)
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", y, m, d, s/3600, s/60%60, s%60, t.Nanosecond()/1e6)
}

func inRange(t time.Time) bool {
	y := t.UTC().Year()
	return y >= 0 && y <= 9999
}

// timesCase writes and reads the times
func timesCase(desc string, gen func() []time.Time) *Case {
	return &Case{Desc: desc, Run: func() Result {
		var l []time.Time
		for _, t := range gen() {
			if inRange(t) {
				l = append(l, t)
			}
		}
		tCur = l
		s := getTSchema()
		errs := s.Resolve([]byte("{l}"), yarql.ResolveOptions{})
		raw := string(s.Result)
		var top struct{ Data struct{ L []string } }
		if err := json.Unmarshal([]byte(raw), &top); err != nil || len(errs) > 0 || len(top.Data.L) != len(l) {
			return Result{Fail: fmt.Sprint("unexpected response ", clip(raw, 500), errs)}
		}
		for i, t := range l {
			if exp := refWrite(t); top.Data.L[i] != exp {
				return Result{Fail: fmt.Sprintf("the time %s (%d ns) is written as %s instead of %s", t.Format(time.RFC3339Nano), t.UnixNano(), top.Data.L[i], exp)}
			}
		}
		// read it back, in a literal and as a variable
		list, _ := json.Marshal(top.Data.L)
		for i, opts := range []yarql.ResolveOptions{{}, {Variables: `{"l":` + string(list) + `}`}} {
			q := "{in(l:" + string(list) + ")}"
			if i == 1 {
				q = "query($l:[Time]){in(l:$l)}"
			}
			tGot = tGot[:0]
			if errs := s.Resolve([]byte(q), opts); len(errs) > 0 || len(tGot) != len(l)+1 {
				return Result{Fail: fmt.Sprintf("times are not read back: %v", errs)}
			}
			for j, t := range l {
				g := tGot[j+1]
				if g.Unix() != t.Unix() || g.Nanosecond() != t.Nanosecond()/1e6*1e6 {
					return Result{Fail: fmt.Sprintf("the time %s is read back as %s", t.Format(time.RFC3339Nano), g.Format(time.RFC3339Nano))}
				}
			}
		}
		return Result{Outcome: raw, Steps: 3}
	}}
}

// objCase is about one time in every kind of field
func tObjCase(a, b time.Time) *Case {
	return &Case{DescF: func() string { return fmt.Sprintf("%v and %v in all kinds of fields", a, b) }, Run: func() Result {
		if !inRange(a) || !inRange(b) {
			return Result{Skip: true}
		}
		pa, pb := &a, &b
		tObj = TO{T: a, P: pb, Pp: &pa, L: []time.Time{b, a}, Lp: []*time.Time{nil, pa, pb}, Ll: [][]time.Time{{a}, nil, {}, {b, a}}, Fn: func() time.Time { return b }}
		s := getTSchema()
		errs := s.Resolve([]byte("{o{t p pp nil l lp ll fn m mp}}"), yarql.ResolveOptions{})
		sa, sb := `"`+refWrite(a)+`"`, `"`+refWrite(b)+`"`
		exp := strings.NewReplacer("A", sa, "B", sb).Replace(`{"data":{"o":{"t":A,"p":B,"pp":A,"nil":null,"l":[B,A],"lp":[null,A,B],"ll":[[A],null,[],[B,A]],"fn":B,"m":A,"mp":B}}}`)
		if got, err := canonJSON(s.Result); err != nil || len(errs) > 0 || got != exp {
			return Result{Fail: fmt.Sprintf("expected %s, got %s %v", exp, s.Result, errs)}
		}
		ta, tb := a.UTC().Truncate(0), b.UTC()
		tGot = tGot[:0]
		vars := `{"p":` + sb + `,"o":{"t":` + sa + `,"pp":` + sb + `}}`
		errs = s.Resolve([]byte(`query($p:Time,$l:[Time!]=[`+sb+`],$o:TIn!){in(t:`+sa+`,p:$p,l:$l,o:$o)}`), yarql.ResolveOptions{Variables: vars})
		want := []time.Time{ta, tb, tb, ta, tb}
		if len(errs) > 0 || len(tGot) != len(want) {
			return Result{Fail: fmt.Sprintf("not read back: %v %v", errs, tGot)}
		}
		for i, w := range want {
			if tGot[i].Unix() != w.Unix() || tGot[i].Nanosecond()/1e6 != w.Nanosecond()/1e6 {
				return Result{Fail: fmt.Sprintf("argument %d is %v instead of %v", i, tGot[i], w)}
			}
		}
		return Result{Outcome: exp, Steps: 2}
	}}
}

// readCase reads a text in one of the positions
func readCase(text string, pos int) *Case {
	v := vStr(text)
	js := jstr(text)
	q := func(decl string, val Val, sel Sel) *Doc {
		return &Doc{Defs: []any{&Op{Kind: "query", Vars: []VarDef{{"v", decl, nil}}, Sel: []Sel{sel.args(Arg{"a", val})}}}}
	}
	in1 := func(v Val) Val { return vObj(Arg{"i", vInt("1")}, Arg{"t", v}) }
	var d *Doc
	vars := ""
	switch pos {
	case 0:
		d = query(fld("time").args(Arg{"a", v}))
	case 1:
		d, vars = q("Time", vVar("v"), fld("time")), `{"v":`+js+`}`
	case 2:
		d = query(fld("pTime").args(Arg{"a", v}))
	case 3:
		d, vars = q("[Time]", vVar("v"), fld("lTime")), `{"v":["2020-01-01T00:00:00.000Z",`+js+`]}`
	case 4:
		d = query(fld("lTime").args(Arg{"a", vList(v, vStr("2020-01-01T00:00:00.000Z"))}))
	case 5:
		d = query(fld("in1").args(Arg{"a", in1(v)}))
	case 6:
		d, vars = q("In1", vVar("v"), fld("pIn1")), `{"v":{"t":`+js+`}}`
	case 7:
		d = &Doc{Defs: []any{&Op{Kind: "query", Vars: []VarDef{{"v", "Time!", &v}}, Sel: []Sel{fld("time").args(Arg{"a", vVar("v")})}}}}
	}
	k := doc2Case(d, vars)
	run := k.Run
	k.Run = func() Result {
		r := run()
		if strings.Contains(text, ",") && len(text) == 24 && text[19] == ',' {
			return Result{Outcome: r.Outcome, Steps: 1, Skip: true} // ISO 8601 has a comma as well
		}
		return r
	}
	return k
}

func init() {
	years := []int{0, 1, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1700, 1899, 1900, 1901, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2019, 2020, 2021, 2023, 2024, 2038, 2099, 2100, 2400, 9998, 9999}
	zones := []*time.Location{time.UTC, time.Local, time.FixedZone("", 0), time.FixedZone("Z", 1), time.FixedZone("Z", -1), time.FixedZone("LMT", 19*60+32), time.FixedZone("X", -(4*3600 + 56*60 + 2)), time.FixedZone("big", 86399), time.FixedZone("neg", -86399), time.FixedZone("Kath", 5*3600+45*60), time.FixedZone("Kir", 14*3600), time.FixedZone("Baker", -12*3600), time.FixedZone("StJ", -(3*3600 + 1800)), nil}
	nanos := []int{0, 1, 999, 1000, 499999, 500000, 500001, 999999}
	limits := func() []time.Time {
		now := time.Now()
		mono := now.Add(time.Date(2021, 3, 4, 5, 6, 7, 89999999, time.UTC).Sub(now)) // with a monotonic clock
		return []time.Time{{}, time.Unix(0, 0), time.Unix(-1, 999999999), mono, time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
			time.Date(2000, 2, 29, 23, 59, 59, 999000000, zones[5]), time.Date(1, 1, 1, 0, 0, 0, 0, zones[7]), time.Date(9999, 12, 31, 23, 59, 59, 0, zones[8]), time.Date(1969, 12, 31, 23, 59, 59, 1, zones[9]), time.Date(2038, 1, 19, 3, 14, 8, 1000000, time.UTC),
			time.Date(1600, 12, 31, 12, 0, 0, 10000000, zones[10])}
	}
	texts := []string{"2021-03-04T05:06:07.089Z", "2000-02-29T23:59:59.999Z", "0000-01-01T00:00:00.000Z", "9999-12-31T10:20:30.400Z", "1900-02-28T19:00:09.010Z"}
	alphabet := "0123456789-+:.,TZtz /\x00é\"W"
	register(&Property{
		ID: "V02",
		Bounds: map[string]string{
			"quick":    "every day of 33 years from 0 to 9999, every second of 2 days, every millisecond with 8 fractions, in 14 zones, written and read back in lists; every pair of 12 limits in every kind of field and argument; texts: every date with months 0..13 and days 0..32 of 33 years, every clock of hours 0..25, minutes and seconds 0..61, every one byte edit out of 27 bytes of 5 texts in 8 positions; other notations of times",
			"thorough": "the quick space with every day of all 10000 years and two byte edits",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			// days
			func(c *Chooser, e *Env) *Case {
				var y int
				if e.Thorough {
					y = c.Choose(10000)
				} else {
					y = years[c.Choose(len(years))]
				}
				zi := c.Choose(len(zones))
				if e.Thorough && zi != y%len(zones) && zi != 0 {
					return nil
				}
				return timesCase(fmt.Sprintf("every day of %d, zone %d", y, zi), func() (l []time.Time) {
					for d := 0; d < 367; d++ {
						t := time.Date(y, 1, 1+d, (d*7)%24, (d*11)%60, (d*13)%60, (d*8999999)%1e9, time.UTC)
						if zones[zi] != nil {
							t = t.In(zones[zi])
						} else {
							t = t.Local()
						}
						l = append(l, t)
					}
					return
				})
			},
			// clocks
			func(c *Chooser, e *Env) *Case {
				day := c.Choose(2)
				h := c.Choose(24)
				z := zones[c.Choose(len(zones)-1)]
				return timesCase(fmt.Sprintf("every second of hour %d of day %d in %v", h, day, z), func() (l []time.Time) {
					for s := 0; s < 3600; s++ {
						l = append(l, time.Date([]int{1969, 2024}[day], []time.Month{12, 2}[day], []int{31, 29}[day], h, s/60, s%60, 5000000*(s%200)+s, z))
					}
					return
				})
			},
			// milliseconds
			func(c *Chooser, e *Env) *Case {
				n := nanos[c.Choose(len(nanos))]
				y := []int{0, 1, 1969, 1970, 2021, 9999}[c.Choose(6)]
				return timesCase(fmt.Sprintf("every millisecond with %d ns in %d", n, y), func() (l []time.Time) {
					for ms := 0; ms < 1000; ms++ {
						l = append(l, time.Date(y, 12, 31, 23, 59, 59, ms*1e6+n, time.UTC))
					}
					return
				})
			},
			// offsets
			func(c *Chooser, e *Env) *Case {
				h := c.Choose(30) - 15
				return timesCase(fmt.Sprintf("every offset of %d hours", h), func() (l []time.Time) {
					for m := 0; m < 60; m++ {
						for _, s := range []int{0, 1, 59} {
							z := time.FixedZone(fmt.Sprint("Z", m), h*3600+m*60+s)
							l = append(l, time.Date(2021, 1, 1, 0, 0, 0, 0, z), time.Date(2020, 12, 31, 23, 59, 59, 999999999, z), time.Date(2020, 3, 1, 12, 30, 0, 0, z))
						}
					}
					return
				})
			},
			// fields
			func(c *Chooser, e *Env) *Case {
				l := limits()
				return tObjCase(l[c.Choose(len(l))], l[c.Choose(len(l))])
			},
			// texts of dates
			func(c *Chooser, e *Env) *Case {
				y, m, d := years[c.Choose(len(years))], c.Choose(14), c.Choose(33)
				return readCase(fmt.Sprintf("%04d-%02d-%02dT05:06:07.089Z", y, m, d), c.Choose(2))
			},
			// texts of clocks
			func(c *Chooser, e *Env) *Case {
				h, m, s := c.Choose(26), c.Choose(62), c.Choose(62)
				return readCase(fmt.Sprintf("2021-03-04T%02d:%02d:%02d.%03dZ", h, m, s, (h*61+m*7+s*13)%1000), 0)
			},
			// milliseconds
			func(c *Chooser, e *Env) *Case {
				return readCase(fmt.Sprintf("2021-03-04T05:06:07.%03dZ", c.Choose(1000)), c.Choose(8))
			},
			// edits
			func(c *Chooser, e *Env) *Case {
				t := []rune(texts[c.Choose(len(texts))])
				al := []rune(alphabet)
				pos := c.Choose(8)
				n := 1
				if e.Thorough && pos < 2 {
					n += c.Choose(2)
				}
				for ; n > 0; n-- {
					i := c.Choose(len(t) + 1)
					j := c.Choose(2*len(al) + 1)
					if i == len(t) && j >= len(al) {
						return nil
					}
					var r []rune
					r = append(r, t[:i]...)
					if j < 2*len(al) {
						r = append(r, al[j%len(al)])
					}
					if j < len(al) {
						r = append(r, t[i:]...)
					} else {
						r = append(r, t[i+1:]...)
					}
					t = r
				}
				return readCase(string(t), pos)
			},
			// other notations
			func(c *Chooser, e *Env) *Case {
				o := []string{"", "2021-03-04", "2021-03-04T05:06:07Z", "2021-03-04T05:06:07.08Z", "2021-03-04T05:06:07.0891Z", "2021-03-04T05:06:07.089", "2021-03-04T05:06:07.089+00:00", "2021-03-04T05:06:07.089+01:00", "2021-03-04 05:06:07.089Z", "20210304T050607.089Z", "2021-W09-4T05:06:07.089Z", "2021-063T05:06:07.089Z",
					"+2021-03-04T05:06:07.089Z", "-2021-03-04T05:06:07.089Z", "12021-03-04T05:06:07.089Z", "021-03-04T05:06:07.089Z", "2021-3-04T05:06:07.089Z", "2021-03-4T05:06:07.089Z", "2021-03-04T5:06:07.089Z", "2021-03-04T05:6:07.089Z", "2021-03-04T05:06:7.089Z", "2021-03-04t05:06:07.089z", " 2021-03-04T05:06:07.089Z", "2021-03-04T05:06:07.089Z ", "2021-03-04T05:06:07.089Zx", "1614834367089", "now", "Thu, 04 Mar 2021 05:06:07 GMT", "2021-03-04T05:06:07.089000Z", "2021-03-04T05:06:07.089Z0", "2021-03-04T24:00:00.000Z", "2021-03-04T23:59:60.000Z", "２021-03-04T05:06:07.089Z", "null", "2021-13-01T00:00:00.000Z", "2021-02-30T00:00:00.000Z"}
				return readCase(o[c.Choose(len(o))], c.Choose(8))
			},
		},
	})
	_ = reflect.TypeOf
}
