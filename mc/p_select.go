package main

import (
	"fmt"
	"strings"
)

// E01: the data has exactly the selected fields, in order and under their response key

var topItemsList = topItems()
var smallItemsList = smallItems()
var a1SubList = a1Subs()

func dupKeys(sels []Sel) bool {
	seen := map[string]bool{}
	for _, s := range sels {
		if s.Kind != 'f' {
			continue
		}
		if seen[s.key()] {
			return true
		}
		seen[s.key()] = true
	}
	return false
}

func init() {
	register(&Property{
		ID: "E01",
		Bounds: map[string]string{
			"quick":    "all ordered pairs of ~330 root selections (every field kind x alias x ~17 sub selections, right and wrong); all triples of 24 selections (fields, inline fragments, errors); chains of object fields of depth <= 4 with siblings before and after; alias lengths 1..254; 0..600 selections in a selection set, and around 65536; 55 wrong selections on items of lists in every position x what is before and behind them x 12 lists and objects",
			"thorough": "the quick space, quadruples of 24 selections, chains of depth <= 6",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			abortPart,
			// pairs
			func(c *Chooser, e *Env) *Case {
				i := c.Choose(len(topItemsList) + 1)
				j := c.Choose(len(topItemsList))
				var sels []Sel
				if i > 0 {
					sels = append(sels, topItemsList[i-1])
				}
				sels = append(sels, topItemsList[j])
				if dupKeys(sels) {
					return nil
				}
				return docCase(query(sels...), "", "", 0)
			},
			// triples or quadruples
			func(c *Chooser, e *Env) *Case {
				n := 3
				if e.Thorough {
					n = 4
				}
				var sels []Sel
				for k := 0; k < n; k++ {
					s := smallItemsList[c.Choose(len(smallItemsList))]
					if s.Kind == 'f' {
						s.Alias = fmt.Sprintf("k%d", k)
					} else {
						sub := []Sel{}
						for m, x := range s.Sub {
							x.Alias = fmt.Sprintf("k%d_%d", k, m)
							sub = append(sub, x)
						}
						s.Sub = sub
						s.HasSub = true
					}
					sels = append(sels, s)
				}
				return docCase(query(sels...), "", "", 0)
			},
			// chains
			func(c *Chooser, e *Env) *Case {
				max := 4
				if e.Thorough {
					max = 6
				}
				top := []string{"obj", "ptr", "list", "plist", "LL", "mobj", "mlist", "nil"}
				steps := []string{top[c.Choose(len(top))]}
				n := c.Choose(max)
				for i := 0; i < n; i++ {
					steps = append(steps, c.Pick("child", "kids"))
				}
				end := a1SubList[c.Choose(len(a1SubList))]
				where := c.Choose(4)
				cur := end
				for i := len(steps) - 1; i >= 0; i-- {
					s := fld(steps[i], cur...)
					cur = []Sel{s}
					if i > 0 {
						if where&1 != 0 {
							cur = append([]Sel{fld("n").as("before")}, cur...)
						}
						if where&2 != 0 {
							cur = append(cur, fld("name").as("after"))
						}
					}
				}
				cur = append(cur, fld("str").as("end"))
				return docCase(query(cur...), "", "", 0)
			},
			// shapes of types and values
			shapePart,
			// alias lengths
			func(c *Chooser, e *Env) *Case {
				n := 1 + c.Choose(254)
				switch c.Choose(3) {
				case 0:
					return docCase(query(fld("num").as(strings.Repeat("a", n)), fld("str")), "", "", 0)
				case 1:
					return docCase(query(fld("list", fld("n").as(strings.Repeat("Z", n)), fld("name"))), "", "", 0)
				default:
					// an unknown field
					return docCase(query(fld("str"), fld(strings.Repeat("n", n)), fld("num")), "", "", 0)
				}
			},
			// wide selection sets
			func(c *Chooser, e *Env) *Case {
				sizes := []int{}
				for i := 1; i <= 40; i++ {
					sizes = append(sizes, i)
				}
				sizes = append(sizes, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 600, 4095, 4096, 4097, 65535, 65536, 65537)
				n := sizes[c.Choose(len(sizes))]
				kind := c.Choose(3)
				var sels []Sel
				for i := 0; i < n; i++ {
					s := withArgs(fld([]string{"num", "str", "num2", "color"}[i%4]), i).as(fmt.Sprintf("f%d", i))
					sels = append(sels, s)
				}
				switch kind {
				case 1:
					if n > 600 {
						return nil
					}
					sub := []Sel{}
					for i := 0; i < n; i++ {
						sub = append(sub, fld([]string{"n", "name"}[i%2]).as(fmt.Sprintf("f%d", i)))
					}
					sels = []Sel{fld("list", sub...), fld("str")}
				case 2:
					sels = []Sel{inline("Q1", sels...), fld("str")}
				}
				return docCase(query(sels...), "", "", 0)
			},
		},
	})
}
