package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/mjarkk/yarql"
)

// Part of E01: every Go type that can be built from lists, arrays, pointers, objects and functions up
// to a depth, with every value of it (null, empty, one and two items), is answered with its value.

// shape is a Go type with the selection that reads all of it
type shape struct {
	t    reflect.Type
	kind byte // i: int, s: string, p: pointer, l: slice, a: array, o: object, f: object with a function
	elem *shape
}

func (s *shape) sel() (sub []Sel, has bool) {
	switch s.kind {
	case 'i', 's':
		return nil, false
	case 'o', 'f':
		inner, has := s.elem.sel()
		f := fld("f")
		f.Sub, f.HasSub = inner, has
		return []Sel{fld("a"), f, fld("z")}, true
	}
	return s.elem.sel()
}

func pickShape(c *Chooser, depth int) *shape {
	n := 2
	if depth > 0 {
		n = 7
	}
	switch c.Choose(n) {
	case 0:
		return &shape{t: reflect.TypeOf(0), kind: 'i'}
	case 1:
		return &shape{t: reflect.TypeOf(""), kind: 's'}
	case 2:
		e := pickShape(c, depth-1)
		return &shape{t: reflect.PtrTo(e.t), kind: 'p', elem: e}
	case 3:
		e := pickShape(c, depth-1)
		return &shape{t: reflect.SliceOf(e.t), kind: 'l', elem: e}
	case 4:
		e := pickShape(c, depth-1)
		return &shape{t: reflect.ArrayOf(2, e.t), kind: 'a', elem: e}
	case 5:
		e := pickShape(c, depth-1)
		return &shape{t: shapeStruct(e.t), kind: 'o', elem: e}
	default:
		e := pickShape(c, depth-1)
		return &shape{t: shapeStruct(reflect.FuncOf(nil, []reflect.Type{e.t}, false)), kind: 'f', elem: e}
	}
}

func shapeStruct(f reflect.Type) reflect.Type {
	return reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf("")}, {Name: "F", Type: f}, {Name: "Z", Type: reflect.TypeOf(0)},
	})
}

// pickValue chooses a value, lists is how many more lists may have two free items
func pickValue(c *Chooser, s *shape, lists int, count *int) (reflect.Value, string) {
	v := reflect.New(s.t).Elem()
	*count++
	nr := *count
	switch s.kind {
	case 'i':
		v.SetInt(int64(nr))
		return v, fmt.Sprint(nr)
	case 's':
		v.SetString(fmt.Sprintf("s%d", nr))
		return v, fmt.Sprintf(`"s%d"`, nr)
	case 'p':
		if c.Bool() {
			return v, "null"
		}
		e, exp := pickValue(c, s.elem, lists, count)
		v.Set(reflect.New(s.elem.t))
		v.Elem().Set(e)
		return v, exp
	case 'l':
		n := 4
		if lists <= 0 {
			n = 3
		}
		n = c.Choose(n)
		if n == 0 {
			return v, "null"
		}
		v.Set(reflect.MakeSlice(s.t, n-1, n))
		exp := []string{}
		for i := 0; i < n-1; i++ {
			e, x := pickValue(c, s.elem, lists-1, count)
			v.Index(i).Set(e)
			exp = append(exp, x)
		}
		return v, "[" + strings.Join(exp, ",") + "]"
	case 'a':
		e, x := pickValue(c, s.elem, lists, count)
		v.Index(0).Set(e)
		if lists > 0 {
			e, y := pickValue(c, s.elem, lists-1, count)
			v.Index(1).Set(e)
			return v, "[" + x + "," + y + "]"
		}
		v.Index(1).Set(e)
		return v, "[" + x + "," + x + "]"
	}
	v.Field(0).SetString("a")
	v.Field(2).SetInt(int64(nr))
	if s.kind == 'f' {
		if c.Bool() {
			return v, fmt.Sprintf(`{"a":"a","f":null,"z":%d}`, nr)
		}
		e, x := pickValue(c, s.elem, lists, count)
		v.Field(1).Set(reflect.MakeFunc(v.Field(1).Type(), func([]reflect.Value) []reflect.Value { return []reflect.Value{e} }))
		return v, fmt.Sprintf(`{"a":"a","f":%s,"z":%d}`, x, nr)
	}
	e, x := pickValue(c, s.elem, lists, count)
	v.Field(1).Set(e)
	return v, fmt.Sprintf(`{"a":"a","f":%s,"z":%d}`, x, nr)
}

func shapePart(c *Chooser, e *Env) *Case {
	depth := 4
	if e.Thorough {
		depth = 5
	}
	s := &shape{kind: 'o'}
	s.elem = pickShape(c, depth)
	s.t = shapeStruct(s.elem.t)
	count := 0
	lists := 2
	if e.Thorough {
		lists = 1
	}
	v, exp := pickValue(c, s, lists, &count)
	sel, _ := s.sel()
	return &Case{DescF: func() string {
		return fmt.Sprintf("query %s of a %s with the value %s", (&Doc{Defs: []any{&Op{Kind: "query", Sel: sel}}}).String(), s.t, exp)
	}, Run: func() Result {
		sc := yarql.NewSchema()
		if err := sc.Parse(v.Interface(), M1{}, nil); err != nil {
			return Result{Fail: "parse: " + err.Error(), Steps: 1}
		}
		r := run(sc, query(sel...).String(), optsNone)
		res := Result{Outcome: r.Raw, Steps: 2, Fail: r.Bad}
		if res.Fail == "" && (r.Data != exp || len(r.Errs) > 0) {
			res.Fail = fmt.Sprintf("expected the data %s, got %s", exp, clip(r.Raw, 1000))
		}
		return res
	}}
}
