package main

// A schema with a resolver per input type. The model is derived from the go types.

import (
	"errors"
	"mime/multipart"
	"reflect"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// In1 is an input object
type In1 struct {
	I  int
	S  *string
	L  []int
	O  *In2
	E  Color
	T  time.Time
	B  bool
	F  float64
	ID string `gq:"key,ID"`
	U8 uint8  `gq:"u8"`
	No string `gq:"-"`
}

// In2 is a recursive input object
type In2 struct {
	X int
	R *In2
	L []In2
	P []*In2
}

type argsT[T any] struct{ A, B T }
type argsID[T any] struct {
	A T `gq:"a,ID"`
	B T `gq:"b, id"`
}

func echo[T any](name string) func(argsT[T]) string {
	return func(a argsT[T]) string { return echoLog(name, reflect.ValueOf(a)) }
}

func echoID[T any](name string) func(argsID[T]) string {
	return func(a argsID[T]) string { return echoLog(name, reflect.ValueOf(a)) }
}

func echoLog(name string, v reflect.Value) string {
	l := callLog("Q2."+name, map[string]string{"a": dump(v.Field(0)), "b": dump(v.Field(1))})
	calls = append(calls, l)
	retainValue("Q2."+name, v)
	return l
}

type inline1 = struct {
	X int
	Y *struct{ Z []string }
}

// Q2 is the query root
type Q2 struct {
	I8     func(argsT[int8]) string                    `gq:"i8"`
	I16    func(argsT[int16]) string                   `gq:"i16"`
	I32    func(argsT[int32]) string                   `gq:"i32"`
	I64    func(argsT[int64]) string                   `gq:"i64"`
	Int    func(argsT[int]) string                     `gq:"int"`
	U8     func(argsT[uint8]) string                   `gq:"u8"`
	U16    func(argsT[uint16]) string                  `gq:"u16"`
	U32    func(argsT[uint32]) string                  `gq:"u32"`
	U64    func(argsT[uint64]) string                  `gq:"u64"`
	Uint   func(argsT[uint]) string                    `gq:"uint"`
	F32    func(argsT[float32]) string                 `gq:"f32"`
	F64    func(argsT[float64]) string                 `gq:"f64"`
	Str    func(argsT[string]) string                  `gq:"str"`
	Bool   func(argsT[bool]) string                    `gq:"bool"`
	Color  func(argsT[Color]) string                   `gq:"color"`
	Size   func(argsT[Size]) string                    `gq:"size"`
	Level  func(argsT[Level]) string                   `gq:"level"`
	Time   func(argsT[time.Time]) string               `gq:"time"`
	File   func(argsT[*multipart.FileHeader]) string   `gq:"file"`
	PInt   func(argsT[*int]) string                    `gq:"pInt"`
	PPStr  func(argsT[**string]) string                `gq:"ppStr"`
	PBool  func(argsT[*bool]) string                   `gq:"pBool"`
	PColor func(argsT[*Color]) string                  `gq:"pColor"`
	PTime  func(argsT[*time.Time]) string              `gq:"pTime"`
	PF64   func(argsT[*float64]) string                `gq:"pF64"`
	LInt   func(argsT[[]int]) string                   `gq:"lInt"`
	LpStr  func(argsT[[]*string]) string               `gq:"lpStr"`
	LLInt  func(argsT[[][]int]) string                 `gq:"llInt"`
	PlBool func(argsT[*[]bool]) string                 `gq:"plBool"`
	LColor func(argsT[[]Color]) string                 `gq:"lColor"`
	LTime  func(argsT[[]time.Time]) string             `gq:"lTime"`
	LF32   func(argsT[[]float32]) string               `gq:"lF32"`
	LFile  func(argsT[[]*multipart.FileHeader]) string `gq:"lFile"`
	IDStr  func(argsID[string]) string                 `gq:"idStr"`
	IDInt  func(argsID[int]) string                    `gq:"idInt"`
	IDI8   func(argsID[int8]) string                   `gq:"idI8"`
	IDU16  func(argsID[uint16]) string                 `gq:"idU16"`
	IDU64  func(argsID[uint64]) string                 `gq:"idU64"`
	PIDInt func(argsID[*int]) string                   `gq:"pIdInt"`
	In1    func(argsT[In1]) string                     `gq:"in1"`
	PIn1   func(argsT[*In1]) string                    `gq:"pIn1"`
	LIn1   func(argsT[[]In1]) string                   `gq:"lIn1"`
	In2    func(argsT[In2]) string                     `gq:"in2"`
	LpIn2  func(argsT[[]*In2]) string                  `gq:"lpIn2"`
	Inl    func(argsT[inline1]) string                 `gq:"inl"`
}

// M2 is empty
type M2 struct{}

func dataQ2() Q2 {
	return Q2{
		I8: echo[int8]("i8"), I16: echo[int16]("i16"), I32: echo[int32]("i32"), I64: echo[int64]("i64"), Int: echo[int]("int"),
		U8: echo[uint8]("u8"), U16: echo[uint16]("u16"), U32: echo[uint32]("u32"), U64: echo[uint64]("u64"), Uint: echo[uint]("uint"),
		F32: echo[float32]("f32"), F64: echo[float64]("f64"), Str: echo[string]("str"), Bool: echo[bool]("bool"),
		Color: echo[Color]("color"), Size: echo[Size]("size"), Level: echo[Level]("level"), Time: echo[time.Time]("time"),
		File: echo[*multipart.FileHeader]("file"),
		PInt: echo[*int]("pInt"), PPStr: echo[**string]("ppStr"), PBool: echo[*bool]("pBool"), PColor: echo[*Color]("pColor"),
		PTime: echo[*time.Time]("pTime"), PF64: echo[*float64]("pF64"),
		LInt: echo[[]int]("lInt"), LpStr: echo[[]*string]("lpStr"), LLInt: echo[[][]int]("llInt"), PlBool: echo[*[]bool]("plBool"),
		LColor: echo[[]Color]("lColor"), LTime: echo[[]time.Time]("lTime"), LF32: echo[[]float32]("lF32"), LFile: echo[[]*multipart.FileHeader]("lFile"),
		IDStr: echoID[string]("idStr"), IDInt: echoID[int]("idInt"), IDI8: echoID[int8]("idI8"), IDU16: echoID[uint16]("idU16"),
		IDU64: echoID[uint64]("idU64"), PIDInt: echoID[*int]("pIdInt"),
		In1: echo[In1]("in1"), PIn1: echo[*In1]("pIn1"), LIn1: echo[[]In1]("lIn1"), In2: echo[In2]("in2"), LpIn2: echo[[]*In2]("lpIn2"),
		Inl: echo[inline1]("inl"),
	}
}

var inTypes = map[reflect.Type]*InT{}

func enumDumps[T comparable](m map[string]T) map[string]string {
	res := map[string]string{}
	for k, v := range m {
		res[k] = dump(reflect.ValueOf(v))
	}
	return res
}

// qlName is the expected name of a go field: the first letter is lowercased unless the second one is not a lowercase letter
func qlName(s string) string {
	if len(s) > 1 && !(s[1] >= 'a' && s[1] <= 'z') {
		return s
	}
	return strings.ToLower(s[:1]) + s[1:]
}

// inTOf derives the model of an input type
func inTOf(t reflect.Type, id bool) *InT {
	if e := inTypesEnum[t]; e != nil {
		return e
	}
	switch t {
	case reflect.TypeOf(Color(0)):
		return &InT{K: "enum", Name: "Color", Enum: enumDumps(colorMap), Zero: "0"}
	case reflect.TypeOf(Size("")):
		return &InT{K: "enum", Name: "Size", Enum: enumDumps(sizeMap), Zero: `""`}
	case reflect.TypeOf(Level(0)):
		return &InT{K: "enum", Name: "Level", Enum: enumDumps(levelMap), Zero: "0"}
	case reflect.TypeOf(time.Time{}):
		return &InT{K: "time"}
	case reflect.TypeOf(&multipart.FileHeader{}):
		return &InT{K: "file"}
	}
	switch t.Kind() {
	case reflect.Ptr:
		return &InT{K: "ptr", Elem: inTOf(t.Elem(), id)}
	case reflect.Slice:
		return &InT{K: "list", Elem: inTOf(t.Elem(), false)}
	case reflect.Struct:
		if r := inTypes[t]; r != nil {
			return r
		}
		r := &InT{K: "obj", Name: t.Name()}
		inTypes[t] = r
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			name, fid, skip := parseTag(f)
			if skip || f.PkgPath != "" || f.Anonymous {
				// still part of the dump
				r.Fields = append(r.Fields, InField{Name: "", GoName: f.Name, T: ignoredT(f.Type)})
				continue
			}
			r.Fields = append(r.Fields, InField{Name: name, GoName: f.Name, T: inTOf(f.Type, fid)})
		}
		return r
	}
	if id {
		return &InT{K: "id:" + t.Kind().String()}
	}
	return &InT{K: t.Kind().String()}
}

// ignoredT is for fields that are only part of the dump of a value
func ignoredT(t reflect.Type) *InT {
	switch {
	case t == timeType || t.Kind() == reflect.Struct && t.NumField() == 0:
		return inTOf(t, false)
	case t.Kind() == reflect.Struct:
		r := &InT{K: "obj"}
		for i := 0; i < t.NumField(); i++ {
			r.Fields = append(r.Fields, InField{GoName: t.Field(i).Name, T: ignoredT(t.Field(i).Type)})
		}
		return r
	case t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice:
		return &InT{K: "ptr"}
	}
	return inTOf(t, false)
}

func parseTag(f reflect.StructField) (name string, id, skip bool) {
	name = qlName(f.Name)
	parts := strings.Split(f.Tag.Get("gq"), ",")
	n := strings.TrimSpace(parts[0])
	if n == "-" {
		return "", false, true
	}
	if n != "" {
		name = n
	}
	for _, p := range parts[1:] {
		if strings.EqualFold(strings.TrimSpace(p), "id") {
			id = true
		}
	}
	return
}

type inEntry struct {
	name string
	t    *InT
}

var inEntries []inEntry
var world2Q *MObj
var world2Schema *yarql.Schema

func newWorld2Schema() *yarql.Schema {
	s := yarql.NewSchema()
	must1(s.RegisterEnum(colorMap))
	must1(s.RegisterEnum(sizeMap))
	must1(s.RegisterEnum(levelMap))
	must(s.Parse(dataQ2(), M2{}, nil))
	return s
}

// world2Ready orders the package initialisation
var world2Ready = initWorld2()

func initWorld2() bool {
	t := reflect.TypeOf(Q2{})
	mt := &MType{Name: "Q2", Fields: map[string]*MField{}}
	world2Q = &MObj{T: mt, F: map[string]any{}}
	for i := 0; i < t.NumField(); i++ {
		name, _, _ := parseTag(t.Field(i))
		a := t.Field(i).Type.In(0)
		_, id, _ := parseTag(a.Field(0))
		in := inTOf(a.Field(0).Type, id)
		inEntries = append(inEntries, inEntry{name, in})
		mt.Fields[name] = mm(name, map[string]*InT{"a": in, "b": in})
		world2Q.F[name] = func(c *Call) any { return lstr(callLog("Q2."+name, c.Args)) }
	}
	return true
}

func world2() *yarql.Schema {
	if world2Schema == nil {
		world2Schema = newWorld2Schema()
	}
	return world2Schema
}

var errNoFile = errors.New("no such file")

// formFile is the file lookup of the requests
func formFile(key string) (*multipart.FileHeader, error) {
	if strings.HasPrefix(key, "file") {
		return &multipart.FileHeader{Filename: key}, nil
	}
	if key == "none" || key == "other" {
		return &multipart.FileHeader{Filename: "not to be used"}, errNoFile
	}
	return nil, errNoFile
}

func doc2Case(d *Doc, vars string) *Case {
	return &Case{DescF: func() string {
		desc := d.String()
		if vars != "" {
			desc += "  variables=" + vars
		}
		return desc
	}, Run: func() Result {
		text := d.String()
		ref := refExec(RefReq{Doc: d, Variables: vars, Query: world2Q, Mutation: &MObj{T: &MType{Name: "M2"}}, Directives: newScalarDirs(), Files: true})
		r := run(world2(), text, yarql.ResolveOptions{Variables: vars, GetFormFile: formFile})
		return Result{Fail: compare(ref, r), Outcome: r.Raw, Steps: 1, Skip: ref.DontCare}
	}}
}

// validLit is a literal of the type
func validLit(t *InT) Val {
	switch {
	case t.K == "ptr":
		return validLit(t.Elem)
	case t.K == "bool":
		return vBool(true)
	case t.K == "string" || t.K == "id:string":
		return vStr("va\"l")
	case t.K == "enum":
		for _, k := range []string{"GREEN", "LARGE", "HIGH"} {
			if _, ok := t.Enum[k]; ok {
				return vEnum(k)
			}
		}
	case t.K == "time":
		return vStr("2020-02-29T23:59:58.120Z")
	case t.K == "file":
		return vStr("file1")
	case t.K == "list":
		return vList(validLit(t.Elem), validLit(t.Elem))
	case t.K == "obj":
		switch t.Name {
		case "In1":
			return vObj(Arg{"i", vInt("3")}, Arg{"s", vStr("x")}, Arg{"o", vObj(Arg{"x", vInt("4")}, Arg{"l", vList(vObj())})}, Arg{"l", vList(vInt("1"))},
				Arg{"e", vEnum("RED")}, Arg{"t", vStr("1999-12-31T00:00:00.000Z")}, Arg{"b", vBool(true)})
		case "In2":
			return vObj(Arg{"x", vInt("4")})
		}
		return vObj()
	case strings.HasPrefix(t.K, "float"):
		return vFloat("-2.5e-1")
	}
	return vInt("42")
}
