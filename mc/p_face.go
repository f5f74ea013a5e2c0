package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql"
	"verif/mc/other"
)

// G04: interface fields answer with the type that is really there

type ifBase interface {
	ResolveLabel() string
	ResolveNum(args struct{ N *int }) (int, error)
	ResolveNext() If14
}

type (
	// If0 has the implementations A
	If0 interface{ ifBase }
	// If1 has the implementations B
	If1 interface{ ifBase }
	// If2 has the implementations C
	If2 interface{ ifBase }
	// If3 has the implementations A B
	If3 interface{ ifBase }
	// If4 has the implementations A C
	If4 interface{ ifBase }
	// If5 has the implementations B A
	If5 interface{ ifBase }
	// If6 has the implementations B C
	If6 interface{ ifBase }
	// If7 has the implementations C A
	If7 interface{ ifBase }
	// If8 has the implementations C B
	If8 interface{ ifBase }
	// If9 has the implementations A B C
	If9 interface{ ifBase }
	// If10 has the implementations A C B
	If10 interface{ ifBase }
	// If11 has the implementations B A C
	If11 interface{ ifBase }
	// If12 has the implementations B C A
	If12 interface{ ifBase }
	// If13 has the implementations C A B
	If13 interface{ ifBase }
	// If14 has the implementations C B A
	If14 interface{ ifBase }
	// If15 has the implementations A A B
	If15 interface{ ifBase }
	// If16 has the implementations A B A
	If16 interface{ ifBase }
	// If17 has the implementations C B C A
	If17 interface{ ifBase }
	// IfMore has one more method and not all implementations
	IfMore interface {
		If9
		ResolveZmore() string
	}
	// IfSole has one implementation
	IfSole interface{ ResolveZmore() string }
	// IfNone has no implementations
	IfNone interface{ ifBase }
	// IfLate gets its implementations later
	IfLate interface{ ResolveLate() string }
)

// IfA is an implementation
type IfA struct {
	A    int
	Same string
	Kids []If9
}

// IfB is an implementation with another name and its own methods
type IfB struct {
	B    string
	Same int
	One  If1
}

// IfC is an implementation that is used as an object too
type IfC struct {
	C    *IfC
	Same []If2
}

// IfU is no implementation although it has the methods
type IfU struct{ A int }

// IfInt has the methods too
type IfInt int

// IfMap has the methods too
type IfMap map[string]int

// IfP has the methods on its pointer
type IfP struct{ A int }

// LateA and LateB are implementations of IfLate
type LateA struct{ A int }

// LateB is like LateA
type LateB struct{ B int }

// ResolveLate is part of IfLate
func (LateA) ResolveLate() string { return "a" }

// ResolveLate is part of IfLate
func (LateB) ResolveLate() string { return "b" }

// IfEmb has the methods of IfA
type IfEmb struct {
	IfA
	A string
}

func faceNum(t string, n *int) (int, error) {
	calls = append(calls, callLog("num", map[string]string{"n": dump(reflect.ValueOf(n))}))
	return 1, nil
}

// ResolveLabel is part of the interfaces
func (IfA) ResolveLabel() string { return "a" }

// ResolveNum is part of the interfaces
func (IfA) ResolveNum(args struct{ N *int }) (int, error) { return faceNum("a", args.N) }

// ResolveNext is part of the interfaces
func (IfA) ResolveNext() If14 { return &IfB{B: "next"} }

// ResolveLabel is part of the interfaces
func (IfB) ResolveLabel() string { return "b" }

// ResolveNum is part of the interfaces
func (IfB) ResolveNum(args struct{ N *int }) (int, error) { return faceNum("b", args.N) }

// ResolveNext is part of the interfaces
func (IfB) ResolveNext() If14 { return IfC{} }

// ResolveLabel is part of the interfaces
func (IfC) ResolveLabel() string { return "c" }

// ResolveNum is part of the interfaces
func (IfC) ResolveNum(args struct{ N *int }) (int, error) { return faceNum("c", args.N) }

// ResolveNext is part of the interfaces
func (IfC) ResolveNext() If14 { return nil }

// ResolveLabel is part of the interfaces
func (IfU) ResolveLabel() string { return "u" }

// ResolveNum is part of the interfaces
func (IfU) ResolveNum(args struct{ N *int }) (int, error) { return faceNum("u", args.N) }

// ResolveNext is part of the interfaces
func (IfU) ResolveNext() If14 { return nil }

// ResolveLabel is part of the interfaces
func (IfInt) ResolveLabel() string { return "int" }

// ResolveNum is part of the interfaces
func (IfInt) ResolveNum(args struct{ N *int }) (int, error) { return faceNum("int", args.N) }

// ResolveNext is part of the interfaces
func (IfInt) ResolveNext() If14 { return nil }

// ResolveLabel is part of the interfaces
func (IfMap) ResolveLabel() string { return "map" }

// ResolveNum is part of the interfaces
func (IfMap) ResolveNum(args struct{ N *int }) (int, error) { return faceNum("map", args.N) }

// ResolveNext is part of the interfaces
func (IfMap) ResolveNext() If14 { return nil }

// ResolveLabel is part of the interfaces
func (*IfP) ResolveLabel() string { return "p" }

// ResolveNum is part of the interfaces
func (*IfP) ResolveNum(args struct{ N *int }) (int, error) { return faceNum("p", args.N) }

// ResolveNext is part of the interfaces
func (*IfP) ResolveNext() If14 { return nil }

// ResolveAa is only a method of IfB
func (IfB) ResolveAa() string { return "aa of b" }

// ResolveZmore is part of IfMore
func (IfB) ResolveZmore() string { return "more of b" }

// ResolveZmore is part of IfMore
func (IfC) ResolveZmore() string { return "more of c" }

// ResolveMine is only a method of IfC
func (IfC) ResolveMine() *IfC { return &IfC{} }

func init() {
	for _, t := range []reflect.Type{tOf[IfA](), tOf[IfB](), tOf[IfC](), tOf[IfU](), tOf[IfEmb](), tOf[IfP]()} {
		loggedTypes[t] = true
	}
}

var _ = []bool{
	yarql.Implements((*If0)(nil), IfA{}),
	yarql.Implements((*If1)(nil), IfB{}),
	yarql.Implements((*If2)(nil), IfC{}),
	yarql.Implements((*If3)(nil), IfA{}),
	yarql.Implements((*If3)(nil), IfB{}),
	yarql.Implements((*If4)(nil), IfA{}),
	yarql.Implements((*If4)(nil), IfC{}),
	yarql.Implements((*If5)(nil), IfB{}),
	yarql.Implements((*If5)(nil), IfA{}),
	yarql.Implements((*If6)(nil), IfB{}),
	yarql.Implements((*If6)(nil), IfC{}),
	yarql.Implements((*If7)(nil), IfC{}),
	yarql.Implements((*If7)(nil), IfA{}),
	yarql.Implements((*If8)(nil), IfC{}),
	yarql.Implements((*If8)(nil), IfB{}),
	yarql.Implements((*If9)(nil), IfA{}),
	yarql.Implements((*If9)(nil), IfB{}),
	yarql.Implements((*If9)(nil), IfC{}),
	yarql.Implements((*If10)(nil), IfA{}),
	yarql.Implements((*If10)(nil), IfC{}),
	yarql.Implements((*If10)(nil), IfB{}),
	yarql.Implements((*If11)(nil), IfB{}),
	yarql.Implements((*If11)(nil), IfA{}),
	yarql.Implements((*If11)(nil), IfC{}),
	yarql.Implements((*If12)(nil), IfB{}),
	yarql.Implements((*If12)(nil), IfC{}),
	yarql.Implements((*If12)(nil), IfA{}),
	yarql.Implements((*If13)(nil), IfC{}),
	yarql.Implements((*If13)(nil), IfA{}),
	yarql.Implements((*If13)(nil), IfB{}),
	yarql.Implements((*If14)(nil), IfC{}),
	yarql.Implements((*If14)(nil), IfB{}),
	yarql.Implements((*If14)(nil), IfA{}),
	yarql.Implements((*If15)(nil), IfA{}),
	yarql.Implements((*If15)(nil), IfA{}),
	yarql.Implements((*If15)(nil), IfB{}),
	yarql.Implements((*If16)(nil), IfA{}),
	yarql.Implements((*If16)(nil), IfB{}),
	yarql.Implements((*If16)(nil), IfA{}),
	yarql.Implements((*If17)(nil), IfC{}),
	yarql.Implements((*If17)(nil), IfB{}),
	yarql.Implements((*If17)(nil), IfC{}),
	yarql.Implements((*If17)(nil), IfA{}),
	yarql.Implements((*IfMore)(nil), IfC{}),
	yarql.Implements((*IfMore)(nil), IfB{}),
	yarql.Implements((*IfSole)(nil), IfC{}),
}

var faceList = []reflect.Type{tOf[If0](), tOf[If1](), tOf[If2](), tOf[If3](), tOf[If4](), tOf[If5](), tOf[If6](), tOf[If7](), tOf[If8](), tOf[If9](), tOf[If10](), tOf[If11](), tOf[If12](), tOf[If13](), tOf[If14](), tOf[If15](), tOf[If16](), tOf[If17](), tOf[IfMore](), tOf[IfSole]()}

// faceRegs are the registrations in their order
var faceRegs = []string{"A", "B", "C", "AB", "AC", "BA", "BC", "CA", "CB", "ABC", "ACB", "BAC", "BCA", "CAB", "CBA", "AAB", "ABA", "CBCA"}

func init() {
	s := map[byte]reflect.Type{'A': tOf[IfA](), 'B': tOf[IfB](), 'C': tOf[IfC]()}
	for i, r := range faceRegs {
		seen := map[byte]bool{}
		for k := 0; k < len(r); k++ {
			if !seen[r[k]] {
				worldImpls[faceList[i]] = append(worldImpls[faceList[i]], s[r[k]])
			}
			seen[r[k]] = true
		}
	}
	worldImpls[tOf[IfMore]()] = []reflect.Type{tOf[IfC](), tOf[IfB]()}
	worldImpls[tOf[IfSole]()] = []reflect.Type{tOf[IfC]()}
	renames[tOf[IfB]()] = "IfB_renamed"
}

var _ = yarql.TypeRename(IfB{}, "IfB_renamed")

// faceNow is the value that functions return
var faceNow any

// IfMeth returns it from methods
type IfMeth struct{ X int }

func (IfMeth) ResolveI0() If0              { v, _ := faceNow.(If0); return v }
func (IfMeth) ResolveE0() (error, []If0)   { v, _ := faceNow.(If0); return nil, []If0{v, nil, v} }
func (IfMeth) ResolveI1() If1              { v, _ := faceNow.(If1); return v }
func (IfMeth) ResolveE1() (error, []If1)   { v, _ := faceNow.(If1); return nil, []If1{v, nil, v} }
func (IfMeth) ResolveI2() If2              { v, _ := faceNow.(If2); return v }
func (IfMeth) ResolveE2() (error, []If2)   { v, _ := faceNow.(If2); return nil, []If2{v, nil, v} }
func (IfMeth) ResolveI3() If3              { v, _ := faceNow.(If3); return v }
func (IfMeth) ResolveE3() (error, []If3)   { v, _ := faceNow.(If3); return nil, []If3{v, nil, v} }
func (IfMeth) ResolveI4() If4              { v, _ := faceNow.(If4); return v }
func (IfMeth) ResolveE4() (error, []If4)   { v, _ := faceNow.(If4); return nil, []If4{v, nil, v} }
func (IfMeth) ResolveI5() If5              { v, _ := faceNow.(If5); return v }
func (IfMeth) ResolveE5() (error, []If5)   { v, _ := faceNow.(If5); return nil, []If5{v, nil, v} }
func (IfMeth) ResolveI6() If6              { v, _ := faceNow.(If6); return v }
func (IfMeth) ResolveE6() (error, []If6)   { v, _ := faceNow.(If6); return nil, []If6{v, nil, v} }
func (IfMeth) ResolveI7() If7              { v, _ := faceNow.(If7); return v }
func (IfMeth) ResolveE7() (error, []If7)   { v, _ := faceNow.(If7); return nil, []If7{v, nil, v} }
func (IfMeth) ResolveI8() If8              { v, _ := faceNow.(If8); return v }
func (IfMeth) ResolveE8() (error, []If8)   { v, _ := faceNow.(If8); return nil, []If8{v, nil, v} }
func (IfMeth) ResolveI9() If9              { v, _ := faceNow.(If9); return v }
func (IfMeth) ResolveE9() (error, []If9)   { v, _ := faceNow.(If9); return nil, []If9{v, nil, v} }
func (IfMeth) ResolveI10() If10            { v, _ := faceNow.(If10); return v }
func (IfMeth) ResolveE10() (error, []If10) { v, _ := faceNow.(If10); return nil, []If10{v, nil, v} }
func (IfMeth) ResolveI11() If11            { v, _ := faceNow.(If11); return v }
func (IfMeth) ResolveE11() (error, []If11) { v, _ := faceNow.(If11); return nil, []If11{v, nil, v} }
func (IfMeth) ResolveI12() If12            { v, _ := faceNow.(If12); return v }
func (IfMeth) ResolveE12() (error, []If12) { v, _ := faceNow.(If12); return nil, []If12{v, nil, v} }
func (IfMeth) ResolveI13() If13            { v, _ := faceNow.(If13); return v }
func (IfMeth) ResolveE13() (error, []If13) { v, _ := faceNow.(If13); return nil, []If13{v, nil, v} }
func (IfMeth) ResolveI14() If14            { v, _ := faceNow.(If14); return v }
func (IfMeth) ResolveE14() (error, []If14) { v, _ := faceNow.(If14); return nil, []If14{v, nil, v} }
func (IfMeth) ResolveI15() If15            { v, _ := faceNow.(If15); return v }
func (IfMeth) ResolveE15() (error, []If15) { v, _ := faceNow.(If15); return nil, []If15{v, nil, v} }
func (IfMeth) ResolveI16() If16            { v, _ := faceNow.(If16); return v }
func (IfMeth) ResolveE16() (error, []If16) { v, _ := faceNow.(If16); return nil, []If16{v, nil, v} }
func (IfMeth) ResolveI17() If17            { v, _ := faceNow.(If17); return v }
func (IfMeth) ResolveE17() (error, []If17) { v, _ := faceNow.(If17); return nil, []If17{v, nil, v} }

var faceFuncs = map[reflect.Type]func() any{
	tOf[If0]():    func() any { return func() If0 { v, _ := faceNow.(If0); return v } },
	tOf[If1]():    func() any { return func() If1 { v, _ := faceNow.(If1); return v } },
	tOf[If2]():    func() any { return func() If2 { v, _ := faceNow.(If2); return v } },
	tOf[If3]():    func() any { return func() If3 { v, _ := faceNow.(If3); return v } },
	tOf[If4]():    func() any { return func() If4 { v, _ := faceNow.(If4); return v } },
	tOf[If5]():    func() any { return func() If5 { v, _ := faceNow.(If5); return v } },
	tOf[If6]():    func() any { return func() If6 { v, _ := faceNow.(If6); return v } },
	tOf[If7]():    func() any { return func() If7 { v, _ := faceNow.(If7); return v } },
	tOf[If8]():    func() any { return func() If8 { v, _ := faceNow.(If8); return v } },
	tOf[If9]():    func() any { return func() If9 { v, _ := faceNow.(If9); return v } },
	tOf[If10]():   func() any { return func() If10 { v, _ := faceNow.(If10); return v } },
	tOf[If11]():   func() any { return func() If11 { v, _ := faceNow.(If11); return v } },
	tOf[If12]():   func() any { return func() If12 { v, _ := faceNow.(If12); return v } },
	tOf[If13]():   func() any { return func() If13 { v, _ := faceNow.(If13); return v } },
	tOf[If14]():   func() any { return func() If14 { v, _ := faceNow.(If14); return v } },
	tOf[If15]():   func() any { return func() If15 { v, _ := faceNow.(If15); return v } },
	tOf[If16]():   func() any { return func() If16 { v, _ := faceNow.(If16); return v } },
	tOf[If17]():   func() any { return func() If17 { v, _ := faceNow.(If17); return v } },
	tOf[IfMore](): func() any { return func() IfMore { v, _ := faceNow.(IfMore); return v } },
	tOf[IfSole](): func() any { return func() IfSole { v, _ := faceNow.(IfSole); return v } },
}

type (
	faceAlias = IfA
	faceBlias = IfB
)

// localIfs are values of types that are called like implementations and have the methods
func localIfs() [3]any {
	type IfA struct {
		A string
		faceAlias
	}
	type IfB struct {
		faceBlias
		X int
	}
	type IfB_renamed struct{ faceBlias }
	return [3]any{IfA{A: "local"}, &IfB{X: 1}, IfB_renamed{}}
}

// faceVals are the values behind an interface
func faceVals() []any {
	a := IfA{A: 1, Same: "s", Kids: []If9{&IfA{A: 2}, nil, IfB{B: "kid", One: IfA{A: 3}}, (*IfC)(nil), IfU{}}}
	b := IfB{B: "b", Same: 7, One: &IfA{A: 4}}
	cc := IfC{C: &IfC{Same: []If2{IfC{}, IfA{}}}, Same: []If2{IfC{}, &IfC{}}}
	return []any{a, b, cc, &a, &b, &cc, nil, (*IfA)(nil), (*IfB)(nil), IfU{A: 1}, &IfU{A: 1}, IfInt(3), IfMap{"x": 1}, IfMap(nil), &IfP{A: 1}, (*IfP)(nil), IfEmb{a, "x"}, &IfEmb{a, "x"}, IfA{}, &IfB{}, other.IfA{A: "o"}, (*IfU)(nil), localIfs()[0], localIfs()[1], localIfs()[2]}
}

var facePlaces = []string{"V", "P", "PP", "L", "LP", "LL", "F", "MI", "ME", "Arr"}

type faceWorld struct {
	s     *yarql.Schema
	box   reflect.Value // pointer to the struct with all fields
	root  reflect.Type
	model *MObj
	cmp   *schemaCmp
	fail  string
}

var faceW *faceWorld

func getFaceWorld() *faceWorld {
	if faceW != nil {
		return faceW
	}
	w := &faceWorld{s: yarql.NewSchema(), cmp: &schemaCmp{env: schemaEnv()}}
	faceW = w
	fs := []reflect.StructField{mkField("Obj", "", tOf[*IfC]()), mkField("Str", "", tOf[string]()), mkField("Meth", "", tOf[IfMeth]())}
	for i, t := range faceList {
		n := strconv.Itoa(i)
		fs = append(fs, mkField("V"+n, "", t), mkField("P"+n, "", reflect.PtrTo(t)), mkField("PP"+n, "", reflect.PtrTo(reflect.PtrTo(t))), mkField("L"+n, "", reflect.SliceOf(t)), mkField("LP"+n, "", reflect.SliceOf(reflect.PtrTo(t))),
			mkField("LL"+n, "", reflect.PtrTo(reflect.SliceOf(reflect.SliceOf(t)))), mkField("F"+n, "", reflect.FuncOf(nil, []reflect.Type{t}, false)), mkField("Arr"+n, "", reflect.ArrayOf(2, t)))
	}
	bt := reflect.StructOf(fs)
	w.box = reflect.New(bt)
	for i, t := range faceList {
		w.box.Elem().FieldByName("F" + strconv.Itoa(i)).Set(reflect.ValueOf(faceFuncs[t]()))
	}
	w.root = structOf(mkField("Box", "", reflect.PtrTo(bt)))
	r := reflect.New(w.root).Elem()
	r.Field(0).Set(w.box)
	must1(w.s.RegisterEnum(colorMap))
	must1(w.s.RegisterEnum(sizeMap))
	must1(w.s.RegisterEnum(levelMap))
	if err, pan := tryParse(w.s, r.Interface(), SMut{}); err != nil || pan != "" {
		w.fail = fmt.Sprintf("the schema is refused: %v %s", err, pan)
	}
	return w
}

// put sets a place of an interface to a value and returns the name of the field (and of the object around it), ok is false if the value is not possible
func (w *faceWorld) put(iface int, place string, v any) (obj, name string, model any, ok bool) {
	t := faceList[iface]
	if v != nil && !reflect.TypeOf(v).Implements(t) {
		return "", "", nil, false
	}
	val := reflect.New(t).Elem()
	if v != nil {
		val.Set(reflect.ValueOf(v))
	}
	ptr := func(v reflect.Value) reflect.Value {
		r := reflect.New(v.Type())
		r.Elem().Set(v)
		return r
	}
	n := strconv.Itoa(iface)
	switch place {
	case "MI", "ME":
		if iface >= len(faceRegs) {
			return "", "", nil, false
		}
		faceNow = v
		x := modelValue(w.cmp, val, false)
		if place == "MI" {
			return "meth", "I" + n, x, true
		}
		return "meth", "E" + n, []any{x, nil, x}, true
	}
	f := w.box.Elem().FieldByName(place + n)
	switch place {
	case "V":
		f.Set(val)
	case "P":
		f.Set(ptr(val))
	case "PP":
		f.Set(ptr(ptr(val)))
	case "L":
		f.Set(reflect.Append(reflect.MakeSlice(f.Type(), 0, 0), val, reflect.Zero(t), val))
	case "LP":
		f.Set(reflect.Append(reflect.MakeSlice(f.Type(), 0, 0), ptr(val), reflect.Zero(reflect.PtrTo(t)), ptr(reflect.Zero(t))))
	case "LL":
		l := reflect.Append(reflect.MakeSlice(reflect.SliceOf(t), 0, 0), val, reflect.Zero(t))
		f.Set(ptr(reflect.Append(reflect.MakeSlice(reflect.SliceOf(l.Type()), 0, 0), reflect.Zero(l.Type()), l, l.Slice(0, 0))))
	case "Arr":
		f.Index(0).Set(reflect.Zero(t))
		f.Index(1).Set(val)
	case "F":
		faceNow = v
		return "", qlName("F" + n), modelValue(w.cmp, val, false), true
	}
	return "", qlName(place + n), modelValue(w.cmp, f, false), true
}

// faceSels are selections on an interface
func faceSels() []Sel {
	num := fld("num").args(Arg{"n", vInt("5")})
	return []Sel{
		fld("__typename"), fld("label"), num.as("five"),
		inline("IfA", fld("a"), fld("same").as("sa"), fld("kids", fld("label").as("kl"), inline("IfB_renamed", fld("one", fld("__typename"))))),
		inline("IfB_renamed", fld("b"), fld("same").as("sb"), fld("aa"), fld("zmore"), fld("one", fld("__typename"), inline("IfA", fld("a")))),
		inline("IfC", fld("c", fld("same", fld("__typename"))), fld("same", fld("__typename")).as("sc"), fld("mine", fld("__typename"))),
		inline("If9", fld("label").as("l9")), inline("If0", fld("label").as("l0")), inline("IfMore", fld("zmore").as("zm")), inline("IfSole", fld("__typename").as("ts")),
		inline("IfU", fld("a").as("ua")), inline("IfB", fld("b").as("bb")), inline("Nope", fld("x")), inline("IfMeth", fld("x")),
		spread("FA"), spread("FI"), fld("next", fld("__typename"), inline("IfB_renamed", fld("b"))), fld("num"),
		inline("IfA", inline("If3", fld("label").as("l3")), inline("IfB_renamed", fld("b").as("no"))),
		fld("label").dir(Dir{"skip", []Arg{{"if", vBool(true)}}}), fld("nope"), inline("IfC", fld("nope")),
	}
}

func faceFrags() []any {
	return []any{frag("FA", "IfA", fld("a").as("fa"), inline("If2", fld("label").as("f2"))), frag("FI", "If5", fld("__typename").as("ft"), inline("IfC", fld("label").as("fc")))}
}

func faceCase(iface int, place string, vi int, sels []Sel) *Case {
	return &Case{DescF: func() string {
		return fmt.Sprintf("%s in %s of If%d(%s): %s", dumpAny(faceVals()[vi]), place, iface, worldImpls[faceList[iface]], query(sels...))
	}, Run: func() Result {
		w := getFaceWorld()
		if w.fail != "" {
			return Result{Fail: w.fail}
		}
		obj, name, model, ok := w.put(iface, place, faceVals()[vi])
		if !ok {
			return Result{Skip: true}
		}
		top := fld(name, sels...)
		mt := &MType{Name: "", Fields: map[string]*MField{name: {Name: name}, "str": {Name: "str"}}}
		m := &MObj{T: mt, F: map[string]any{name: model, "str": lstr("")}}
		if obj != "" {
			top = fld(obj, top)
			m = &MObj{T: &MType{Fields: map[string]*MField{obj: {Name: obj}, "str": {Name: "str"}}}, F: map[string]any{obj: m, "str": lstr("")}}
		}
		root := &MObj{T: &MType{Fields: map[string]*MField{"box": {Name: "box"}}}, F: map[string]any{"box": m}}
		d := query(fld("box", fld("str"), top, fld("str").as("end")))
		d.Defs = append(d.Defs, faceFrags()...)
		ref := refExec(RefReq{Doc: d, Query: root, Mutation: &MObj{T: &MType{Name: "SMut"}}, Directives: newScalarDirs()})
		r := run(w.s, d.String(), yarql.ResolveOptions{})
		return Result{Fail: compare(ref, r), Outcome: r.Raw, Steps: 1, Skip: ref.DontCare}
	}}
}

func dumpAny(v any) string {
	if v == nil {
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

func faceValues(c *Chooser, e *Env) *Case {
	sels := faceSels()
	iface := c.Choose(len(faceList))
	place := facePlaces[c.Choose(len(facePlaces))]
	v := c.Choose(len(faceVals()))
	n := 1 + c.Choose(2)
	if n == 2 && !e.Thorough && (place != "V" && place != "LL" && place != "MI" || iface%4 != 3) {
		n = 1
		if place != "V" {
			return faceCase(iface, place, v, []Sel{fld("__typename").as("t0"), fld("label").as("x0"), sels[3], sels[4], sels[5]})
		}
	}
	l := []Sel{fld("__typename").as("t0")}
	for i := 0; i < n; i++ {
		l = append(l, sels[c.Choose(len(sels))])
	}
	return faceCase(iface, place, v, l)
}

// faceSchemas are schemas with some of the types in some order
func faceSchemas(c *Chooser, e *Env) *Case {
	pool := append(append([]reflect.Type{}, faceList...), tOf[IfA](), tOf[IfB](), tOf[IfC](), tOf[IfMeth](), tOf[IfNone](), tOf[IfU](), tOf[*IfP](), tOf[IfEmb](), tOf[IfInt](), tOf[IfMap]())
	n := 1 + c.Choose(2)
	if e.Thorough {
		n = 1 + c.Choose(3)
	}
	ps, how := []int{}, []int{}
	for i := 0; i < n; i++ {
		ps = append(ps, c.Choose(len(pool)))
		h := 0
		if n < 3 {
			h = c.Choose(3)
		}
		how = append(how, h)
	}
	mk := func() reflect.Type {
		fs := []reflect.StructField{}
		for i, p := range ps {
			t := pool[p]
			switch how[i] {
			case 1:
				t = reflect.SliceOf(reflect.PtrTo(t))
			case 2:
				t = reflect.FuncOf(nil, []reflect.Type{t, errType}, false)
			}
			fs = append(fs, mkField(string(rune('A'+i)), "", t))
		}
		return structOf(fs...)
	}
	return &Case{DescF: func() string { return "schema of " + mk().String() }, Run: func() Result { return checkSchemaDepth(mk(), 2) }}
}

// lateResult is what happened when an implementation was registered after the interface was used
func lateResult() string {
	type root struct{ F IfLate }
	s := yarql.NewSchema()
	if s.Parse(root{LateA{A: 1}}, SMut{}, nil) == nil {
		return "an interface without implementations is accepted"
	}
	ask := func(s *yarql.Schema) string {
		s.Resolve([]byte("{f{__typename late}}"), yarql.ResolveOptions{})
		return string(s.Result)
	}
	yarql.Implements((*IfLate)(nil), LateB{})
	sb := yarql.NewSchema()
	if err := sb.Parse(root{LateB{}}, SMut{}, nil); err != nil {
		return "refused after an implementation was registered: " + err.Error()
	}
	first := ask(sb)
	yarql.Implements((*IfLate)(nil), LateA{})
	sa := yarql.NewSchema()
	if err := sa.Parse(root{LateA{A: 1}}, SMut{}, nil); err != nil {
		return "refused after a second implementation was registered: " + err.Error()
	}
	if r := ask(sa); !strings.HasPrefix(r, `{"data":{"f":{"__typename":"LateA","late":"a"}}`) {
		return "an implementation that is registered later can't be used: " + r
	}
	if r := ask(sb); r != first || !strings.HasPrefix(r, `{"data":{"f":{"__typename":"LateB","late":"b"}}`) {
		return "a schema changes its answer when an implementation is registered later: " + r
	}
	return ""
}

var lateOnce *string

// implMisuse: what can't be registered panics and changes nothing
func implMisuse(c *Chooser, e *Env) *Case {
	type inl = struct{ A int }
	ifs := []any{nil, (*IfMore)(nil), IfA{}, &IfA{}, 5, "x", (*interface{})(nil), (*interface{ ResolveLabel() string })(nil), (**IfMore)(nil), (*error)(nil), []If0{}, func() {}}
	ts := []any{nil, IfA{}, &IfC{}, (*IfC)(nil), inl{}, 5, IfInt(1), IfMap{}, []IfC{}, IfP{}, &IfP{}, IfU{}, func() {}, reflect.TypeOf(IfC{}), other.IfA{}}
	i, t := c.Choose(len(ifs)), c.Choose(len(ts))
	if i == 1 && t == 11 {
		return nil
	}
	return &Case{DescF: func() string { return fmt.Sprintf("Implements(%T, %T)", ifs[i], ts[t]) }, Run: func() Result {
		res := Result{Steps: 1}
		pan := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					pan = fmt.Sprint(r)
				}
			}()
			yarql.Implements(ifs[i], ts[t])
		}()
		res.Outcome = pan
		if pan == "" {
			res.Fail = "nothing tells that this can't be registered"
			return res
		}
		if strings.Contains(pan, "runtime error") || strings.Contains(pan, "reflect:") {
			res.Fail = "panics without an explanation: " + pan
			return res
		}
		r := checkSchemaDepth(structOf(mkField("F", "", tOf[IfMore]()), mkField("G", "", tOf[If9]())), 2)
		r.Outcome += pan
		return r
	}}
}

func init() {
	register(&Property{
		ID: "G04",
		Bounds: map[string]string{
			"quick":    "20 interfaces with every order of registering up to 3 implementations (some twice) x 10 places of a field x 22 values behind it (implementations, pointers, nil, typed nil, other types with the methods) x 22 selections, for a quarter of the interfaces pairs of selections; schemas of up to 2 of 30 interfaces and types in every order and 3 kinds of fields; 179 wrong registrations; registrations after use",
			"thorough": "pairs of selections everywhere, schemas of up to 3 types",
		},
		Parts: []func(c *Chooser, e *Env) *Case{faceSchemas, implMisuse,
			func(c *Chooser, e *Env) *Case {
				return &Case{Desc: "registrations after use", Run: func() Result {
					if lateOnce == nil {
						r := lateResult()
						lateOnce = &r
					}
					return Result{Fail: *lateOnce, Steps: 1}
				}}
			},
			func(c *Chooser, e *Env) *Case {
				return &Case{Desc: "introspection of all interfaces", Run: func() Result {
					w := getFaceWorld()
					if w.fail != "" {
						return Result{Fail: w.fail}
					}
					is, m := introspect(w.s)
					if m == "" {
						m = compareSchema(is, w.root, reflect.TypeOf(SMut{}), w.cmp.env)
					}
					return Result{Fail: m, Steps: 1}
				}}
			},
			faceValues},
	})
}
