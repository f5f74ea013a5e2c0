package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
	"verif/mc/other"
)

// G03: enum values map one to one between Go and GraphQL

type (
	enInt    int
	enInt8   int8
	enInt16  int16
	enInt32  int32
	enInt64  int64
	enUint   uint
	enUint8  uint8
	enUint16 uint16
	enUint32 uint32
	enUint64 uint64
	enString string
	enBool   bool
	enFloat  float64
	enStruct struct{ X int }
	enList   []int
	enPtr    *int
	enKey    string
	enFunc   func()
)

var enumTypes = []reflect.Type{tOf[enInt](), tOf[enInt8](), tOf[enInt16](), tOf[enInt32](), tOf[enInt64](), tOf[enUint](), tOf[enUint8](), tOf[enUint16](), tOf[enUint32](), tOf[enUint64](), tOf[enString]()}

// enumValues are values of a type that are easily mixed up
func enumValues(t reflect.Type) []reflect.Value {
	res := []reflect.Value{}
	add := func(set func(v reflect.Value)) {
		v := reflect.New(t).Elem()
		set(v)
		res = append(res, v)
	}
	switch {
	case t.Kind() == reflect.String:
		for _, s := range []string{"", "A", "AB", "a", "x \"y\"", "\xff"} {
			add(func(v reflect.Value) { v.SetString(s) })
		}
	case strings.HasPrefix(t.Kind().String(), "u"):
		bits := uint(t.Bits())
		for _, u := range []uint64{0, 1, 2, 1 << (bits - 1), 1<<(bits-1) + 1<<(bits-1) - 1, 1<<(bits-1) - 1} {
			add(func(v reflect.Value) { v.SetUint(u) })
		}
	default:
		bits := uint(t.Bits())
		for _, i := range []int64{0, 1, -1, -1 << (bits - 1), 1<<(bits-1) - 1, 2} {
			add(func(v reflect.Value) { v.SetInt(i) })
		}
	}
	return res
}

// enumWorld is a schema around one enum
type enumWorld struct {
	t     reflect.Type
	names map[string]int // name => index in vals
	vals  []reflect.Value
	s     *yarql.Schema
	root  reflect.Type
	in    *InT
	model *MObj
	fail  string
}

// enumEcho are the types of arguments with the enum
func enumEcho(t reflect.Type) []reflect.Type {
	if l := enumEchos[t]; l != nil {
		return l
	}
	p, l := reflect.PtrTo(t), reflect.SliceOf(t)
	obj := reflect.StructOf([]reflect.StructField{mkField("E", "", t), mkField("L", "", reflect.SliceOf(p))})
	enumEchos[t] = []reflect.Type{t, p, reflect.PtrTo(p), l, reflect.SliceOf(p), reflect.SliceOf(l), reflect.PtrTo(l), obj, reflect.SliceOf(reflect.PtrTo(obj))}
	return enumEchos[t]
}

var enumEchos = map[reflect.Type][]reflect.Type{}
var enumRoots = map[reflect.Type]reflect.Type{}
var enumFns = map[reflect.Type]reflect.Type{}

func newEnumWorld(t reflect.Type, names map[string]int) *enumWorld {
	w := &enumWorld{t: t, names: names, vals: enumValues(t), s: yarql.NewSchema()}
	m := reflect.MakeMap(reflect.MapOf(tOf[string](), t))
	keys := []string{}
	for k, i := range names {
		m.SetMapIndex(reflect.ValueOf(k), w.vals[i])
		keys = append(keys, k)
	}
	sort.Strings(keys)
	added, err := w.s.RegisterEnum(m.Interface())
	if err != nil || !added {
		w.fail = fmt.Sprintf("RegisterEnum refuses %v: added=%v %v", m, added, err)
		return w
	}
	in := &InT{K: "enum", Name: t.Name(), Enum: map[string]string{}, Zero: dump(reflect.Zero(t))}
	for k, i := range names {
		in.Enum[k] = dump(w.vals[i])
	}
	w.in = in

	// every value in every kind of field
	p, l := reflect.PtrTo(t), reflect.SliceOf(t)
	fs := []reflect.StructField{}
	type fill struct {
		set  func(v reflect.Value)
		want any
	}
	fills := map[string]fill{}
	name := func(v reflect.Value) any {
		res := []string{}
		for _, k := range keys {
			if w.vals[names[k]].Interface() == v.Interface() {
				res = append(res, k)
			}
		}
		if len(res) == 0 {
			return nil
		}
		return lstr(res[0])
	}
	ptr := func(v reflect.Value) reflect.Value {
		r := reflect.New(v.Type())
		r.Elem().Set(v)
		return r
	}
	all := []any{}
	for i, v := range w.vals {
		n := name(v)
		all = append(all, n)
		f := "V" + strconv.Itoa(i)
		fs = append(fs, mkField(f, "", t))
		fills[f] = fill{func(x reflect.Value) { x.Set(v) }, n}
		f = "P" + strconv.Itoa(i)
		fs = append(fs, mkField(f, "", reflect.PtrTo(p)))
		fills[f] = fill{func(x reflect.Value) { x.Set(ptr(ptr(v))) }, n}
		f = "F" + strconv.Itoa(i)
		ft := reflect.FuncOf(nil, []reflect.Type{t, errType}, false)
		fs = append(fs, mkField(f, "", ft))
		fills[f] = fill{func(x reflect.Value) {
			x.Set(reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value { return []reflect.Value{v, reflect.Zero(errType)} }))
		}, n}
	}
	fs = append(fs, mkField("L", "", l), mkField("LP", "", reflect.PtrTo(reflect.SliceOf(p))), mkField("LL", "", reflect.SliceOf(reflect.ArrayOf(2, t))), mkField("NP", "", p), mkField("NL", "", l))
	fills["L"] = fill{func(x reflect.Value) { x.Set(reflect.Append(reflect.MakeSlice(l, 0, 0), w.vals...)) }, all}
	fills["LP"] = fill{func(x reflect.Value) {
		s := reflect.MakeSlice(reflect.SliceOf(p), 0, 0)
		for _, v := range w.vals {
			s = reflect.Append(s, ptr(v))
		}
		s = reflect.Append(s, reflect.Zero(p))
		x.Set(ptr(s))
	}, append(append([]any{}, all...), nil)}
	fills["LL"] = fill{func(x reflect.Value) {
		x.Set(reflect.MakeSlice(x.Type(), 1, 1))
		x.Index(0).Index(0).Set(w.vals[5])
		x.Index(0).Index(1).Set(w.vals[1])
	}, []any{[]any{all[5], all[1]}}}
	fills["NP"] = fill{func(x reflect.Value) {}, nil}
	fills["NL"] = fill{func(x reflect.Value) {}, nil}
	inT := inTOf
	inTypesEnum = map[reflect.Type]*InT{t: in}
	defer func() { inTypesEnum = nil }()
	mt := &MType{Name: "", Fields: map[string]*MField{}}
	w.model = &MObj{T: mt, F: map[string]any{}}
	for _, e := range enumEcho(t) {
		for e.Kind() == reflect.Ptr || e.Kind() == reflect.Slice {
			e = e.Elem()
		}
		delete(inTypes, e)
	}
	for i, e := range enumEcho(t) {
		f := "Echo" + strconv.Itoa(i)
		ft := enumFns[e]
		if ft == nil {
			ft = reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{mkField("Arg", "", e)})}, []reflect.Type{tOf[int]()}, false)
			enumFns[e] = ft
		}
		fs = append(fs, mkField(f, "", ft))
		fills[f] = fill{func(x reflect.Value) {
			x.Set(reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
				calls = append(calls, callLog(f, map[string]string{"arg": dump(in[0].Field(0))}))
				return []reflect.Value{reflect.ValueOf(1)}
			}))
		}, nil}
		q := qlName(f)
		mt.Fields[q] = &MField{Name: q, Method: true, Args: map[string]*InT{"arg": inT(e, false)}}
		w.model.F[q] = func(c *Call) any {
			c.Ex.res.Log = append(c.Ex.res.Log, callLog(f, c.Args))
			return lint(1)
		}
	}
	if w.root = enumRoots[t]; w.root == nil {
		w.root = reflect.StructOf(fs)
		enumRoots[t] = w.root
	}
	v := reflect.New(w.root).Elem()
	for _, f := range fs {
		fl := fills[f.Name]
		fl.set(v.FieldByName(f.Name))
		q := qlName(f.Name)
		if mt.Fields[q] == nil {
			mt.Fields[q] = &MField{Name: q}
			w.model.F[q] = fl.want
		}
	}
	if err := w.s.Parse(v.Interface(), SMut{}, nil); err != nil {
		w.fail = "the schema is refused: " + err.Error()
	}
	return w
}

// outputs reads every value in every kind of field
func (w *enumWorld) outputs() Result {
	names := []string{}
	for n := range w.model.F {
		if !strings.HasPrefix(n, "echo") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	sel := []Sel{}
	for _, n := range names {
		sel = append(sel, fld(n))
	}
	return w.request(query(sel...), "")
}

func (w *enumWorld) request(d *Doc, vars string) Result {
	res := Result{Steps: 1}
	ref := refExec(RefReq{Doc: d, Variables: vars, Query: w.model, Mutation: &MObj{T: &MType{Name: "SMut"}}, Directives: newScalarDirs()})
	r := run(w.s, d.String(), yarql.ResolveOptions{Variables: vars})
	res.Outcome = r.Raw
	res.Skip = ref.DontCare
	if res.Fail = compare(ref, r); res.Fail != "" && res.Skip {
		res.Fail = ""
	}
	return res
}

func (w *enumWorld) introspection() string {
	is, m := introspect(w.s)
	if m != "" {
		return m
	}
	keys := []string{}
	for k := range w.names {
		keys = append(keys, k)
	}
	return compareSchema(is, w.root, reflect.TypeOf(SMut{}), &SchemaEnv{Impls: worldImpls, Enums: map[reflect.Type][]string{w.t: keys}, Renamed: renames})
}

// inTypesEnum are enums that inTOf knows
var inTypesEnum map[reflect.Type]*InT

var enumKeyPool = []string{"A", "AB", "a", "B_1", "x9", "True", "TRUE", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"}

// enumMaps: every map from up to three names to values, for every kind
func enumMaps(c *Chooser, e *Env) *Case {
	t := enumTypes[c.Choose(len(enumTypes))]
	n := 1 + c.Choose(3)
	names := map[string]int{}
	from := 0
	for i := 0; i < n; i++ {
		if from >= len(enumKeyPool) {
			return nil
		}
		k := from + c.Choose(len(enumKeyPool)-from)
		from = k + 1
		max := 6
		if !e.Thorough && i > 1 {
			max = 2
		}
		names[enumKeyPool[k]] = c.Choose(max)
	}
	return &Case{DescF: func() string { return fmt.Sprintf("enum %s %v", t.Name(), names) }, Run: func() Result {
		w := newEnumWorld(t, names)
		if w.fail != "" {
			return Result{Fail: w.fail, Steps: 1}
		}
		if m := w.introspection(); m != "" {
			return Result{Fail: m, Steps: 1}
		}
		res := w.outputs()
		if res.Fail != "" {
			return res
		}
		// every name reaches the resolver
		for k := range names {
			for _, via := range []int{0, 1, 2} {
				d, vars := enumDoc(w, 0, 0, k, via)
				if r := w.request(d, vars); r.Fail != "" {
					return r
				}
				res.Steps++
			}
		}
		return res
	}}
}

const enumVias = 8

// enumDoc passes a name to an argument
func enumDoc(w *enumWorld, echo, pos int, name string, via int) (*Doc, string) {
	op := &Op{Kind: "query"}
	q := strconv.Quote(name)
	lit := vEnum(name)
	vars := ""
	switch via {
	case 1: // variable
		op.Vars = []VarDef{{Name: "v", Type: w.t.Name()}}
		lit, vars = vVar("v"), `{"v":`+q+`}`
	case 2: // default
		d := lit
		op.Vars = []VarDef{{Name: "v", Type: w.t.Name(), Def: &d}}
		lit = vVar("v")
	case 3: // variable and default
		d := vEnum("A")
		op.Vars = []VarDef{{Name: "v", Type: w.t.Name(), Def: &d}}
		lit, vars = vVar("v"), `{"v":`+q+`}`
	case 6: // default of a not null variable
		d := lit
		op.Vars = []VarDef{{Name: "v", Type: w.t.Name() + "!", Def: &d}}
		lit = vVar("v")
	}
	val, js, typ := lit, q, w.t.Name()
	list := func(v Val, j string) (Val, string) {
		if pos == 0 {
			return vList(v), "[" + j + "]"
		}
		return vList(vEnum("A"), v, vEnum("A")), `["A",` + j + `,"A"]`
	}
	obj := func() (Val, string) {
		switch pos {
		case 0:
			return vObj(Arg{"e", lit}), `{"e":` + q + `}`
		case 1:
			return vObj(Arg{"l", vList(vEnum("A"), lit)}), `{"l":["A",` + q + `]}`
		}
		return vObj(Arg{"l", vList(lit)}, Arg{"e", lit}), `{"l":[` + q + `],"e":` + q + `}`
	}
	switch echo {
	case 3, 4, 6:
		val, js = list(lit, q)
		typ = "[" + typ + "]"
	case 5:
		v, j := list(lit, q)
		val, js = vList(v), "["+j+"]"
		typ = "[[" + typ + "]]"
	case 7, 8:
		val, js = obj()
		typ = ""
		if echo == 8 {
			val, js = vList(val), "["+js+"]"
		}
	}
	switch via {
	case 4: // the whole value as variable
		op.Vars = []VarDef{{Name: "v", Type: typ}}
		val, vars = vVar("v"), `{"v":`+js+`}`
	case 5: // the whole value as default
		d := val
		op.Vars = []VarDef{{Name: "v", Type: typ, Def: &d}}
		val = vVar("v")
	case 7: // as a text
		op.Sel = []Sel{fld("echo" + strconv.Itoa(echo)).args(Arg{"arg", vStr(name)}), fld("V0")}
		return &Doc{Defs: []any{op}}, vars
	}
	op.Sel = []Sel{fld("echo" + strconv.Itoa(echo)).args(Arg{"arg", val}), fld("V0")}
	return &Doc{Defs: []any{op}}, vars
}

var enumWorlds []*enumWorld

func getEnumWorlds() []*enumWorld {
	if enumWorlds == nil {
		for _, t := range enumTypes {
			enumWorlds = append(enumWorlds, newEnumWorld(t, map[string]int{"A": 1, "AB": 0, "Ab": 2, "a": 3, "B_1": 4, "BB": 1}))
		}
	}
	return enumWorlds
}

// enumWords are all words up to a length
func enumWords(n int) []string {
	res := []string{}
	var rec func(p string)
	rec = func(p string) {
		if p != "" {
			res = append(res, p)
		}
		if len(p) == n {
			return
		}
		for _, c := range "ABab_1" {
			if p == "" && c == '1' {
				continue
			}
			rec(p + string(c))
		}
	}
	rec("")
	return append(res, "true", "false", "null", "TRUE", "enInt", "__typename", "BLUE", "QUERY", "OBJECT", "SCALAR")
}

var enumWordList = enumWords(3)
var enumWordList4 = enumWords(4)

// enumInputs: every word in every position, known or not
func enumInputs(c *Chooser, e *Env) *Case {
	ws := getEnumWorlds()
	var w *enumWorld
	if e.Thorough {
		w = ws[c.Choose(len(ws))]
	} else { // a signed, an unsigned and the string enum
		w = ws[[]int{1, 9, 10}[c.Choose(3)]]
	}
	words := enumWordList
	if e.Thorough {
		words = enumWordList4
	}
	name := words[c.Choose(len(words))]
	echo := c.Choose(9)
	pos := 0
	if echo > 2 {
		pos = c.Choose(2)
		if echo > 6 && pos == 1 {
			pos += c.Choose(2)
		}
	}
	via := c.Choose(enumVias)
	if echo >= 7 && (via == 4 || via == 5) {
		return nil // the type has no name
	}
	if name == "true" || name == "false" || name == "null" {
		if via != 1 && via != 3 && via != 4 {
			return nil // other values
		}
	}
	if w.fail != "" {
		return &Case{Desc: "enum " + w.t.Name(), Run: func() Result { return Result{Fail: w.fail} }}
	}
	d, vars := enumDoc(w, echo, pos, name, via)
	return &Case{DescF: func() string { return "enum " + w.t.Name() + " " + d.String() + " variables=" + vars }, Run: func() Result {
		return w.request(d, vars)
	}}
}

// enumKinds: values that are no enum values at all
func enumOther(c *Chooser, e *Env) *Case {
	ws := getEnumWorlds()
	w := ws[c.Choose(len(ws))]
	vals := []Val{vInt("0"), vInt("1"), vInt("-1"), vFloat("1.5"), vBool(true), vBool(false), vList(), vList(vEnum("A")), vList(vList(vEnum("A"))), vObj(), vObj(Arg{"A", vEnum("A")}), vObj(Arg{"e", vEnum("A")}), vObj(Arg{"e", vInt("1")}), vObj(Arg{"l", vList(vInt("1"))}), vList(vInt("1")), vList(vEnum("A"), vInt("2")), vList(vList(vInt("1")))}
	js := []string{`0`, `1`, `-1`, `1.5`, `true`, `false`, `[]`, `["A"]`, `[["A"]]`, `{}`, `{"A":"A"}`, `{"e":"A"}`, `{"e":1}`, `{"l":[1]}`, `[1]`, `["A",2]`, `[[1]]`, `""`, `" A"`, `"A "`, `"A\u0000"`, `"\u0041"`, `["\u0041B"]`, `{"e":"\u0042B"}`}
	echo := c.Choose(9)
	via := c.Choose(3)
	op := &Op{Kind: "query"}
	var vars string
	var v Val
	typ := w.t.Name()
	switch echo {
	case 3, 4, 6:
		typ = "[" + typ + "]"
	case 5:
		typ = "[[" + typ + "]]"
	case 7, 8:
		if via > 0 {
			return nil
		}
	}
	if via == 1 {
		j := js[c.Choose(len(js))]
		vars = `{"v":` + j + `}`
		op.Vars = []VarDef{{Name: "v", Type: typ}}
		v = vVar("v")
	} else {
		v = vals[c.Choose(len(vals))]
		if via == 2 {
			d := v
			op.Vars = []VarDef{{Name: "v", Type: typ, Def: &d}}
			v = vVar("v")
		}
	}
	op.Sel = []Sel{fld("V1"), fld("echo" + strconv.Itoa(echo)).args(Arg{"arg", v}), fld("l")}
	d := &Doc{Defs: []any{op}}
	if w.fail != "" {
		return &Case{Desc: "enum " + w.t.Name(), Run: func() Result { return Result{Fail: w.fail} }}
	}
	return &Case{DescF: func() string { return "enum " + w.t.Name() + " " + d.String() + " variables=" + vars }, Run: func() Result {
		return w.request(d, vars)
	}}
}

// tryEnum registers something
func tryEnum(s *yarql.Schema, v any) (added bool, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
		}
	}()
	added, err = s.RegisterEnum(v)
	return
}

// enumBad: maps that are no enum
func enumBad(c *Chooser, e *Env) *Case {
	type local int
	var nilMap map[string]Color
	one := 1
	type entry struct {
		name string
		v    any
		ok   legal
	}
	pool := []entry{
		{"nil", nil, legalNo}, {"int", 1, legalNo}, {"string", "A", legalNo}, {"slice", []Color{1}, legalNo}, {"struct", struct{ A Color }{1}, legalNo}, {"func", func() {}, legalNo}, {"pointer", &map[string]Color{"A": 1}, legalNo}, {"array", [1]Color{1}, legalNo},
		{"nil map", nilMap, legalNo}, {"empty", map[string]Color{}, legalNo}, {"int values", map[string]int{"A": 1}, legalNo}, {"string values", map[string]string{"A": "A"}, legalNo}, {"any values", map[string]any{"A": Color(1)}, legalNo},
		{"bool enum", map[string]enBool{"A": true}, legalNo}, {"float enum", map[string]enFloat{"A": 1}, legalNo}, {"struct enum", map[string]enStruct{"A": {1}}, legalNo}, {"list enum", map[string]enList{"A": nil}, legalNo}, {"pointer enum", map[string]enPtr{"A": &one}, legalNo}, {"pointers", map[string]*Color{"A": nil}, legalNo}, {"func enum", map[string]enFunc{"A": nil}, legalNo},
		{"int keys", map[int]Color{1: 1}, legalNo}, {"color keys", map[Color]Color{1: 1}, legalNo}, {"any keys", map[any]Color{"A": 1}, legalNo}, {"bytes", map[[1]byte]Color{{'A'}: 1}, legalNo},
		{"named keys", map[enKey]Color{"A": 1}, legalYes}, {"enum keys", map[Size]Color{"A": 1}, legalYes}, {"plain", map[string]Color{"A": 1}, legalYes}, {"other", map[string]other.Color{"B": 1}, legalYes}, {"local", map[string]local{"A": 1}, legalYes}, {"duration", map[string]time.Duration{"S": time.Second}, legalYes}, {"month", map[enKey]time.Month{"January": 1}, legalYes},
		{"String", map[string]other.String{"A": "1"}, legalEither}, {"Int", map[string]other.Int{"A": 1}, legalEither}, {"Boolean", map[string]other.Boolean{"A": 1}, legalEither}, {"ID", map[string]other.ID{"A": "1"}, legalEither}, {"Float", map[string]other.Float{"A": 1}, legalEither}, {"Time", map[string]other.Time{"A": 1}, legalEither}, {"File", map[string]other.File{"A": 1}, legalEither},
	}
	for _, t := range []reflect.Type{tOf[int](), tOf[int8](), tOf[int16](), tOf[int32](), tOf[int64](), tOf[uint](), tOf[uint8](), tOf[uint16](), tOf[uint32](), tOf[uint64](), tOf[uintptr](), tOf[string](), tOf[bool](), tOf[float32](), tOf[float64](), tOf[complex128](), tOf[error](), tOf[time.Time](), tOf[chan int](), tOf[[2]Color](), tOf[map[string]Color]()} {
		m := reflect.MakeMap(reflect.MapOf(tOf[string](), t))
		for i, k := range []string{"A", "B", "C", "D", "E"} {
			pool = append(pool, entry{fmt.Sprint(i+1, " names of ", t), m.Interface(), legalNo})
			m.SetMapIndex(reflect.ValueOf(k), reflect.Zero(t))
			m2 := reflect.MakeMap(m.Type())
			for _, k := range m.MapKeys() {
				m2.SetMapIndex(k, m.MapIndex(k))
			}
			m = m2
		}
	}
	badKeys := []string{"", " ", "1", "1A", "A-b", "A b", " A", "A ", "true", "false", "null", "é", "Aé", "A.b", "$A", "A\x00", "\xff", "A\"", "{", "A:", "@A", "#", ",", "A\n"}
	goodKeys := []string{"A", "z", "A1", "A_", "a_B_2", "True", "nulL", "trueX", "on", "query", "fragment", "type", "Color"}
	eitherKeys := []string{"_", "_A", "__A", "__typename"}
	for _, k := range badKeys {
		pool = append(pool, entry{"key " + strconv.Quote(k), map[string]Color{k: 1}, legalNo}, entry{"A and key " + strconv.Quote(k), map[string]Color{"A": 2, k: 1}, legalNo})
	}
	for _, k := range goodKeys {
		pool = append(pool, entry{"key " + strconv.Quote(k), map[string]Color{k: 1}, legalYes}, entry{"two with key " + strconv.Quote(k), map[string]Color{"Q": 1, k: 1}, legalYes})
	}
	for _, k := range eitherKeys {
		pool = append(pool, entry{"key " + strconv.Quote(k), map[string]Color{k: 1}, legalEither})
	}
	if c.Bool() {
		// every single byte and every byte after a letter
		b := c.Choose(256)
		second := c.Bool()
		k := string([]byte{byte(b)})
		letter := b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
		ok := legalIf(letter)
		if second {
			k = "A" + k
			ok = legalIf(letter || b >= '0' && b <= '9' || b == '_')
		} else if b == '_' {
			ok = legalEither
		}
		pool = []entry{{"key " + strconv.Quote(k), map[string]Color{k: 1}, ok}}
	}
	ent := pool[c.Choose(len(pool))]
	return &Case{DescF: func() string { return "RegisterEnum " + ent.name }, Run: func() Result {
		res := Result{Steps: 1}
		s := yarql.NewSchema()
		added, err, pan := tryEnum(s, ent.v)
		res.Outcome = fmt.Sprint(added, err)
		switch {
		case pan != "":
			res.Fail = "panic: " + pan
		case added && err != nil:
			res.Fail = "added and an error"
		case ent.ok == legalNo && added:
			res.Fail = "accepted"
		case ent.ok == legalYes && !added:
			res.Fail = fmt.Sprintf("refused: %v", err)
		case ent.name != "empty" && !added && err == nil:
			res.Fail = "refused without an error"
		}
		if res.Fail != "" {
			return res
		}
		// what was refused is not part of the schema, a scalar name is refused at last by Parse
		perr, pan := tryParse(s, struct{ A int }{1}, SMut{})
		if pan != "" {
			res.Fail = "Parse panics: " + pan
			return res
		}
		if ent.ok == legalEither && strings.Title(ent.name) == ent.name && added && perr == nil && !strings.Contains(ent.name, "key") {
			res.Fail = "an enum called like a scalar is accepted"
			return res
		}
		if perr != nil {
			if ent.ok != legalEither {
				res.Fail = "Parse fails: " + perr.Error()
			}
			return res
		}
		env := &SchemaEnv{Impls: worldImpls, Enums: map[reflect.Type][]string{}, Renamed: renames}
		if added {
			keys := []string{}
			v := reflect.ValueOf(ent.v)
			for _, k := range v.MapKeys() {
				keys = append(keys, k.String())
			}
			env.Enums[v.Type().Elem()] = keys
		}
		is, m := introspect(s)
		if m == "" {
			m = compareSchema(is, tOf[struct{ A int }](), reflect.TypeOf(SMut{}), env)
		}
		res.Fail = m
		if !added {
			return res
		}
		// too late
		added, err, pan = tryEnum(s, map[string]Level{"X": 1})
		if added || err == nil || pan != "" {
			res.Fail = "an enum can be added after Parse"
		}
		return res
	}}
}

// enumSequence registers several maps after each other
func enumSequence(c *Chooser, e *Env) *Case {
	type step struct {
		name string
		v    any
		t    reflect.Type
		ok   bool
	}
	steps := []step{
		{"Color", map[string]Color{"RED": 1, "GREEN": 2}, tOf[Color](), true}, {"Color 2", map[string]Color{"BLUE": 1}, tOf[Color](), true}, {"other.Color", map[string]other.Color{"RED": 7}, tOf[other.Color](), true},
		{"Size", map[string]Size{"RED": "r", "GREEN": "RED"}, tOf[Size](), true}, {"bad", map[string]Level{"1": 1}, tOf[Level](), false}, {"empty", map[string]Level{}, tOf[Level](), false}, {"Level", map[enKey]Level{"GREEN": 1, "X": 1}, tOf[Level](), true},
	}
	n := c.Choose(4)
	if e.Thorough {
		n = c.Choose(5)
	}
	seq := []step{}
	for i := 0; i < n; i++ {
		seq = append(seq, steps[c.Choose(len(steps))])
	}
	return &Case{DescF: func() string {
		l := []string{}
		for _, s := range seq {
			l = append(l, s.name)
		}
		return "enums " + strings.Join(l, ", ")
	}, Run: func() Result {
		res := Result{Steps: n}
		s := yarql.NewSchema()
		got := map[string]step{}
		for _, st := range seq {
			added, err, pan := tryEnum(s, st.v)
			_, dup := got[st.t.Name()]
			if want := st.ok && !dup; pan != "" || want != added || want && err != nil || !want && st.name != "empty" && err == nil {
				res.Fail = fmt.Sprintf("RegisterEnum %s: added=%v %v %s", st.name, added, err, pan)
				return res
			}
			if added {
				got[st.t.Name()] = st
			}
		}
		type args struct {
			C *Color
			S *Size
			L *Level
			O *other.Color
		}
		type enumSeqRoot struct {
			C []Color
			S []Size
			L []Level
			O []other.Color
			F func(args) string
		}
		err := s.Parse(enumSeqRoot{[]Color{1, 2, 0}, []Size{"r", "RED", ""}, []Level{1, 0, 2}, []other.Color{7, 1, 2}, func(a args) string { return dump(reflect.ValueOf(a)) }}, SMut{}, nil)
		if err != nil {
			res.Fail = "Parse: " + err.Error()
			return res
		}
		env := &SchemaEnv{Impls: worldImpls, Enums: map[reflect.Type][]string{}, Renamed: renames}
		for _, st := range got {
			for _, k := range reflect.ValueOf(st.v).MapKeys() {
				env.Enums[st.t] = append(env.Enums[st.t], k.String())
			}
		}
		is, m := introspect(s)
		if m == "" {
			m = compareSchema(is, reflect.TypeOf(enumSeqRoot{}), reflect.TypeOf(SMut{}), env)
		}
		if m != "" {
			res.Fail = m
			return res
		}
		name := func(t reflect.Type, v any) string {
			st, ok := got[t.Name()]
			if !ok || st.t != t {
				if t.Kind() == reflect.String {
					return strconv.Quote(fmt.Sprint(v))
				}
				return fmt.Sprint(v)
			}
			m := reflect.ValueOf(st.v)
			best := "null"
			for _, k := range m.MapKeys() {
				if m.MapIndex(k).Interface() == v && (best == "null" || `"`+k.String() < best) {
					best = `"` + k.String() + `"`
				}
			}
			return best
		}
		want := `{"c":[` + name(tOf[Color](), Color(1)) + `,` + name(tOf[Color](), Color(2)) + `,` + name(tOf[Color](), Color(0)) + `],"s":[` + name(tOf[Size](), Size("r")) + `,` + name(tOf[Size](), Size("RED")) + `,` + name(tOf[Size](), Size("")) +
			`],"l":[` + name(tOf[Level](), Level(1)) + `,` + name(tOf[Level](), Level(0)) + `,` + name(tOf[Level](), Level(2)) + `],"o":[` + name(tOf[other.Color](), other.Color(7)) + `,` + name(tOf[other.Color](), other.Color(1)) + `,` + name(tOf[other.Color](), other.Color(2)) + `]}`
		r := run(s, "{c s l o}", yarql.ResolveOptions{})
		res.Outcome = r.Raw
		if r.Bad != "" || len(r.Errs) > 0 || r.JSON != want {
			res.Fail = "expected " + want + "\n observed " + r.Raw
			return res
		}
		// every name for every argument
		for _, a := range []struct {
			n string
			t reflect.Type
		}{{"c", tOf[Color]()}, {"s", tOf[Size]()}, {"l", tOf[Level]()}, {"o", tOf[other.Color]()}} {
			for _, word := range []string{"RED", "GREEN", "BLUE", "X"} {
				res.Steps++
				r := run(s, "{f("+a.n+":"+word+")}", yarql.ResolveOptions{})
				ok := false
				var v reflect.Value
				if st, is := got[a.t.Name()]; is && st.t == a.t {
					m := reflect.ValueOf(st.v)
					for _, k := range m.MapKeys() {
						if k.String() == word {
							v, ok = m.MapIndex(k), true
						}
					}
				}
				if !ok {
					if r.Bad != "" || len(r.Errs) != 1 || r.Data != "{}" && r.Data != `{"f":null}` {
						res.Fail = fmt.Sprintf("%s is accepted for %s or badly refused: %s", word, a.n, r.Raw)
						return res
					}
					continue
				}
				w := map[string]string{"c": "nil", "s": "nil", "l": "nil", "o": "nil"}
				w[a.n] = "&" + dump(v)
				want := `{"f":` + strconv.Quote("{C:"+w["c"]+" S:"+w["s"]+" L:"+w["l"]+" O:"+w["o"]+"}") + `}`
				if r.Bad != "" || len(r.Errs) > 0 || r.JSON != want {
					res.Fail = "expected " + want + "\n observed " + r.Raw
					return res
				}
			}
		}
		return res
	}}
}

func init() {
	register(&Property{
		ID: "G03",
		Bounds: map[string]string{
			"quick":    "11 kinds of Go types x every map from up to 3 of 8 names to 6 values (the third name: 2 values), each introspected, written in 20 kinds of fields and read back; every word of up to 3 of 6 characters and 10 special words in 9 argument types x 8 ways to pass it; values of other kinds; 230 maps and every key of one byte or a letter and a byte; every sequence of up to 3 of 7 registrations",
			"thorough": "all values for three names, words of up to 4 characters for every kind, sequences of up to 4 registrations",
		},
		Parts: []func(c *Chooser, e *Env) *Case{enumBad, enumSequence, enumMaps, enumOther, enumInputs},
	})
}
