package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"mime/multipart"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/mjarkk/yarql"
	"verif/mc/other"
)

// G02: a schema has exactly the fields and arguments its Go types declare.
//
// Go types are enumerated, a schema is built out of each of them, and whether
// that is possible, what introspection says and what requests answer is compared
// with what the Go types say.

// three valued: can a schema be built?
type legal int

const (
	legalNo legal = iota
	legalYes
	legalEither
)

func (a legal) and(b legal) legal {
	if a == legalNo || b == legalNo {
		return legalNo
	}
	if a == legalEither || b == legalEither {
		return legalEither
	}
	return legalYes
}

func legalIf(b bool) legal {
	if b {
		return legalYes
	}
	return legalNo
}

type legalChecker struct {
	env  *SchemaEnv
	seen map[string]bool
	// graphql name => go type
	outNames map[string]reflect.Type
	inNames  map[string]reflect.Type
	dup      bool // a type has two fields of the same name, it is open which one is used
}

func newLegal(env *SchemaEnv) *legalChecker {
	return &legalChecker{env: env, seen: map[string]bool{}, outNames: map[string]reflect.Type{}, inNames: map[string]reflect.Type{}}
}

func legalName(n string) legal {
	if n == "" {
		return legalNo
	}
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return legalNo
		}
	}
	return legalYes
}

// field tells if the declaration of a field is fine, skip: it is not part of the schema
func (l *legalChecker) field(f reflect.StructField) (ok legal, id, skip bool) {
	if f.Anonymous {
		return legalYes, false, true
	}
	if f.PkgPath != "" {
		if l.env.Enums[f.Type] != nil {
			return legalEither, false, true // known finding K2
		}
		return legalYes, false, true
	}
	tag := f.Tag.Get("gq")
	name, id, skip := parseTag(f)
	if skip {
		return legalYes, false, true
	}
	ok = legalName(name)
	if strings.HasPrefix(strings.TrimSpace(tag), "_") && ok == legalYes {
		ok = legalEither
	}
	if tag != "" {
		for _, m := range strings.Split(tag, ",")[1:] {
			ok = ok.and(legalIf(strings.EqualFold(strings.TrimSpace(m), "id")))
		}
	}
	return
}

func recursiveList(t reflect.Type) bool {
	for i := 0; i < 50; i++ {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			t = t.Elem()
		default:
			return false
		}
	}
	return true
}

func idKind(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

func scalarKind(t reflect.Type) bool {
	return idKind(t) || t.Kind() == reflect.Bool || t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64
}

func (l *legalChecker) name(t reflect.Type) string {
	if n := l.env.Renamed[t]; n != "" {
		return n
	}
	return t.Name()
}

func (l *legalChecker) unique(m map[string]reflect.Type, n string, t reflect.Type) legal {
	if o := m[n]; o != nil && o != t {
		return legalNo
	}
	m[n] = t
	if metaTypes[n] != "" {
		// an input gets another name
		return legalIf(reflect.ValueOf(m).Pointer() == reflect.ValueOf(l.inNames).Pointer())
	}
	for _, s := range scalarNames {
		if s == n {
			return legalNo
		}
	}
	for e := range l.env.Enums {
		if e.Name() == n {
			return legalNo
		}
	}
	return legalYes
}

func (l *legalChecker) out(t reflect.Type, id bool) legal {
	if t == timeType {
		return legalYes
	}
	if recursiveList(t) {
		return legalNo
	}
	switch t.Kind() {
	case reflect.Ptr:
		return l.out(t.Elem(), id)
	case reflect.Slice, reflect.Array:
		return l.out(t.Elem(), false)
	case reflect.Interface:
		if id || t.Name() == "" || len(l.env.Impls[t]) == 0 {
			return legalNo
		}
	case reflect.Struct:
		if id {
			return legalNo
		}
	default:
		if l.env.Enums[t] != nil {
			return legalYes
		}
		if !scalarKind(t) {
			return legalNo
		}
		return legalIf(!id || idKind(t))
	}
	res := legalYes
	if t.Name() != "" {
		if res = l.unique(l.outNames, l.name(t), t); res == legalNo {
			return res
		}
		if l.seen["out "+l.name(t)] {
			return legalYes
		}
		l.seen["out "+l.name(t)] = true
	}
	for it, impls := range l.env.Impls {
		for _, s := range impls {
			if it == t {
				res = res.and(l.out(s, false))
			} else if s == t {
				res = res.and(l.out(it, false))
			}
		}
	}
	names, k2 := map[string]bool{}, map[string]bool{}
	defer func() {
		for n := range k2 {
			if names[n] {
				l.dup = true
			}
		}
	}()
	hashes := map[uint32]string{}
	add := func(n string) legal {
		if names[n] {
			l.dup = true
		}
		names[n] = true
		h := fnv32(n)
		if o, ok := hashes[h]; ok && o != n {
			return legalEither // not able to hold both, an error is allowed
		}
		hashes[h] = n
		return legalName(n)
	}
	if t.Kind() == reflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			ok, fid, skip := l.field(f)
			res = res.and(ok)
			n, _, tagSkip := parseTag(f)
			if f.PkgPath != "" && l.env.Enums[f.Type] != nil && !tagSkip {
				k2[n] = true // known finding K2
			}
			if skip || ok == legalNo {
				continue
			}
			res = res.and(add(n))
			if f.Type.Kind() == reflect.Func {
				res = res.and(l.fn(f.Type, false, fid))
			} else {
				res = res.and(l.out(f.Type, fid))
			}
		}
	}
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if n, ok := methodField(m.Name); ok {
			res = res.and(add(n)).and(l.fn(m.Type, t.Kind() == reflect.Struct, false))
		}
	}
	return res
}

// methodField is the name of the field that a method is
func methodField(n string) (string, bool) {
	rest := strings.TrimPrefix(n, "Resolve")
	if rest == n || rest == "" || rest[0] >= 'a' && rest[0] <= 'z' {
		return "", false
	}
	return qlName(rest), true
}

func fnv32(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h *= 16777619
		h ^= uint32(s[i])
	}
	return h
}

func (l *legalChecker) fn(t reflect.Type, recv, id bool) legal {
	if t.IsVariadic() {
		return legalNo
	}
	data, errs := 0, 0
	var out reflect.Type
	for i := 0; i < t.NumOut(); i++ {
		switch o := t.Out(i); {
		case o == idType:
			id = true
		case o.Kind() == reflect.Interface && o.Implements(errType):
			errs++
		default:
			data++
			out = o
		}
	}
	if data != 1 || errs > 1 {
		return legalNo
	}
	return l.out(out, id).and(l.ins(t, recv))
}

func (l *legalChecker) ins(t reflect.Type, recv bool) legal {
	res := legalYes
	for i := 0; i < t.NumIn(); i++ {
		in := t.In(i)
		switch {
		case i == 0 && recv || in == ctxGoType:
		case in.Kind() != reflect.Struct || in == ctxGoType.Elem():
			return legalNo
		default:
			res = res.and(l.inFields(in))
		}
	}
	return res
}

func (l *legalChecker) inFields(t reflect.Type) legal {
	res := legalYes
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		ok, id, skip := l.field(f)
		if f.PkgPath != "" {
			ok = legalYes
		}
		res = res.and(ok)
		if !skip && ok != legalNo {
			res = res.and(l.in(f.Type, id))
		}
	}
	return res
}

func (l *legalChecker) in(t reflect.Type, id bool) legal {
	if t == fileType || t == timeType {
		return legalYes
	}
	if recursiveList(t) {
		return legalNo
	}
	switch t.Kind() {
	case reflect.Ptr:
		return l.in(t.Elem(), id)
	case reflect.Slice:
		return l.in(t.Elem(), false)
	case reflect.Struct:
		if t.Name() != "" {
			if l.unique(l.inNames, l.name(t), t) == legalNo {
				return legalNo
			}
			if l.seen["in "+l.name(t)] {
				return legalYes
			}
			l.seen["in "+l.name(t)] = true
		}
		return l.inFields(t)
	}
	if l.env.Enums[t] != nil {
		return legalYes
	}
	return legalIf(scalarKind(t) && (!id || idKind(t)))
}

//
// generic model of Go values
//

// fill sets a value to something that is not zero
func fill(v reflect.Value, depth int) {
	t := v.Type()
	if t == timeType {
		v.Set(reflect.ValueOf(time.Date(2022, 5, 6, 7, 8, 9, 120000000, time.FixedZone("x", 3600))))
		return
	}
	switch t {
	case reflect.TypeOf(Color(0)):
		v.SetUint(200)
		return
	case reflect.TypeOf(Size("")):
		v.SetString("l l")
		return
	case reflect.TypeOf(Level(0)):
		v.SetInt(-300)
		return
	case reflect.TypeOf((*GFace)(nil)).Elem():
		v.Set(reflect.ValueOf(GI1{Own: 3}))
		return
	case reflect.TypeOf((*GFace2)(nil)).Elem():
		v.Set(reflect.ValueOf(GI2{Name: 1, B: 3}))
		return
	}
	switch t.Kind() {
	case reflect.Interface:
		if l := worldImpls[t]; len(l) > 0 && depth > 0 {
			x := reflect.New(l[len(l)-1])
			fill(x.Elem(), depth-2)
			if v.Set(x.Elem()); depth%2 == 0 {
				v.Set(x)
			}
		}
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(-7)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(7)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(0.25)
	case reflect.String:
		v.SetString("te\"xt")
	case reflect.Ptr:
		if depth > 0 {
			p := reflect.New(t.Elem())
			fill(p.Elem(), depth-1)
			v.Set(p)
		}
	case reflect.Slice:
		if depth > 0 {
			s := reflect.MakeSlice(t, 2, 2)
			fill(s.Index(0), depth-1)
			v.Set(s)
		}
	case reflect.Array:
		if v.Len() > 0 {
			fill(v.Index(0), depth)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				fill(v.Field(i), depth-1)
			} else if scalarKind(t.Field(i).Type) {
				// unexported fields have a value too
				fill(reflect.NewAt(t.Field(i).Type, unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem(), depth-1)
			}
		}
	case reflect.Func:
		if depth < 0 || t.IsVariadic() {
			return
		}
		v.Set(reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
			args := map[string]string{}
			for _, a := range in {
				if a.Type() == ctxGoType {
					if a.Interface().(*yarql.Ctx) == nil {
						args["ctx"] = "nil"
					}
					continue
				}
				for i := 0; i < a.NumField(); i++ {
					if n, _, skip := parseTag(a.Type().Field(i)); !skip && a.Type().Field(i).PkgPath == "" && !a.Type().Field(i).Anonymous {
						args[n] = dump(a.Field(i))
					}
				}
			}
			calls = append(calls, callLog("fn", args))
			res := []reflect.Value{}
			for i := 0; i < t.NumOut(); i++ {
				o := reflect.New(t.Out(i)).Elem()
				if t.Out(i) != idType && !(t.Out(i).Kind() == reflect.Interface && t.Out(i).Implements(errType)) {
					fill(o, 2)
				}
				res = append(res, o)
			}
			return res
		}))
	}
}

var enumNames = map[reflect.Type]func(v reflect.Value) (string, bool){
	reflect.TypeOf(Color(0)): func(v reflect.Value) (string, bool) { return enumKey(colorMap, v.Interface().(Color)) },
	reflect.TypeOf(Size("")): func(v reflect.Value) (string, bool) { return enumKey(sizeMap, v.Interface().(Size)) },
	reflect.TypeOf(Level(0)): func(v reflect.Value) (string, bool) { return enumKey(levelMap, v.Interface().(Level)) },
}

func enumKey[T comparable](m map[string]T, v T) (string, bool) {
	for k, x := range m {
		if x == v {
			return k, true
		}
	}
	return "", false
}

func jsonLeaf(v any) Leaf {
	b, err := json.Marshal(v)
	if err != nil {
		return Leaf("null")
	}
	c, err := canonJSON(b)
	if err != nil {
		return Leaf("null")
	}
	return Leaf(c)
}

// modelValue is the model of a Go value
func modelValue(cmp *schemaCmp, v reflect.Value, id bool) any {
	t := v.Type()
	if t == timeType {
		return lstr(v.Interface().(time.Time).UTC().Format("2006-01-02T15:04:05.000Z"))
	}
	if f := enumNames[t]; f != nil {
		if k, ok := f(v); ok {
			return lstr(k)
		}
		return nil
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return modelValue(cmp, v.Elem(), id)
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		e := v.Elem()
		for e.Kind() == reflect.Ptr {
			if e.IsNil() {
				return nil
			}
			e = e.Elem()
		}
		for _, s := range cmp.env.Impls[t] {
			if s == e.Type() {
				return modelValue(cmp, e, false)
			}
		}
		return nil
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return nil
		}
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, modelValue(cmp, v.Index(i), false))
		}
		return l
	case reflect.Struct:
		return modelStruct(cmp, v)
	case reflect.Float32:
		return jsonLeaf(json.RawMessage(strconv.FormatFloat(v.Float(), 'g', -1, 32)))
	case reflect.Float64:
		return jsonLeaf(json.RawMessage(strconv.FormatFloat(v.Float(), 'g', -1, 64)))
	case reflect.String:
		return jsonLeaf(v.String())
	case reflect.Bool:
		return Leaf(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if id {
			return Leaf(`"` + strconv.FormatInt(v.Int(), 10) + `"`)
		}
		return Leaf(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if id {
			return Leaf(`"` + strconv.FormatUint(v.Uint(), 10) + `"`)
		}
		return Leaf(strconv.FormatUint(v.Uint(), 10))
	}
	panic("modelValue " + t.String())
}

func fnInT(t reflect.Type, recv bool) map[string]*InT {
	args := map[string]*InT{}
	for n, g := range goArgs(t, recv) {
		args[n] = inTOf(g[len(g)-1].t, g[len(g)-1].id)
	}
	return args
}

func callModel(cmp *schemaCmp, fn reflect.Value, recv bool) any {
	t := fn.Type()
	in := []reflect.Value{}
	for i := 0; i < t.NumIn(); i++ {
		in = append(in, reflect.Zero(t.In(i)))
	}
	keep := calls
	res := fn.Call(in)
	calls = keep
	var out any
	for i, r := range res {
		if t.Out(i) == idType || t.Out(i).Kind() == reflect.Interface && t.Out(i).Implements(errType) {
			continue
		}
		_, id := fnResult(t)
		out = modelValue(cmp, r, id)
	}
	return out
}

func modelStruct(cmp *schemaCmp, v reflect.Value) *MObj {
	t := v.Type()
	o := &MObj{T: &MType{Name: cmp.goTypeName(t), Fields: map[string]*MField{}}, F: map[string]any{}}
	for in, l := range cmp.env.Impls {
		for _, s := range l {
			if s == t {
				o.T.Implements = append(o.T.Implements, cmp.goTypeName(in))
			}
		}
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		n, id, skip := parseTag(f)
		if f.Anonymous || f.PkgPath != "" || skip {
			continue
		}
		fv := v.Field(i)
		if f.Type.Kind() == reflect.Func {
			args := fnInT(f.Type, false)
			o.T.Fields[n] = &MField{Name: n, Method: true, Args: args}
			o.F[n] = func(c *Call) any {
				if fv.IsNil() {
					return nil
				}
				c.Ex.res.Log = append(c.Ex.res.Log, callLog("fn", c.Args))
				r := callModel(cmp, fv, false)
				if l, ok := r.(Leaf); ok && id && l[0] != '"' {
					r = Leaf(`"` + l + `"`)
				}
				return r
			}
			continue
		}
		o.T.Fields[n] = &MField{Name: n}
		o.F[n] = modelValue(cmp, fv, id)
	}
	for i := 0; i < t.NumMethod(); i++ {
		n, ok := methodField(t.Method(i).Name)
		if !ok {
			continue
		}
		o.T.Fields[n] = &MField{Name: n, Method: true, Args: fnInT(t.Method(i).Type, true)}
		m := v.Method(i)
		if loggedTypes[t] && (len(o.T.Fields[n].Args) > 0 || t == tOf[smLog]()) {
			o.F[n] = func(c *Call) any {
				c.Ex.res.Log = append(c.Ex.res.Log, callLog(n, c.Args))
				return lint(1)
			}
			continue
		}
		o.F[n] = func(c *Call) any { return callModel(cmp, m, true) }
	}
	return o
}

func isObject(t reflect.Type) bool {
	for t != timeType && (t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array) {
		t = t.Elem()
	}
	return t != timeType && (t.Kind() == reflect.Struct || t.Kind() == reflect.Interface)
}

func noTypename(l []Sel) []Sel {
	if len(l) > 0 {
		if l[0].Name == "__typename" {
			return l[1:]
		}
	}
	return l
}

// fullLit is a literal that gives every field of an input a value
func fullLit(t *InT, depth int) Val {
	switch t.K {
	case "ptr":
		return fullLit(t.Elem, depth)
	case "list":
		if depth <= 0 {
			return vList()
		}
		return vList(fullLit(t.Elem, depth-1), fullLit(t.Elem, depth-1))
	case "obj":
		o := vObj()
		if depth > 0 {
			for _, f := range t.Fields {
				if f.Name != "" {
					o.O = append(o.O, Arg{f.Name, fullLit(f.T, depth-1)})
				}
			}
		}
		return o
	}
	return validLit(t)
}

// selAll selects everything of a type
func (c *schemaCmp) selAll(t reflect.Type, depth int, withArgs bool) []Sel {
	for t != timeType && (t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array) {
		t = t.Elem()
	}
	if t == timeType || t.Kind() != reflect.Struct && t.Kind() != reflect.Interface {
		return nil
	}
	res := []Sel{fld("__typename")}
	if t.Name() == "" {
		res = nil // the generated name is compared with the introspection only
	}
	if depth < 0 {
		return res
	}
	if t.Kind() == reflect.Interface {
		for _, s := range c.env.Impls[t] {
			if sub := noTypename(c.selAll(s, depth-1, withArgs)); depth > 0 && len(sub) > 0 {
				res = append(res, inline(c.goTypeName(s), sub...))
			}
		}
		return res
	}
	fs := c.goFields(t)
	names := []string{}
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		g := fs[n]
		if len(g) != 1 {
			continue // more than one field of this name
		}
		ft := g[0].t
		s := fld(n)
		if g[0].fn != nil {
			ft, _ = fnResult(g[0].fn)
			if withArgs {
				args := fnInT(g[0].fn, g[0].recv)
				an := []string{}
				for k := range args {
					an = append(an, k)
				}
				sort.Strings(an)
				for _, k := range an {
					s.Args = append(s.Args, Arg{k, fullLit(args[k], 3)})
				}
			}
		}
		sub := c.selAll(ft, depth-1, withArgs)
		if len(sub) > 0 {
			if depth <= 0 {
				continue
			}
			s.Sub, s.HasSub = sub, true
		} else if isObject(ft) {
			continue
		}
		res = append(res, s)
	}
	return res
}

// SMut is a mutation root
type SMut struct{}

// ResolveX is a mutation
func (SMut) ResolveX() int { return 1 }

func schemaEnv() *SchemaEnv {
	return &SchemaEnv{Enums: worldEnums, Impls: worldImpls, Renamed: renames}
}

// tryParse builds a schema
func tryParse(s *yarql.Schema, q, m any) (err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
		}
	}()
	return s.Parse(q, m, nil), ""
}

// checkSchema builds a schema with a value of the type as query root and compares everything
func checkSchema(root reflect.Type, requests bool) (res Result) {
	depth := 4
	if !requests {
		depth = 0
	}
	return checkSchemaDepth(root, depth)
}

func checkSchemaDepth(root reflect.Type, depth int) (res Result) {
	res.Steps = 1
	s := yarql.NewSchema()
	must1(s.RegisterEnum(colorMap))
	must1(s.RegisterEnum(sizeMap))
	must1(s.RegisterEnum(levelMap))
	env := schemaEnv()
	want := newLegal(env)
	want.out(reflect.TypeOf(SMut{}), false)
	ok := want.out(root, false)
	v := reflect.New(root).Elem()
	fill(v, 3)
	err, pan := tryParse(s, v.Interface(), SMut{})
	if pan != "" {
		res.Fail = "building the schema panics: " + pan
		return
	}
	res.Outcome = fmt.Sprint(err)
	if err != nil {
		if ok == legalYes {
			res.Fail = "the schema is refused: " + err.Error()
		}
		return
	}
	if ok == legalNo {
		res.Fail = "the schema has a type that can't be used but there is no error"
		return
	}
	is, m := introspect(s)
	if m != "" {
		res.Fail = m
		return
	}
	if want.dup {
		return
	}
	if res.Fail = compareSchema(is, root, reflect.TypeOf(SMut{}), env); res.Fail != "" {
		env.Unexported = true
		if compareSchema(is, root, reflect.TypeOf(SMut{}), env) == "" {
			res.Known = "K2-unexported-enums"
		}
		return
	}
	if depth == 0 {
		return
	}
	cmp := &schemaCmp{env: env}
	for _, withArgs := range []bool{true, false} {
		for _, zero := range []bool{false, true} {
			val, s := v, s
			if zero {
				val = reflect.New(root).Elem()
				s = yarql.NewSchema()
				must1(s.RegisterEnum(colorMap))
				must1(s.RegisterEnum(sizeMap))
				must1(s.RegisterEnum(levelMap))
				must(s.Parse(val.Interface(), SMut{}, nil))
			}
			doc := query(noTypename(cmp.selAll(root, depth, withArgs))...)
			if len(doc.Defs[0].(*Op).Sel) == 0 {
				return
			}
			mroot := modelStruct(cmp, val)
			var r *Resp
			func() {
				defer func() {
					if p := recover(); p != nil {
						res.Fail = fmt.Sprintf("panic: %v on %s", p, doc)
					}
				}()
				r = run(s, doc.String(), yarql.ResolveOptions{GetFormFile: formFile})
			}()
			if res.Fail != "" {
				return
			}
			ref := refExec(RefReq{Doc: doc, Query: mroot, Mutation: mroot, Directives: newScalarDirs(), Files: true})
			res.Steps++
			if res.Fail = compare(ref, r); res.Fail != "" {
				res.Fail += "\n request: " + doc.String()
				return
			}
			res.Outcome += clip(r.Raw, 100)
		}
	}
	return
}

// recursive types
type (
	recSlice []recSlice
	recPtr   *recPtr
	recA     []recB
	recB     []*recA
	recFn    func() recFn
	recOut   struct {
		L []recOut
		F func() []*recOut
	}
	noImpl  interface{ ResolveX() int }
	myErr   interface{ error }
	errVal  string
	errObj  struct{ X int }
	errFace interface {
		error
		Code() int
	}
	namedS  string
	namedI  int16
	namedL  []int
	namedP  *int
	unnamed = struct {
		X int
		S *struct{ T []string }
	}
	badIn  struct{ M map[string]int }
	goodIn struct {
		A, B int
		R    *goodIn
		no   int
		S    []*string
	}
	anonIn = struct {
		X  int `gq:"x_y"`
		no Color
		L  [][]Size
	}
	embedIn struct {
		goodIn
		Z int
	}
	// File is called like a scalar
	File struct{ X int }
)

func (errVal) Error() string  { return "errVal" }
func (*errObj) Error() string { return "errObj" }

func tOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// outPool are types of fields
var outPool = []reflect.Type{
	tOf[bool](), tOf[int](), tOf[int8](), tOf[int16](), tOf[int32](), tOf[int64](), tOf[uint](), tOf[uint8](), tOf[uint16](), tOf[uint32](), tOf[uint64](),
	tOf[float32](), tOf[float64](), tOf[string](), tOf[namedS](), tOf[namedI](), tOf[namedL](), tOf[namedP](), tOf[Color](), tOf[Size](), tOf[Level](),
	tOf[time.Time](), tOf[*time.Time](), tOf[**time.Time](), tOf[[]time.Time](), tOf[*int](), tOf[**string](), tOf[*bool](), tOf[*Color](), tOf[[]Color](), tOf[[]*Size](),
	tOf[[]string](), tOf[[][]int](), tOf[[2]int](), tOf[[0]int](), tOf[[1][]*float32](), tOf[[]byte](), tOf[*[]int](), tOf[[]*[]int](),
	tOf[GO](), tOf[*GO](), tOf[[]GO](), tOf[[]*GO](), tOf[[][]GO](), tOf[[2]GO](), tOf[**GO](), tOf[*[]GO](), tOf[other.GO](), tOf[other.Plain](), tOf[GIn](), tOf[recOut](), tOf[GRen](),
	tOf[struct{}](), tOf[struct{ X int }](), tOf[*struct{ X []struct{ Y string } }](), tOf[unnamed](), tOf[[]unnamed](),
	tOf[GFace](), tOf[*GFace](), tOf[[]GFace](), tOf[GFace2](), tOf[noImpl](), tOf[interface{}](), tOf[interface{ ResolveX() int }](), tOf[error](), tOf[myErr](),
	tOf[map[string]int](), tOf[chan int](), tOf[uintptr](), tOf[complex64](), tOf[complex128](), tOf[unsafe.Pointer](), tOf[[]map[string]int](), tOf[*chan int](), tOf[[]func() int](), tOf[*func() int](),
	tOf[multipart.FileHeader](), tOf[*multipart.FileHeader](), tOf[yarql.Ctx](), tOf[yarql.AttrIsID](), tOf[other.Color](), tOf[File](),
	tOf[recSlice](), tOf[recPtr](), tOf[recA](), tOf[*recB](), tOf[recFn](), tOf[struct{ M map[int]int }](), tOf[struct{ no chan int }](), tOf[struct {
		M map[int]int `gq:"-"`
	}](),
	// functions
	tOf[func() int](), tOf[func() string](), tOf[func() (int, error)](), tOf[func() (error, *int)](), tOf[func() []GO](), tOf[func() *GO](), tOf[func() GFace](), tOf[func() Color](), tOf[func() time.Time](),
	tOf[func()](), tOf[func() error](), tOf[func() (int, int)](), tOf[func() (int, error, error)](), tOf[func() (int, myErr)](), tOf[func() myErr](), tOf[func() (int, yarql.AttrIsID)](), tOf[func() (yarql.AttrIsID, *uint8)](),
	tOf[func() yarql.AttrIsID](), tOf[func() (bool, yarql.AttrIsID)](), tOf[func() (GO, yarql.AttrIsID)](), tOf[func() (float64, yarql.AttrIsID)](), tOf[func() ([]string, yarql.AttrIsID)](), tOf[func() (**int, error, yarql.AttrIsID)](),
	// only interfaces are errors
	tOf[errVal](), tOf[*errObj](), tOf[errObj](), tOf[func() errVal](), tOf[func() (errVal, error)](), tOf[func() (error, errVal)](), tOf[func() *errObj](), tOf[func() (*errObj, error)](), tOf[func() (errObj, error)](), tOf[func() (int, *errObj)](), tOf[func() (int, errVal)](),
	tOf[func() (int, errFace)](), tOf[func() (errFace, errVal)](), tOf[func() errFace](), tOf[func() (error, errFace)](),
	tOf[func() map[string]int](), tOf[func() interface{}](), tOf[func() func() int](), tOf[func() struct{ X int }](),
	tOf[func(...int) int](), tOf[func(...struct{}) int](), tOf[func(int) int](), tOf[func(*struct{ X int }) int](), tOf[func(*yarql.Ctx) int](), tOf[func(yarql.Ctx) int](), tOf[func(*yarql.Ctx, *yarql.Ctx) int](),
	tOf[func(struct{}) int](), tOf[func(struct{ X int }) int](), tOf[func(struct{ X int }, *yarql.Ctx, struct{ Y string }) (int, error)](), tOf[func(goodIn) int](), tOf[func(struct{ In goodIn }) int](), tOf[func(badIn) int](), tOf[func(struct{ In []badIn }) int](),
	tOf[func(struct{ A anonIn }) int](), tOf[func(struct{ G GIn }, struct{ O other.Plain }) GIn](), tOf[func(struct{ O other.GIn }) int](), tOf[func(struct{ F *multipart.FileHeader }) int](), tOf[func(struct{ F multipart.FileHeader }) int](),
	tOf[func(struct{ E embedIn }) int](), tOf[func(embedIn) int](), tOf[func(map[string]int) int](), tOf[func(interface{}) int](), tOf[func(func()) int](),
	// types called like those with a meaning
	tOf[other.Time](), tOf[*other.Time](), localTime(), tOf[myTime](), tOf[other.Date](), tOf[other.Ctx](), tOf[*other.Ctx](), tOf[other.AttrIsID](), tOf[other.FileHeader](), tOf[*other.FileHeader](),
	tOf[func(*other.Ctx) int](), tOf[func(other.Ctx) int](), tOf[func(other.Ctx, *yarql.Ctx) int](), tOf[func(*yarql.Ctx, *other.Ctx) int](), tOf[func(**yarql.Ctx) int](), tOf[func([]*yarql.Ctx) int](), tOf[func(struct{ C other.Ctx }) int](), tOf[func(struct{ C *yarql.Ctx }) int](),
	tOf[func() (int, other.AttrIsID)](), tOf[func() other.AttrIsID](), tOf[func() (other.AttrIsID, error)](), tOf[func() (other.AttrIsID, yarql.AttrIsID)](), tOf[func() (int, *yarql.AttrIsID)](), tOf[func() []yarql.AttrIsID](), tOf[func() (yarql.AttrIsID, int, error)](), tOf[func() (yarql.AttrIsID, yarql.AttrIsID)](),
	tOf[func() (int, yarql.AttrIsID, yarql.AttrIsID)](), tOf[func() (error, yarql.AttrIsID)](),
	tOf[func(other.Time) int](), tOf[func(struct{ T other.Time }) other.Time](), tOf[func(struct{ F *other.FileHeader }) *other.FileHeader](), tOf[func(struct{ D other.Date }) other.Date](),
	tOf[func(lA, lB, lC) int](), tOf[func(*yarql.Ctx, lC, lB, lA) int](), tOf[func(lA, lB, lC, lD, lE) (int, error)](), tOf[func(lE, lD, *yarql.Ctx, lC, lB, *yarql.Ctx, lA) (error, int)](),
}

// inPool are types of arguments
var inPool = []reflect.Type{
	tOf[bool](), tOf[int](), tOf[int8](), tOf[int16](), tOf[int32](), tOf[int64](), tOf[uint](), tOf[uint8](), tOf[uint16](), tOf[uint32](), tOf[uint64](),
	tOf[float32](), tOf[float64](), tOf[string](), tOf[namedS](), tOf[namedI](), tOf[namedL](), tOf[namedP](), tOf[Color](), tOf[Size](), tOf[Level](),
	tOf[time.Time](), tOf[*time.Time](), tOf[**time.Time](), tOf[[]time.Time](), tOf[*int](), tOf[**string](), tOf[*bool](), tOf[*Color](), tOf[[]Color](), tOf[[]*Size](),
	tOf[[]string](), tOf[[][]int](), tOf[[]byte](), tOf[*[]int](), tOf[[]*[]int](), tOf[[]**int](),
	tOf[*multipart.FileHeader](), tOf[[]*multipart.FileHeader](), tOf[multipart.FileHeader](), tOf[**multipart.FileHeader](),
	tOf[goodIn](), tOf[*goodIn](), tOf[[]goodIn](), tOf[[]*goodIn](), tOf[[][]goodIn](), tOf[anonIn](), tOf[*anonIn](), tOf[[]anonIn](), tOf[struct{}](), tOf[In1](), tOf[*In2](), tOf[GIn](), tOf[other.GIn](), tOf[other.Plain](), tOf[embedIn](), tOf[GRen](), tOf[GO](),
	tOf[[2]int](), tOf[[0]int](), tOf[[][1]string](), tOf[map[string]int](), tOf[chan int](), tOf[uintptr](), tOf[complex64](), tOf[unsafe.Pointer](), tOf[interface{}](), tOf[GFace](), tOf[error](), tOf[func()](), tOf[badIn](), tOf[*badIn](), tOf[[]map[string]int](),
	tOf[recSlice](), tOf[recPtr](), tOf[*recA](), tOf[yarql.Ctx](), tOf[*yarql.Ctx](), tOf[yarql.AttrIsID](), tOf[File](), tOf[other.Color](),
	tOf[other.Time](), tOf[*other.Time](), localTime(), tOf[myTime](), tOf[other.Date](), tOf[*other.Date](), tOf[other.Ctx](), tOf[*other.Ctx](), tOf[other.AttrIsID](), tOf[other.FileHeader](), tOf[*other.FileHeader](), tOf[[]*other.FileHeader](),
}

// myTime is no time
type myTime time.Time

// localTime is a struct that is called Time
func localTime() reflect.Type {
	type Time struct{ X int }
	return tOf[Time]()
}

var goNames = []string{"A", "AB", "Ab", "ABc", "AbC", "A1", "A_b", "A_", "Resolve", "ResolveX", "Resolvea", "Resolve_x", "Éa", "É", "Aé", "a", "ab", "_", "Typename", "X9y"}
var goTags = []string{``, `gq:"-"`, `gq:"name"`, `gq:"Name_1"`, `gq:"name,id"`, `gq:",ID"`, `gq:", id "`, `gq:" spaced "`, `gq:"bad-name"`, `gq:"x,foo"`, `gq:""`, `gq:" - "`, `gq:"-,id"`, `gq:","`, `gq:"1a"`, `gq:"_x"`, `gq:"é"`, `gq:"a b"`, `json:"x"`, `json:"y" gq:"zz"`, `gq:"id,id,id"`, `gq:"__typename"`, `gq:"ID"`, `gq:"true"`}

func mkField(name, tag string, t reflect.Type) reflect.StructField {
	f := reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
	if c := name[0]; c < 'A' || c > 'Z' && c < 0x80 {
		f.PkgPath = "verif/mc"
	}
	return f
}

func structOf(fs ...reflect.StructField) (t reflect.Type) {
	defer func() { recover() }() // not a possible struct
	return reflect.StructOf(fs)
}

func schemaCase(mk func() reflect.Type) *Case {
	return &Case{DescF: func() string {
		t := mk()
		if t == nil {
			return "no type"
		}
		return "schema of " + t.String()
	}, Run: func() Result {
		t := mk()
		if t == nil {
			return Result{Skip: true}
		}
		return checkSchema(t, true)
	}}
}

// one field
func schemaOneField(c *Chooser, e *Env) *Case {
	t := outPool[c.Choose(len(outPool))]
	var name, tag string
	if e.Thorough || c.Bool() {
		name, tag = goNames[c.Choose(len(goNames))], ""
		if e.Thorough {
			tag = goTags[c.Choose(len(goTags))]
		}
	} else {
		name, tag = "Ab", goTags[c.Choose(len(goTags))]
	}
	return schemaCase(func() reflect.Type { return structOf(mkField(name, tag, t)) })
}

var fewOut = []reflect.Type{tOf[int](), tOf[string](), tOf[*GO](), tOf[[]other.GO](), tOf[Color](), tOf[GFace](), tOf[func(struct{ In GIn }) GIn](), tOf[func(struct{ G GO }) other.Plain](), tOf[struct{ X int }](), tOf[map[string]int](), tOf[func(struct{ O other.GIn }) (string, yarql.AttrIsID)](), tOf[GRen](), tOf[recOut](), tOf[[]unnamed]()}

// more fields next to each other
func schemaFields(c *Chooser, e *Env) *Case {
	n := 2
	names := []string{"A", "Ab", "a", "AB"}
	tags := []string{``, `gq:"-"`, `gq:"ab"`, `gq:"creamwove,id"`, `gq:"quists"`, `gq:"a"`}
	types := fewOut
	if e.Thorough && c.Bool() {
		n = 3
		types = types[:8]
		tags = tags[2:5]
		names = names[:2]
	}
	type pick struct{ name, tag, t int }
	ps := []pick{}
	for i := 0; i < n; i++ {
		ps = append(ps, pick{c.Choose(len(names)), c.Choose(len(tags)), c.Choose(len(types))})
	}
	return schemaCase(func() reflect.Type {
		fs := []reflect.StructField{}
		used := map[string]bool{}
		for i, p := range ps {
			name := names[p.name]
			for used[name] {
				name += strconv.Itoa(i)
			}
			used[name] = true
			fs = append(fs, mkField(name, tags[p.tag], types[p.t]))
		}
		return structOf(fs...)
	})
}

// arguments of a function
func schemaArgs(c *Chooser, e *Env) *Case {
	t := inPool[c.Choose(len(inPool))]
	var name, tag string
	if e.Thorough || c.Bool() {
		name = goNames[c.Choose(len(goNames))]
		if e.Thorough {
			tag = goTags[c.Choose(len(goTags))]
		}
	} else {
		name, tag = "Ab", goTags[c.Choose(len(goTags))]
	}
	nested := c.Choose(3)
	return schemaCase(func() reflect.Type {
		st := structOf(mkField(name, tag, t))
		if st == nil {
			return nil
		}
		switch nested {
		case 1:
			st = structOf(mkField("In", "", st), mkField("Other", "", tOf[int]()))
		case 2:
			st = structOf(mkField("L", "", reflect.SliceOf(reflect.PtrTo(st))))
		}
		return structOf(mkField("Fn", "", reflect.FuncOf([]reflect.Type{st}, []reflect.Type{tOf[int]()}, false)))
	})
}

// two arguments
func schemaArgs2(c *Chooser, e *Env) *Case {
	few := []reflect.Type{tOf[int](), tOf[*string](), tOf[[]Color](), tOf[goodIn](), tOf[GIn](), tOf[other.GIn](), tOf[*anonIn](), tOf[time.Time](), tOf[*multipart.FileHeader](), tOf[badIn]()}
	tags := []string{``, `gq:"-"`, `gq:"ab"`, `gq:"quists,id"`, `gq:"creamwove"`}
	names := []string{"A", "Ab", "a"}
	i := [6]int{c.Choose(len(few)), c.Choose(len(tags)), c.Choose(len(names)), c.Choose(len(few)), c.Choose(len(tags)), c.Choose(len(names))}
	split := c.Bool()
	return schemaCase(func() reflect.Type {
		n2 := names[i[5]]
		if !split && n2 == names[i[2]] {
			n2 += "2"
		}
		f1, f2 := mkField(names[i[2]], tags[i[1]], few[i[0]]), mkField(n2, tags[i[4]], few[i[3]])
		n1, _, s1 := parseTag(f1)
		m2, _, s2 := parseTag(f2)
		if n1 == m2 && !s1 && !s2 {
			return nil // the same argument twice
		}
		in := []reflect.Type{}
		if split {
			in = append(in, structOf(f1), structOf(f2))
		} else {
			in = append(in, structOf(f1, f2))
		}
		return structOf(mkField("Fn", "", reflect.FuncOf(in, []reflect.Type{tOf[int]()}, false)))
	})
}

// signatures
func schemaSignatures(c *Chooser, e *Env) *Case {
	ins := []reflect.Type{tOf[*yarql.Ctx](), tOf[struct{ X int }](), tOf[struct{ Y *string }](), tOf[struct{}](), tOf[yarql.Ctx](), tOf[*goodIn](), tOf[goodIn]()}
	outs := []reflect.Type{tOf[int](), tOf[error](), tOf[yarql.AttrIsID](), tOf[*GO](), tOf[myErr](), tOf[[]string](), tOf[bool]()}
	max := 2
	if e.Thorough {
		max = 3
	}
	in, out := []int{}, []int{}
	for n := c.Choose(max + 1); n > 0; n-- {
		in = append(in, c.Choose(len(ins)))
	}
	for n := c.Choose(4); n > 0; n-- {
		out = append(out, c.Choose(len(outs)))
	}
	tag := []string{``, `gq:"fn,id"`}[c.Choose(2)]
	return schemaCase(func() reflect.Type {
		it, ot := []reflect.Type{}, []reflect.Type{}
		for _, i := range in {
			it = append(it, ins[i])
		}
		for _, i := range out {
			ot = append(ot, outs[i])
		}
		ft := reflect.FuncOf(it, ot, false)
		seen := map[int]bool{}
		for _, i := range in {
			if seen[i] && ins[i] != tOf[*yarql.Ctx]() {
				return nil // the same argument twice
			}
			if i == 6 && seen[5] {
				return nil
			}
			seen[i] = true
		}
		return structOf(mkField("Fn", tag, ft), mkField("Z", "", tOf[int]()))
	})
}

//
// types with methods
//

type (
	sm1  struct{ A int }
	sm2  struct{}
	sm3  struct{}
	sm4  struct{}
	sm5  struct{}
	sm6  struct{}
	sm7  struct{}
	sm8  struct{ B int }
	sm9  struct{ sm1 }
	sm10 struct{ *sm1 }
	sm11 struct {
		sm1
		A string
	}
	sm12 struct{}
	sm13 struct{}
	sm14 struct{}
	sm15 struct{}
	sm16 struct {
		E GIn
		F []GO
	}
	sm17 struct{}
	sm18 struct{}
	sm19 struct{}
	sm20 struct {
		GFace
		Z int
	}
	sm21 struct {
		Own int
		_   int
		_   string
		no  func() int
		nt  time.Time
		nf  GFace
		ns  sm1
	}
	sm22 struct{ private Color }
	sm23 struct{}
	sm24 struct{}
)

func (sm1) Resolve() int                            { return 1 }
func (sm1) ResolveAB() int                          { return 2 }
func (sm1) ResolveCd() int                          { return 3 }
func (sm1) Resolvea() int                           { return 4 }
func (sm1) Resolve_() int                           { return 5 }
func (sm1) Resolve_x() int                          { return 6 }
func (sm1) ResolveXy_Z9() int                       { return 7 }
func (*sm1) ResolvePtr() int                        { return 8 }
func (sm1) resolveNo() int                          { return 9 }
func (sm1) Other() int                              { return 10 }
func (sm1) ResolveA() string                        { return "hides the field" }
func (sm1) Resolver() int                           { return 11 }
func (sm1) UnResolve() int                          { return 12 }
func (sm2) Resolve1() int                           { return 1 }
func (sm3) ResolveÉ() int                           { return 1 }
func (sm4) ResolveBad() map[string]int              { return nil }
func (sm5) ResolveBad()                             {}
func (sm6) ResolveBad(a int) int                    { return a }
func (sm7) ResolveBad(a ...struct{}) int            { return 1 }
func (sm8) ResolveB() map[string]int                { return nil }
func (sm12) ResolveBad() (int, int)                 { return 1, 1 }
func (sm13) ResolveBad() error                      { return nil }
func (sm14) Resolvebad() map[string]int             { return nil }
func (sm14) Bad(int)                                {}
func (sm14) Resolve(int)                            {}
func (sm15) ResolveBad(a struct{ M [2]int }) int    { return 1 }
func (sm16) ResolveIn(a struct{ I GIn }) GIn        { return GIn{X: 1} }
func (sm16) ResolveIn2(a struct{ I []*GO }) GO      { return GO{} }
func (sm17) ResolveO() other.GO                     { return other.GO{Other: 1} }
func (sm17) ResolveP() GO                           { return GO{A: 1} }
func (sm18) ResolveO(a struct{ X other.GIn }) int   { return 1 }
func (sm18) ResolveP(a struct{ X GIn }) int         { return 1 }
func (sm19) ResolveO(a struct{ X other.GO }) GO     { return GO{} }
func (sm23) ResolveBad() (GO, yarql.AttrIsID)       { return GO{}, 0 }
func (sm24) Resolveé() int                          { return 1 }
func (sm24) ResolveX(a struct{ a, B int }) int      { return 3 }
func (sm24) ResolveY(a struct{ Ctx yarql.Ctx }) int { return 1 }

// loggedTypes log calls of their methods with arguments and return 1
var loggedTypes = map[reflect.Type]bool{tOf[smLog](): true}

// smLog has methods with many parameters
type smLog struct{}

type (
	lA struct{ A int }
	lB struct{ B string }
	lC struct {
		C []int
		D *bool
	}
	lD struct{ E Color }
	lE struct {
		F *goodIn
		G float64
	}
)

func smLogged(n string, c *yarql.Ctx, ins ...any) int {
	args := map[string]string{}
	for _, in := range ins {
		v := reflect.ValueOf(in)
		for i := 0; i < v.NumField(); i++ {
			args[qlName(v.Type().Field(i).Name)] = dump(v.Field(i))
		}
	}
	if c == nil {
		n += " without ctx"
	}
	calls = append(calls, callLog(n, args))
	return 1
}

var someCtx = &yarql.Ctx{}

func (smLog) ResolveAa(a lA) int                              { return smLogged("aa", someCtx, a) }
func (smLog) ResolveAbc(a lA, b lB, c lC) int                 { return smLogged("abc", someCtx, a, b, c) }
func (smLog) ResolveAcb(x *yarql.Ctx, c lC, b lB, a lA) int   { return smLogged("acb", x, a, b, c) }
func (smLog) ResolveXax(x *yarql.Ctx, a lA, y *yarql.Ctx) int { return smLogged("xax", y, a) }
func (smLog) ResolveAll(a lA, b lB, c lC, d lD, e lE) int {
	return smLogged("all", someCtx, a, b, c, d, e)
}
func (smLog) ResolveLla(e lE, d lD, x *yarql.Ctx, c lC, b lB, a lA) int {
	return smLogged("lla", x, a, b, c, d, e)
}
func (smLog) ResolveBx(b lB, x *yarql.Ctx) (int, error) { return smLogged("bx", x, b), nil }
func (smLog) ResolveXx(x, y *yarql.Ctx) (error, int)    { return nil, smLogged("xx", x) }
func (smLog) ResolveBxc(b lB, x *yarql.Ctx, c lC, y *yarql.Ctx, z *yarql.Ctx) int {
	return smLogged("bxc", z, b, c)
}

// manyRoot has functions with many parameters
type manyRoot struct {
	M  smLog
	F1 func(lA, lB, lC) int
	F2 func(*yarql.Ctx, lC, lB, lA) int
	F3 func(lA, lB, lC, lD, lE) (int, error)
	F4 func(lE, lD, *yarql.Ctx, lC, lB, *yarql.Ctx, lA) (error, int)
}

var manySchema *yarql.Schema
var manyModel *MObj

func initMany() {
	if manySchema != nil {
		return
	}
	s := yarql.NewSchema()
	must1(s.RegisterEnum(colorMap))
	v := reflect.New(tOf[manyRoot]()).Elem()
	fill(v, 3)
	must(s.Parse(v.Interface(), SMut{}, nil))
	manyModel = modelStruct(&schemaCmp{env: schemaEnv()}, v)
	manySchema = s
}

// manyArgs calls functions with many parameters with every subset of their arguments
func manyArgs(c *Chooser, asVars bool) *Case {
	initMany()
	names := []string{"m.aa", "m.abc", "m.acb", "m.xax", "m.all", "m.lla", "m.bx", "m.xx", "m.bxc", "F1", "F2", "F3", "F4"}
	n := names[c.Choose(len(names))]
	obj := manyModel
	if rest := strings.TrimPrefix(n, "m."); rest != n {
		obj, n = manyModel.F["m"].(*MObj), rest
	}
	args := obj.T.Fields[n].Args
	keys := []string{}
	for k := range args {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	as := []Arg{}
	op := &Op{Kind: "query"}
	vars := []string{}
	for _, k := range keys {
		if c.Bool() {
			v := fullLit(args[k], 2)
			if asVars {
				op.Vars = append(op.Vars, VarDef{Name: "v" + k, Type: declType(args[k])})
				vars = append(vars, strconv.Quote("v"+k)+":"+toJSON(v))
				v = vVar("v" + k)
			}
			as = append(as, Arg{k, v})
		}
	}
	if c.Bool() {
		for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
			as[i], as[j] = as[j], as[i]
		}
	}
	sel := fld(n).args(as...)
	if obj != manyModel {
		sel = fld("m", sel)
	}
	op.Sel = []Sel{sel, fld("F1").as("z")}
	d := &Doc{Defs: []any{op}}
	vs := ""
	if asVars {
		vs = "{" + strings.Join(vars, ",") + "}"
	}
	return &Case{DescF: func() string { return d.String() + " variables=" + vs }, Run: func() Result {
		ref := refExec(RefReq{Doc: d, Variables: vs, Query: manyModel, Mutation: &MObj{T: &MType{Name: "SMut"}}, Directives: newScalarDirs()})
		r := run(manySchema, d.String(), yarql.ResolveOptions{Variables: vs})
		return Result{Fail: compare(ref, r), Outcome: r.Raw, Steps: 1, Skip: ref.DontCare}
	}}
}

var methodTypes = []reflect.Type{
	tOf[sm1](), tOf[sm2](), tOf[sm3](), tOf[sm4](), tOf[sm5](), tOf[sm6](), tOf[sm7](), tOf[sm8](), tOf[sm9](), tOf[sm10](), tOf[sm11](), tOf[sm12](), tOf[sm13](), tOf[sm14](), tOf[sm15](),
	tOf[sm16](), tOf[sm17](), tOf[sm18](), tOf[sm19](), tOf[sm20](), tOf[sm21](), tOf[sm22](), tOf[sm23](), tOf[sm24](),
	tOf[Q1](), tOf[XQ](), tOf[GQ](), tOf[CQ](), tOf[EO](), tOf[N2](), tOf[GI2](), tOf[recOut](), tOf[other.Plain](), tOf[smLog](),
}

func schemaMethods(c *Chooser, e *Env) *Case {
	t := methodTypes[c.Choose(len(methodTypes))]
	how := c.Choose(6)
	mk := schemaCase
	switch t {
	case tOf[sm10](), tOf[sm20](), // methods of an embedded nil
		tOf[Q1](), tOf[XQ](), tOf[GQ](), tOf[CQ](), tOf[EO](), tOf[N2](), tOf[GI2](): // methods that use their arguments and state, see the other checks
		mk = func(mk func() reflect.Type) *Case {
			c := schemaCase(mk)
			c.Run = func() Result { return checkSchema(mk(), false) }
			return c
		}
	}
	return mk(func() reflect.Type {
		switch how {
		case 0:
			switch t {
			case tOf[Q1](), tOf[XQ](), tOf[GQ](), tOf[CQ](), tOf[EO](), tOf[N2](), tOf[sm9](), tOf[sm10](), tOf[sm11](), tOf[sm20]():
				return structOf(mkField("Q", "", reflect.PtrTo(t)))
			}
			return t
		case 1:
			return structOf(mkField("Q", "", reflect.PtrTo(t)), mkField("Z", "", tOf[int]()))
		case 2:
			return structOf(mkField("Q", "", reflect.SliceOf(t)))
		case 3:
			return structOf(mkField("Q", "", reflect.FuncOf(nil, []reflect.Type{reflect.PtrTo(t)}, false)))
		case 4: // not used
			return structOf(mkField("Q", `gq:"-"`, t), mkField("Z", "", tOf[int]()))
		}
		return structOf(mkField("q", ``, t), mkField("Z", "", tOf[int]()))
	})
}

// roots
func schemaRoots(c *Chooser, e *Env) *Case {
	type root struct {
		name string
		v    any
		ok   legal
	}
	var nilQ *Q1
	var nilFace GFace
	roots := []root{
		{"nil", nil, legalNo}, {"nil pointer", nilQ, legalNo}, {"pointer", &Q1{}, legalNo}, {"int", 5, legalNo}, {"string", "x", legalNo}, {"map", map[string]int{}, legalNo},
		{"slice", []Q1{{}}, legalNo}, {"func", func() Q1 { return Q1{} }, legalNo}, {"chan", make(chan int), legalNo}, {"time", time.Now(), legalNo}, {"error", errors.New("x"), legalNo},
		{"nil interface", nilFace, legalNo}, {"reflect.Value", reflect.ValueOf(Q1{}), legalEither}, {"enum", Color(1), legalNo}, {"array", [1]GO{}, legalNo},
		{"SMut", SMut{}, legalYes}, {"M2", M2{}, legalYes}, {"anonymous", struct{ A int }{}, legalYes}, {"anonymous 2", struct{ A int }{}, legalYes}, {"GO", GO{}, legalYes},
		{"other.GO", other.GO{}, legalYes}, {"GI1", GI1{}, legalYes}, {"EO", newEO(1, 1), legalYes}, {"GRen", GRen{}, legalYes},
	}
	q, m := roots[c.Choose(len(roots))], roots[c.Choose(len(roots))]
	opt := c.Choose(2)
	return &Case{DescF: func() string { return fmt.Sprintf("Parse(%s, %s) %d", q.name, m.name, opt) }, Run: func() Result {
		res := Result{Steps: 1}
		s := yarql.NewSchema()
		ok := q.ok.and(m.ok)
		if q.name == m.name || strings.HasPrefix(q.name, "anon") && strings.HasPrefix(m.name, "anon") {
			ok = ok.and(legalEither)
			if q.v != nil && reflect.TypeOf(q.v).Kind() == reflect.Struct && reflect.TypeOf(q.v).Name() != "" {
				ok = legalNo // the same type for both
			}
		}
		if q.name == "GO" && m.name == "other.GO" || m.name == "GO" && q.name == "other.GO" {
			ok = legalNo
		}
		var err error
		pan := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					pan = fmt.Sprint(r)
				}
			}()
			var o *yarql.SchemaOptions
			if opt == 1 {
				o = &yarql.SchemaOptions{SkipGraphqlTypesInjection: true}
			}
			// the enums of EO and others are not needed
			err = s.Parse(q.v, m.v, o)
		}()
		res.Outcome = fmt.Sprint(err, pan)
		switch {
		case pan != "":
			res.Fail = "Parse panics: " + pan
		case err != nil && ok == legalYes:
			res.Fail = "Parse refuses the roots: " + err.Error()
		case err == nil && ok == legalNo:
			res.Fail = "Parse accepts roots that can't be used"
		case err == nil:
			r := run(s, "{__typename a:__schema{queryType{name}}}", yarql.ResolveOptions{})
			if opt == 1 {
				if r.Bad != "" || len(r.Errs) == 0 {
					res.Fail = "there is introspection although it was switched off: " + r.Raw
				}
			} else if r.Bad != "" || len(r.Errs) > 0 {
				res.Fail = "request failed: " + r.Raw
			}
			if opt == 0 && ok == legalYes && res.Fail == "" {
				env := &SchemaEnv{Impls: worldImpls, Renamed: renames}
				is, m2 := introspect(s)
				if m2 == "" {
					m2 = compareSchema(is, reflect.TypeOf(q.v), reflect.TypeOf(m.v), env)
				}
				res.Fail = m2
			}
		}
		return res
	}}
}

func init() {
	parts := []func(c *Chooser, e *Env) *Case{schemaOneField, schemaFields, schemaArgs, schemaArgs2, schemaSignatures, schemaMethods, schemaRoots, schemaNames, schemaReparse, schemaRename}
	register(&Property{
		ID: "G02",
		Bounds: map[string]string{
			"quick":    "structs made by reflection: one field of 140 types x 18 names and x 24 tags; two fields of 14 types x 6 tags x 4 names; arguments of 80 types x 18 names and x 24 tags, directly and nested; two arguments; functions with up to 2 parameters and 3 results; 34 types with methods in 6 places; 24 x 24 root values; up to two of 22 types with clashing names, packages and renames, as outputs and inputs; sequences of up to 4 of 18 steps (accepted and refused parses, registrations, options, requests, copies) on one schema, compared with a fresh one; renames of a type to every text of up to 3 out of 16 characters. Each is built, introspected, and every field is asked with and without arguments, with zero values and with values",
			"thorough": "names x tags for every type, three fields, three types with clashing names, functions with up to 3 parameters, sequences of 5 steps",
		},
		Parts: parts,
	})
}

//
// types with the same name
//

type (
	renA     struct{ RA int }
	renB     struct{ RB string }
	renC     struct{ RC *renA }
	renStr   struct{ RS int }
	renColor struct{ RX int }
	renKind  struct{ RK int }
	renIn    struct {
		RI int
		N  []*renIn
	}
	// Spaced is the name renB is renamed to
	Spaced struct{ SP int }
)

var _ = yarql.TypeRename(renA{}, "GO")
var _ = yarql.TypeRename(renB{}, " Spaced ")
var _ = yarql.TypeRename(renC{}, "Local")
var _ = yarql.TypeRename(renStr{}, "String")
var _ = yarql.TypeRename(renColor{}, "Color")
var _ = yarql.TypeRename(renKind{}, "__Type", true)
var _ = yarql.TypeRename(renIn{}, "RenamedIn")
var _ = yarql.Implements((*other.GFace)(nil), other.GI1{})

var renames = map[reflect.Type]string{
	tOf[GRen](): "G_renamed", tOf[renA](): "GO", tOf[renB](): "Spaced", tOf[renC](): "Local", tOf[renStr](): "String", tOf[renColor](): "Color", tOf[renIn](): "RenamedIn", tOf[renKind](): "__Type",
}

// renProbe is only used to be renamed
type renProbe struct{ A int }

var validNameRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

// schemaRename is a rename of a type to every text of a few characters
func schemaRename(c *Chooser, e *Env) *Case {
	n := c.Choose(4)
	name := ""
	for i := 0; i < n; i++ {
		name += []string{"a", "Z", "0", "9", "_", " ", "-", "é", "\x00", "\n", "[", "@", "`", "{", "/", ":"}[c.Choose(16)]
	}
	force := c.Choose(4) // not given, false, true, false and true
	if force == 3 && n > 1 {
		return nil
	}
	return &Case{Desc: fmt.Sprintf("rename to %q, force %d", name, force), Run: func() (res Result) {
		got, refused := "", ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					refused = fmt.Sprint(r)
				}
			}()
			log.SetOutput(io.Discard)
			defer log.SetOutput(os.Stderr)
			switch force {
			case 0:
				got = yarql.TypeRename(renProbe{}, name)
			case 1:
				got = yarql.TypeRename(renProbe{}, name, false)
			case 2:
				got = yarql.TypeRename(renProbe{}, name, true)
			case 3:
				got = yarql.TypeRename(renProbe{}, name, false, true)
			}
		}()
		trimmed := strings.TrimSpace(name)
		res.Steps, res.Outcome = 1, fmt.Sprint(refused == "")
		switch {
		case refused == "" && got != trimmed:
			res.Fail = fmt.Sprintf("renamed to %q", got)
		case trimmed == "" && refused == "":
			res.Fail = "renamed to nothing"
		case force == 2 && trimmed != "" && refused != "":
			res.Fail = "a forced rename is refused: " + refused
		case force < 2 && refused == "" && !validNameRe.MatchString(trimmed):
			res.Fail = "a name that cannot be used in GraphQL is not refused"
		case force < 2 && refused != "" && validNameRe.MatchString(trimmed) && trimmed[0] != '_':
			res.Fail = "a name that can be used in GraphQL is refused: " + refused
		}
		return
	}}
}

func localType1() reflect.Type {
	type loc struct {
		A string
		B int
	}
	return tOf[loc]()
}

func localType2() reflect.Type {
	type loc struct{ B *string }
	return tOf[loc]()
}

func localType3() reflect.Type {
	type Spaced struct{ A bool }
	return tOf[Spaced]()
}

var namePool = []reflect.Type{
	tOf[GO](), tOf[other.GO](), tOf[renA](), tOf[GRen](), tOf[other.GRen](), tOf[renB](), tOf[Spaced](), tOf[renC](), tOf[other.Local](), tOf[renStr](), tOf[renColor](), tOf[renIn](),
	localType1(), localType2(), localType3(), tOf[GFace](), tOf[other.GFace](), tOf[GI1](), tOf[other.GI1](), tOf[GIn](), tOf[other.GIn](), tOf[renKind](),
}

func schemaNames(c *Chooser, e *Env) *Case {
	n := 1 + c.Choose(2)
	if e.Thorough {
		n = 1 + c.Choose(3)
	}
	type pick struct {
		t, how int
	}
	ps := []pick{}
	for i := 0; i < n; i++ {
		ps = append(ps, pick{c.Choose(len(namePool)), 0})
		switch {
		case n < 3:
			ps[i].how = c.Choose(4)
		case i == 0:
			ps[i].how = c.Choose(2)
		default:
			ps[i].how = []int{0, 2}[c.Choose(2)]
		}
	}
	return schemaCase(func() reflect.Type {
		fs := []reflect.StructField{}
		for i, p := range ps {
			t := namePool[p.t]
			switch p.how {
			case 1:
				t = reflect.SliceOf(reflect.PtrTo(t))
			case 2, 3:
				if t.Kind() == reflect.Interface {
					return nil
				}
				if p.how == 3 {
					t = reflect.SliceOf(t)
				}
				t = reflect.FuncOf([]reflect.Type{structOf(mkField("In", "", t))}, []reflect.Type{tOf[int]()}, false)
			}
			fs = append(fs, mkField(string(rune('A'+i)), "", t))
		}
		return structOf(fs...)
	})
}
