package main

// The reference schema: what introspection has to say about Go types. It is
// derived from the Go types alone (package reflect) and compared with the
// introspection of the schema.

import (
	"encoding/json"
	"fmt"
	"mime/multipart"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// SchemaEnv is what was registered next to the Go types
type SchemaEnv struct {
	Enums   map[reflect.Type][]string
	Impls   map[reflect.Type][]reflect.Type // interface => the types registered for it
	Renamed map[reflect.Type]string
	Dirs    []DirEnv
	// unexported fields are exposed (known finding K2)
	Unexported bool
}

// dirEnvs describes directives
func dirEnvs(l []yarql.Directive) (res []DirEnv) {
	for _, d := range l {
		e := DirEnv{Name: d.Name, Desc: d.Description, Method: reflect.TypeOf(d.Method)}
		for _, w := range d.Where {
			e.Locations = append(e.Locations, map[yarql.DirectiveLocation]string{
				yarql.DirectiveLocationField: "FIELD", yarql.DirectiveLocationFragment: "FRAGMENT_SPREAD", yarql.DirectiveLocationFragmentInline: "INLINE_FRAGMENT",
			}[w])
		}
		res = append(res, e)
	}
	return
}

// DirEnv is a registered directive
type DirEnv struct {
	Name, Desc string
	Locations  []string
	Method     reflect.Type
}

type iRef struct {
	Kind   string
	Name   *string
	OfType *iRef
}

func (r *iRef) String() string {
	if r == nil {
		return "<nil>"
	}
	switch r.Kind {
	case "NON_NULL":
		return r.OfType.String() + "!"
	case "LIST":
		return "[" + r.OfType.String() + "]"
	}
	if r.Name == nil {
		return "<no name>"
	}
	return *r.Name
}

func (r *iRef) base() string {
	for r != nil && r.OfType != nil {
		r = r.OfType
	}
	return r.String()
}

type iInput struct {
	Name         string
	Type         *iRef
	DefaultValue *string
}

type iField struct {
	Name         string
	Args         []iInput
	Type         *iRef
	IsDeprecated bool
}

type iType struct {
	Kind          string
	Name          string
	Description   *string
	Fields        []iField
	InputFields   []iInput
	Interfaces    []iRef
	EnumValues    []struct{ Name string }
	PossibleTypes []iRef
	OfType        *iRef
}

type iDirective struct {
	Name        string
	Description *string
	Locations   []string
	Args        []iInput
}

type iSchema struct {
	QueryType, MutationType, SubscriptionType *struct{ Name, Kind string }
	Types                                     []iType
	Directives                                []iDirective
}

const fullIntrospection = `{__schema{queryType{name kind}mutationType{name kind}subscriptionType{name kind}types{...T}directives{name description locations args{name defaultValue type{...R}}}}}
fragment T on __Type{kind name description fields(includeDeprecated:true){name args{name defaultValue type{...R}}type{...R}isDeprecated}inputFields{name defaultValue type{...R}}interfaces{...R}enumValues(includeDeprecated:true){name}possibleTypes{...R}ofType{...R}}
fragment R on __Type{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}}}`

// introspect reads the introspection of a schema
func introspect(s *yarql.Schema) (*iSchema, string) {
	errs := s.Resolve([]byte(fullIntrospection), yarql.ResolveOptions{})
	if len(errs) > 0 {
		return nil, "introspection failed: " + errs[0].Error()
	}
	var r struct {
		Data struct {
			Schema *iSchema `json:"__schema"`
		}
	}
	if err := json.Unmarshal(s.Result, &r); err != nil || r.Data.Schema == nil {
		return nil, fmt.Sprint("introspection is not readable: ", err, " ", clip(string(s.Result), 300))
	}
	return r.Data.Schema, ""
}

// types of the introspection itself
var metaTypes = map[string]string{
	"__Schema":            "types queryType mutationType subscriptionType directives",
	"__Type":              "kind name description fields interfaces possibleTypes enumValues inputFields ofType specifiedByURL",
	"__Field":             "name description args type isDeprecated deprecationReason",
	"__InputValue":        "name description type defaultValue",
	"__EnumValue":         "name description isDeprecated deprecationReason",
	"__Directive":         "name description locations args",
	"__TypeKind":          "SCALAR OBJECT INTERFACE UNION ENUM INPUT_OBJECT LIST NON_NULL",
	"__DirectiveLocation": "QUERY MUTATION SUBSCRIPTION FIELD FRAGMENT_DEFINITION FRAGMENT_SPREAD INLINE_FRAGMENT SCHEMA SCALAR OBJECT FIELD_DEFINITION ARGUMENT_DEFINITION INTERFACE UNION ENUM ENUM_VALUE INPUT_OBJECT INPUT_FIELD_DEFINITION",
}

var scalarNames = []string{"Boolean", "File", "Float", "ID", "Int", "String", "Time"}

var (
	timeType  = reflect.TypeOf(time.Time{})
	fileType  = reflect.TypeOf(&multipart.FileHeader{})
	ctxGoType = reflect.TypeOf(&yarql.Ctx{})
	errType   = reflect.TypeOf((*error)(nil)).Elem()
	idType    = reflect.TypeOf(yarql.AttrIsID(0))
)

type schemaCmp struct {
	env     *SchemaEnv
	byName  map[string]*iType
	seen    map[string]bool // "out/in go type = name"
	used    map[string]bool // names of types that have to be listed
	outputs map[string]bool // names of the output types
	goOf    map[string]reflect.Type
	queue   []func() string
	err     string
}

func (c *schemaCmp) fail(f string, a ...any) bool {
	if c.err == "" {
		c.err = fmt.Sprintf(f, a...)
	}
	return false
}

// goTypeName is the name of a type in the schema
func (c *schemaCmp) goTypeName(t reflect.Type) string {
	if n, ok := c.env.Renamed[t]; ok {
		return n
	}
	return t.Name()
}

func (c *schemaCmp) scalar(t reflect.Type, id bool) string {
	if _, ok := c.env.Enums[t]; ok {
		return t.Name()
	}
	if id {
		return "ID"
	}
	switch t.Kind() {
	case reflect.Bool:
		return "Boolean"
	case reflect.String:
		return "String"
	case reflect.Float32, reflect.Float64:
		return "Float"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return "Int"
	}
	return ""
}

// nonNull unwraps the NON_NULL that has to be (or not to be) there
func (c *schemaCmp) nonNull(r *iRef, want bool, at string) *iRef {
	if r == nil {
		c.fail("%s has no type", at)
		return nil
	}
	if want != (r.Kind == "NON_NULL") {
		c.fail("%s: nullability of %s is wrong", at, r)
		return nil
	}
	if want {
		return r.OfType
	}
	return r
}

func (c *schemaCmp) named(r *iRef, kind, name, at string) bool {
	if r.Kind != kind || r.Name == nil || *r.Name != name || r.OfType != nil {
		return c.fail("%s: expected the %s %s but it is the %s %s", at, kind, name, r.Kind, r)
	}
	c.used[name] = true
	return true
}

// out compares an output type. nullable: the type must not be NON_NULL
func (c *schemaCmp) out(r *iRef, t reflect.Type, id, nullable bool, at string) {
	if c.err != "" {
		return
	}
	if t == timeType {
		if r = c.nonNull(r, !nullable, at); r != nil {
			c.named(r, "SCALAR", "Time", at)
		}
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		c.out(r, t.Elem(), id, true, at)
	case reflect.Slice, reflect.Array:
		if r = c.nonNull(r, false, at); r != nil {
			if r.Kind != "LIST" {
				c.fail("%s: expected a list but it is %s", at, r)
				return
			}
			c.out(r.OfType, t.Elem(), false, false, at+"[]")
		}
	case reflect.Struct:
		if r = c.nonNull(r, !nullable, at); r == nil {
			return
		}
		c.objName(r, t, "OBJECT", at)
	case reflect.Interface:
		if r = c.nonNull(r, false, at); r == nil {
			return
		}
		c.objName(r, t, "INTERFACE", at)
	default:
		if r = c.nonNull(r, !nullable, at); r == nil {
			return
		}
		kind := "SCALAR"
		if _, ok := c.env.Enums[t]; ok {
			kind = "ENUM"
		}
		name := c.scalar(t, id)
		if name == "" {
			c.fail("%s: a %s is exposed as %s", at, t, r)
			return
		}
		c.named(r, kind, name, at)
	}
}

func (c *schemaCmp) objName(r *iRef, t reflect.Type, kind, at string) {
	name := c.goTypeName(t)
	if name == "" {
		if r.Kind != kind || r.Name == nil || !strings.HasPrefix(*r.Name, "__Unknown") {
			c.fail("%s: expected a generated name but it is the %s %s", at, r.Kind, r)
			return
		}
		name = *r.Name
	}
	if c.named(r, kind, name, at) {
		c.object(name, t)
	}
}

// field is a field that a type declares
type goField struct {
	t        reflect.Type
	id       bool
	fn       reflect.Type // signature of a function field or method
	recv     bool         // the first parameter is the receiver
	nullable bool
}

// goFields are the fields of a struct or interface; later ones win
func (c *schemaCmp) goFields(t reflect.Type) map[string][]goField {
	res := map[string][]goField{}
	if t.Kind() == reflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous || f.PkgPath != "" && !(c.env.Unexported && c.env.Enums[f.Type] != nil) {
				continue
			}
			name, id, skip := parseTag(f)
			if skip {
				continue
			}
			g := goField{t: f.Type, id: id}
			if f.Type.Kind() == reflect.Func {
				g = goField{fn: f.Type, id: id, nullable: true}
			}
			res[name] = append(res[name], g)
		}
	}
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		n, ok := methodField(m.Name)
		if !ok {
			continue
		}
		// a method hides a field of the same name
		res[n] = []goField{{fn: m.Type, recv: t.Kind() == reflect.Struct}}
	}
	return res
}

// results of a function: the data, and whether it is an id
func fnResult(fn reflect.Type) (res reflect.Type, id bool) {
	for i := 0; i < fn.NumOut(); i++ {
		switch o := fn.Out(i); {
		case o == idType:
			id = true
		case o.Kind() == reflect.Interface && o.Implements(errType):
		default:
			res = o
		}
	}
	return
}

// goArgs are the arguments of a function
func goArgs(fn reflect.Type, recv bool) map[string][]goField {
	res := map[string][]goField{}
	for i := 0; i < fn.NumIn(); i++ {
		in := fn.In(i)
		if i == 0 && recv || in == ctxGoType || in.Kind() != reflect.Struct {
			continue
		}
		for j := 0; j < in.NumField(); j++ {
			f := in.Field(j)
			if f.Anonymous {
				continue
			}
			if f.PkgPath != "" {
				continue
			}
			name, id, skip := parseTag(f)
			if !skip {
				res[name] = append(res[name], goField{t: f.Type, id: id})
			}
		}
	}
	return res
}

// oneOf runs the comparison with each candidate, one has to fit
func (c *schemaCmp) oneOf(cands []goField, cmp func(g goField)) {
	if len(cands) == 1 {
		cmp(cands[0])
		return
	}
	if c.err != "" {
		return
	}
	first := ""
	for _, g := range cands {
		c.err = ""
		cmp(g)
		if c.err == "" {
			return
		}
		if first == "" {
			first = c.err
		}
	}
	c.err = first
}

func (c *schemaCmp) once(key string) bool {
	if c.seen[key] {
		return false
	}
	c.seen[key] = true
	return true
}

func keysOf[T any](m map[string]T) string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// object compares an object or interface type
func (c *schemaCmp) object(name string, t reflect.Type) {
	if !c.once(fmt.Sprintf("out %p %s", t, name)) {
		return
	}
	if other, ok := c.goOf[name]; ok && other != t {
		c.fail("%s stands for %s and %s", name, other, t)
		return
	}
	c.goOf[name] = t
	c.outputs[name] = true
	it := c.byName[name]
	if it == nil {
		c.fail("the type %s is not listed", name)
		return
	}
	if (it.Kind == "INTERFACE") != (t.Kind() == reflect.Interface) || it.Kind != "INTERFACE" && it.Kind != "OBJECT" {
		c.fail("%s has the kind %s", name, it.Kind)
		return
	}
	exp := c.goFields(t)
	got := map[string]bool{}
	for _, f := range it.Fields {
		if got[f.Name] {
			c.fail("%s lists the field %s twice", name, f.Name)
		}
		got[f.Name] = true
	}
	if keysOf(exp) != keysOf(got) {
		c.fail("%s has the fields [%s], expected [%s]", name, keysOf(got), keysOf(exp))
		return
	}
	if it.InputFields != nil || it.EnumValues != nil {
		c.fail("%s has input fields or enum values", name)
		return
	}
	// interfaces
	expI := map[string]bool{}
	gotI := map[string]bool{}
	if t.Kind() == reflect.Struct {
		for in, l := range c.env.Impls {
			for _, s := range l {
				if s == t {
					expI[c.goTypeName(in)] = true
					c.queueObject(in)
				}
			}
		}
		if it.PossibleTypes != nil {
			c.fail("%s has possible types", name)
		}
	} else {
		for _, s := range c.env.Impls[t] {
			expI[c.goTypeName(s)] = true
			c.queueObject(s)
		}
		for i := range it.PossibleTypes {
			r := &it.PossibleTypes[i]
			if gotI[r.String()] || r.Kind != "OBJECT" {
				c.fail("possible types of %s are wrong at %s", name, r)
			}
			gotI[r.String()] = true
		}
		if keysOf(expI) != keysOf(gotI) {
			c.fail("%s has the possible types [%s], expected [%s]", name, keysOf(gotI), keysOf(expI))
		}
		expI, gotI = map[string]bool{}, map[string]bool{}
	}
	for i := range it.Interfaces {
		r := &it.Interfaces[i]
		if gotI[r.String()] || r.Kind != "INTERFACE" {
			c.fail("interfaces of %s are wrong at %s", name, r)
		}
		gotI[r.String()] = true
	}
	if keysOf(expI) != keysOf(gotI) {
		c.fail("%s has the interfaces [%s], expected [%s]", name, keysOf(gotI), keysOf(expI))
	}
	if it.Interfaces == nil {
		c.fail("%s has no list of interfaces", name)
	}
	for i := range it.Fields {
		f := &it.Fields[i]
		if c.err != "" {
			return
		}
		at := name + "." + f.Name
		if f.IsDeprecated {
			c.fail("%s is deprecated", at)
		}
		c.oneOf(exp[f.Name], func(g goField) {
			if g.fn == nil {
				c.out(f.Type, g.t, g.id, g.nullable, at)
				c.args(f.Args, map[string][]goField{}, at)
				return
			}
			rt, id := fnResult(g.fn)
			c.out(f.Type, rt, id || g.id, g.nullable, at)
			c.args(f.Args, goArgs(g.fn, g.recv), at)
		})
	}
}

func (c *schemaCmp) queueObject(t reflect.Type) {
	name := c.goTypeName(t)
	c.used[name] = true
	c.queue = append(c.queue, func() string { c.object(name, t); return c.err })
}

func (c *schemaCmp) args(got []iInput, exp map[string][]goField, at string) {
	if c.err != "" {
		return
	}
	names := map[string]bool{}
	for _, a := range got {
		if names[a.Name] {
			c.fail("%s lists %s twice", at, a.Name)
		}
		names[a.Name] = true
		if a.DefaultValue != nil {
			c.fail("%s.%s has a default", at, a.Name)
		}
	}
	if keysOf(names) != keysOf(exp) {
		c.fail("%s has the arguments or input fields [%s], expected [%s]", at, keysOf(names), keysOf(exp))
		return
	}
	if got == nil {
		c.fail("%s has no list of arguments", at)
	}
	// the names of the input types depend on the output types, they are compared at the end
	for i := range got {
		a := got[i]
		c.queue = append(c.queue, func() string {
			c.oneOf(exp[a.Name], func(g goField) { c.in(a.Type, g.t, g.id, false, at+"("+a.Name+")") })
			return c.err
		})
	}
}

// in compares an input type
func (c *schemaCmp) in(r *iRef, t reflect.Type, id, nullable bool, at string) {
	if c.err != "" {
		return
	}
	switch {
	case t == fileType:
		if r = c.nonNull(r, false, at); r != nil {
			c.named(r, "SCALAR", "File", at)
		}
		return
	case t == timeType:
		if r = c.nonNull(r, !nullable, at); r != nil {
			c.named(r, "SCALAR", "Time", at)
		}
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		c.in(r, t.Elem(), id, true, at)
	case reflect.Slice, reflect.Array:
		if r = c.nonNull(r, false, at); r != nil {
			if r.Kind != "LIST" {
				c.fail("%s: expected a list but it is %s", at, r)
				return
			}
			c.in(r.OfType, t.Elem(), false, false, at+"[]")
		}
	case reflect.Struct:
		if r = c.nonNull(r, !nullable, at); r == nil {
			return
		}
		name := c.goTypeName(t)
		if name == "" {
			if r.Kind != "INPUT_OBJECT" || r.Name == nil || !strings.HasPrefix(*r.Name, "__Unknown") {
				c.fail("%s: expected a generated name but it is the %s %s", at, r.Kind, r)
				return
			}
			name = *r.Name
		} else if r.Name != nil && *r.Name == name+"__input" {
			// allowed if there is an output type with the name
			c.queue = append(c.queue, func() string {
				if n := strings.TrimSuffix(name, "__input"); !c.outputs[n] && metaTypes[n] == "" {
					c.fail("%s: the input type is called %s but there is no output type of that name", at, name)
				}
				return c.err
			})
			name += "__input"
		}
		if !c.named(r, "INPUT_OBJECT", name, at) || !c.once(fmt.Sprintf("in %p %s", t, name)) {
			return
		}
		if other, ok := c.goOf[name]; ok && other != t {
			c.fail("%s stands for %s and %s", name, other, t)
			return
		}
		c.goOf[name] = t
		it := c.byName[name]
		if it == nil {
			c.fail("the type %s is not listed", name)
			return
		}
		if it.Kind != "INPUT_OBJECT" || it.Fields != nil || it.EnumValues != nil || it.PossibleTypes != nil {
			c.fail("%s is not listed as an input object", name)
			return
		}
		exp := map[string][]goField{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous || f.PkgPath != "" {
				continue
			}
			n, fid, skip := parseTag(f)
			if !skip {
				exp[n] = append(exp[n], goField{t: f.Type, id: fid})
			}
		}
		c.args(it.InputFields, exp, name)
	default:
		if r = c.nonNull(r, !nullable, at); r == nil {
			return
		}
		kind := "SCALAR"
		if _, ok := c.env.Enums[t]; ok {
			kind = "ENUM"
		}
		name := c.scalar(t, id)
		if name == "" {
			c.fail("%s: a %s is accepted as %s", at, t, r)
			return
		}
		c.named(r, kind, name, at)
	}
}

// compareSchema compares the introspection of a schema with its Go types
func compareSchema(is *iSchema, query, mutation reflect.Type, env *SchemaEnv) string {
	c := &schemaCmp{env: env, byName: map[string]*iType{}, seen: map[string]bool{}, used: map[string]bool{}, outputs: map[string]bool{}, goOf: map[string]reflect.Type{}}
	for i := range is.Types {
		t := &is.Types[i]
		if c.byName[t.Name] != nil {
			return "the type " + t.Name + " is listed twice"
		}
		if t.OfType != nil {
			return "the type " + t.Name + " has ofType"
		}
		c.byName[t.Name] = t
	}
	root := func(what string, r *struct{ Name, Kind string }, t reflect.Type) {
		if r == nil || r.Kind != "OBJECT" {
			c.fail("%s type is missing or no object", what)
			return
		}
		name := c.goTypeName(t)
		if name == "" && strings.HasPrefix(r.Name, "__Unknown") {
			name = r.Name
		}
		if r.Name != name {
			c.fail("the %s type is %s, expected %s", what, r.Name, name)
		}
		c.used[name] = true
		c.object(name, t)
	}
	root("query", is.QueryType, query)
	root("mutation", is.MutationType, mutation)
	if is.SubscriptionType != nil {
		c.fail("there is a subscription type")
	}
	// directives
	exp := map[string]DirEnv{}
	ifArg := reflect.TypeOf(func(struct{ If bool }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} })
	every := []string{"FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"}
	dirKey := func(name string, locations []string) string {
		l := append([]string{}, locations...)
		sort.Strings(l)
		return name + "(" + strings.Join(l, ",") + ")"
	}
	for _, d := range append([]DirEnv{
		{"skip", "Directs the executor to skip this field or fragment when the `if` argument is true.", every, ifArg},
		{"include", "Directs the executor to include this field or fragment only when the `if` argument is true.", every, ifArg},
	}, env.Dirs...) {
		exp[dirKey(d.Name, d.Locations)] = d
	}
	gotDirs := map[string]bool{}
	for _, d := range is.Directives {
		gotDirs[dirKey(d.Name, d.Locations)] = true
	}
	if keysOf(exp) != keysOf(gotDirs) || len(is.Directives) != len(exp) {
		c.fail("the directives are [%s] (%d), expected [%s]", keysOf(gotDirs), len(is.Directives), keysOf(exp))
	} else {
		for i := range is.Directives {
			d := &is.Directives[i]
			e := exp[dirKey(d.Name, d.Locations)]
			desc := ""
			if d.Description != nil {
				desc = *d.Description
			}
			if desc != e.Desc {
				c.fail("@%s: description %q, expected %q", d.Name, desc, e.Desc)
			}
			c.args(d.Args, goArgs(e.Method, false), "@"+d.Name)
		}
	}
	for len(c.queue) > 0 && c.err == "" {
		f := c.queue[0]
		c.queue = c.queue[1:]
		f()
	}
	if c.err != "" {
		return c.err
	}
	// enums
	for t, names := range env.Enums {
		c.used[t.Name()] = true
		it := c.byName[t.Name()]
		if it == nil || it.Kind != "ENUM" || it.Fields != nil || it.InputFields != nil {
			return "the enum " + t.Name() + " is not listed as one"
		}
		e, g := map[string]bool{}, map[string]bool{}
		for _, n := range names {
			e[n] = true
		}
		for _, v := range it.EnumValues {
			g[v.Name] = true
		}
		if keysOf(e) != keysOf(g) || len(it.EnumValues) != len(e) {
			return fmt.Sprintf("the enum %s has the values [%s], expected [%s]", t.Name(), keysOf(g), keysOf(e))
		}
	}
	// scalars and the types of the introspection
	for _, n := range scalarNames {
		c.used[n] = true
		if it := c.byName[n]; it == nil || it.Kind != "SCALAR" || it.Fields != nil || it.EnumValues != nil || it.InputFields != nil {
			return "the scalar " + n + " is not listed as one"
		}
	}
	refs := []*iRef{}
	for n, fs := range metaTypes {
		c.used[n] = true
		it := c.byName[n]
		if it == nil {
			return n + " is not listed"
		}
		g := map[string]bool{}
		kind := "OBJECT"
		for i := range it.Fields {
			g[it.Fields[i].Name] = true
			refs = append(refs, it.Fields[i].Type)
		}
		if strings.HasSuffix(n, "Kind") || strings.HasSuffix(n, "Location") {
			kind = "ENUM"
			for _, v := range it.EnumValues {
				g[v.Name] = true
			}
		}
		if it.Kind != kind {
			return n + " is listed as " + it.Kind
		}
		e := map[string]bool{}
		for _, f := range strings.Fields(fs) {
			e[f] = true
		}
		for k := range e {
			if !g[k] { // later versions of the specification have more
				return fmt.Sprintf("%s has [%s], expected at least [%s]", n, keysOf(g), keysOf(e))
			}
		}
	}
	for _, r := range refs {
		if c.byName[r.base()] == nil {
			return "a type of the introspection refers to " + r.base() + ", which is not listed"
		}
	}
	for n := range c.byName {
		if !c.used[n] {
			return "the type " + n + " is listed but nothing refers to it"
		}
	}
	return ""
}
