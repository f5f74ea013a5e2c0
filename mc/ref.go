package main

// The reference executor: what the response of a request has to be.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
)

// Leaf is a serialised scalar
type Leaf string

// MObj is an object of the model
type MObj struct {
	T *MType
	F map[string]any // field name => Leaf, *MObj, []any, nil, func(args *Args) (any, error message)
}

// MType is an object type of the model
type MType struct {
	Name       string
	Implements []string
	Fields     map[string]*MField
}

// MField is a field of an object type
type MField struct {
	Name   string
	Leaf   bool // scalar or enum at the end of the type
	Method bool // accepts arguments
	Args   map[string]*InT
	Log    bool   // calls are logged
	QLType string // expected introspection type
}

// Call is handed to the model resolvers
type Call struct {
	Obj  *MObj
	Args map[string]string // dumps
	Ex   *RefExec
	Path string
}

// ResolverErr is an error returned by a resolver
type ResolverErr struct {
	Value any
	Msg   string
}

// RefReq is a request for the reference executor
type RefReq struct {
	Doc       *Doc
	Op        string
	Variables string // JSON
	MaxDepth  int    // 0: 255
	Query     *MObj
	Mutation  *MObj
	// Directives maps the name of a directive to its behaviour
	Directives map[string]*RefDirective
	Files      bool // files are looked up with formFile
}

// RefDirective is a custom directive
type RefDirective struct {
	Where string // f field, s spread, i inline fragment; empty: everywhere
	Args  map[string]*InT
	Skip  func(args map[string]string) bool
}

// RefErr is an expected error
type RefErr struct {
	Path     string // json, without the []
	Msg      string // only for resolver errors
	Resolver bool
}

// RefRes is the expected result
type RefRes struct {
	Data     string // the data object
	Errs     []RefErr
	Critical bool // the request itself has an error that ended the execution of a list item or the request
	Loose    bool // Data, Errs and Log are only the start of what is expected
	Log      []string
	Dup      bool // a selection set has the same response key twice
	DontCare bool
	Trace    []traceEnt // fields that were executed, in the order they ended
}

type traceEnt struct{ Path, Parent, Field string }

// RefExec is the state of the execution
type RefExec struct {
	req               RefReq
	frags             map[string]*Frag
	op                *Op
	vars              map[string]any // parsed json
	res               *RefRes
	depth             int
	steps             int
	varsBad, varsNull bool // the variables are not a json object
	buf               bytes.Buffer
	above             []string // fragments that are being expanded in the objects around the current one
}

type critical struct{}

// loose ends the reference execution, only what came before it is specified
type loose struct{}

func newScalarDirs() map[string]*RefDirective {
	ifArg := map[string]*InT{"if": {K: "bool"}}
	return map[string]*RefDirective{
		"skip":    {Args: ifArg, Skip: func(a map[string]string) bool { return a["if"] == "true" }},
		"include": {Args: ifArg, Skip: func(a map[string]string) bool { return a["if"] != "true" }},
	}
}

// refExec executes the request on the model
func refExec(req RefReq) (res *RefRes) {
	res = &RefRes{}
	if req.MaxDepth == 0 {
		req.MaxDepth = 255
	}
	ex := &RefExec{req: req, frags: map[string]*Frag{}, res: res}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(critical); ok {
				// everything behind the error is left out, what was opened in front of it is closed
				res.Data = ex.buf.String()
				return
			}
			if _, ok := r.(loose); ok {
				res.Loose = true
				return
			}
			panic(r)
		}
	}()
	var ops []*Op
	for _, d := range req.Doc.Defs {
		switch v := d.(type) {
		case *Op:
			ops = append(ops, v)
		case *Frag:
			if _, ok := ex.frags[v.Name]; !ok {
				ex.frags[v.Name] = v
			}
		}
	}
	for _, o := range ops {
		if req.Op == "" || o.Name == req.Op {
			ex.op = o // the last one is used
		}
	}
	if ex.op == nil {
		res.Data = "{}"
		res.Errs = append(res.Errs, RefErr{})
		return res
	}
	if req.Variables != "" {
		var m any
		dec := json.NewDecoder(strings.NewReader(req.Variables))
		dec.UseNumber()
		if !json.Valid([]byte(req.Variables)) || dec.Decode(&m) != nil {
			ex.varsBad = true
		} else if mm, ok := m.(map[string]any); ok {
			ex.vars = mm
		} else {
			ex.varsBad = true
			ex.varsNull = m == nil
		}
	}
	root := req.Query
	if ex.op.Kind == "mutation" {
		root = req.Mutation
	} else if ex.op.Kind == "subscription" {
		res.Data = "{}"
		res.Errs = append(res.Errs, RefErr{})
		return res
	}
	ex.object(&ex.buf, root, ex.op.Sel, "", 0)
	res.Data = ex.buf.String()
	return res
}

func (ex *RefExec) fail(path string) {
	ex.res.Errs = append(ex.res.Errs, RefErr{Path: strings.TrimPrefix(path, ",")})
	ex.res.Critical = true
	panic(critical{})
}

// orNull writes null for a value that could not be written
func orNull(b *bytes.Buffer, start int) {
	if r := recover(); r != nil {
		if b.Len() == start {
			b.WriteString("null")
		}
		panic(r)
	}
}

// item is an item of a list, an error inside of it does not end the list
func (ex *RefExec) item(b *bytes.Buffer, f *MField, v any, s Sel, path string, depth int) {
	above := ex.above
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(critical); !ok {
				panic(r)
			}
			ex.above = above
		}
	}()
	ex.value(b, f, v, s, path, depth)
}

func (ex *RefExec) object(b *bytes.Buffer, o *MObj, sels []Sel, path string, depth int) {
	b.WriteByte('{')
	first := true
	seen := map[string]bool{}
	defer b.WriteByte('}')
	ex.selections(b, o, sels, path, depth, &first, seen, nil)
}

func (ex *RefExec) skip(s Sel, path string) bool {
	for _, d := range s.Dirs {
		def := ex.req.Directives[d.Name]
		if x := ex.req.Directives[d.Name+"/"+string(s.Kind)]; x != nil {
			def = x // a different directive in this place
		}
		if def == nil || def.Where != "" && strings.IndexByte(def.Where, s.Kind) == -1 {
			ex.fail(path)
		}
		args := ex.bindArgs(def.Args, d.Args, path)
		if def.Skip(args) {
			return true
		}
	}
	return false
}

func applies(t *MType, on string) bool {
	if t.Name == on {
		return true
	}
	for _, i := range t.Implements {
		if i == on {
			return true
		}
	}
	return false
}

func (ex *RefExec) selections(b *bytes.Buffer, o *MObj, sels []Sel, path string, depth int, first *bool, seen map[string]bool, active []string) {
	for _, s := range sels {
		switch s.Kind {
		case 'f':
			fpath := path + `,"` + s.key() + `"`
			if ex.skip(s, fpath) {
				continue
			}
			if seen[s.key()] {
				ex.res.Dup = true
			}
			seen[s.key()] = true
			if !*first {
				b.WriteByte(',')
			}
			*first = false
			b.WriteString(`"` + s.key() + `":`)
			above := ex.above
			ex.above = append(append([]string{}, above...), active...)
			ex.field(b, o, s, fpath, depth)
			ex.above = above
		case 'i':
			if ex.skip(s, path) {
				continue
			}
			if s.Name == "" || applies(o.T, s.Name) {
				ex.selections(b, o, s.Sub, path, depth, first, seen, active)
			}
		case 's':
			if ex.skip(s, path) {
				continue
			}
			f := ex.frags[s.Name]
			if f == nil {
				ex.fail(path)
			}
			if applies(o.T, f.On) {
				for _, a := range active {
					if a == s.Name {
						// a fragment that spreads itself, how often it is expanded is not specified
						ex.res.Errs = append(ex.res.Errs, RefErr{Path: strings.TrimPrefix(path, ",")})
						ex.res.Critical = true
						ex.res.Data = ex.buf.String()
						panic(loose{})
					}
				}
				for _, a := range ex.above {
					if a == s.Name {
						ex.res.DontCare = true // it spreads itself below a field, that ends with the data
						if len(ex.above) > 60 {
							ex.fail(path)
						}
					}
				}
				ex.selections(b, o, f.Sel, path, depth, first, seen, append(append([]string{}, active...), s.Name))
			}
		}
	}
}

func (ex *RefExec) field(b *bytes.Buffer, o *MObj, s Sel, path string, depth int) {
	defer orNull(b, b.Len())
	f := o.T.Fields[s.Name]
	if f == nil {
		if s.Name == "__typename" && !s.HasSub {
			if len(s.Args) > 0 {
				ex.res.DontCare = true
			}
			b.WriteString(`"` + o.T.Name + `"`)
			return
		}
		ex.fail(path)
	}
	if !f.Method && len(s.Args) > 0 {
		ex.fail(path)
	}
	v := o.F[s.Name]
	if f.Method {
		fn := v.(func(c *Call) any)
		args := ex.bindArgs(f.Args, s.Args, path)
		if f.Log {
			ex.res.Log = append(ex.res.Log, callLog(o.T.Name+"."+s.Name, args))
		}
		v = fn(&Call{Obj: o, Args: args, Ex: ex, Path: path})
		if e, ok := v.(ResolverErr); ok {
			ex.res.Errs = append(ex.res.Errs, RefErr{Path: strings.TrimPrefix(path, ","), Msg: e.Msg, Resolver: true})
			v = e.Value
		}
	}
	// a field is executed as well if what is selected on its value is an error
	defer func() {
		ex.res.Trace = append(ex.res.Trace, traceEnt{strings.TrimPrefix(path, ","), o.T.Name, s.Name})
	}()
	ex.value(b, f, v, s, path, depth)
}

func callLog(name string, args map[string]string) string {
	if len(args) == 0 {
		return name
	}
	keys := []string{}
	for k := range args {
		keys = append(keys, k)
	}
	sortStrings(keys)
	var b strings.Builder
	b.WriteString(name)
	for _, k := range keys {
		b.WriteString(" " + k + "=" + args[k])
	}
	return b.String()
}

func (ex *RefExec) value(b *bytes.Buffer, f *MField, v any, s Sel, path string, depth int) {
	ex.steps++
	defer orNull(b, b.Len())
	switch x := v.(type) {
	case nil:
		// null: the selection is not looked at
		b.WriteString("null")
	case Leaf:
		if s.HasSub {
			ex.fail(path)
		}
		b.WriteString(string(x))
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			ex.item(b, f, e, s, path+","+strconv.Itoa(i), depth)
		}
		b.WriteByte(']')
	case *MObj:
		if x == nil {
			b.WriteString("null")
			return
		}
		if !s.HasSub {
			ex.fail(path)
		}
		if depth+1 >= ex.req.MaxDepth {
			ex.fail(path)
		}
		ex.object(b, x, s.Sub, path, depth+1)
	default:
		panic(fmt.Sprintf("unknown model value %T", v))
	}
}

// InT is an input type of the model
type InT struct {
	K      string // int8.. uint64, float32, float64, string, bool, id:<kind>, enum, time, file, list, ptr, obj
	Elem   *InT
	Fields []InField
	Name   string            // graphql name of obj and enum
	Enum   map[string]string // key => dump
	Zero   string            // zero dump of an enum
}

// InField is a field of an input object, in go order
type InField struct {
	Name   string // graphql name
	GoName string
	T      *InT
}

func zeroDump(t *InT) string {
	switch {
	case t.K == "bool":
		return "false"
	case t.K == "string" || t.K == "id:string":
		return `""`
	case t.K == "list" || t.K == "ptr" || t.K == "file":
		return "nil"
	case t.K == "time":
		return "0001-01-01T00:00:00Z"
	case t.K == "enum":
		return t.Zero
	case t.K == "obj":
		parts := []string{}
		for _, f := range t.Fields {
			parts = append(parts, f.GoName+":"+zeroDump(f.T))
		}
		return "{" + strings.Join(parts, " ") + "}"
	}
	switch t.K {
	case "map", "chan", "func", "interface", "array", "unsafe.Pointer", "complex64", "complex128", "uintptr":
		return "nil" // only as fields that are ignored
	}
	return "0"
}

func (ex *RefExec) bindArgs(defs map[string]*InT, args []Arg, path string) map[string]string {
	res := map[string]string{}
	for k, t := range defs {
		res[k] = zeroDump(t)
	}
	for _, a := range args {
		t := defs[a.Name]
		if t == nil {
			ex.fail(path)
		}
		d, _ := ex.literal(t, a.Val, path, true)
		res[a.Name] = d
	}
	return res
}

// typeOK tells if the declared type of a variable can be used for t
func typeOK(t *InT, decl string) (ok, dontCare bool) {
	decl = strings.TrimSuffix(decl, "!")
	for t.K == "ptr" {
		t = t.Elem
	}
	if strings.HasPrefix(decl, "[") {
		if t.K != "list" {
			return false, false
		}
		return typeOK(t.Elem, strings.TrimSuffix(decl[1:], "]"))
	}
	switch {
	case t.K == "list":
		return false, decl == "List"
	case t.K == "bool":
		return decl == "Boolean", decl != "Boolean" // not checked
	case t.K == "string":
		return decl == "String", false
	case t.K == "float32" || t.K == "float64":
		return decl == "Float", false
	case strings.HasPrefix(t.K, "id:"):
		return decl == "ID", decl == "String"
	case t.K == "enum":
		return decl == t.Name, decl == "String"
	case t.K == "time":
		return decl == "Time", decl == "String"
	case t.K == "file":
		return decl == "File", decl == "String"
	case t.K == "obj":
		if t.Name == "" { // a struct type without a name
			return strings.HasPrefix(decl, "__UnknownInput"), false
		}
		return decl == t.Name, false
	}
	return decl == "Int", false
}

// literal binds a literal, set is false if the value was null
func (ex *RefExec) literal(t *InT, v Val, path string, varsAllowed bool) (dump string, set bool) {
	if v.K == 'B' {
		v.K, v.S = 's', blockValue(v.S)
	}
	if v.K == '$' {
		if !varsAllowed {
			ex.fail(path)
		}
		var def *VarDef
		for i := range ex.op.Vars {
			if ex.op.Vars[i].Name == v.S {
				def = &ex.op.Vars[i]
				break
			}
		}
		if def == nil {
			ex.fail(path)
		}
		ok, dc := typeOK(t, def.Type)
		if !ok {
			if dc {
				ex.res.DontCare = true
			}
			ex.fail(path)
		}
		if ex.varsBad {
			if ex.varsNull {
				ex.res.DontCare = true
			}
			ex.fail(path)
		}
		if jv, ok := ex.vars[v.S]; ok {
			return ex.json(t, jv, path)
		}
		if def.Def == nil {
			// a variable without a value and default is an error
			ex.fail(path)
		}
		return ex.literal(t, *def.Def, path, false)
	}
	if t.K == "ptr" {
		if v.K == 'n' {
			return "nil", false
		}
		d, set := ex.literal(t.Elem, v, path, varsAllowed)
		if !set {
			return "nil", false
		}
		return "&" + d, true
	}
	if v.K == 'n' {
		return zeroDump(t), false
	}
	bad := func() { ex.fail(path) }
	switch {
	case t.K == "bool":
		if v.K == 'b' {
			return v.S, true
		}
		if v.K == 'i' {
			ex.res.DontCare = true // numbers are accepted as booleans
		}
		bad()
	case t.K == "string":
		if v.K == 's' {
			return strconv.Quote(v.S), true
		}
		bad()
	case t.K == "float32" || t.K == "float64":
		if v.K == 'i' || v.K == 'f' {
			return ex.float(t, v.S, path), true
		}
		bad()
	case strings.HasPrefix(t.K, "id:"):
		k := t.K[3:]
		if v.K == 's' {
			return ex.idString(k, v.S, path), true
		}
		if v.K == 'i' && k != "string" {
			return ex.integer(k, v.S, path), true
		}
		if v.K == 'i' {
			ex.res.DontCare = true
		}
		bad()
	case t.K == "enum":
		if v.K == 's' {
			ex.res.DontCare = true // strings are accepted for enums
			bad()
		}
		if v.K != 'e' {
			bad()
		}
		d, ok := t.Enum[v.S]
		if !ok {
			bad()
		}
		return d, true
	case t.K == "time":
		if v.K != 's' {
			bad()
		}
		d, ok := refTime(v.S)
		if !ok {
			bad()
		}
		return d, true
	case t.K == "file":
		if v.K == 's' {
			return ex.file(v.S, path), true
		}
		ex.res.DontCare = true
		bad()
	case t.K == "list":
		if v.K != 'l' {
			bad()
		}
		parts := []string{}
		for _, e := range v.L {
			d, _ := ex.literal(t.Elem, e, path, varsAllowed)
			parts = append(parts, d)
		}
		return "[" + strings.Join(parts, " ") + "]", true
	case t.K == "obj":
		if v.K != 'o' {
			bad()
		}
		vals := map[string]string{}
		for _, f := range t.Fields {
			vals[f.Name] = zeroDump(f.T)
		}
		for _, a := range v.O {
			var ft *InT
			for _, f := range t.Fields {
				if f.Name == a.Name && f.Name != "" {
					ft = f.T
				}
			}
			if ft == nil {
				bad()
			}
			vals[a.Name], _ = ex.literal(ft, a.Val, path, varsAllowed)
		}
		return objDump(t, vals), true
	default:
		if v.K == 'i' {
			return ex.integer(t.K, v.S, path), true
		}
		bad()
	}
	return "", false
}

func objDump(t *InT, vals map[string]string) string {
	parts := []string{}
	for _, f := range t.Fields {
		if f.Name == "" { // not an input
			parts = append(parts, f.GoName+":"+zeroDump(f.T))
			continue
		}
		parts = append(parts, f.GoName+":"+vals[f.Name])
	}
	return "{" + strings.Join(parts, " ") + "}"
}

func intBits(k string) (bits int, unsigned bool) {
	unsigned = strings.HasPrefix(k, "u")
	k = strings.TrimPrefix(k, "u")
	k = strings.TrimPrefix(k, "int")
	if k == "" {
		return 64, unsigned
	}
	bits, _ = strconv.Atoi(k)
	return
}

func (ex *RefExec) integer(k, s, path string) string {
	bits, unsigned := intBits(k)
	if unsigned {
		n, err := strconv.ParseUint(s, 10, bits)
		if err != nil {
			if s == "-0" {
				ex.res.DontCare = true
			}
			ex.fail(path)
		}
		return strconv.FormatUint(n, 10)
	}
	n, err := strconv.ParseInt(s, 10, bits)
	if err != nil {
		ex.fail(path)
	}
	return strconv.FormatInt(n, 10)
}

func (ex *RefExec) idString(k, s, path string) string {
	if k == "string" {
		return strconv.Quote(s)
	}
	bits, unsigned := intBits(k)
	n, err := strconv.ParseInt(s, 10, 64)
	if unsigned {
		u, err := strconv.ParseUint(s, 10, bits)
		if err != nil {
			if strings.HasPrefix(s, "+") || len(s) > 1 && strings.TrimRight(s, "0") == "-" {
				ex.res.DontCare = true
			}
			ex.fail(path)
		}
		return strconv.FormatUint(u, 10)
	}
	if err != nil {
		ex.fail(path)
	}
	if strings.HasPrefix(s, "+") {
		ex.res.DontCare = true
	}
	if bits < 64 && (n >= 1<<(bits-1) || n < -(1<<(bits-1))) {
		ex.fail(path)
	}
	return strconv.FormatInt(n, 10)
}

func (ex *RefExec) float(t *InT, s, path string) string {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		ex.fail(path)
	}
	if t.K == "float32" {
		if math.IsInf(float64(float32(f)), 0) {
			ex.fail(path)
		}
		f = float64(float32(f))
	}
	return dumpFloat(f)
}

func (ex *RefExec) file(key, path string) string {
	if !ex.req.Files {
		ex.fail(path)
	}
	f, err := formFile(key)
	if err != nil {
		ex.fail(path)
	}
	return "file(" + f.Filename + ")"
}

// dumpFloat does not tell -0 and 0 apart
func dumpFloat(f float64) string {
	if f == 0 {
		return "0"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// json binds a json variable value
func (ex *RefExec) json(t *InT, v any, path string) (dump string, set bool) {
	if t.K == "ptr" {
		if v == nil {
			return "nil", false
		}
		d, set := ex.json(t.Elem, v, path)
		if !set {
			return "nil", false
		}
		return "&" + d, true
	}
	if v == nil {
		return zeroDump(t), false
	}
	bad := func() { ex.fail(path) }
	str, isStr := v.(string)
	num, isNum := v.(json.Number)
	switch {
	case t.K == "bool":
		if b, ok := v.(bool); ok {
			return strconv.FormatBool(b), true
		}
		if isNum {
			ex.res.DontCare = true
		}
		bad()
	case t.K == "string":
		if isStr {
			return strconv.Quote(str), true
		}
		bad()
	case t.K == "float32" || t.K == "float64":
		if isNum {
			return ex.float(t, string(num), path), true
		}
		bad()
	case strings.HasPrefix(t.K, "id:"):
		if isStr {
			return ex.idString(t.K[3:], str, path), true
		}
		if isNum {
			ex.res.DontCare = true // refused although the spec allows it
		}
		bad()
	case t.K == "enum":
		if !isStr {
			bad()
		}
		d, ok := t.Enum[str]
		if !ok {
			bad()
		}
		return d, true
	case t.K == "time":
		if !isStr {
			bad()
		}
		d, ok := refTime(str)
		if !ok {
			bad()
		}
		return d, true
	case t.K == "file":
		if isStr {
			return ex.file(str, path), true
		}
		ex.res.DontCare = true
		bad()
	case t.K == "list":
		l, ok := v.([]any)
		if !ok {
			bad()
		}
		parts := []string{}
		for _, e := range l {
			d, _ := ex.json(t.Elem, e, path)
			parts = append(parts, d)
		}
		return "[" + strings.Join(parts, " ") + "]", true
	case t.K == "obj":
		m, ok := v.(map[string]any)
		if !ok {
			bad()
		}
		vals := map[string]string{}
		for _, f := range t.Fields {
			vals[f.Name] = zeroDump(f.T)
		}
		for k, e := range m {
			var ft *InT
			for _, f := range t.Fields {
				if f.Name == k && k != "" {
					ft = f.T
				}
			}
			if ft == nil {
				bad()
			}
			vals[k], _ = ex.json(ft, e, path)
		}
		return objDump(t, vals), true
	default:
		if isNum {
			if strings.ContainsAny(string(num), ".eE") {
				// 1.0 and 1e2 are refused
				if f, err := num.Float64(); err == nil && f == math.Trunc(f) {
					ex.res.DontCare = true
				}
			}
			if num == "-0" {
				ex.res.DontCare = true
			}
			return ex.integer(t.K, string(num), path), true
		}
		bad()
	}
	return "", false
}

// refTime parses YYYY-MM-DDTHH:MM:SS.mmmZ by hand
func refTime(s string) (dump string, ok bool) {
	if len(s) != 24 {
		return "", false
	}
	const layout = "dddd-dd-ddTdd:dd:dd.dddZ"
	for i := 0; i < len(s); i++ {
		if layout[i] == 'd' {
			if s[i] < '0' || s[i] > '9' {
				return "", false
			}
		} else if s[i] != layout[i] {
			return "", false
		}
	}
	n := func(a, b int) int { v, _ := strconv.Atoi(s[a:b]); return v }
	y, mo, d, h, mi, sec := n(0, 4), n(5, 7), n(8, 10), n(11, 13), n(14, 16), n(17, 19)
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		days[1] = 29
	}
	if mo < 1 || mo > 12 || d < 1 || d > days[mo-1] || h > 23 || mi > 59 || sec > 59 {
		return "", false
	}
	frac := strings.TrimRight(s[20:23], "0")
	if frac != "" {
		frac = "." + frac
	}
	return s[:19] + frac + "Z", true
}

// canonJSON re-encodes json in a canonical form that keeps the order of keys, and refuses invalid json
func canonJSON(in []byte) (string, error) {
	dec := json.NewDecoder(bytes.NewReader(in))
	dec.UseNumber()
	var b strings.Builder
	if !json.Valid(in) {
		return "", fmt.Errorf("invalid JSON")
	}
	var val func() error
	val = func() error {
		t, err := dec.Token()
		if err != nil {
			return err
		}
		switch x := t.(type) {
		case json.Delim:
			b.WriteString(x.String())
			i := 0
			for dec.More() {
				if i > 0 {
					b.WriteByte(',')
				}
				i++
				if x == '{' {
					k, err := dec.Token()
					if err != nil {
						return err
					}
					b.WriteString(strconv.Quote(k.(string)) + ":")
				}
				if err := val(); err != nil {
					return err
				}
			}
			e, err := dec.Token()
			if err != nil {
				return err
			}
			b.WriteString(e.(json.Delim).String())
		case string:
			b.WriteString(strconv.Quote(x))
		case json.Number:
			b.WriteString(string(x))
		case bool:
			b.WriteString(strconv.FormatBool(x))
		case nil:
			b.WriteString("null")
		}
		return nil
	}
	if err := val(); err != nil {
		return "", err
	}
	if _, err := dec.Token(); err != io.EOF {
		return "", fmt.Errorf("trailing data")
	}
	return b.String(), nil
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// blockValue is the value of a block string, https://spec.graphql.org/October2021/#BlockStringValue()
func blockValue(raw string) string {
	raw = strings.ReplaceAll(raw, `\"""`, `"""`)
	if !strings.Contains(raw, "\n") {
		return raw
	}
	lines := strings.Split(raw, "\n")
	indentOf := func(l string) int { return len(l) - len(strings.TrimLeft(l, " \t")) }
	common := -1
	for _, l := range lines[1:] {
		if i := indentOf(l); i < len(l) && (common == -1 || i < common) {
			common = i
		}
	}
	for i := range lines {
		if i > 0 && common > 0 {
			lines[i] = lines[i][min(common, len(lines[i])):]
		}
	}
	blank := func(l string) bool { return indentOf(l) == len(l) }
	for len(lines) > 0 && blank(lines[0]) {
		lines = lines[1:]
	}
	for len(lines) > 0 && blank(lines[len(lines)-1]) {
		lines = lines[:len(lines)-1]
	}
	return strings.Join(lines, "\n")
}
