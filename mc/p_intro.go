package main

import (
	"encoding/json"
	"fmt"
	"mime/multipart"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
	"verif/mc/other"
)

// G01: introspection describes the schema that requests are run on

// GQ is the root of a schema that uses every construct in one more way
type GQ struct {
	Obj     GO
	Arr     [2]GO
	PL      *[]*GO
	LLP     [][]*GO `gq:"llp"`
	IDs     []string
	PID     **int    `gq:"pid,ID"`
	LID     []*int64 `gq:"lid"`
	EnumL   []*Color
	EnumLL  [][]Size
	TimeL   []*time.Time
	T       *time.Time
	Face    *GFace
	FaceL   []GFace
	Fn      func() (*GO, error)
	FnE     func(c *yarql.Ctx, args struct{ E Color }) Color
	FnID    func() (string, yarql.AttrIsID)
	FnTag   func() int `gq:"fn_tag,id"`
	FnL     func(args struct{ L [][]GIn }) [][]*GO
	Anon    struct{ X, Y int }
	AnonP   *struct{ Z GO }
	Hidden  int `gq:"-"`
	Renamed int `gq:"other_name"`
	ID      int `gq:",id"`
	Bytes   []byte
	U       uint8
	F32     *float32
	Ren     GRen
}

// GO is an object
type GO struct {
	A    int
	B    *GO
	Same GIn
}

// GIn is an input and an output
type GIn struct {
	X    int
	Y    *GIn
	L    []*GIn
	E    []Color
	T    *time.Time
	ID   string `gq:"id,id"`
	Anon struct{ Deep *int }
	File *multipart.FileHeader `gq:"-"`
	No   string                `gq:"-"`
}

// GIn2 is an input only
type GIn2 struct {
	F  *multipart.FileHeader
	FL []*multipart.FileHeader `gq:"f_l"`
	O  GIn
	B  *bool
	S  []string
}

// GRen is renamed
type GRen struct{ X int }

var _ = yarql.TypeRename(GRen{}, "G_renamed")

// GFace is an interface
type GFace interface {
	ResolveName(args struct{ In *GIn2 }) (string, error)
	ResolveFaces() []GFace
}

// GFace2 has the same implementations
type GFace2 interface {
	ResolveFaces() []GFace
}

// GI1 implements GFace
type GI1 struct{ Own int }

// ResolveName is part of GFace
func (GI1) ResolveName(args struct{ In *GIn2 }) (string, error) { return "GI1", nil }

// ResolveFaces is part of GFace
func (GI1) ResolveFaces() []GFace { return []GFace{GI2{B: 5}} }

// GI2 implements GFace, it has a field that is hidden by a method
type GI2 struct {
	Name int
	B    int
}

// ResolveName is part of GFace
func (GI2) ResolveName(args struct{ In *GIn2 }) (string, error) { return "GI2", nil }

// ResolveFaces is part of GFace
func (GI2) ResolveFaces() []GFace { return nil }

var _ = yarql.Implements((*GFace)(nil), GI1{})
var _ = yarql.Implements((*GFace)(nil), GI2{})
var _ = yarql.Implements((*GFace2)(nil), GI2{})

// ResolveM1 has two argument structs
func (GQ) ResolveM1(a struct {
	A int
	B *string
}, c *yarql.Ctx, b GIn2) (int, error) {
	return 1, nil
}

// ResolveM2 returns an ID
func (GQ) ResolveM2() (_ yarql.AttrIsID, id int, _ error) { return 0, 4, nil }

// ResolveM3 returns an interface
func (GQ) ResolveM3(args struct {
	File *multipart.FileHeader
	F    float64 `gq:"f_l_o_a_t"`
	Skip int     `gq:"-"`
}) GFace2 {
	return GI2{}
}

// Resolvelower is no field
func (GQ) Resolvelower() int { return 1 }

// Other is no field
func (GQ) Other() int { return 1 }

// GM is the mutation root
type GM struct{ Field int }

// ResolveDo is a mutation
func (GM) ResolveDo(a struct{ In GIn }) GO { return GO{A: 1} }

func gDirectives() []yarql.Directive {
	all := []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}
	return []yarql.Directive{
		{Name: "gd", Where: all[1:], Description: "an \"input\"", Method: func(args struct {
			In GIn2
			L  []*Level
			ID *int `gq:",id"`
		}) yarql.DirectiveModifier {
			return yarql.DirectiveModifier{}
		}},
		// two with the same name
		{Name: "gs", Where: all[:2], Description: "first", Method: func(args struct{ A int }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }},
		{Name: "gs", Where: all[2:], Description: "second", Method: func(args struct{ B string }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }},
		{Name: "ge", Where: all[:1], Method: func(a struct{ A int }, b struct {
			B *time.Time `gq:"when"`
			X string     `gq:"-"`
		}) yarql.DirectiveModifier {
			return yarql.DirectiveModifier{}
		}},
	}
}

func newGSchema() *yarql.Schema {
	s := yarql.NewSchema()
	must1(s.RegisterEnum(colorMap))
	must1(s.RegisterEnum(sizeMap))
	must1(s.RegisterEnum(levelMap))
	for _, d := range gDirectives() {
		must(s.RegisterDirective(d))
	}
	g := func(i int) GO { return GO{A: i, B: &GO{A: i + 1}, Same: GIn{X: i, Y: &GIn{X: 2}, E: []Color{1, 200}}} }
	one, c, t, f := 1, Color(2), time.Unix(5, 0), float32(1.5)
	i64 := int64(7)
	p1 := &one
	var face GFace = GI1{Own: 2}
	o := g(9)
	q := GQ{
		Obj: g(1), Arr: [2]GO{g(2), g(3)}, PL: &[]*GO{&o, nil}, LLP: [][]*GO{{&o}, nil},
		IDs: []string{"a"}, PID: &p1, LID: []*int64{&i64, nil}, EnumL: []*Color{&c, nil}, EnumLL: [][]Size{{"s"}, {}},
		TimeL: []*time.Time{&t}, T: &t, Face: &face, FaceL: []GFace{GI1{}, GI2{}, nil},
		Fn: func() (*GO, error) { return &o, nil }, FnE: func(_ *yarql.Ctx, a struct{ E Color }) Color { return 1 },
		FnID: func() (string, yarql.AttrIsID) { return "x", 1 }, FnTag: func() int { return 6 },
		FnL:   func(args struct{ L [][]GIn }) [][]*GO { return [][]*GO{{&o}} },
		AnonP: &struct{ Z GO }{o}, Bytes: []byte{1, 2}, F32: &f,
	}
	must(s.Parse(q, GM{}, nil))
	return s
}

type introWorld struct {
	name string
	new  func() *yarql.Schema
	q, m reflect.Type
	env  *SchemaEnv

	raw       string
	is        *iSchema
	types     map[string]*iType
	place     map[string]*introPlace // output type => where to find an object of it
	order     []string
	names     []string
	s         *yarql.Schema
	ready     bool
	meta      *MObj
	argList   []introArgPlace
	typeNames []string
	allNames  []string
}

type introPlace struct {
	kind   string
	prefix string // text in front of the selection
	depth  int
	path   []string
}

var worldEnums = map[reflect.Type][]string{
	reflect.TypeOf(Color(0)): {"RED", "GREEN", "BLUE"}, reflect.TypeOf(Size("")): {"SMALL", "LARGE"}, reflect.TypeOf(Level(0)): {"LOW", "MID", "HIGH"},
}

var worldImpls = map[reflect.Type][]reflect.Type{
	reflect.TypeOf((*Node)(nil)).Elem():   {reflect.TypeOf(N1{}), reflect.TypeOf(N2{})},
	reflect.TypeOf((*Other)(nil)).Elem():  {reflect.TypeOf(N2{})},
	reflect.TypeOf((*ENode)(nil)).Elem():  {reflect.TypeOf(EO{})},
	reflect.TypeOf((*GFace)(nil)).Elem():  {reflect.TypeOf(GI1{}), reflect.TypeOf(GI2{})},
	reflect.TypeOf((*GFace2)(nil)).Elem(): {reflect.TypeOf(GI2{})},
	tOf[other.GFace]():                    {tOf[other.GI1]()},
}

func introWorlds() []*introWorld {
	env := func(d []yarql.Directive) *SchemaEnv {
		return &SchemaEnv{Enums: worldEnums, Impls: worldImpls, Dirs: dirEnvs(d), Renamed: renames}
	}
	strDir := func(args struct{ S string }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }
	all := []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}
	return []*introWorld{
		{name: "world 1", new: newWorldSchema, q: reflect.TypeOf(Q1{}), m: reflect.TypeOf(M1{}), env: env(worldDirectives())},
		{name: "world 2", new: newWorld2Schema, q: reflect.TypeOf(Q2{}), m: reflect.TypeOf(M2{}), env: env(nil)},
		{name: "world 3", new: newWorld3Schema, q: reflect.TypeOf(XQ{}), m: reflect.TypeOf(XM{}), env: env(append(append([]yarql.Directive{}, worldDirectives()[:3]...),
			yarql.Directive{Name: "str", Where: all[:1], Method: strDir}, yarql.Directive{Name: "nest", Where: all, Method: strDir}))},
		{name: "world G", new: newGSchema, q: reflect.TypeOf(GQ{}), m: reflect.TypeOf(GM{}), env: env(gDirectives())},
		{name: "world K", new: newKSchema, q: reflect.TypeOf(ZKQ{}), m: reflect.TypeOf(ZKM{}), env: &SchemaEnv{Enums: map[reflect.Type][]string{}, Impls: worldImpls, Dirs: dirEnvs(nil), Renamed: renames}},
	}
}

var introWorldList = introWorlds()

// resolverErrs are the messages of resolvers, they don't tell that a field was refused
func resolverErr(msg string) bool {
	switch msg {
	case "errObj", "errNil", "fail", "mutation":
		return true
	}
	return strings.HasPrefix(msg, "bad ") && !strings.Contains(msg[4:], "exist") || strings.HasPrefix(msg, `err "quoted"`) || strings.HasPrefix(msg, "nestL at [") || strings.HasPrefix(msg, "[")
}

func isMetaName(n string) bool { return strings.HasPrefix(n, "__") && metaTypes[n] != "" }

// refusal returns the first error that does not come from a resolver
func refusal(r *Resp) string {
	for _, e := range r.Errs {
		if !resolverErr(e.Message) {
			return e.Message
		}
	}
	return ""
}

// setup reads the introspection and finds an object of every type
func (w *introWorld) setup() string {
	if w.ready {
		return ""
	}
	var e string
	nestHook = nil
	ctxScript = make([]int, 100)
	faultReal = faultPlan{}
	w.s = w.new()
	w.s.MaxDepth = 255
	if w.is, e = introspect(w.s); e != "" {
		return e
	}
	w.types = map[string]*iType{}
	universe := map[string]bool{"__typename": true, "__schema": true, "__type": true, "nope": true, "a": true, "resolve": true}
	for i := range w.is.Types {
		t := &w.is.Types[i]
		w.types[t.Name] = t
		for _, f := range t.Fields {
			n := f.Name
			universe[n] = true
			if !isMetaName(t.Name) {
				up, low := strings.ToUpper(n[:1])+n[1:], strings.ToLower(n[:1])+n[1:]
				for _, x := range []string{up, low, "Resolve" + up, "resolve" + up, n + "_", n[:len(n)-1], n + n} {
					if x != "" {
						universe[x] = true
					}
				}
			}
		}
		for _, f := range t.InputFields {
			universe[f.Name] = true
		}
	}
	for _, t := range []reflect.Type{w.q, w.m, reflect.TypeOf(A1{}), reflect.TypeOf(GIn{}), reflect.TypeOf(GO{})} {
		for i := 0; i < t.NumField(); i++ {
			universe[t.Field(i).Name] = true
			universe[qlName(t.Field(i).Name)] = true
		}
		for i := 0; i < t.NumMethod(); i++ {
			universe[t.Method(i).Name] = true
			universe[qlName(t.Method(i).Name)] = true
		}
	}
	delete(universe, "panic") // a resolver that panics
	for n := range universe {
		w.names = append(w.names, n)
	}
	sort.Strings(w.names)
	// breadth first search for objects
	w.place = map[string]*introPlace{}
	add := func(name string, p *introPlace) {
		if w.place[name] == nil {
			w.place[name] = p
			w.order = append(w.order, name)
		}
	}
	add(w.is.QueryType.Name, &introPlace{kind: "query"})
	add(w.is.MutationType.Name, &introPlace{kind: "mutation"})
	for i := 0; i < len(w.order); i++ {
		tn := w.order[i]
		p := w.place[tn]
		fields := append([]iField{}, w.types[tn].Fields...)
		if i == 0 {
			str := "String"
			fields = append(fields, iField{Name: "__schema", Type: &iRef{Kind: "OBJECT"}},
				iField{Name: "__type", Args: []iInput{{Name: "name", Type: &iRef{Kind: "SCALAR", Name: &str}}}, Type: &iRef{Kind: "OBJECT"}})
		}
		for _, f := range fields {
			if bt := w.types[f.Type.base()]; (bt == nil || bt.Kind != "OBJECT" && bt.Kind != "INTERFACE") && !strings.HasPrefix(f.Name, "__") || p.depth > 8 || f.Name == "panic" {
				continue
			}
			args := ""
			for j, a := range f.Args {
				if j > 0 {
					args += " "
				}
				args += a.Name + ":" + w.literal(a.Type, 0)[0]
			}
			if f.Name == "__type" {
				args = `name:"` + w.is.QueryType.Name + `"`
			}
			if args != "" {
				args = "(" + args + ")"
			}
			np := &introPlace{kind: p.kind, prefix: p.prefix + "{...on " + tn + "{x:" + f.Name + args, depth: p.depth + 1}
			r := run(w.s, np.text("{__typename}"), yarql.ResolveOptions{GetFormFile: formFile})
			if r.Bad != "" {
				return r.Bad
			}
			for _, o := range objectsAt(r.JSON, np.depth) {
				if n, ok := o["__typename"].(string); ok {
					if w.types[n] == nil {
						return fmt.Sprintf("%s answers with the type %s, which is not listed", np.text("{__typename}"), n)
					}
					add(n, np)
				}
			}
		}
	}
	w.ready = true
	return ""
}

func (p *introPlace) text(sel string) string {
	return p.kind + p.prefix + sel + strings.Repeat("}}", p.depth)
}

// objectsAt returns the objects n keys below the data, going through lists
func objectsAt(data string, n int) (res []map[string]any) {
	var v any
	dec := json.NewDecoder(strings.NewReader(data))
	dec.UseNumber()
	dec.Decode(&v)
	var walk func(v any, n int)
	walk = func(v any, n int) {
		switch x := v.(type) {
		case []any:
			for _, e := range x {
				walk(e, n)
			}
		case map[string]any:
			if n == 0 {
				res = append(res, x)
				return
			}
			for _, e := range x {
				walk(e, n-1)
			}
		}
	}
	walk(v, n)
	return
}

// literal returns literals for an introspected input type
func (w *introWorld) literal(r *iRef, depth int) []string {
	switch r.Kind {
	case "NON_NULL":
		return w.literal(r.OfType, depth)
	case "LIST":
		in := w.literal(r.OfType, depth)
		res := []string{"[" + in[0] + "," + in[len(in)-1] + "]"}
		if depth < 3 {
			for _, l := range in {
				res = append(res, "["+l+"]")
			}
		}
		return append(res, "[]")
	}
	switch r.base() {
	case "Int":
		return []string{"1", "0", "100"}
	case "Float":
		return []string{"1.5", "2", "-1e3"}
	case "String":
		return []string{`"text"`, `""`}
	case "Boolean":
		return []string{"true", "false"}
	case "ID":
		return []string{`"5"`, `"7"`}
	case "Time":
		return []string{`"2020-01-02T03:04:05.000Z"`}
	case "File":
		return []string{`"fileA"`}
	}
	t := w.types[r.base()]
	if t == nil {
		return []string{"null"}
	}
	if t.Kind == "ENUM" {
		res := []string{}
		for _, v := range t.EnumValues {
			res = append(res, v.Name)
		}
		return res
	}
	res := []string{"{}"}
	if depth > 2 {
		return res
	}
	all := []string{}
	for _, f := range t.InputFields {
		for _, l := range w.literal(f.Type, depth+1) {
			res = append(res, "{"+f.Name+":"+l+"}")
		}
		all = append(all, f.Name+":"+w.literal(f.Type, depth+2)[0])
	}
	return append(res, "{"+strings.Join(all, " ")+"}")
}

// badLiterals are not accepted for an introspected input type
func (w *introWorld) badLiterals(r *iRef, depth int) []string {
	switch r.Kind {
	case "NON_NULL":
		return w.badLiterals(r.OfType, depth)
	case "LIST":
		res := []string{}
		for _, l := range w.badLiterals(r.OfType, depth+1) {
			res = append(res, "["+l+"]")
		}
		return append(res, "{}")
	}
	switch r.base() {
	case "Int":
		return []string{`"1"`, "1.5", "true", "RED", "{}", "[]"}
	case "Float":
		return []string{`"1"`, "true", "RED", "{}", "[]"}
	case "String":
		return []string{"1", "1.5", "true", "RED", "{}", "[]"}
	case "Boolean":
		return []string{`"true"`, "RED", "{}", "[]"}
	case "ID":
		return []string{"true", "{}", "[]", "RED"}
	case "Time":
		return []string{`"2020-01-02"`, "1", "RED", "{}", "[]"}
	case "File":
		return []string{`"nofile"`, "1", "RED", "{}", "[]"}
	}
	t := w.types[r.base()]
	if t == nil {
		return nil
	}
	if t.Kind == "ENUM" {
		return []string{"NOPE", strings.ToLower(t.EnumValues[0].Name), t.EnumValues[0].Name + "_", "1", "{}", "[]", "true"}
	}
	if depth > 1 {
		return []string{"{nope:1}"}
	}
	listed := map[string]bool{}
	for _, f := range t.InputFields {
		listed[f.Name] = true
	}
	res := []string{"1", "[]", `"x"`}
	for _, n := range []string{"nope", "No", "no", "I", "X", "x", "i", "ID", "id", "F", "name", "file", "File", "key", "deep", "u8", "U8"} {
		if !listed[n] {
			res = append(res, "{"+n+":1}", "{"+n+`:"a"}`)
		}
	}
	return res
}

// asJSON converts one of the literals
func asJSON(lit string) string {
	var b strings.Builder
	for i := 0; i < len(lit); i++ {
		c := lit[i]
		switch {
		case c == '"':
			j := i + 1 + strings.IndexByte(lit[i+1:], '"')
			b.WriteString(lit[i : j+1])
			i = j
		case c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '_':
			j := i
			for j < len(lit) && wordByte(lit[j]) {
				j++
			}
			word := lit[i:j]
			if word == "true" || word == "false" || word == "null" {
				b.WriteString(word)
			} else {
				b.WriteString(`"` + word + `"`)
			}
			i = j - 1
		case c == ' ':
			b.WriteString(",")
		case c >= '0' && c <= '9' || c == '-':
			j := i
			for j < len(lit) && (wordByte(lit[j]) || lit[j] == '.' || lit[j] == '-') {
				j++
			}
			b.WriteString(lit[i:j])
			i = j - 1
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// shape compares a value of a response with its introspected type
func (w *introWorld) shape(v any, r *iRef) string {
	for r.Kind == "NON_NULL" {
		r = r.OfType
	}
	if v == nil {
		return ""
	}
	bad := fmt.Sprintf("the value %v does not fit to the type %s", v, r)
	if r.Kind == "LIST" {
		l, ok := v.([]any)
		if !ok {
			return bad
		}
		for _, e := range l {
			if m := w.shape(e, r.OfType); m != "" {
				return m
			}
		}
		return ""
	}
	ok := false
	switch r.Kind {
	case "OBJECT", "INTERFACE":
		var o map[string]any
		if o, ok = v.(map[string]any); ok {
			n, _ := o["__typename"].(string)
			ok = n == r.base()
			if r.Kind == "INTERFACE" && w.types[r.base()] != nil {
				for _, p := range w.types[r.base()].PossibleTypes {
					ok = ok || n == p.base()
				}
			}
		}
	case "ENUM":
		for _, e := range w.types[r.base()].EnumValues {
			ok = ok || v == any(e.Name)
		}
	default:
		switch v.(type) {
		case json.Number:
			ok = r.base() == "Int" && !strings.ContainsAny(v.(json.Number).String(), ".eE") || r.base() == "Float"
		case bool:
			ok = r.base() == "Boolean"
		case string:
			ok = r.base() == "String" || r.base() == "ID" || r.base() == "Time"
		}
	}
	if !ok {
		return bad
	}
	return ""
}

func hasLeaf(v any) bool {
	if l, ok := v.([]any); ok {
		for _, e := range l {
			if hasLeaf(e) {
				return true
			}
		}
		return false
	}
	return v != nil
}

func init() {
	register(&Property{
		ID: "G01",
		Bounds: map[string]string{
			"quick":    "five schemas with all kinds of fields and every scalar in every place (20 to 70 types each with the meta types): the complete introspection compared with a description derived from the Go types, 8 times per way (new, copies, after use, by HTTP), also byte for byte with that of another schema of the same types; every object type found by breadth first search x every name of the schema, its near misses and Go names; every argument of every field x every literal derived from introspection and every wrong one, as literal, variable and default; every enum value; every projection of the introspection itself with chains of 4 levels and every type name",
			"thorough": "chains of 5 levels, pairs of leaf fields on every level; 64 repetitions",
		},
		Parts: append([]func(c *Chooser, e *Env) *Case{introCompare, introSelect, introArgs, introMeta}, introExtra...),
	})
}

// introExtra are parts shared with other properties
var introExtra []func(c *Chooser, e *Env) *Case

func introCompare(c *Chooser, e *Env) *Case {
	w := introWorldList[c.Choose(len(introWorldList))]
	modes := []string{"new", "copy", "copy of a copy", "second time", "after use", "after use of the copy", "copied after use", "types by name first", "over http", "after a failed introspection"}
	mode := modes[c.Choose(len(modes))]
	reps := 8
	if e.Thorough {
		reps = 64
	}
	rep := c.Choose(reps)
	return &Case{DescF: func() string { return fmt.Sprintf("introspection of %s, %s (%d)", w.name, mode, rep) }, Run: func() Result {
		nestHook = nil
		ctxScript = make([]int, 100)
		s := w.new()
		use := func(s *yarql.Schema) {
			for _, q := range []string{"{__typename}", "mutation{__typename}", "{w{str} in{str(a:\"x\")} a:e{s}}", "{str obj{name} faces{label}}", "{obj{a b{a}} faceL{name}}", "{nope}", "{__schema{types{name fields{name}}}}"} {
				run(s, q, yarql.ResolveOptions{})
			}
		}
		switch mode {
		case "copy":
			s = s.Copy()
		case "copy of a copy":
			s = s.Copy().Copy()
		case "second time":
			introspect(s)
		case "after use":
			use(s)
		case "after use of the copy":
			use(s.Copy())
		case "copied after use":
			use(s)
			s = s.Copy()
		case "types by name first":
			for _, n := range []string{"Q1", "Q2", "XQ", "GQ", "M1", "GM", "__Schema", "__Type", "nope"} {
				run(s, `{__type(name:"`+n+`"){name fields{name type{name}}}}`, yarql.ResolveOptions{})
			}
		case "after a failed introspection":
			run(s, `{__schema{types{fields{name nope}} queryType{fields{args{nope}}}}}`, yarql.ResolveOptions{})
		}
		s.MaxDepth = 255
		res := Result{Steps: 1}
		var is *iSchema
		if mode == "over http" {
			body, _ := json.Marshal(map[string]string{"query": fullIntrospection})
			raw, errs := s.HandleRequest("POST", func(string) string { return "" }, func(string) (string, error) { return "", nil },
				func() []byte { return body }, "application/json", &yarql.RequestOptions{})
			var r struct {
				Data struct {
					Schema *iSchema `json:"__schema"`
				}
			}
			if len(errs) > 0 || json.Unmarshal(raw, &r) != nil {
				res.Fail = "introspection failed"
				return res
			}
			is = r.Data.Schema
		} else if is, res.Fail = introspect(s); res.Fail != "" {
			return res
		}
		res.Outcome = fmt.Sprint(len(is.Types))
		if res.Fail = compareSchema(is, w.q, w.m, w.env); res.Fail != "" {
			return res
		}
		// every schema lists its parts in the same order
		if w.raw == "" {
			w.raw = run(w.new(), fullIntrospection, yarql.ResolveOptions{}).JSON
		}
		if raw := run(s, fullIntrospection, yarql.ResolveOptions{}).JSON; raw != w.raw {
			i := 0
			for i < len(raw) && i < len(w.raw) && raw[i] == w.raw[i] {
				i++
			}
			res.Fail = "the introspection depends on the schema although the types are the same\n one " + clip(w.raw[max(0, i-100):], 400) + "\n two " + clip(raw[max(0, i-100):], 400)
		}
		return res
	}}
}

func introSelect(c *Chooser, e *Env) *Case {
	w := introWorldList[c.Choose(len(introWorldList))]
	if m := w.setup(); m != "" {
		return &Case{Desc: "setup of " + w.name, Run: func() Result { return Result{Fail: m, Steps: 1} }}
	}
	tn := w.order[c.Choose(len(w.order))]
	name := w.names[c.Choose(len(w.names))]
	return &Case{DescF: func() string { return fmt.Sprintf("%s: %s.%s", w.name, tn, name) }, Run: func() Result {
		p := w.place[tn]
		var f *iField
		for i := range w.types[tn].Fields {
			if w.types[tn].Fields[i].Name == name {
				f = &w.types[tn].Fields[i]
			}
		}
		root := p.depth == 0 && p.kind == "query"
		str, sch, typ := "String", "__Schema", "__Type"
		switch {
		case name == "__typename":
			f = &iField{Name: name, Type: &iRef{Kind: "SCALAR", Name: &str}}
		case name == "__schema" && root:
			f = &iField{Name: name, Type: &iRef{Kind: "OBJECT", Name: &sch}}
		case name == "__type" && root:
			f = &iField{Name: name, Type: &iRef{Kind: "OBJECT", Name: &typ}}
		}
		res := Result{}
		nestHook = nil
		ctxScript = make([]int, 100)
		faultReal = faultPlan{}
		ask := func(sel string) *Resp {
			res.Steps++
			return run(w.s, p.text("{...on "+tn+"{x:"+sel+"}}"), yarql.ResolveOptions{GetFormFile: formFile})
		}
		if f == nil {
			for _, sub := range []string{"", "{__typename}"} {
				r := ask(name + sub)
				res.Outcome += clip(r.Raw, 200)
				if r.Bad != "" {
					res.Fail = r.Bad
				} else if refusal(r) == "" {
					res.Fail = fmt.Sprintf("%s has no field %s according to the introspection, but it can be selected: %s", tn, name+sub, clip(r.Raw, 400))
				}
				if res.Fail != "" {
					return res
				}
			}
			return res
		}
		bt := w.types[f.Type.base()]
		object := bt != nil && (bt.Kind == "OBJECT" || bt.Kind == "INTERFACE")
		good, bad := name, name+"{__typename}"
		if object {
			good, bad = bad, good
		}
		r := ask(good)
		res.Outcome = clip(r.Raw, 200)
		if r.Bad != "" {
			res.Fail = r.Bad
			return res
		}
		if m := refusal(r); m != "" {
			res.Fail = fmt.Sprintf("the introspection lists %s.%s but it is refused: %s", tn, good, m)
			return res
		}
		objs := objectsAt(r.JSON, p.depth)
		some, leaf := false, false
		for _, o := range objs {
			v, ok := o["x"]
			if !ok {
				continue // another type
			}
			some = true
			leaf = leaf || hasLeaf(v)
			if m := w.shape(v, f.Type); m != "" {
				res.Fail = fmt.Sprintf("%s.%s: %s", tn, name, m)
				return res
			}
		}
		if !some {
			res.Fail = fmt.Sprintf("%s.%s is missing in the response: %s", tn, name, clip(r.Raw, 400))
			return res
		}
		if leaf && name != "__typename" {
			r = ask(bad)
			if r.Bad != "" {
				res.Fail = r.Bad
			} else if refusal(r) == "" {
				res.Fail = fmt.Sprintf("%s.%s is accepted although it is a %s: %s", tn, bad, f.Type, clip(r.Raw, 400))
			}
		}
		return res
	}}
}

// introArgPlace is an argument of a field or directive
type introArgPlace struct {
	at     string
	place  *introPlace
	before string
	after  string
	args   []iInput
	null   bool // the value is null, it might be that nothing looks at the arguments
}

func (w *introWorld) argPlaces() (res []introArgPlace) {
	for _, tn := range w.order {
		for _, f := range w.types[tn].Fields {
			if f.Name == "panic" || f.Name == "count" {
				continue
			}
			sub := ""
			if bt := w.types[f.Type.base()]; bt != nil && (bt.Kind == "OBJECT" || bt.Kind == "INTERFACE") {
				sub = "{__typename}"
			}
			if isMetaName(tn) && len(f.Args) == 0 {
				continue
			}
			p := introArgPlace{tn + "." + f.Name, w.place[tn], "{...on " + tn + "{x:" + f.Name, sub + "}}", f.Args, true}
			for _, o := range objectsAt(run(w.s, p.place.text(p.before+p.after), yarql.ResolveOptions{}).JSON, p.place.depth) {
				p.null = p.null && !hasLeaf(o["x"])
			}
			res = append(res, p)
		}
	}
	for _, d := range w.is.Directives {
		for _, l := range d.Locations {
			p := introArgPlace{at: "@" + d.Name + " " + l, place: &introPlace{kind: "query"}, args: d.Args}
			switch l {
			case "FIELD":
				p.before, p.after = "{x:__typename@"+d.Name, "}"
			case "INLINE_FRAGMENT":
				p.before, p.after = "{...on "+w.is.QueryType.Name+"@"+d.Name, "{x:__typename}}"
			case "FRAGMENT_SPREAD":
				p.before, p.after = "{...F@"+d.Name, "}fragment F on "+w.is.QueryType.Name+"{x:__typename}"
			}
			res = append(res, p)
		}
	}
	return
}

func introArgs(c *Chooser, e *Env) *Case {
	w := introWorldList[c.Choose(len(introWorldList))]
	if m := w.setup(); m != "" {
		return &Case{Desc: "setup of " + w.name, Run: func() Result { return Result{Fail: m, Steps: 1} }}
	}
	if w.argList == nil {
		w.argList = w.argPlaces()
	}
	a := w.argList[c.Choose(len(w.argList))]
	n := c.Choose(len(a.args) + 1)
	mk := func(desc string, want bool, sel string, head string, vars string) *Case {
		if !want && a.null {
			return nil
		}
		return &Case{DescF: func() string { return fmt.Sprintf("%s: %s %s %s vars=%s", w.name, a.at, desc, sel, vars) }, Run: func() Result {
			nestHook = nil
			ctxScript = make([]int, 200)
			faultReal = faultPlan{}
			text := a.place.text(a.before + sel + a.after)
			if strings.HasPrefix(a.at, "@") {
				text = a.place.kind + a.before + sel + a.after
			}
			text = a.place.kind + head + strings.TrimPrefix(text, a.place.kind)
			r := run(w.s, text, yarql.ResolveOptions{GetFormFile: formFile, Variables: vars})
			res := Result{Steps: 1, Outcome: clip(r.Raw, 200), Fail: r.Bad}
			ref := refusal(r)
			switch {
			case r.Bad != "":
			case r.syntaxErr():
				res.Fail = "syntax error: " + ref
			case want && ref != "":
				res.Fail = "refused although the introspection lists it: " + ref + " in " + text
			case !want && ref == "":
				res.Fail = "accepted although the introspection does not list it: " + text + " " + clip(r.Raw, 300)
			}
			return res
		}}
	}
	if n == len(a.args) {
		// a name that is not listed
		listed := map[string]bool{}
		for _, x := range a.args {
			listed[x.Name] = true
		}
		names := []string{"nope", "a", "b", "A", "x", "X", "if", "name", "v", "s", "n", "max", "one", "plus", "includeDeprecated", "in", "In", "skip", "Skip", "F", "f"}
		name := names[c.Choose(len(names))]
		if listed[name] {
			return nil
		}
		return mk("unlisted argument", false, "("+name+":1)", "", "")
	}
	arg := a.args[n]
	if c.Bool() {
		bad := w.badLiterals(arg.Type, 0)
		lit := bad[c.Choose(len(bad))]
		if c.Bool() {
			if strings.Contains(lit, "RED") {
				return nil // a string as json
			}
			j := asJSON(lit)
			return mk("wrong value", false, "("+arg.Name+":$v)", "($v:"+arg.Type.String()+")", `{"v":`+j+`}`)
		}
		return mk("wrong value", false, "("+arg.Name+":"+lit+")", "", "")
	}
	lits := w.literal(arg.Type, 0)
	lit := lits[c.Choose(len(lits))]
	switch c.Choose(4) {
	case 0:
		return mk("literal", true, "("+arg.Name+":"+lit+")", "", "")
	case 1:
		return mk("variable", true, "("+arg.Name+":$v)", "($v:"+arg.Type.String()+")", `{"v":`+asJSON(lit)+`}`)
	case 2:
		return mk("default", true, "("+arg.Name+":$v)", "($v:"+strings.TrimSuffix(arg.Type.String(), "!")+"="+lit+")", "")
	}
	// all arguments together
	all := ""
	for _, x := range a.args {
		l := w.literal(x.Type, 0)[0]
		if x.Name == arg.Name {
			l = lit
		}
		all += x.Name + ":" + l + " "
	}
	return mk("all", true, "("+all+")", "", "")
}

// introMeta asks for parts of the introspection
func introMeta(c *Chooser, e *Env) *Case {
	w := introWorldList[c.Choose(len(introWorldList))]
	if m := w.setupMeta(); m != "" {
		return &Case{Desc: "setup of " + w.name, Run: func() Result { return Result{Fail: m, Steps: 1} }}
	}
	depth := 4
	if e.Thorough {
		depth = 5
	}
	var sel func(tn string, depth int) []Sel
	sel = func(tn string, depth int) []Sel {
		fs := metaFields[tn]
		n := len(fs.leafs)
		if depth > 0 {
			n += len(fs.objs)
		}
		i := c.Choose(n)
		if i < len(fs.leafs) {
			s := []Sel{fld(fs.leafs[i])}
			if e.Thorough && i > 0 {
				s = append([]Sel{fld(fs.leafs[0])}, s...)
			}
			return s
		}
		o := fs.objs[i-len(fs.leafs)]
		s := fld(o.name, sel(o.typ, depth-1)...)
		if o.dep {
			if k := c.Choose(3); k > 0 {
				s = s.args(Arg{"includeDeprecated", vBool(k == 1)})
			}
		}
		res := []Sel{s}
		if len(fs.leafs) > 0 {
			res = append(res, fld(fs.leafs[0]))
		}
		return res
	}
	var doc *Doc
	if c.Bool() {
		names := append([]string{"", "nope", "q1", "__schema", "__UnknownType1", "__UnknownInput9"}, w.typeNames...)
		n := names[c.Choose(len(names))]
		s := fld("__type", sel("__Type", depth-3)...)
		if n != "" || c.Bool() {
			s = s.args(Arg{"name", vStr(n)})
		}
		doc = query(s, fld("__typename"))
	} else {
		doc = query(fld("__schema", sel("__Schema", depth)...))
	}
	return &Case{DescF: func() string { return w.name + ": " + doc.String() }, Run: func() Result {
		ref := refExec(RefReq{Doc: doc, Query: w.meta, Mutation: w.meta, Directives: newScalarDirs()})
		r := run(w.s, doc.String(), yarql.ResolveOptions{})
		return Result{Fail: compare(ref, r), Outcome: clip(r.Raw, 300), Steps: 1}
	}}
}

type metaObj struct {
	name, typ string
	dep       bool
}

var metaFields = map[string]struct {
	leafs []string
	objs  []metaObj
}{
	"__Schema":     {nil, []metaObj{{"types", "__Type", false}, {"queryType", "__Type", false}, {"mutationType", "__Type", false}, {"subscriptionType", "__Type", false}, {"directives", "__Directive", false}}},
	"__Type":       {[]string{"name", "kind", "description", "__typename"}, []metaObj{{"fields", "__Field", true}, {"interfaces", "__Type", false}, {"possibleTypes", "__Type", false}, {"enumValues", "__EnumValue", true}, {"inputFields", "__InputValue", false}, {"ofType", "__Type", false}}},
	"__Field":      {[]string{"name", "description", "isDeprecated", "deprecationReason", "__typename"}, []metaObj{{"args", "__InputValue", false}, {"type", "__Type", false}}},
	"__InputValue": {[]string{"name", "description", "defaultValue", "__typename"}, []metaObj{{"type", "__Type", false}}},
	"__EnumValue":  {[]string{"name", "description", "isDeprecated", "deprecationReason", "__typename"}, nil},
	"__Directive":  {[]string{"name", "description", "locations", "__typename"}, []metaObj{{"args", "__InputValue", false}}},
}

// setupMeta builds a model of the introspection out of one complete request
func (w *introWorld) setupMeta() string {
	if w.meta != nil {
		return ""
	}
	if m := w.setup(); m != "" {
		return m
	}
	const q = `{__schema{queryType{name}mutationType{name}subscriptionType{name}types{...T}directives{name description locations args{...I}}}}
fragment T on __Type{kind name description fields(includeDeprecated:true){name description isDeprecated deprecationReason args{...I}type{...R}}inputFields{...I}interfaces{name}enumValues(includeDeprecated:true){name description isDeprecated deprecationReason}possibleTypes{name}ofType{name}}
fragment I on __InputValue{name description defaultValue type{...R}}
fragment R on __Type{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}}`
	r := run(w.s, q, yarql.ResolveOptions{})
	var v struct {
		S map[string]any `json:"__schema"`
	}
	if r.Bad != "" || len(r.Errs) > 0 || json.Unmarshal([]byte(r.JSON), &v) != nil {
		return "the introspection failed: " + clip(r.Raw, 300)
	}
	mt := map[string]*MType{}
	for n, f := range metaFields {
		t := &MType{Name: n, Fields: map[string]*MField{}}
		for _, l := range f.leafs {
			if l != "__typename" {
				t.Fields[l] = &MField{Name: l}
			}
		}
		for _, o := range f.objs {
			t.Fields[o.name] = &MField{Name: o.name}
			if o.dep {
				t.Fields[o.name] = &MField{Name: o.name, Method: true, Args: map[string]*InT{"includeDeprecated": tBool}}
			}
		}
		mt[n] = t
	}
	byName := map[string]*MObj{}
	// types are completed at the end
	var conv func(v any, t string) any
	var convType func(v map[string]any, top bool) *MObj
	conv = func(v any, t string) any {
		switch x := v.(type) {
		case nil:
			return nil
		case []any:
			l := []any{}
			for _, e := range x {
				l = append(l, conv(e, t))
			}
			return l
		case map[string]any:
			if t == "__Type" {
				return convType(x, false)
			}
			o := &MObj{T: mt[t], F: map[string]any{}}
			for k, e := range x {
				sub := ""
				for _, f := range metaFields[t].objs {
					if f.name == k {
						sub = f.typ
					}
				}
				val := conv(e, sub)
				o.F[k] = val
			}
			return o
		}
		b, _ := json.Marshal(v)
		c, _ := canonJSON(b)
		return Leaf(c)
	}
	convType = func(v map[string]any, top bool) *MObj {
		name, named := v["name"].(string)
		if named && !top {
			if byName[name] == nil {
				byName[name] = &MObj{T: mt["__Type"], F: map[string]any{}}
			}
			return byName[name]
		}
		o := &MObj{T: mt["__Type"], F: map[string]any{}}
		if named {
			if byName[name] == nil {
				byName[name] = o
			}
			o = byName[name]
		}
		for _, l := range metaFields["__Type"].leafs {
			o.F[l] = conv(v[l], "")
		}
		for _, f := range metaFields["__Type"].objs {
			val := conv(v[f.name], f.typ)
			if f.dep {
				o.F[f.name] = func(*Call) any { return val }
			} else {
				o.F[f.name] = val
			}
		}
		return o
	}
	w.typeNames = nil
	for _, t := range v.S["types"].([]any) {
		o := convType(t.(map[string]any), true)
		w.typeNames = append(w.typeNames, unq(string(o.F["name"].(Leaf))))
	}
	schema := conv(v.S, "__Schema").(*MObj)
	root := &MType{Name: w.is.QueryType.Name, Fields: map[string]*MField{
		"__schema": {Name: "__schema"}, "__type": {Name: "__type", Method: true, Args: map[string]*InT{"name": tStr}},
	}}
	w.meta = &MObj{T: root, F: map[string]any{
		"__schema": schema,
		"__type": func(c *Call) any {
			if o := byName[unq(c.Args["name"])]; o != nil {
				return o
			}
			return nil
		},
	}}
	return ""
}
