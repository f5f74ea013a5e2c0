package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql"
)

// H02: a file argument reaches the resolver as the uploaded file it refers to

type fileP = *multipart.FileHeader

// FO is an input object with files
type FO struct {
	F fileP
	L []fileP
	S string
	R *FO
	M []FO
}

type fileArgs struct {
	A, B fileP
	L    []fileP
	LL   [][]fileP `gq:"ll"`
	O    FO
	P    *FO
	OL   []FO   `gq:"ol"`
	PP   *fileP `gq:"pp"`
}

// FQ is the query root
type FQ struct {
	N     int
	Fn    func(fileArgs) string
	Items []FItem
}

// FItem is an object with a file argument
type FItem struct{ N int }

var fileSizes int64

// fileSeen is called with all files that a resolver got
var fileSeen func(f fileP)

func fileLog(name string, v reflect.Value) string {
	args := map[string]string{}
	for i := 0; i < v.NumField(); i++ {
		n, _, _ := parseTag(v.Type().Field(i))
		args[n] = dump(v.Field(i))
	}
	l := callLog(name, args)
	calls = append(calls, l)
	eachFile(v)
	return l
}

func eachFile(v reflect.Value) {
	if f, ok := v.Interface().(fileP); ok {
		if f != nil && fileSeen != nil {
			fileSeen(f)
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			eachFile(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			eachFile(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			eachFile(v.Field(i))
		}
	}
}

// ResolveUp echoes its arguments
func (FQ) ResolveUp(args fileArgs) string { return fileLog("FQ.up", reflect.ValueOf(args)) }

type fileArg struct{ F fileP }

// ResolveOne echoes its argument
func (FItem) ResolveOne(args fileArg) string { return fileLog("FItem.one", reflect.ValueOf(args)) }

// FM is the mutation root
type FM struct{}

// ResolveUp echoes its arguments
func (FM) ResolveUp(args fileArgs) string { return fileLog("FM.up", reflect.ValueOf(args)) }

var fileSchema *yarql.Schema
var fileQ, fileM *MObj

func fileWorld() *yarql.Schema {
	if fileSchema != nil {
		return fileSchema
	}
	s := yarql.NewSchema()
	must(s.RegisterDirective(yarql.Directive{Name: "file", Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField},
		Method: func(args fileArg) yarql.DirectiveModifier {
			fileLog("@file", reflect.ValueOf(args))
			return yarql.DirectiveModifier{}
		}}))
	must(s.Parse(FQ{N: 1, Items: []FItem{{1}, {2}}, Fn: func(a fileArgs) string { return fileLog("FQ.fn", reflect.ValueOf(a)) }}, FM{}, nil))
	fileSchema = s
	ins := map[string]*InT{}
	t := reflect.TypeOf(fileArgs{})
	for i := 0; i < t.NumField(); i++ {
		n, _, _ := parseTag(t.Field(i))
		ins[n] = inTOf(t.Field(i).Type, false)
	}
	one := map[string]*InT{"f": {K: "file"}}
	echo := func(name string) func(c *Call) any {
		return func(c *Call) any { return lstr(callLog(name, c.Args)) }
	}
	item := &MType{Name: "FItem", Fields: fields(mf("n"), mm("one", one))}
	var items []any
	for i := 1; i < 3; i++ {
		items = append(items, &MObj{T: item, F: map[string]any{"n": lint(i), "one": echo("FItem.one")}})
	}
	fileQ = &MObj{T: &MType{Name: "FQ", Fields: fields(mf("n"), mf("items"), mm("fn", ins), mm("up", ins))},
		F: map[string]any{"n": lint(1), "items": items, "fn": echo("FQ.fn"), "up": echo("FQ.up")}}
	fileM = &MObj{T: &MType{Name: "FM", Fields: fields(mm("up", ins))}, F: map[string]any{"up": echo("FM.up")}}
	return s
}

func fileCase(d *Doc, vars string, supported bool) *Case {
	return &Case{DescF: func() string { return fmt.Sprintf("%s variables=%s files=%v", d, vars, supported) }, Run: func() Result {
		s := fileWorld()
		ref := refExec(RefReq{Doc: d, Variables: vars, Query: fileQ, Mutation: fileM, Directives: newScalarDirs(), Files: supported})
		opts := yarql.ResolveOptions{Variables: vars}
		given := map[string]int64{} // every file of every request has an own size
		if supported {
			opts.GetFormFile = func(key string) (fileP, error) {
				f, err := formFile(key)
				if err == nil {
					if given[key] == 0 {
						fileSizes++
						given[key] = fileSizes
					}
					f.Size = given[key]
				}
				return f, err
			}
		}
		fail := ""
		fileSeen = func(f fileP) {
			if f.Size == 0 || given[f.Filename] != f.Size {
				fail = fmt.Sprintf("the resolver got a file %s that was not uploaded with this request", f.Filename)
			}
		}
		defer func() { fileSeen = nil }()
		r := run(s, d.String(), opts)
		if c := compare(ref, r); c != "" {
			fail = c
		}
		return Result{Fail: fail, Outcome: r.Raw, Steps: 1, Skip: ref.DontCare}
	}}
}

var fileNames = []string{"file1", "file2", "file \"ä\\", "none", "", "File1"}

// fileVal is a value of one of the shapes, with variables
type fileVal struct {
	val  Val
	vars []VarDef
	json []string
	// small leaves out default values, block strings and missing variables
	small bool
}

func (f *fileVal) leaf(c *Chooser, names []string) Val {
	k := 0
	if f.small {
		k = []int{0, 1, 4}[c.Choose(3)]
	} else {
		k = c.Choose(5)
	}
	if k == 4 {
		return vNull()
	}
	if k == 3 {
		v := "n" + strconv.Itoa(len(f.vars))
		typ := "File"
		switch c.Choose(4) {
		case 0:
			f.json = append(f.json, `"`+v+`":null`)
		case 1: // not given
		case 2:
			d := vStr(names[c.Choose(len(names))])
			f.vars = append(f.vars, VarDef{v, typ, &d})
			return vVar(v)
		case 3:
			d := vStr("file2")
			f.vars = append(f.vars, VarDef{v, typ, &d})
			f.json = append(f.json, `"`+v+`":`+jstr(names[c.Choose(len(names))]))
			return vVar(v)
		}
		f.vars = append(f.vars, VarDef{v, typ, nil})
		return vVar(v)
	}
	n := names[c.Choose(len(names))]
	switch k {
	case 1:
		v := "v" + strconv.Itoa(len(f.vars))
		f.vars = append(f.vars, VarDef{v, []string{"File", "File!"}[c.Choose(2)], nil})
		f.json = append(f.json, `"`+v+`":`+jstr(n))
		return vVar(v)
	case 2:
		return Val{K: 'B', S: strings.NewReplacer(`"`, "", `\`, "").Replace(n)}
	}
	return vStr(n)
}

// whole is the value as the JSON of one variable
func (v Val) json() string {
	switch v.K {
	case 's', 'B':
		return jstr(v.S)
	case 'n':
		return "null"
	case 'l':
		var l []string
		for _, e := range v.L {
			l = append(l, e.json())
		}
		return "[" + strings.Join(l, ",") + "]"
	case 'o':
		var l []string
		for _, e := range v.O {
			l = append(l, jstr(e.Name)+":"+e.Val.json())
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	return v.S
}

func fileSlot(c *Chooser, f *fileVal, slot string, names []string) Val {
	list := func() Val {
		l := Val{K: 'l'}
		for n := c.Choose(3); n > 0; n-- {
			l.L = append(l.L, f.leaf(c, names))
		}
		return l
	}
	switch slot {
	case "a", "b", "pp":
		return f.leaf(c, names)
	case "l":
		return list()
	case "ll":
		names = names[:min(2, len(names))]
		l := Val{K: 'l'}
		for n := c.Choose(3); n > 0; n-- {
			l.L = append(l.L, vList(f.leaf(c, names)))
		}
		return l
	case "o", "p":
		names = names[:min(3, len(names))]
		switch c.Choose(4) {
		case 0:
			return vObj(Arg{"f", f.leaf(c, names)}, Arg{"s", vStr("file3")})
		case 1:
			return vObj(Arg{"s", vStr("none")}, Arg{"l", list()})
		case 2:
			return vObj(Arg{"r", vObj(Arg{"f", f.leaf(c, names)}, Arg{"l", vList(vStr("file5"))})}, Arg{"f", f.leaf(c, names)})
		}
		return vObj(Arg{"m", vList(vObj(Arg{"f", f.leaf(c, names)}), vObj(Arg{"l", vList(f.leaf(c, names))}))})
	case "ol":
		return vList(vObj(Arg{"f", f.leaf(c, names)}), vObj(Arg{"f", vStr("file9")}), vObj())
	}
	panic(slot)
}

var fileTypes = map[string]string{"a": "File", "b": "File!", "l": "[File]", "ll": "[[File!]]", "o": "FO!", "p": "FO", "ol": "[FO!]!", "pp": "File"}

func fileOp(c *Chooser, f *fileVal, kind string, sel ...Sel) *Case {
	op := &Op{Kind: kind, Vars: f.vars, Sel: sel}
	vars := ""
	if len(f.json) > 0 {
		vars = "{" + strings.Join(f.json, ",") + "}"
	}
	return fileCase(&Doc{Defs: []any{op}}, vars, true)
}

// upload is a real multipart request
type upload struct {
	order []string          // names of the file fields in the order they are sent
	data  map[string]string // content
	query string
	vars  string
	batch int
}

func (u upload) request() *http.Request {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	body := fmt.Sprintf(`{"query":%s,"variables":%s}`, jstr(u.query), u.vars)
	if u.batch > 0 {
		body = "[" + body + strings.Repeat(","+body, u.batch-1) + "]"
	}
	ops := func() { w.WriteField("operations", body) }
	ops()
	for _, n := range u.order {
		p, err := w.CreateFormFile(n, "same-name.txt")
		must(err)
		p.Write([]byte(u.data[n]))
	}
	w.Close()
	r := httptest.NewRequest("POST", "/graphql", &b)
	r.Header.Set("Content-Type", w.FormDataContentType())
	return r
}

func uploadCase(u upload, expect map[string]string, missing bool) *Case {
	desc := fmt.Sprintf("upload %v of %v, query %s variables %s batch of %d", u.order, u.data, u.query, u.vars, u.batch)
	return &Case{Desc: desc, Run: func() Result {
		s := fileWorld()
		r := u.request()
		calls = calls[:0]
		var got []string
		fileSeen = func(f fileP) {
			h, err := f.Open()
			if err != nil {
				got = append(got, err.Error())
				return
			}
			b, _ := io.ReadAll(h)
			h.Close()
			got = append(got, f.Filename+"="+string(b))
		}
		defer func() { fileSeen = nil }()
		res, errs := s.HandleRequest(r.Method, r.URL.Query().Get,
			func(key string) (string, error) {
				v := r.FormValue(key)
				if v == "" {
					return "", errors.New("no field")
				}
				return v, nil
			},
			func() []byte { b, _ := io.ReadAll(r.Body); return b },
			r.Header.Get("Content-Type"),
			&yarql.RequestOptions{GetFormFile: func(key string) (fileP, error) {
				f, h, err := r.FormFile(key)
				if f != nil {
					f.Close()
				}
				return h, err
			}})
		out := Result{Outcome: string(res) + strings.Join(got, ";"), Steps: max(1, u.batch)}
		var want []string
		n := max(1, u.batch)
		if !missing {
			var keys []string
			for k := range expect {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for i := 0; i < n; i++ {
				for _, k := range keys {
					want = append(want, "same-name.txt="+expect[k])
				}
			}
			n = 0
		}
		switch {
		case !json.Valid(res):
			out.Fail = "the answer is not valid JSON"
		case len(errs) != n:
			out.Fail = fmt.Sprintf("expected %d errors", n)
		case strings.Join(got, ";") != strings.Join(want, ";"):
			out.Fail = fmt.Sprintf("expected the files %q", want)
		}
		if out.Fail != "" {
			out.Fail += fmt.Sprintf(", got the files %q, errors %q and the answer %s", got, errs, res)
		}
		return out
	}}
}

func init() {
	slots := []string{"a", "b", "l", "ll", "o", "p", "ol", "pp"}
	register(&Property{
		ID: "H02",
		Bounds: map[string]string{
			"quick":    "every value of 8 kinds of file arguments with up to 3 files out of 6 names, as literal, block string, variable, default value or null, in 4 fields; every pair of arguments with 2 names as literal, variable or null; whole values as variables; directives and list items; without file support; real multipart requests: every subset and order of 3 uploads x every assignment of 4 names to 3 arguments, batches",
			"thorough": "pairs with all names, triples with 2 names",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			// one argument
			func(c *Chooser, e *Env) *Case {
				f := &fileVal{}
				s := slots[c.Choose(len(slots))]
				v := fileSlot(c, f, s, fileNames)
				switch c.Choose(3) {
				case 0:
					return fileOp(c, f, "query", fld("up").args(Arg{s, v}))
				case 1:
					return fileOp(c, f, "query", fld("n"), fld("fn").args(Arg{s, v}), fld("fn").as("again").args(Arg{s, v}))
				}
				return fileOp(c, f, "mutation", fld("up").args(Arg{s, v}))
			},
			// two and three arguments
			func(c *Chooser, e *Env) *Case {
				f := &fileVal{small: !e.Thorough}
				n := 2
				names := fileNames[2:4]
				if e.Thorough {
					if n += c.Choose(2); n == 2 {
						names = fileNames
					}
				}
				var args []Arg
				for i := 0; i < n; i++ {
					s := slots[c.Choose(len(slots))]
					for _, a := range args {
						if a.Name == s {
							return nil
						}
					}
					args = append(args, Arg{s, fileSlot(c, f, s, names)})
				}
				return fileOp(c, f, "query", fld("up").args(args...), fld("n"))
			},
			// whole values as variables
			func(c *Chooser, e *Env) *Case {
				f := &fileVal{}
				s := slots[c.Choose(len(slots))]
				v := fileSlot(c, f, s, fileNames)
				if len(f.vars) > 0 {
					return nil
				}
				vars := ""
				def := VarDef{Name: "x", Type: fileTypes[s]}
				switch c.Choose(3) {
				case 0:
					vars = `{"x":` + v.json() + `}`
				case 1:
					def.Def = &v
				case 2:
					other := fileSlot(&Chooser{vec: make([]int, 40)}, f, s, []string{"file7"})
					def.Def = &other
					vars = `{"x":` + v.json() + `}`
				}
				op := &Op{Kind: "query", Vars: []VarDef{def}, Sel: []Sel{fld("up").args(Arg{s, vVar("x")}), fld("fn").args(Arg{s, vVar("x")})}}
				return fileCase(&Doc{Defs: []any{op}}, vars, c.Choose(4) > 0)
			},
			// list items, several fields
			func(c *Chooser, e *Env) *Case {
				f := &fileVal{}
				one := func() Sel { return fld("one").args(Arg{"f", f.leaf(c, fileNames[1:4])}) }
				sel := []Sel{fld("items", fld("n"), one(), one().as("b")), fld("up").args(Arg{"b", f.leaf(c, fileNames[1:4])})}
				return fileOp(c, f, "query", sel...)
			},
			// other kinds of values
			func(c *Chooser, e *Env) *Case {
				bad := []Val{vBool(true), vInt("1"), vFloat("1.5"), vList(), vList(vStr("file1")), vObj(), vObj(Arg{"file1", vStr("file1")}), vEnum("file1")}
				b := bad[c.Choose(len(bad))]
				s := c.Pick("a", "l", "pp", "o", "ll")
				var v Val
				switch s {
				case "a", "pp":
					v = b
				case "l":
					v = vList(vStr("file1"), b)
				case "ll":
					v = vList(vList(b))
				case "o":
					v = vObj(Arg{"f", b})
				}
				if c.Bool() {
					if b.K == 'e' {
						return nil
					}
					return fileCase(&Doc{Defs: []any{&Op{Kind: "query", Vars: []VarDef{{"x", fileTypes[s], nil}}, Sel: []Sel{fld("up").args(Arg{s, vVar("x")})}}}}, `{"x":`+v.json()+`}`, true)
				}
				return fileCase(query(fld("up").args(Arg{s, v})), "", true)
			},
			// uploads
			func(c *Chooser, e *Env) *Case {
				u := upload{data: map[string]string{"x": "content of x", "y": "", "z z": strings.Repeat("zß\r\n--", 40)}}
				left := []string{"x", "y", "z z"}
				for n := c.Choose(4); n > 0; n-- {
					i := c.Choose(len(left))
					u.order = append(u.order, left[i])
					left = append(append([]string{}, left[:i]...), left[i+1:]...)
				}
				names := []string{"", "x", "y", "z z", "nope"}
				expect := map[string]string{}
				missing := false
				refs := map[string]string{}
				for _, s := range []string{"a", "b", "l"} {
					n := names[c.Choose(len(names))]
					if n == "" {
						continue
					}
					refs[s] = n
					there := false
					for _, o := range u.order {
						there = there || o == n
					}
					expect[s] = u.data[n]
					missing = missing || !there
				}
				u.vars = "{}"
				var args, defs, vars []string
				asVar := c.Bool()
				for _, s := range []string{"a", "b", "l"} {
					n, ok := refs[s]
					if !ok {
						continue
					}
					v := jstr(n)
					t := "File"
					if s == "l" {
						v, t = "["+v+"]", "[File!]"
					}
					if asVar {
						defs = append(defs, "$"+s+":"+t)
						vars = append(vars, jstr(s)+":"+v)
						v = "$" + s
					}
					args = append(args, s+":"+v)
				}
				u.query = "mutation"
				if len(defs) > 0 {
					u.query += "(" + strings.Join(defs, ",") + ")"
					u.vars = "{" + strings.Join(vars, ",") + "}"
				}
				u.query += "{up"
				if len(args) > 0 {
					u.query += "(" + strings.Join(args, ",") + ")"
				}
				u.query += "}"
				u.batch = c.Choose(4)
				return uploadCase(u, expect, missing)
			},
		},
	})
}
