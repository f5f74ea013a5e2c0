package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"mime/multipart"
	"strings"
	"unicode/utf8"

	"github.com/mjarkk/yarql"
	"github.com/valyala/fastjson"
)

// H01: every transport gives the answer of the request run directly

// hreq is a request, independent of its transport
type hreq struct {
	q, op, vars string
	script      []int
	fault       uint64
}

// hopt are the options of a request
type hopt struct {
	values, ctx, files, tracing bool
}

func (o hopt) String() string {
	return fmt.Sprintf("values=%v ctx=%v files=%v tracing=%v", o.values, o.ctx, o.files, o.tracing)
}

var hDirect, hHTTP *yarql.Schema

func hSchemas() (direct, http *yarql.Schema) {
	if hDirect == nil {
		hDirect, hHTTP = newWorld3Schema(), newWorld3Schema()
	}
	return hDirect, hHTTP
}

func hPrepare(script []int, fault uint64) {
	calls = calls[:0]
	ctxScript = make([]int, 6)
	copy(ctxScript, script)
	ctxCancel = nil
	faultReal = faultPlan{mask: fault}
}

func hFile(key string) (*multipart.FileHeader, error) {
	calls = append(calls, "file "+key)
	return formFile(key)
}

type hctx struct{}

// hOut is everything that can be observed of a request
type hOut struct {
	raw    string
	errs   []string
	log    string
	values string
}

func (o hOut) String() string {
	return fmt.Sprintf("%s errs %q log %s values %s", o.raw, o.errs, o.log, o.values)
}

// direct runs the request without a transport
func (r hreq) direct(o hopt) hOut {
	s, _ := hSchemas()
	hPrepare(r.script, r.fault)
	opts := yarql.ResolveOptions{OperatorTarget: r.op, Variables: r.vars, Tracing: o.tracing}
	var vals map[string]interface{}
	if o.values {
		vals = map[string]interface{}{"k": "given", "x": 3}
		opts.Values = &vals
	}
	if o.ctx {
		opts.Context = context.WithValue(context.Background(), ctxName{}, "request")
	}
	if o.files {
		opts.GetFormFile = hFile
	}
	errs := s.Resolve([]byte(r.q), opts)
	raw := string(s.Result)
	if o.tracing {
		raw = stripTracing(s.Result)
	}
	return hOut{raw, errStrings(errs), strings.Join(calls, ";"), fmt.Sprint(vals)}
}

// envelope is a request as it is sent
type envelope struct {
	method, ct string
	url        map[string]string
	form       map[string]string
	body       string
	nilOpts    bool
}

func (e envelope) String() string {
	return fmt.Sprintf("%s content type %q url %q form %q body %q", e.method, e.ct, e.url, e.form, e.body)
}

func (e envelope) send(o hopt, script []int, fault uint64) (out hOut) {
	_, s := hSchemas()
	hPrepare(script, fault)
	opts := &yarql.RequestOptions{Tracing: o.tracing}
	var vals map[string]interface{}
	if o.values {
		vals = map[string]interface{}{"k": "given", "x": 3}
		opts.Values = vals
	}
	if o.ctx {
		opts.Context = context.WithValue(context.Background(), ctxName{}, "request")
	}
	if o.files {
		opts.GetFormFile = hFile
	}
	if e.nilOpts {
		opts = nil
	}
	raw, errs := s.HandleRequest(e.method,
		func(key string) string { return e.url[key] },
		func(key string) (string, error) {
			if v, ok := e.form[key]; ok {
				return v, nil
			}
			return "", errors.New("no form field " + key)
		},
		func() []byte { return []byte(e.body) },
		e.ct, opts)
	return hOut{string(raw), errStrings(errs), strings.Join(calls, ";"), fmt.Sprint(vals)}
}

// refused checks the answer of something that cannot be read
func refused(raw string, errs []string, log string) string {
	r := decodeResp([]byte(raw), false)
	switch {
	case r.Bad != "":
		return r.Bad
	case r.Data != "{}":
		return "a refused request has data: " + raw
	case len(r.Errs) != 1 || r.Errs[0].HasLoc || r.Errs[0].HasPath:
		return "a refused request has to have precisely one error: " + raw
	case len(errs) != 1 || sanitize(errs[0]) != sanitize(r.Errs[0].Message):
		return fmt.Sprintf("the error of the response %s is not the returned error %q", raw, errs)
	case log != "":
		return "a refused request ran " + log
	}
	return ""
}

// bodyReq is what a body asks for
type bodyReq struct {
	bad bool
	hreq
}

// readBody is the reference reading of a JSON body. ok is false if the body is outside of what is specified
func readBody(body string) (reqs []bodyReq, batch, ok bool) {
	if !json.Valid([]byte(body)) || !utf8.ValidString(body) {
		if _, err := fastjson.Parse(body); err == nil || !utf8.ValidString(body) {
			return nil, false, false // the json parser is a lenient one
		}
		return []bodyReq{{bad: true}}, false, true
	}
	if strings.HasPrefix(strings.TrimSpace(body), "[") {
		var l []json.RawMessage
		if json.Unmarshal([]byte(body), &l) != nil {
			return nil, false, false
		}
		for _, m := range l {
			r, ok := readReq(m)
			if !ok {
				return nil, false, false
			}
			reqs = append(reqs, r)
		}
		return reqs, true, true
	}
	r, ok := readReq([]byte(body))
	return []bodyReq{r}, false, ok
}

func readReq(raw []byte) (r bodyReq, ok bool) {
	bad := bodyReq{bad: true}
	raw = bytes.TrimSpace(raw)
	if raw[0] != '{' {
		return bad, true
	}
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.Token()
	seen := map[string]json.RawMessage{}
	for dec.More() {
		k, err := dec.Token()
		var m json.RawMessage
		if err != nil || dec.Decode(&m) != nil {
			return r, false
		}
		key := k.(string)
		if _, dup := seen[key]; dup {
			return r, false
		}
		seen[key] = bytes.TrimSpace(m)
	}
	if strings.Contains(string(raw), `\u`) && strings.ContainsRune(string(raw), '\ufffd') {
		return r, false
	}
	str := func(key string) (string, bool) {
		var s string
		m := seen[key]
		if len(m) == 0 || m[0] != '"' || json.Unmarshal(m, &s) != nil {
			return "", false
		}
		if strings.ContainsRune(s, utf8.RuneError) {
			ok = false // lone surrogates
		}
		return s, true
	}
	ok = true
	var good bool
	if r.q, good = str("query"); !good {
		return bad, ok
	}
	if m := seen["operationName"]; m != nil && string(m) != "null" {
		if r.op, good = str("operationName"); !good {
			return bad, ok
		}
	}
	if m := seen["variables"]; m != nil && string(m) != "null" {
		if m[0] != '{' {
			return bad, ok
		}
		r.vars = string(m)
	}
	return r, ok
}

// checkBody compares the answer of a body with the answers of its requests
func checkBody(out hOut, body string, o hopt, script []int, fault uint64) (fail string, skip bool) {
	reqs, batch, ok := readBody(body)
	if !ok {
		if !json.Valid([]byte(out.raw)) {
			return "the answer is not valid JSON: " + out.raw, true
		}
		return "", true
	}
	if !batch {
		if reqs[0].bad {
			return refused(out.raw, out.errs, out.log), false
		}
		r := reqs[0].hreq
		r.script, r.fault = script, fault
		exp := r.direct(o)
		if o.tracing {
			out.raw = stripTracing([]byte(out.raw))
		}
		return diffOut("the answer differs from the one of the request run directly", exp.String(), out.String()), false
	}
	var items []json.RawMessage
	if err := json.Unmarshal([]byte(out.raw), &items); err != nil || items == nil {
		return "the answer of a batch is not a list: " + out.raw, false
	}
	if len(items) != len(reqs) {
		return fmt.Sprintf("%d answers for %d requests: %s", len(items), len(reqs), out.raw), false
	}
	errs, log := out.errs, out.log
	for i, r := range reqs {
		if r.bad {
			if len(errs) == 0 {
				return fmt.Sprintf("no error is returned for item %d: %s", i, out), false
			}
			if f := refused(string(items[i]), errs[:1], ""); f != "" {
				return fmt.Sprintf("item %d: %s", i, f), false
			}
			errs = errs[1:]
			continue
		}
		r.script, r.fault = script, fault
		exp := r.direct(o)
		got := hOut{raw: string(items[i]), values: exp.values}
		if o.tracing {
			got.raw = stripTracing(items[i])
		}
		if len(errs) < len(exp.errs) {
			return fmt.Sprintf("item %d: missing errors %q: %s", i, exp.errs, out), false
		}
		got.errs, errs = errs[:len(exp.errs)], errs[len(exp.errs):]
		if exp.log != "" {
			if !strings.HasPrefix(log, exp.log) {
				return fmt.Sprintf("item %d: expected the calls %s: %s", i, exp.log, out), false
			}
			log = strings.TrimPrefix(log[len(exp.log):], ";")
			got.log = exp.log
		}
		if f := diffOut(fmt.Sprintf("item %d of a batch differs from the request on its own", i), exp.String(), got.String()); f != "" {
			return f, false
		}
	}
	if len(errs) != 0 || log != "" {
		return fmt.Sprintf("more errors or calls than the requests of a batch have: %q %s", errs, log), false
	}
	return "", false
}

func httpCase(e envelope, o hopt, script []int, fault uint64) *Case {
	return &Case{DescF: func() string { return e.String() + " " + o.String() }, Run: func() Result {
		out := e.send(o, script, fault)
		f, skip := e.check(out, o, script, fault)
		return Result{Fail: f, Skip: skip, Outcome: out.raw, Steps: 2}
	}}
}

// check decides from where the request has to be read
func (e envelope) check(out hOut, o hopt, script []int, fault uint64) (string, bool) {
	ct := e.ct
	if i := strings.IndexByte(ct, ';'); i >= 0 {
		ct = ct[:i]
	}
	ct = strings.ToLower(strings.TrimSpace(ct))
	get := strings.EqualFold(e.method, "get")
	switch {
	case ct == "application/json", ct == "text/plain" && !get:
		return checkBody(out, e.body, o, script, fault)
	case ct == "multipart/form-data" && !get:
		ops, ok := e.form["operations"]
		if !ok {
			return refused(out.raw, out.errs, out.log), false
		}
		return checkBody(out, ops, o, script, fault)
	}
	r := hreq{e.url["query"], e.url["operationName"], e.url["variables"], script, fault}
	exp := r.direct(o)
	if o.tracing {
		out.raw = stripTracing([]byte(out.raw))
	}
	return diffOut("the answer differs from the one of the request run directly", exp.String(), out.String()), false
}

func jstr(s string) string {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	enc.Encode(s)
	return strings.TrimSpace(b.String())
}

// jesc writes every character as an escape
func jesc(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if r > 0xffff {
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+r>>10, 0xdc00+r&0x3ff)
			continue
		}
		fmt.Fprintf(&b, `\u%04x`, r)
	}
	return b.String() + `"`
}

// hRequests are the requests that are sent over every transport
func hRequests() []*reqKind {
	var l []*reqKind
	for _, k := range reqKinds() {
		if k.http || k.panics || k.opts.NoMeta {
			continue
		}
		l = append(l, k)
	}
	return l
}

func isObj(v string) bool { return strings.HasPrefix(v, "{") && json.Valid([]byte(v)) }

func (k *reqKind) jsonable() bool { return k.opts.Variables == "" || isObj(k.opts.Variables) }

// bodyOf writes the JSON body of a request, form tells how
func bodyOf(c *Chooser, q, op, vars string) string {
	str := jstr
	if c.Bool() {
		str = jesc
	}
	type member struct{ k, v string }
	l := []member{{"query", str(q)}}
	if op != "" {
		l = append(l, member{"operationName", str(op)})
	} else {
		switch c.Choose(3) {
		case 1:
			l = append(l, member{"operationName", "null"})
		case 2:
			l = append(l, member{"operationName", `""`})
		}
	}
	if vars != "" {
		l = append(l, member{"variables", vars})
	} else if c.Bool() {
		l = append(l, member{"variables", "null"})
	}
	if c.Bool() {
		l = append(l, member{"extensions", `{"query":"{nope}","variables":[1],"persistedQuery":{"version":1}}`})
	}
	// every order
	var parts []string
	sep := c.Pick("", " \n\t\r ")
	for len(l) > 0 {
		i := c.Choose(len(l))
		parts = append(parts, sep+str(l[i].k)+sep+":"+sep+l[i].v+sep)
		l = append(append([]member{}, l[:i]...), l[i+1:]...)
	}
	return sep + "{" + strings.Join(parts, ",") + "}" + sep
}

func hOpts(c *Chooser) hopt {
	return hopt{values: c.Bool(), ctx: c.Bool(), files: c.Bool(), tracing: c.Bool()}
}

func init() {
	methods := []string{"GET", "get", "POST", "post", "PUT", "DELETE", "", "Get", "OPTIONS"}
	types := []string{"", "application/json", "application/json; charset=utf-8", "APPLICATION/JSON", " application/json ; a=b; c=d", "text/plain", "Text/Plain;charset=UTF-8",
		"multipart/form-data; boundary=----x", "multipart/form-data", "application/x-www-form-urlencoded", "text/html", "application/jsonx", "json", ";", "application/json,text/plain"}
	sources := []string{
		`{"query":"query B($a:Int){in{int(a:$a)} w{fnStr}}","variables":{"a":3}}`,
		`[{"query":"{w{b:fnStr}}"},{"query":"{w{err}}"}]`,
		``, `{`, `{"query":"{w{str"}`, `"x"`,
	}
	forms := []map[string]string{
		{"operations": `{"query":"query F($a:Int){in{int(b:$a)} w{fnStr}}","variables":{"a":4}}`},
		{"operations": `[{"query":"{w{f:fnStr}}"}]`},
		{"operations": ""},
		{"query": "{w{fnStr}}", "operation": `{"query":"{w{str}}"}`},
		nil,
	}
	urls := []map[string]string{
		{"query": "query U($a:Int){in{int(a:1,b:$a)} w{fnStr}}", "variables": `{"a":5}`},
		{"query": "query U{w{str}} mutation V{set(v:\"u\"){name}}", "operationName": "V"},
		{"query": "{w{str}} }"},
		nil,
	}
	values := []string{`null`, `true`, `false`, `0`, `-1.5e3`, `""`, `"{w{fnStr}}"`, `[]`, `["{w{fnStr}}"]`, `{}`, `{"a":1}`, `"A"`, `[{}]`}
	batchItems := []string{
		`{"query":"{w{fnStr}}"}`,
		`{"query":"query A($a:Int){in{int(a:$a)}}mutation B($a:String=\"d\"){set(v:$a){name}}","operationName":"B","variables":{"a":"x"}}`,
		`{"query":"{w{err errObj{name}} e{s l{s}}}"}`,
		`{"query":"{w{str}\n }}"}`,
		`{"query":"{w{nope fnStr}}"}`,
		`{"query":"query($f:File){in{file(a:$f,b:\"file2\")}}","variables":{"f":"file1"}}`,
		`{"query":""}`, `{}`, `{"query":1}`, `null`, `7`, `[]`, `[{"query":"{w{fnStr}}"}]`, `"x"`, `{"query":"{w{fnStr}}","variables":"x"}`,
		`{"query":"{w{fnStr}}","operationName":[]}`, `{"query":"query A{w{fnStr}}","operationName":"B"}`,
		`{"query":"{ctx{a:op(i:1) last}}","variables":null}`,
		`{"query":"{w{list{name kids{n bad}}}}"}`,
		`{"query":"{in{in1(a:{s:\"` + strings.Repeat("long ", 100) + `\"})}}"}`,
	}
	bodies := []string{
		`{"query":"query A($a:String){in{str(a:$a)}}","variables":{"a":"x\n"},"operationName":"A"}`,
		`[{"query":"{w{fnStr}}"},{"query":"mutation($v:String){set(v:$v){name}}","variables":{"v":"x"}}]`,
		`{"variables":null,"operationName":null,"query":"{w{str err}}"}`,
		` [ null , { "query" : "{w{num}}" , "extensions" : { } } ] `,
	}
	alphabet := "{}[]\",:\\ 0atnu\x00\xff\n-.e/'"
	register(&Property{
		ID: "H01",
		Bounds: map[string]string{
			"quick":    "47 kinds of requests x URL, JSON (every order and notation of the members), text and multipart x every subset of the options; 9 methods x 15 content types x 6 bodies x 5 forms x 4 URLs, all different; 14 values for each of the members of a body in every order; every batch of up to 3 out of 20 items over 3 transports; every pair of the 47 kinds in a batch; every truncation and every one byte edit out of 24 bytes of 4 bodies; every code point in queries and variables, raw and escaped",
			"thorough": "the quick space with batches of 4 and two byte edits",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			// every request over every transport
			func(c *Chooser, e *Env) *Case {
				l := hRequests()
				k := l[c.Choose(len(l))]
				ev := envelope{method: "POST"}
				o := hopt{}
				switch c.Choose(4) {
				case 0:
					ev.method = c.Pick("GET", "POST")
					ev.url = map[string]string{"query": k.q, "operationName": k.opts.OperatorTarget, "variables": k.opts.Variables}
					o = hOpts(c)
				case 1:
					if !k.jsonable() {
						return nil
					}
					ev.ct = "application/json"
					ev.body = bodyOf(c, k.q, k.opts.OperatorTarget, k.opts.Variables)
				case 2:
					if !k.jsonable() {
						return nil
					}
					ev.ct = "text/plain"
					ev.body = bodyOf(&Chooser{vec: make([]int, 20)}, k.q, k.opts.OperatorTarget, k.opts.Variables)
					o = hOpts(c)
				case 3:
					if !k.jsonable() {
						return nil
					}
					ev.ct = "multipart/form-data; boundary=x"
					ev.form = map[string]string{"operations": bodyOf(&Chooser{vec: make([]int, 20)}, k.q, k.opts.OperatorTarget, k.opts.Variables)}
					o = hOpts(c)
				}
				if o == (hopt{}) {
					ev.nilOpts = c.Bool()
				}
				return httpCase(ev, o, k.script, k.fault)
			},
			// where the request is read from
			func(c *Chooser, e *Env) *Case {
				return httpCase(envelope{method: methods[c.Choose(len(methods))], ct: types[c.Choose(len(types))],
					body: sources[c.Choose(len(sources))], form: forms[c.Choose(len(forms))], url: urls[c.Choose(len(urls))]}, hopt{}, nil, 0)
			},
			// types of the members
			func(c *Chooser, e *Env) *Case {
				var l []string
				for _, k := range []string{"query", "operationName", "variables"} {
					v := "" // absent
					if i := c.Choose(len(values) + 1); i > 0 {
						v = values[i-1]
					}
					if v != "" {
						l = append(l, `"`+k+`":`+v)
					}
				}
				if len(l) > 1 {
					i := c.Choose(len(l))
					l[0], l[i] = l[i], l[0]
				}
				body := "{" + strings.Join(l, ",") + "}"
				if c.Bool() {
					body = "[" + body + `,{"query":"{w{fnStr}}"}]`
				}
				return httpCase(envelope{method: "POST", ct: "application/json", body: body}, hopt{}, nil, 0)
			},
			// whole bodies
			func(c *Chooser, e *Env) *Case {
				b := append(append([]string{"", " ", "{}{}", "[", "]", "[]]", "[,]", "[{}", `{"query":"{w{fnStr}}"} x`, `{"query":"{w{fnStr}}"},{"query":"{w{fnStr}}"}`, `{"query":"{w{fnStr}}",}`, "\xef\xbb\xbf{}", `{"Query":"{w{fnStr}}"}`, `{"query ":"{w{fnStr}}"}`,
					strings.Repeat("[", 299) + strings.Repeat("]", 299), `{"query":"{w{fnStr}}","x":` + strings.Repeat("[", 200) + strings.Repeat("]", 200) + "}"}, values...), batchItems...)
				body := b[c.Choose(len(b))]
				if c.Choose(3) == 0 {
					return httpCase(envelope{method: "POST", ct: "multipart/form-data", form: map[string]string{"operations": body}}, hopt{}, nil, 0)
				}
				return httpCase(envelope{method: "POST", ct: c.Pick("application/json", "text/plain"), body: body}, hopt{}, nil, 0)
			},
			// batches
			func(c *Chooser, e *Env) *Case {
				n := c.Choose(4)
				if e.Thorough {
					n = c.Choose(5)
				}
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, batchItems[c.Choose(len(batchItems))])
				}
				body := "[" + strings.Join(l, c.Pick(",", " ,\n")) + "]"
				o := hopt{files: c.Bool()}
				var script []int
				if n < 3 {
					o.tracing, o.ctx = c.Bool(), c.Bool()
					// values of one request are not there in the next one
					script = [][]int{nil, {0, 1, 0}, {0, 4, 0}, {0, 7}}[c.Choose(4)]
				}
				ev := envelope{method: "POST", ct: "application/json", body: body}
				switch c.Choose(3) {
				case 1:
					ev.ct = "text/plain; charset=utf-8"
				case 2:
					ev = envelope{method: "PUT", ct: "multipart/form-data", form: map[string]string{"operations": body}}
				}
				return httpCase(ev, o, script, 0)
			},
			// every pair of requests
			func(c *Chooser, e *Env) *Case {
				l := hRequests()
				body := ""
				for i := 0; i < 2; i++ {
					k := l[c.Choose(len(l))]
					if !k.jsonable() {
						return nil
					}
					body += "," + bodyOf(&Chooser{vec: make([]int, 20)}, k.q, k.opts.OperatorTarget, k.opts.Variables)
				}
				return httpCase(envelope{method: "POST", ct: "application/json", body: "[" + body[1:] + "]"}, hopt{files: c.Bool()}, []int{3, 4}, 0)
			},
			// long batches
			func(c *Chooser, e *Env) *Case {
				n := []int{10, 100, 1000}[c.Choose(3)]
				a, b := batchItems[c.Choose(len(batchItems))], batchItems[c.Choose(len(batchItems))]
				body := "[" + a + strings.Repeat(","+b, n) + "," + a + "]"
				return httpCase(envelope{method: "POST", ct: "application/json", body: body}, hopt{}, nil, 0)
			},
			// edits
			func(c *Chooser, e *Env) *Case {
				body := bodies[c.Choose(len(bodies))]
				n := 1
				if e.Thorough {
					n += c.Choose(2)
				}
				if c.Bool() {
					body = body[:c.Choose(len(body))]
					n--
				}
				for ; n > 0; n-- {
					i := c.Choose(len(body) + 1)
					j := c.Choose(2*len(alphabet) + 1)
					switch {
					case j < len(alphabet):
						body = body[:i] + alphabet[j:j+1] + body[i:]
					case i == len(body):
						return nil
					case j < 2*len(alphabet):
						body = body[:i] + alphabet[j-len(alphabet):][:1] + body[i+1:]
					default:
						body = body[:i] + body[i+1:]
					}
				}
				ev := envelope{method: "POST", ct: "application/json", body: body}
				if c.Bool() {
					ev = envelope{method: "POST", ct: "multipart/form-data", form: map[string]string{"operations": body}}
				}
				return httpCase(ev, hopt{}, nil, 0)
			},
			// every character
			func(c *Chooser, e *Env) *Case {
				hi := c.Choose(17)
				r := rune(hi<<16 | c.Choose(256)<<8)
				if hi > 0 && !e.Thorough && r&0xf00 != 0 && r != 0x10ff00 && r != 0x1f600 {
					return nil
				}
				str := [](func(string) string){jstr, jesc}[c.Choose(2)]
				where := c.Choose(3)
				body := func(s string) string {
					q, op, v := `query A($a:String){in{str(a:$a,b:`+jstr("lit")+`)}}`, "A", "v"
					switch where {
					case 0:
						q = strings.Replace(q, "lit", strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`), 1)
					case 1:
						op = s
					case 2:
						v = s
					}
					return `{"query":` + str(q) + `,"operationName":` + str(op) + `,"variables":{"a":` + str(v) + `}}`
				}
				return &Case{DescF: func() string {
					return fmt.Sprintf("characters U+%04X..U+%04X, e.g. %s", r, r+255, body(string(r+'A')))
				}, Run: func() Result {
					res := Result{}
					for i := rune(0); i < 256; i++ {
						if !utf8.ValidRune(r+i) || r+i == utf8.RuneError {
							continue
						}
						ev := envelope{method: "POST", ct: "application/json", body: body(string(r + i))}
						out := ev.send(hopt{}, nil, 0)
						f, skip := ev.check(out, hopt{}, nil, 0)
						if skip && f == "" {
							f = "the harness cannot read its own body"
						}
						res.Steps += 2
						if f != "" {
							res.Fail = fmt.Sprintf("U+%04X: %s", r+i, f)
							return res
						}
						res.Outcome = out.raw
					}
					return res
				}}
			},
		},
	})
}
