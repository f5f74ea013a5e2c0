package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql"
)

// Resp is a decoded response
type Resp struct {
	Raw     string
	Data    string // canonical
	JSON    string // as it was sent
	HasData bool
	Errs    []RespErr
	HasErrs bool
	Ret     []error
	Log     []string
	Bad     string // why the response itself is malformed
	Ext     json.RawMessage
}

// RespErr is an entry of the errors list
type RespErr struct {
	Message string
	Path    string
	HasPath bool
	Line    int
	Column  int
	HasLoc  bool
}

func (r *Resp) syntaxErr() bool {
	for _, e := range r.Errs {
		if e.HasLoc {
			return true
		}
	}
	return false
}

// run executes the query on the real implementation
func run(s *yarql.Schema, q string, opts yarql.ResolveOptions) *Resp {
	calls = calls[:0]
	ret := s.Resolve([]byte(q), opts)
	r := decodeResp(s.Result, opts.NoMeta)
	r.Ret = append([]error{}, ret...)
	r.Log = append([]string{}, calls...)
	if r.Bad == "" && !opts.NoMeta {
		if len(r.Ret) != len(r.Errs) {
			r.Bad = fmt.Sprintf("%d errors returned but %d errors in the response", len(r.Ret), len(r.Errs))
		} else {
			for i, e := range r.Ret {
				if sanitize(e.Error()) != sanitize(r.Errs[i].Message) {
					r.Bad = fmt.Sprintf("returned error %q is reported as %q", e.Error(), r.Errs[i].Message)
				}
			}
		}
	}
	return r
}

// sanitize replaces invalid utf8 the way json does
func sanitize(s string) string { return string([]rune(s)) }

const okPrefix = `{"data":`

// decodeResp checks the shape of a response
func decodeResp(raw []byte, noMeta bool) *Resp {
	r := &Resp{Raw: string(raw)}
	if noMeta {
		c, err := canonJSON(raw)
		if err != nil || !strings.HasPrefix(c, "{") {
			r.Bad = "response is not a JSON object: " + clip(r.Raw, 300)
			return r
		}
		r.Data, r.HasData = c, true
		r.JSON = r.Raw
		return r
	}
	if !json.Valid(raw) {
		r.Bad = "response is not valid JSON: " + clip(r.Raw, 600)
		return r
	}
	var top struct {
		Data       json.RawMessage `json:"data"`
		Errors     json.RawMessage `json:"errors"`
		Extensions json.RawMessage `json:"extensions"`
	}
	dec := json.NewDecoder(strings.NewReader(r.Raw))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&top); err != nil {
		r.Bad = "unexpected response shape: " + err.Error() + ": " + clip(r.Raw, 300)
		return r
	}
	if top.Data == nil {
		r.Bad = "response without data: " + clip(r.Raw, 300)
		return r
	}
	c, err := canonJSON(top.Data)
	if err != nil || !strings.HasPrefix(c, "{") {
		r.Bad = "data is not an object: " + clip(r.Raw, 300)
		return r
	}
	r.Data, r.HasData = c, true
	r.JSON = string(top.Data)
	r.Ext = top.Extensions
	if top.Errors != nil {
		r.HasErrs = true
		var list []struct {
			Message   *string           `json:"message"`
			Path      []json.RawMessage `json:"path"`
			Locations []struct {
				Line   *int `json:"line"`
				Column *int `json:"column"`
			} `json:"locations"`
		}
		dec := json.NewDecoder(strings.NewReader(string(top.Errors)))
		dec.DisallowUnknownFields()
		if err := dec.Decode(&list); err != nil {
			r.Bad = "unexpected errors: " + err.Error() + ": " + clip(r.Raw, 300)
			return r
		}
		if len(list) == 0 {
			r.Bad = "empty errors list"
			return r
		}
		for _, e := range list {
			if e.Message == nil {
				r.Bad = "error without a message"
				return r
			}
			re := RespErr{Message: *e.Message}
			if e.Path != nil {
				re.HasPath = true
				parts := []string{}
				for _, p := range e.Path {
					parts = append(parts, string(p))
				}
				re.Path = strings.Join(parts, ",")
			}
			if len(e.Locations) > 0 {
				if e.Locations[0].Line == nil || e.Locations[0].Column == nil {
					r.Bad = "location without line or column"
					return r
				}
				re.HasLoc = true
				re.Line, re.Column = *e.Locations[0].Line, *e.Locations[0].Column
			}
			r.Errs = append(r.Errs, re)
		}
	}
	return r
}

// compare checks a response against the reference, an empty string means they agree
func compare(ref *RefRes, r *Resp) string {
	if r.Bad != "" {
		return r.Bad
	}
	if ref.DontCare {
		return ""
	}
	describe := func(msg string) string {
		exp := fmt.Sprintf("data %s errors %v log %v", ref.Data, ref.Errs, ref.Log)
		if ref.Loose {
			exp = "at least " + exp
		}
		return fmt.Sprintf("%s\n expected: %s\n observed: %s log %v", msg, clip(exp, 1500), clip(r.Raw, 1500), r.Log)
	}
	if r.Data != ref.Data && !(ref.Loose && strings.HasPrefix(r.Data, ref.Data)) {
		return describe("wrong data")
	}
	if len(r.Errs) < len(ref.Errs) || !ref.Loose && len(r.Errs) != len(ref.Errs) {
		return describe("wrong number of errors")
	}
	for i, e := range ref.Errs {
		g := r.Errs[i]
		if g.HasLoc {
			return describe("a syntax error is reported for a correct document")
		}
		if g.Path != e.Path {
			return describe(fmt.Sprintf("wrong path of error %d", i))
		}
		if e.Resolver && g.Message != e.Msg {
			return describe(fmt.Sprintf("wrong message of error %d, expected %s", i, strconv.Quote(e.Msg)))
		}
	}
	log := r.Log
	if ref.Loose && len(log) > len(ref.Log) {
		log = log[:len(ref.Log)]
	}
	if strings.Join(ref.Log, "\n") != strings.Join(log, "\n") {
		return describe("wrong resolver calls")
	}
	return ""
}

// docCase is a case that runs one document on the world schema
func docCase(d *Doc, op, vars string, maxDepth int) *Case {
	return docCaseText(d, "", op, vars, maxDepth)
}

func docCaseText(d *Doc, text, op, vars string, maxDepth int) *Case {
	return &Case{DescF: func() string {
		desc := text
		if desc == "" {
			desc = d.String()
		}
		if op != "" {
			desc += "  operation=" + op
		}
		if vars != "" {
			desc += "  variables=" + vars
		}
		if maxDepth != 0 {
			desc += fmt.Sprintf("  maxDepth=%d", maxDepth)
		}
		return desc
	}, Run: func() Result {
		text := text
		if text == "" {
			text = d.String()
		}
		s := world()
		ref := refExec(RefReq{Doc: d, Op: op, Variables: vars, MaxDepth: maxDepth, Query: worldQ, Mutation: worldM, Directives: worldRefDirectives})
		if maxDepth != 0 {
			s.MaxDepth = uint8(maxDepth)
		} else {
			s.MaxDepth = 255
		}
		if traceDocs {
			return traceRun(s, text, yarql.ResolveOptions{OperatorTarget: op, Variables: vars}, ref)
		}
		r := run(s, text, yarql.ResolveOptions{OperatorTarget: op, Variables: vars})
		if ref.Dup {
			ref.DontCare = true // see property R01
		}
		return Result{Fail: compare(ref, r), Outcome: r.Raw, Steps: 1, Skip: ref.DontCare}
	}}
}

var worldRefDirectives = func() map[string]*RefDirective {
	m := newScalarDirs()
	m["plain"] = &RefDirective{Skip: func(map[string]string) bool { return false }}
	yes, no := func(map[string]string) bool { return true }, func(map[string]string) bool { return false }
	m["mix/f"], m["mix/s"], m["mix/i"] = &RefDirective{Skip: yes}, &RefDirective{Skip: no}, &RefDirective{Skip: no}
	m["mix2/s"] = &RefDirective{Skip: yes}
	m["fieldOnly"] = &RefDirective{Where: "f", Skip: func(map[string]string) bool { return true }}
	m["hideAbove"] = &RefDirective{Args: map[string]*InT{"n": tInt, "max": tInt}, Skip: func(a map[string]string) bool {
		return atoi(a["n"]) > atoi(a["max"])
	}}
	return m
}()
