package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/mjarkk/yarql"
)

// V01: scalars arrive in the response with exactly their go value

// VO has a value in every way a field can be declared
type VO[T any] struct {
	V    T
	P    *T
	Pp   **T
	Nil  *T
	Pnil **T
	L    []T
	Lp   []*T
	Ll   [][]T
	Pl   *[]T
	Ml   map[string]T `gq:"-"`
	Fn   func() T
	FnP  func() (*T, error)
	FnL  func() ([]T, error)
	S    VS[T]
	Sp   *VS[T]
	Sl   []VS[T]
}

// VS is a nested object
type VS[T any] struct {
	V T
	P *T
	L []T
}

// ResolveM returns the value
func (o VO[T]) ResolveM() T { return o.V }

// ResolveMp returns a pointer
func (o VO[T]) ResolveMp() (*T, error) { return o.P, nil }

// ResolveMe returns the value and no error
func (o VO[T]) ResolveMe() (error, T) { return nil, o.V }

// ResolveMl returns a list
func (o VO[T]) ResolveMl() []*T { return o.Lp }

// VB is an item of a block
type VB[T any] struct {
	V T
	P *T
}

// VI is a value as ID
type VI[T any] struct {
	ID T          `gq:"id,ID"`
	P  *T         `gq:"p,ID"`
	Pp **T        `gq:"pp,id"`
	N  *T         `gq:"n,ID"`
	Fn func() T   `gq:"fn,ID"`
	Fp func() **T `gq:"fp, ID"`
	V  T          `gq:"v"`
	X  func() (T, error)
}

// ResolveM is an ID
func (o VI[T]) ResolveM() (T, yarql.AttrIsID) { return o.ID, 0 }

// ResolveMp is an ID
func (o VI[T]) ResolveMp() (*T, yarql.AttrIsID, error) { return o.P, 0, nil }

type vcur[T any] struct {
	block []T
	o     VO[T]
	i     VI[T]
}

var vcurs = map[reflect.Type]any{}

func cur[T any]() *vcur[T] {
	t := reflect.TypeOf((*T)(nil)).Elem()
	if vcurs[t] == nil {
		vcurs[t] = &vcur[T]{}
	}
	return vcurs[t].(*vcur[T])
}

// VR is the query root
type VR[T any] struct{}

// ResolveL returns the block
func (VR[T]) ResolveL() []T { return cur[T]().block }

// ResolveBs returns the block as objects
func (VR[T]) ResolveBs() []VB[T] {
	b := cur[T]().block
	l := make([]VB[T], len(b))
	for i := range b {
		l[i] = VB[T]{b[i], &b[i]}
	}
	return l
}

// ResolveO returns the object
func (VR[T]) ResolveO() VO[T] { return cur[T]().o }

// VRI is a query root with IDs
type VRI[T any] struct{}

// ResolveIs returns the block as IDs
func (VRI[T]) ResolveIs() []VI[T] {
	b := cur[T]().block
	l := make([]VI[T], len(b))
	for i := range b {
		l[i] = VI[T]{ID: b[i], P: &b[i]}
	}
	return l
}

// ResolveI returns the object
func (VRI[T]) ResolveI() *VI[T] { return &cur[T]().i }

// VM is the mutation root
type VM struct{}

// named types of scalars
type (
	MyInt  int
	MyI16  int16
	MyU64  uint64
	MyF32  float32
	MyF64  float64
	MyStr  string
	MyBool bool
)

// vtype is a scalar type
type vtype interface {
	label() string
	blocks(e *Env) int
	block(i int) *Case
	limits() int
	pair(a, b int, ids bool) *Case
	ids() bool
}

type vtypeOf[T any] struct {
	name    string
	n       int // blocks
	thor    int // blocks of the thorough tier
	gen     func(i int) []T
	lim     []T
	id      bool
	schema  *yarql.Schema
	schemaI *yarql.Schema
}

func (t *vtypeOf[T]) label() string { return t.name }
func (t *vtypeOf[T]) blocks(e *Env) int {
	if e.Thorough && t.thor > 0 {
		return t.thor
	}
	return t.n
}
func (t *vtypeOf[T]) limits() int { return len(t.lim) }
func (t *vtypeOf[T]) ids() bool   { return t.id }

func (t *vtypeOf[T]) get(ids bool) *yarql.Schema {
	if t.schema == nil {
		t.schema = yarql.NewSchema()
		must(t.schema.Parse(VR[T]{}, VM{}, nil))
		if t.id {
			t.schemaI = yarql.NewSchema()
			must(t.schemaI.Parse(VRI[T]{}, VM{}, nil))
		}
	}
	if ids {
		return t.schemaI
	}
	return t.schema
}

// vask runs the query and decodes the data
func vask(s *yarql.Schema, q string) (map[string]any, string, string) {
	errs := s.Resolve([]byte(q), yarql.ResolveOptions{})
	raw := string(s.Result)
	if len(errs) > 0 {
		return nil, raw, fmt.Sprintf("unexpected errors %v", errs)
	}
	dec := json.NewDecoder(strings.NewReader(raw))
	dec.UseNumber()
	var top map[string]any
	if err := dec.Decode(&top); err != nil {
		return nil, raw, "the response is not valid JSON: " + err.Error() + ": " + clip(raw, 400)
	}
	data, _ := top["data"].(map[string]any)
	if data == nil || !utf8.ValidString(raw) {
		return nil, raw, "malformed response " + clip(raw, 400)
	}
	return data, raw, ""
}

// vsame tells if the JSON value is the go value
func vsame(v reflect.Value, got any) bool {
	switch v.Kind() {
	case reflect.Bool:
		b, ok := got.(bool)
		return ok && b == v.Bool()
	case reflect.String:
		s, ok := got.(string)
		return ok && (s == v.String() || s == sanitize(v.String()))
	case reflect.Float32, reflect.Float64:
		n, ok := got.(json.Number)
		if !ok {
			return false
		}
		f := v.Float()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return true // JSON has no such numbers
		}
		if v.Kind() == reflect.Float32 {
			g, err := strconv.ParseFloat(string(n), 32)
			return err == nil && float32(g) == float32(f)
		}
		g, err := strconv.ParseFloat(string(n), 64)
		return err == nil && g == f
	}
	n, ok := got.(json.Number)
	if !ok {
		return false
	}
	exp := vint(v)
	if string(n) == exp {
		return true
	}
	a, ok1 := new(big.Rat).SetString(string(n))
	b, ok2 := new(big.Rat).SetString(exp)
	return ok1 && ok2 && a.Cmp(b) == 0
}

func vint(v reflect.Value) string {
	if v.CanInt() {
		return strconv.FormatInt(v.Int(), 10)
	}
	return strconv.FormatUint(v.Uint(), 10)
}

// vsameID tells if the JSON value is the go value as ID
func vsameID(v reflect.Value, got any) bool {
	s, ok := got.(string)
	if v.Kind() == reflect.String {
		return ok && s == sanitize(v.String())
	}
	return ok && s == vint(v)
}

func vshow(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'x', -1, 64) + " = " + strconv.FormatFloat(v.Float(), 'g', -1, 64)
	}
	return fmt.Sprintf("%q", fmt.Sprint(v.Interface()))
}

func (t *vtypeOf[T]) block(i int) *Case {
	return &Case{DescF: func() string {
		l := t.gen(i)
		return fmt.Sprintf("block %d of %s: %d values from %s to %s", i, t.name, len(l), vshow(reflect.ValueOf(l[0])), vshow(reflect.ValueOf(l[len(l)-1])))
	}, Run: func() Result {
		l := t.gen(i)
		cur[T]().block = l
		res := Result{Steps: 1}
		if i >= t.n {
			t.get(false).Resolve([]byte("{l}"), yarql.ResolveOptions{})
			res.Fail = vfast(string(t.get(false).Result), reflect.ValueOf(l))
			return res
		}
		data, raw, fail := vask(t.get(false), "{l bs{v p}}")
		res.Outcome = raw
		if fail != "" {
			return Result{Fail: fail}
		}
		list, _ := data["l"].([]any)
		objs, _ := data["bs"].([]any)
		var ids []any
		if t.id {
			data, _, fail = vask(t.get(true), "{is{id p}}")
			res.Steps++
			if fail != "" {
				return Result{Fail: fail}
			}
			ids, _ = data["is"].([]any)
		}
		if len(list) != len(l) || len(objs) != len(l) || t.id && len(ids) != len(l) {
			return Result{Fail: "wrong number of values in " + clip(raw, 300)}
		}
		for j := range l {
			v := reflect.ValueOf(l[j])
			o, _ := objs[j].(map[string]any)
			switch {
			case !vsame(v, list[j]):
				res.Fail = fmt.Sprintf("the %s %s is written as %v in a list", t.name, vshow(v), list[j])
			case !vsame(v, o["v"]) || !vsame(v, o["p"]) || len(o) != 2:
				res.Fail = fmt.Sprintf("the %s %s is written as %v in an object", t.name, vshow(v), objs[j])
			case t.id:
				o, _ := ids[j].(map[string]any)
				if !vsameID(v, o["id"]) || !vsameID(v, o["p"]) {
					res.Fail = fmt.Sprintf("the %s %s is written as %v as ID", t.name, vshow(v), ids[j])
				}
			}
			if res.Fail != "" {
				return res
			}
		}
		return res
	}}
}

// vfast compares a list of float32 values without decoding it in general
func vfast(raw string, l reflect.Value) string {
	text, ok := strings.CutPrefix(raw, `{"data":{"l":[`)
	end := strings.IndexByte(text, ']')
	if !ok || end < 0 {
		return "malformed response " + clip(raw, 300)
	}
	text = text[:end]
	for i, n := 0, l.Len(); i < n; i++ {
		num := text
		if e := strings.IndexByte(text, ','); e >= 0 {
			num, text = text[:e], text[e+1:]
		} else if i != n-1 {
			return fmt.Sprintf("%d values are missing", n-1-i)
		}
		f := l.Index(i).Float()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			continue
		}
		g, err := strconv.ParseFloat(num, 32)
		if err != nil || g != f || !jsonNumber(num) {
			return fmt.Sprintf("the %s %s is written as %s", l.Type(), vshow(l.Index(i)), clip(num, 100))
		}
	}
	return ""
}

// jsonNumber tells if the text is a number of JSON
func jsonNumber(s string) bool {
	digits := func() bool {
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		s = s[i:]
		return i > 0
	}
	s = strings.TrimPrefix(s, "-")
	if strings.HasPrefix(s, "0") {
		s = s[1:]
	} else if !digits() {
		return false
	}
	if strings.HasPrefix(s, ".") {
		if s = s[1:]; !digits() {
			return false
		}
	}
	if s != "" && (s[0] == 'e' || s[0] == 'E') {
		if s = s[1:]; s != "" && (s[0] == '+' || s[0] == '-') {
			s = s[1:]
		}
		if !digits() {
			return false
		}
	}
	return s == ""
}

// pair is about two values next to each other in every kind of field
func (t *vtypeOf[T]) pair(ai, bi int, ids bool) *Case {
	a, b := t.lim[ai], t.lim[bi]
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	return &Case{DescF: func() string {
		return fmt.Sprintf("%s %s and %s, as ID: %v", t.name, vshow(va), vshow(vb), ids)
	}, Run: func() Result {
		pa, pb := &a, &b
		if ids {
			cur[T]().i = VI[T]{ID: a, P: pa, Pp: &pa, Fn: func() T { return b }, Fp: func() **T { return &pb }, V: b, X: func() (T, error) { return b, nil }}
			data, raw, fail := vask(t.get(true), "{i{id p pp n fn fp v x m mp}}")
			if fail != "" {
				return Result{Fail: fail}
			}
			o, _ := data["i"].(map[string]any)
			ok := len(o) == 10 && vsameID(va, o["id"]) && vsameID(va, o["p"]) && vsameID(va, o["pp"]) && o["n"] == nil &&
				vsameID(vb, o["fn"]) && vsameID(vb, o["fp"]) && vsame(vb, o["v"]) && vsame(vb, o["x"]) && vsameID(va, o["m"]) && vsameID(va, o["mp"])
			if !ok {
				return Result{Fail: "wrong values in " + raw}
			}
			return Result{Outcome: raw, Steps: 1}
		}
		var np *T
		l, lp := []T{a, b, a}, []*T{pa, nil, pb}
		s := VS[T]{V: b, P: pa, L: l}
		cur[T]().o = VO[T]{V: a, P: pb, Pp: &pa, Pnil: &np, L: l, Lp: lp, Ll: [][]T{{a}, nil, {b, a}, {}}, Pl: &l,
			Fn: func() T { return b }, FnP: func() (*T, error) { return nil, nil }, FnL: func() ([]T, error) { return l, nil }, S: s, Sp: nil, Sl: []VS[T]{s, {}}}
		data, raw, fail := vask(t.get(false), "{o{v p pp nil pnil l lp ll pl fn fnP fnL s{v p l}sp{v}sl{v p l}m mp me ml}}")
		if fail != "" {
			return Result{Fail: fail}
		}
		o, _ := data["o"].(map[string]any)
		zero := reflect.Zero(va.Type())
		list := []any{va, vb, va}
		so := map[string]any{"v": vb, "p": va, "l": list}
		exp := map[string]any{"v": va, "p": vb, "pp": va, "nil": nil, "pnil": nil, "l": list, "lp": []any{va, nil, vb},
			"ll": []any{[]any{va}, nil, []any{vb, va}, []any{}}, "pl": list, "fn": vb, "fnP": nil, "fnL": list, "s": so, "sp": nil,
			"sl": []any{so, map[string]any{"v": zero, "p": nil, "l": nil}}, "m": va, "mp": vb, "me": va, "ml": []any{va, nil, vb}}
		if f := vtree(exp, o, "o"); f != "" {
			return Result{Fail: f + " in " + raw}
		}
		return Result{Outcome: raw, Steps: 1}
	}}
}

func vtree(exp, got any, path string) string {
	switch e := exp.(type) {
	case nil:
		if got != nil {
			return fmt.Sprintf("%s is %v instead of null", path, got)
		}
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(e) {
			return fmt.Sprintf("%s is %v instead of a list of %d values", path, got, len(e))
		}
		for i := range e {
			if f := vtree(e[i], g[i], fmt.Sprint(path, ".", i)); f != "" {
				return f
			}
		}
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(e) {
			return fmt.Sprintf("%s is %v instead of an object with %d fields", path, got, len(e))
		}
		for k := range e {
			if f := vtree(e[k], g[k], path+"."+k); f != "" {
				return f
			}
		}
	case reflect.Value:
		if !vsame(e, got) {
			return fmt.Sprintf("%s is %#v instead of %s", path, got, vshow(e))
		}
	}
	return ""
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// vints are all values of the small types, and everything near powers of 2 and 10 of the large ones
func vints[T integer](name string) vtype {
	var zero T
	bits := reflect.TypeOf(zero).Bits()
	signed := zero-1 < zero
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	hi.Sub(hi, big.NewInt(1))
	conv := func(b *big.Int) T {
		if signed {
			return T(b.Int64())
		}
		return T(b.Uint64())
	}
	t := &vtypeOf[T]{name: name, id: true}
	near := func(c *big.Int, d int64) (l []T) {
		for _, s := range []int64{1, -1} {
			for i := -d; i <= d; i++ {
				v := new(big.Int).Mul(c, big.NewInt(s))
				v.Add(v, big.NewInt(i))
				if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
					l = append(l, conv(v))
				}
			}
		}
		return
	}
	if bits <= 16 {
		per := 1 << bits / 16
		t.n = 16
		t.gen = func(i int) (l []T) {
			for v := i * per; v < (i+1)*per; v++ {
				l = append(l, T(v))
			}
			return
		}
	} else {
		t.n = bits + 20
		t.gen = func(i int) []T {
			c := new(big.Int)
			if i < bits {
				c.Lsh(big.NewInt(1), uint(i))
			} else {
				c.Exp(big.NewInt(10), big.NewInt(int64(i-bits)), nil)
			}
			var l []T
			for m := int64(1); m < 10; m++ {
				l = append(l, near(new(big.Int).Mul(c, big.NewInt(m)), 20)...)
			}
			if len(l) == 0 {
				l = append(l, 0)
			}
			return l
		}
	}
	for _, v := range []string{"0", "1", "-1", "9", "10", "-10", "99", "100", "127", "-128", "255", "32767", "65535", "-32768", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1000000000000000000", "9007199254740993"} {
		b, _ := new(big.Int).SetString(v, 10)
		if b.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
			t.lim = append(t.lim, conv(b))
		}
	}
	return t
}

// vmantissas are mantissas with up to two bits set or not set, and runs of bits
func vmantissas(bits int) (l []uint64) {
	all := uint64(1)<<bits - 1
	seen := map[uint64]bool{}
	add := func(m uint64) {
		for _, m := range []uint64{m & all, ^m & all} {
			if !seen[m] {
				seen[m] = true
				l = append(l, m)
			}
		}
	}
	for i := 0; i <= bits; i++ {
		for j := i; j <= bits; j++ {
			add(1<<i | 1<<j)
			add(1<<j - 1<<i)
		}
	}
	return
}

func vfloats[T ~float32 | ~float64](name string) vtype {
	var zero T
	bits := reflect.TypeOf(zero).Bits()
	t := &vtypeOf[T]{name: name}
	mbits, exps := 52, 2048
	if bits == 32 {
		mbits, exps = 23, 256
	}
	var ms []uint64
	mk := func(u uint64) T {
		if bits == 32 {
			return T(math.Float32frombits(uint32(u)))
		}
		return T(math.Float64frombits(u))
	}
	const decimals = 640
	t.n = 2*exps + decimals
	t.gen = func(i int) (l []T) {
		if ms == nil {
			ms = vmantissas(mbits)
		}
		if i >= t.n { // every float of a range
			i -= t.n
			for j := 0; j < 1<<16; j++ {
				l = append(l, mk(uint64(i<<16|j)))
			}
			return
		}
		if i < 2*exps {
			for _, m := range ms {
				l = append(l, mk(uint64(i)<<mbits|m))
			}
			return
		}
		e := i - 2*exps - 330
		for m := 1; m < 1000; m++ {
			f, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", m, e), bits)
			l = append(l, T(f))
		}
		return
	}
	if bits == 32 {
		t.thor = t.n + 1<<16
	}
	for _, v := range []string{"0", "1", "-1", "0.1", "1.5", "100", "1e20", "1e21", "-1e21", "999999999999999868928", "1e-6", "9.99999e-7", "1e-7", "1e-9", "1e-10", "1e-30", "1e30", "3.4028235e38", "1.1754944e-38", "1e-45", "16777217", "9007199254740993", "0.3", "123456789.125", "NaN", "Inf"} {
		f, _ := strconv.ParseFloat(v, bits)
		t.lim = append(t.lim, T(f))
	}
	if bits == 64 {
		for _, v := range []float64{math.MaxFloat64, -math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e100, 1e-100, 1e22, 1e-99} {
			t.lim = append(t.lim, T(v))
		}
	}
	return t
}

var trickyBytes = []byte("\x00\x01\x08\t\n\r\x1f \"/<\\A~\x7f\x80\x8f\x90\xa0\xa7\xa8\xa9\xbf\xc0\xc2\xe0\xe2\xed\xef\xf0\xf4\xf5\xff")

func vstrings[T ~string](name string) vtype {
	t := &vtypeOf[T]{name: name, id: true}
	const (
		pairs  = 256
		points = 0x110000 / 2048
	)
	n := len(trickyBytes)
	t.n = pairs + points + n*n
	t.gen = func(i int) (l []T) {
		switch {
		case i < pairs:
			l = append(l, T([]byte{byte(i)}), T("a"+string([]byte{byte(i)})+"b"))
			for j := 0; j < 256; j++ {
				l = append(l, T([]byte{byte(i), byte(j)}))
			}
		case i < pairs+points:
			r := rune((i - pairs) * 2048)
			for j := rune(0); j < 2048; j++ {
				s := string(r + j)
				l = append(l, T(s), T("x"+s+"\""), T(s+s))
			}
		default:
			i -= pairs + points
			b := []byte{trickyBytes[i/n], trickyBytes[i%n], 0, 0}
			for _, c := range trickyBytes {
				b[2] = c
				l = append(l, T(b[:3]))
				for _, d := range trickyBytes {
					b[3] = d
					l = append(l, T(b))
				}
			}
		}
		return
	}
	for _, s := range []string{"", "a", "null", `"`, `\`, `\"`, "\n\t\r\b\f", "\u2028\u2029", "\x00", "é😀", "\xff", "a\xe2\x80", "</script>", "\ufffd", strings.Repeat("long ", 1000), strings.Repeat("\\\n", 500), "{}", "]", ",", "\u007f\u0080"} {
		t.lim = append(t.lim, T(s))
	}
	return t
}

func vbools[T ~bool](name string) vtype {
	return &vtypeOf[T]{name: name, n: 1, gen: func(int) []T { return []T{true, false, true, true, false, false} }, lim: []T{true, false}}
}

func init() {
	types := []vtype{
		vbools[bool]("bool"), vints[int8]("int8"), vints[uint8]("uint8"), vints[int16]("int16"), vints[uint16]("uint16"),
		vints[int32]("int32"), vints[uint32]("uint32"), vints[int64]("int64"), vints[uint64]("uint64"), vints[int]("int"), vints[uint]("uint"),
		vfloats[float32]("float32"), vfloats[float64]("float64"), vstrings[string]("string"),
		// types with a name: every 16th block
		vints[MyInt]("MyInt"), vints[MyI16]("MyI16"), vints[MyU64]("MyU64"), vfloats[MyF32]("MyF32"), vstrings[MyStr]("MyStr"), vbools[MyBool]("MyBool"),
	}
	register(&Property{
		ID: "V01",
		Bounds: map[string]string{
			"quick":    "20 types; every value of the 8 and 16 bit types; m*2^k+d and m*10^k+d with m<10 and |d|<=20 of the others; floats of every exponent with all mantissas of up to two bits set or clear or one run of bits, and every m*10^e with m<1000; strings: all of up to 2 bytes, every code point in 3 contexts, all of 3 and 4 bytes out of 34; each in lists, fields, pointers and as ID; every pair of limit values in 19 forms of fields and 10 forms of IDs",
			"thorough": "the quick space with every float32",
		},
		Parts: []func(c *Chooser, e *Env) *Case{
			func(c *Chooser, e *Env) *Case {
				t := types[c.Choose(len(types))]
				i := c.Choose(t.blocks(e))
				if strings.HasPrefix(t.label(), "My") && i%16 != 0 {
					return nil // these take the same way as the types above
				}
				return t.block(i)
			},
			func(c *Chooser, e *Env) *Case {
				t := types[c.Choose(len(types))]
				ids := c.Bool()
				if ids && !t.ids() {
					return nil
				}
				return t.pair(c.Choose(t.limits()), c.Choose(t.limits()), ids)
			},
		},
	})
}
