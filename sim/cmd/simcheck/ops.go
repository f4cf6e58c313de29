package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// ---- paths ----

// Elem is one element of a path: K 's' string, 'm' a named string type, 'i' int,
// 'j' int64, 'u' uint, 'y' int8; not allowed in a path: 'f' float, 'b' bool,
// 'z' nil, 'v' struct.
type Elem struct {
	K string `json:"k"`
	S string `json:"s,omitempty"`
	I int    `json:"i,omitempty"`
}

type namedString string

func sE(s string) Elem { return Elem{K: "s", S: s} }
func iE(i int) Elem    { return Elem{K: "i", I: i} }

func (e Elem) isStr() bool { return e.K == "s" || e.K == "m" }
func (e Elem) isInt() bool { return e.K == "i" || e.K == "j" || e.K == "u" || e.K == "y" }

func (e Elem) any() interface{} {
	switch e.K {
	case "s":
		return e.S
	case "m":
		return namedString(e.S)
	case "i":
		return e.I
	case "j":
		return int64(e.I)
	case "u":
		if e.I < 0 {
			return e.I
		}
		return uint(e.I)
	case "y":
		if int(int8(e.I)) != e.I {
			return e.I
		}
		return int8(e.I)
	case "f":
		return 1.5
	case "b":
		return true
	case "v":
		return struct{ A int }{1}
	}
	return nil
}

// Path forms.
const (
	formVar   = iota // variadic
	formAny          // one []any
	formTyped        // one []string / []int where possible
	formArray        // one [n]any
	formExtra        // a slice and one more parameter: an error
	formEmpty        // an empty slice: an error
)

// Path is a path and the way it is passed.
type Path struct {
	E []Elem `json:"e"`
	F int    `json:"f,omitempty"`
}

// args returns the parameters, and the slice or array that was passed as one
// parameter (nil if none).
func (p *Path) args() (interface{}, []interface{}, interface{}) {
	list := make([]interface{}, len(p.E), len(p.E)+2)
	strs, ints := make([]string, 0, len(p.E)+1), make([]int, 0, len(p.E)+1)
	for i, e := range p.E {
		list[i] = e.any()
		if e.K == "s" {
			strs = append(strs, e.S)
		}
		if e.K == "i" {
			ints = append(ints, e.I)
		}
	}
	switch p.F {
	case formAny:
		return list, nil, list
	case formTyped:
		if len(strs) == len(list) && len(list) > 0 {
			return strs, nil, strs
		}
		if len(ints) == len(list) && len(list) > 0 {
			return ints, nil, ints
		}
		return list, nil, list
	case formArray:
		switch len(list) {
		case 1:
			return [1]interface{}{list[0]}, nil, nil
		case 2:
			return [2]interface{}{list[0], list[1]}, nil, nil
		case 3:
			return [3]interface{}{list[0], list[1], list[2]}, nil, nil
		}
		return list, nil, list
	case formExtra:
		return list, []interface{}{"extra"}, list
	case formEmpty:
		return []interface{}{}, nil, nil
	}
	if len(list) == 0 {
		return nil, nil, nil
	}
	return list[0], list[1:], nil
}

// all returns the parameters as one list (for functions taking only a variadic
// parameter).
func (p *Path) all() []interface{} {
	if len(p.E) == 0 && p.F == formVar {
		return nil
	}
	f, rest, _ := p.args()
	return append([]interface{}{f}, rest...)
}

func (p *Path) String() string {
	var b strings.Builder
	for _, e := range p.E {
		if e.isInt() {
			fmt.Fprintf(&b, "/%s%d", strings.TrimPrefix(e.K, "i"), e.I)
		} else {
			fmt.Fprintf(&b, "/%s%q", strings.TrimPrefix(e.K, "s"), e.S)
		}
	}
	return fmt.Sprintf("%s(form %d)", b.String(), p.F)
}

// ---- values given to the library ----

// Val is a value to build: JSON text and the way it is built.
type Val struct {
	T string `json:"t"`           // JSON text, or "NaN", "+Inf", "-Inf", "none", "nilv"
	F int    `json:"f,omitempty"` // 0 parsed *V, 1 typed method or New..., 2 plain Go value, 3 New(Go value)
}

func (x *Val) model() *J {
	switch x.T {
	case "NaN":
		return jFloat(math.NaN())
	case "+Inf":
		return jFloat(math.Inf(1))
	case "-Inf":
		return jFloat(math.Inf(-1))
	case "none", "nilv":
		return jNone()
	}
	j, err := parseJSON(x.T)
	if err != nil {
		panic(fmt.Sprintf("bad value in case: %v", err))
	}
	return j
}

func goValue(j *J) interface{} {
	switch j.T {
	case 't':
		return j.B
	case 's':
		return j.S
	case '#':
		if i, err := strconv.ParseInt(j.S, 10, 64); err == nil {
			return i
		}
		if u, err := strconv.ParseUint(j.S, 10, 64); err == nil {
			return u
		}
		return json.RawMessage(j.S)
	case 'f':
		return j.F
	case 'a':
		a := []interface{}{}
		for _, x := range j.A {
			a = append(a, goValue(x))
		}
		return a
	case 'o':
		m := map[string]interface{}{}
		for k, x := range j.M {
			m[k] = goValue(x)
		}
		return m
	}
	return nil
}

// lib builds the value; the result is a *V or a plain Go value.
func (x *Val) lib() interface{} {
	switch x.T {
	case "NaN":
		if x.F == 2 {
			return math.NaN()
		}
		return jsonvalue.NewFloat64(math.NaN())
	case "+Inf":
		if x.F == 2 {
			return float32(math.Inf(1))
		}
		return jsonvalue.NewFloat64(math.Inf(1))
	case "-Inf":
		return jsonvalue.NewFloat64(math.Inf(-1))
	case "none":
		return &jsonvalue.V{}
	case "nilv":
		return (*jsonvalue.V)(nil)
	}
	if x.F == 2 {
		return goValue(x.model())
	}
	if x.F == 3 {
		return jsonvalue.New(goValue(x.model()))
	}
	v, _ := jsonvalue.UnmarshalString(x.T)
	return v
}

func (x *Val) v() *jsonvalue.V {
	y := x.lib()
	if v, ok := y.(*jsonvalue.V); ok {
		return v
	}
	return jsonvalue.New(y)
}

// ---- reading a library value through its public API ----

func dump(v *jsonvalue.V) *J {
	if v == nil {
		return jNone()
	}
	switch v.ValueType() {
	case jsonvalue.Null:
		return jNull()
	case jsonvalue.Boolean:
		return jBool(v.Bool())
	case jsonvalue.String:
		return jStr(v.String())
	case jsonvalue.Number:
		if f := v.Float64(); isNaNInf(f) {
			return jFloat(f)
		}
		return jNum(v.String())
	case jsonvalue.Array:
		a := jArr()
		for _, x := range v.ForRangeArr() {
			a.A = append(a.A, dump(x))
		}
		return a
	case jsonvalue.Object:
		o := jObj()
		v.RangeObjectsBySetSequence(func(k string, x *jsonvalue.V) bool {
			o.set(k, dump(x))
			return true
		})
		if len(o.K) != v.Len() {
			o.K = append(o.K, fmt.Sprintf("<Len()=%d>", v.Len()))
			o.M[o.K[len(o.K)-1]] = jNull()
		}
		return o
	}
	return jNone()
}

// vtext is the ordered canonical text of a library value.
func vtext(v *jsonvalue.V) string { return dump(v).canon(true) }

// snapshot reads the value through Marshal in set order and the strict parser.
// For values with floats that have no JSON form it says so.
func snapshot(v *jsonvalue.V) string {
	b, err := v.Marshal(jsonvalue.Opt{}, jsonvalue.OptSetSequence(), jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptFloatInfToStringInf())
	if err != nil {
		if v.ValueType() == jsonvalue.NotExist {
			return "<none>"
		}
		return "marshal error: " + err.Error()
	}
	j, err := parseJSON(string(b))
	if err != nil {
		return "bad marshal output: " + err.Error()
	}
	return j.canon(true)
}

// snapModel is what snapshot gives for a tree.
func snapModel(j *J) string {
	if j.T == 'x' {
		return "<none>"
	}
	c := j.clone()
	var walk func(x *J)
	walk = func(x *J) {
		if x.T == 'f' {
			x.T = 's'
			switch {
			case math.IsNaN(x.F):
				x.S = "NaN"
			case math.IsInf(x.F, 1):
				x.S = "+Inf"
			default:
				x.S = "-Inf"
			}
		}
		for _, y := range x.A {
			walk(y)
		}
		for _, y := range x.M {
			walk(y)
		}
	}
	walk(c)
	return c.canon(true)
}

// ptrs lists the identities of all members, in path order.
func ptrs(v *jsonvalue.V, out map[string]*jsonvalue.V, path string) {
	out[path] = v
	switch v.ValueType() {
	case jsonvalue.Array:
		for i, x := range v.ForRangeArr() {
			ptrs(x, out, fmt.Sprintf("%s/%d", path, i))
		}
	case jsonvalue.Object:
		m := v.ForRangeObj()
		for _, k := range keysOf(m) {
			ptrs(m[k], out, fmt.Sprintf("%s/%q", path, k))
		}
	}
}

// keysOf lists the keys of a returned map in a fixed order.
func keysOf(m map[string]*jsonvalue.V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- errors ----

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, jsonvalue.ErrNotFound):
		return "NotFound"
	case errors.Is(err, jsonvalue.ErrOutOfRange):
		return "OutOfRange"
	case errors.Is(err, jsonvalue.ErrTypeNotMatch):
		return "TypeNotMatch"
	case errors.Is(err, jsonvalue.ErrNotArrayValue):
		return "NotArray"
	case errors.Is(err, jsonvalue.ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven):
		return "MultipleParam"
	case errors.Is(err, jsonvalue.ErrValueUninitialized):
		return "Uninitialized"
	case errors.Is(err, jsonvalue.ErrUnsupportedFloat):
		return "UnsupportedFloat"
	}
	return "other"
}

// errMatch: the model expects "any" error, or a documented one.
func errMatch(want, got string) bool {
	if want == "any" {
		return got != ""
	}
	return want == got
}

// ---- options ----

// O is a marshal option.
type O struct {
	K string   `json:"k"`
	B bool     `json:"b,omitempty"`
	S []string `json:"s,omitempty"`
	F float64  `json:"f,omitempty"`
}

// lessFuncs used with OptKeySequenceWithLessFunc; all are total orders on keys.
var lessNames = []string{"rev", "len", "lenrev", "byval", "depth", "path"}

func lessKeys(name, a, b string) bool {
	switch name {
	case "rev":
		return a > b
	case "len":
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	case "lenrev":
		if len(a) != len(b) {
			return len(a) > len(b)
		}
		return a > b
	}
	return a < b
}

// pathKey and pathLess: the "path" order depends on the path of the object.
func pathKey(k string) string {
	if k == "" {
		k = "0" // as KeyPath describes an empty key
	}
	return "/" + k
}

func pathLess(where, a, b string) bool {
	x, y := hashStr(where+"|"+a), hashStr(where+"|"+b)
	if x != y {
		return x < y
	}
	return a < b
}

func typeRank(t byte) int { return strings.IndexByte("nt#fsao", t) }

func vRank(v *jsonvalue.V) int {
	switch v.ValueType() {
	case jsonvalue.Null:
		return 0
	case jsonvalue.Boolean:
		return 1
	case jsonvalue.Number:
		if isNaNInf(v.Float64()) {
			return 3
		}
		return 2
	case jsonvalue.String:
		return 4
	case jsonvalue.Array:
		return 5
	}
	return 6
}

func lessFunc(name string) jsonvalue.MarshalLessFunc {
	return func(p *jsonvalue.ParentInfo, a, b string, va, vb *jsonvalue.V) bool {
		if name == "path" {
			where := ""
			if p != nil {
				for _, e := range p.KeyPath {
					where += pathKey(e.String())
				}
			}
			return pathLess(where, a, b)
		}
		if name == "depth" {
			if p != nil && len(p.KeyPath)%2 == 1 {
				return a > b
			}
			return a < b
		}
		if name == "byval" {
			if x, y := vRank(va), vRank(vb); x != y {
				return x < y
			}
		}
		return lessKeys(name, a, b)
	}
}

func (o O) lib() jsonvalue.Option {
	switch o.K {
	case "omit":
		return jsonvalue.OptOmitNull(o.B)
	case "set":
		return jsonvalue.OptSetSequence()
	case "str":
		return jsonvalue.OptDefaultStringSequence()
	case "seq":
		return jsonvalue.OptKeySequence(o.S)
	case "less":
		return jsonvalue.OptKeySequenceWithLessFunc(lessFunc(o.S[0]))
	case "html":
		return jsonvalue.OptEscapeHTML(o.B)
	case "slash":
		return jsonvalue.OptEscapeSlash(o.B)
	case "utf8":
		return jsonvalue.OptUTF8()
	case "indent":
		return jsonvalue.OptIndent(o.S[0], o.S[1])
	case "nanf":
		return jsonvalue.OptFloatNaNToFloat(o.F)
	case "nannull":
		return jsonvalue.OptFloatNaNToNull()
	case "nanstr":
		return jsonvalue.OptFloatNaNToString(o.S[0])
	case "inff":
		return jsonvalue.OptFloatInfToFloat(o.F)
	case "infnull":
		return jsonvalue.OptFloatInfToNull()
	case "infstr":
		return jsonvalue.OptFloatInfToString(o.S[0], o.S[1])
	case "nanbad": // converted to what has no JSON form either
		return jsonvalue.OptFloatNaNToFloat(math.Inf(1))
	case "infbad":
		return jsonvalue.OptFloatInfToFloat(math.NaN())
	case "omitempty":
		return jsonvalue.OptIgnoreOmitempty()
	case "optnull": // the deprecated struct form: replaces everything
		return jsonvalue.Opt{OmitNull: o.B}
	case "optseq":
		return jsonvalue.Opt{MarshalKeySequence: o.S}
	case "optless":
		return jsonvalue.Opt{MarshalLessFunc: lessFunc(o.S[0])}
	}
	panic("bad option " + o.K)
}

func libOpts(os []O) []jsonvalue.Option {
	if len(os) == 0 {
		return nil
	}
	r := make([]jsonvalue.Option, len(os))
	for i, o := range os {
		r[i] = o.lib()
	}
	return r
}

// oState is the effect of a list of options.
type oState struct {
	omit       bool
	order      string // "", "set", "seq", "less:<name>"
	seq        []string
	html       bool // true: not escaped
	slash      bool
	utf8       bool
	indent     bool
	ind        [2]string
	nan        string
	nanF       float64
	nanS       string
	inf        string
	infF       float64
	infP, infN string
	depth      int
	path       string
}

func (st *oState) apply(os []O) *oState {
	for _, o := range os {
		switch o.K {
		case "omit":
			st.omit = o.B
		case "set":
			st.order = "set"
		case "str":
			st.order = "less:str"
		case "seq":
			st.order, st.seq = "seq", o.S
			if len(o.S) == 0 {
				st.order = ""
			}
		case "less":
			st.order = "less:" + o.S[0]
		case "html":
			st.html = !o.B
		case "slash":
			st.slash = !o.B
		case "utf8":
			st.utf8 = true
		case "indent":
			st.indent, st.ind = true, [2]string{o.S[0], o.S[1]}
		case "nanf":
			st.nan, st.nanF = "float", o.F
		case "nannull":
			st.nan = "null"
		case "nanstr":
			st.nan, st.nanS = "str", o.S[0]
		case "inff":
			st.inf, st.infF = "float", o.F
		case "infnull":
			st.inf = "null"
		case "infstr":
			st.inf, st.infP, st.infN = "str", o.S[0], o.S[1]
		case "nanbad":
			st.nan = "bad"
		case "infbad":
			st.inf = "bad"
		case "optnull":
			*st = oState{omit: o.B}
		case "optseq":
			*st = oState{order: "seq", seq: o.S}
			if len(o.S) == 0 {
				st.order = ""
			}
		case "optless":
			*st = oState{order: "less:" + o.S[0]}
		}
	}
	return st
}

func (st *oState) float(f float64) (*J, bool) {
	num := func(f float64) (*J, bool) {
		if isNaNInf(f) {
			return nil, false
		}
		b, _ := json.Marshal(f)
		return jNum(string(b)), true
	}
	if math.IsNaN(f) {
		switch st.nan {
		case "float":
			return num(st.nanF)
		case "null":
			return jNull(), true
		case "str":
			if st.nanS == "" {
				return jStr("NaN"), true
			}
			return jStr(st.nanS), true
		}
		return nil, false
	}
	pos := math.IsInf(f, 1)
	switch st.inf {
	case "float":
		if pos {
			return num(st.infF)
		}
		return num(-st.infF)
	case "null":
		return jNull(), true
	case "str":
		if pos {
			if st.infP == "" {
				return jStr("+Inf"), true
			}
			return jStr(st.infP), true
		}
		if st.infN != "" {
			return jStr(st.infN), true
		}
		if st.infP != "" {
			return jStr("-" + strings.TrimLeft(st.infP, "+")), true
		}
		return jStr("-Inf"), true
	}
	return nil, false
}

// marshal is what Marshal must yield under the options: the tree, members in the
// requested order. ok is false if it must fail.
func (st *oState) marshal(j *J) (out *J, ok bool) {
	switch j.T {
	case 'f':
		return st.float(j.F)
	case 'x':
		return nil, false
	case 'a':
		a := jArr()
		st.depth++
		defer func() { st.depth-- }()
		defer func(p string) { st.path = p }(st.path)
		up := st.path
		for i, x := range j.A {
			st.path = up + pathKey(strconv.Itoa(i))
			y, ok := st.marshal(x)
			if !ok {
				return nil, false
			}
			a.A = append(a.A, y)
		}
		return a, true
	case 'o':
		o := jObj()
		keys := st.sorted(j)
		st.depth++
		defer func() { st.depth-- }()
		defer func(p string) { st.path = p }(st.path)
		up := st.path
		for _, k := range keys {
			st.path = up + pathKey(k)
			x := j.M[k]
			if st.omit && x.T == 'n' {
				continue
			}
			y, ok := st.marshal(x)
			if !ok {
				return nil, false
			}
			o.set(k, y)
		}
		return o, true
	}
	return j, true
}

func (st *oState) sorted(j *J) []string {
	ks := append([]string{}, j.K...)
	switch {
	case st.order == "set" || st.order == "":
	case st.order == "seq":
		at := map[string]int{}
		for i, k := range st.seq {
			at[k] = i
		}
		sort.SliceStable(ks, func(a, b int) bool {
			i, oki := at[ks[a]]
			l, okl := at[ks[b]]
			if oki && okl {
				return i < l
			}
			if oki != okl {
				return oki
			}
			return ks[a] < ks[b]
		})
	case st.order == "less:path":
		sort.SliceStable(ks, func(a, b int) bool { return pathLess(st.path, ks[a], ks[b]) })
	case st.order == "less:depth":
		sort.SliceStable(ks, func(a, b int) bool {
			if st.depth%2 == 1 {
				return ks[a] > ks[b]
			}
			return ks[a] < ks[b]
		})
	case st.order == "less:byval":
		sort.SliceStable(ks, func(a, b int) bool {
			if x, y := typeRank(j.M[ks[a]].T), typeRank(j.M[ks[b]].T); x != y {
				return x < y
			}
			return ks[a] < ks[b]
		})
	default:
		name := strings.TrimPrefix(st.order, "less:")
		sort.SliceStable(ks, func(a, b int) bool { return lessKeys(name, ks[a], ks[b]) })
	}
	return ks
}

// check compares marshaled bytes with the model. It returns "" or what is wrong.
func (st *oState) check(j *J, b []byte, err error) string {
	want, ok := st.marshal(j)
	if !ok {
		if err == nil {
			return fmt.Sprintf("Marshal succeeded with %.300q, but must fail", b)
		}
		if len(b) != 0 {
			return fmt.Sprintf("Marshal failed (%v) but returned %.300q", err, b)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("Marshal failed: %v; expected %.300s", err, want.canon(true))
	}
	got, perr := parseJSON(string(b))
	if perr != nil {
		return fmt.Sprintf("Marshal returned no valid JSON text: %v", perr)
	}
	ordered := st.order != ""
	if g, w := got.canon(ordered), want.canon(ordered); g != w {
		return fmt.Sprintf("Marshal returned %.400s, expected %.400s", g, w)
	}
	return ""
}

// genOpts makes a list of options. order: 0 never an order option, 1 maybe, 2 always.
func genOpts(r *R, keys []string, order int, floats bool) []O {
	var os []O
	if r.P(30) {
		os = append(os, O{K: "omit", B: r.P(70)})
	}
	if r.P(30) {
		os = append(os, O{K: "html", B: r.P(30)})
	}
	if r.P(30) {
		os = append(os, O{K: "slash", B: r.P(30)})
	}
	if r.P(40) {
		os = append(os, O{K: "utf8"})
	}
	if r.P(25) {
		os = append(os, O{K: "indent", S: []string{r.Str([]string{"", " ", "\t"}), r.Str([]string{"", "  ", "\t"})}})
	}
	if floats {
		switch r.N(5) {
		case 0:
			os = append(os, O{K: "nanf", F: float64(r.In(-3, 3)) / 2})
		case 1:
			os = append(os, O{K: "nannull"})
		case 2:
			os = append(os, O{K: "nanstr", S: []string{r.Str([]string{"", "not a \"number\"", "<nan>"})}})
		}
		switch r.N(5) {
		case 0:
			os = append(os, O{K: "inff", F: float64(r.In(-3, 3)) * 1.5})
		case 1:
			os = append(os, O{K: "infnull"})
		case 2:
			os = append(os, O{K: "infstr", S: []string{r.Str([]string{"", "+big", "/inf/", "+<\"\\\n∞>"}), r.Str([]string{"", "", "small", "\"\t-&"})}})
		}
	}
	n := 0
	if order == 2 || order == 1 && r.P(60) {
		n = r.Pick(1, 1, 1, 2)
	}
	for ; n > 0; n-- {
		os = append(os, genOrder(r, keys))
	}
	for i := len(os) - 1; i > 0; i-- {
		k := r.N(i + 1)
		os[i], os[k] = os[k], os[i]
	}
	if r.P(7) && order != 2 {
		os = append([]O{{K: "optnull", B: r.P(50)}}, os...)
	}
	return os
}

func genOrder(r *R, keys []string) O {
	switch r.N(4) {
	case 0:
		return O{K: "set"}
	case 1:
		return O{K: "str"}
	case 2:
		return O{K: "less", S: []string{r.Str(lessNames)}}
	}
	return O{K: "seq", S: genSeq(r, keys)}
}

func genSeq(r *R, keys []string) []string {
	var seq []string
	seen := map[string]bool{}
	for n := r.In(1, 4); n > 0; n-- {
		k := r.Str(keys)
		if !seen[k] {
			seen[k] = true
			seq = append(seq, k)
		}
	}
	return seq
}
