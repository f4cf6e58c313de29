package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// Op is one step of a client program over registers holding values. Registers
// from sharedReg on are shared by all clients (and only read).
type Op struct {
	K string `json:"k"`
	D int    `json:"d,omitempty"` // destination register
	R int    `json:"r,omitempty"` // operand registers
	Q int    `json:"q,omitempty"`
	N int    `json:"n,omitempty"`
	S string `json:"s,omitempty"`
	O []O    `json:"o,omitempty"`
	T *TOp   `json:"t,omitempty"`
	P *Path  `json:"p,omitempty"`
}

const (
	nRegs     = 4
	sharedReg = 100
)

func (o *Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// Env is what a client program works on.
type Env struct {
	reg    [nRegs]*jsonvalue.V
	unord  bool // members imported from a hash map: order undefined from here on
	shared []*jsonvalue.V
	data   []interface{}
	opts   [][]jsonvalue.Option
	optsO  [][]O
	meet   func() // waits for the other clients, once
}

func (e *Env) get(i int) *jsonvalue.V {
	if i >= sharedReg {
		if len(e.shared) == 0 {
			return nil
		}
		return e.shared[(i-sharedReg)%len(e.shared)]
	}
	return e.reg[i%nRegs]
}

func (e *Env) put(i int, v *jsonvalue.V) { e.reg[i%nRegs] = v }

func (e *Env) text(v *jsonvalue.V) string {
	if v == nil {
		return "<nil>"
	}
	return dump(v).canon(!e.unord)
}

// bytesText canonicalises marshaled bytes: exact if the order of members is
// specified, otherwise up to the order of members.
func (e *Env) bytesText(b []byte, err error, ordered bool) string {
	if err != nil {
		return fmt.Sprintf("error %s %q", errClass(err), b)
	}
	if ordered && !e.unord {
		return string(b)
	}
	j, perr := parseJSON(string(b))
	if perr != nil {
		return fmt.Sprintf("%q %v", b, perr)
	}
	// the form (spaces, escapes) is kept by counting bytes
	return fmt.Sprintf("%s len %d", j.canon(false), len(b))
}

func orderedOpts(os []O) bool { return (&oState{}).apply(os).order != "" }

// run makes one step; a panic is part of the result.
func (e *Env) run(o *Op) (res string) {
	defer func() {
		if x := recover(); x != nil {
			res = fmt.Sprintf("PANIC: %v", x)
		}
	}()
	return e.step(o)
}

func (e *Env) vopts(o *Op) ([]jsonvalue.Option, []O) {
	if o.O == nil && o.Q > 0 && len(e.opts) > 0 {
		k := o.Q % len(e.opts)
		return e.opts[k], e.optsO[k]
	}
	return libOpts(o.O), o.O
}

func (e *Env) step(o *Op) string {
	switch o.K {
	case "meet":
		if f := e.meet; f != nil {
			e.meet = nil
			f()
		}
		return ""
	// -- making values --
	case "parse":
		v, err := parseBy(o.N, o.S)
		e.put(o.D, v)
		if err != nil {
			return "error " + err.Error() + notExist(v)
		}
		return e.text(v)
	case "new":
		v := newKind(o.N, o.S)
		e.put(o.D, v)
		return e.text(v)
	case "import", "newgo", "bimport":
		x := e.data[o.N%len(e.data)]
		var v *jsonvalue.V
		var err error
		switch o.K {
		case "import":
			os, _ := e.vopts(&Op{O: o.O})
			v, err = jsonvalue.Import(x, os...)
		case "bimport":
			v, err = beta.Import(x)
		default:
			v = jsonvalue.New(x)
		}
		if _, ok := x.(map[string]interface{}); ok {
			e.unord = true
		}
		if goUnordered(o.Q) {
			e.unord = true
		}
		e.put(o.D, v)
		return errClass(err) + " " + e.text(v)
	case "copy":
		src := e.get(o.R)
		if src == nil {
			return "-"
		}
		var v *jsonvalue.V
		switch o.N {
		case 0:
			v, _ = jsonvalue.Import(src)
		case 1:
			v = jsonvalue.New(src)
		case 2:
			v = jsonvalue.New(map[string]interface{}{"copy": src}).MustGet("copy")
		case 3:
			v = jsonvalue.New([]*jsonvalue.V{src}).MustGet(0)
		default:
			v = jsonvalue.New(struct{ V *jsonvalue.V }{src}).MustGet("V")
		}
		e.put(o.D, v)
		return e.text(v)

	// -- changes of own values --
	case "t":
		v := e.get(o.R)
		if v == nil || o.R >= sharedReg && o.T.write() {
			return "-"
		}
		r := o.T.lib(v)
		if e.unord {
			// the result may show an undefined order
			if _, err := parseJSON(r.V); err == nil {
				j, _ := parseJSON(r.V)
				r.V = j.canon(false)
			}
		}
		return r.String()

	// -- reads --
	case "marshal", "mstring", "mmust", "mmuststr":
		v := e.get(o.R)
		if v == nil {
			return "-"
		}
		os, ref := e.vopts(o)
		switch o.K {
		case "marshal":
			b, err := v.Marshal(os...)
			return e.bytesText(b, err, orderedOpts(ref))
		case "mstring":
			s, err := v.MarshalString(os...)
			return e.bytesText([]byte(s), err, orderedOpts(ref))
		case "mmust":
			return e.bytesText(v.MustMarshal(os...), nil, orderedOpts(ref))
		}
		return e.bytesText([]byte(v.MustMarshalString(os...)), nil, orderedOpts(ref))
	case "mjson":
		v := e.get(o.R)
		if v == nil {
			return "-"
		}
		switch o.N {
		case 0:
			b, err := v.MarshalJSON()
			return e.bytesText(b, err, false)
		case 1:
			b, err := v.MarshalBinary()
			return e.bytesText(b, err, false)
		}
		b, err := json.Marshal(struct {
			A *jsonvalue.V   `json:"a"`
			B []*jsonvalue.V `json:"b"`
		}{v, []*jsonvalue.V{v, nil}})
		if err != nil {
			return "error"
		}
		return e.bytesText(b, nil, false)
	case "ujson":
		v := &jsonvalue.V{}
		var err error
		switch o.N {
		case 0:
			err = json.Unmarshal([]byte(o.S), v)
		case 1:
			err = v.UnmarshalBinary([]byte(o.S))
		case 2:
			var x struct{ A, B *jsonvalue.V }
			err = json.Unmarshal([]byte(`{"A":`+o.S+`,"B":[`+o.S+`]}`), &x)
			if x.A != nil {
				v = x.A
			}
		default:
			err = v.UnmarshalJSON([]byte(o.S))
		}
		e.put(o.D, v)
		if err != nil {
			return "error " + notExist(v)
		}
		return e.text(v)
	case "conv":
		v := e.get(o.R)
		if v == nil {
			return "-"
		}
		if o.N == 1 {
			left := 150
			return convDeep(v, &left)
		}
		return convText(v, e.unord)
	case "touch":
		touch(e.get(o.R), o.N)
		return ""
	case "walk":
		v := e.get(o.R)
		if v == nil {
			return "-"
		}
		return walkText(e, v, o.N)
	case "iter":
		v := e.get(o.R)
		if v == nil {
			return "-"
		}
		return iterText(e, v, o.N)
	case "gets":
		v := e.get(o.R)
		if v == nil {
			return "-"
		}
		args := o.P.all()
		if len(args) == 0 {
			return "-"
		}
		return getsText(e, v, args[0], args[1:])
	case "cgets":
		v := e.get(o.R)
		if v == nil || o.R >= sharedReg {
			return "-"
		}
		args := o.P.all()
		if len(args) == 0 {
			return "-"
		}
		return cgetsText(e, v, args[0], args[1:])
	case "cmp":
		a, b := e.get(o.R), e.get(o.Q)
		if a == nil || b == nil {
			return "-"
		}
		res := ""
		for i := o.N; i >= 0; i-- {
			s := fmt.Sprint(a.Equal(b), b.Equal(a), a.GreaterThan(b), a.GreaterThanOrEqual(b), a.LessThan(b), a.LessThanOrEqual(b))
			if s != res {
				res += s
			}
		}
		return res
	case "contains":
		a := e.get(o.R)
		if a == nil {
			return "-"
		}
		var subj interface{} = o.S
		switch o.N {
		case 1:
			subj = e.get(o.Q)
			if e.get(o.Q) == nil {
				return "-"
			}
		case 2:
			subj = jsonvalue.MustUnmarshalString(o.S)
		}
		if o.P != nil {
			return fmt.Sprint(beta.Contains(a, subj, o.P.all()...))
		}
		return fmt.Sprint(beta.Contains(a, subj))
	case "export":
		v := e.get(o.R)
		if v == nil {
			return "-"
		}
		return exportText(v, o.N)
	case "str":
		v := e.get(o.R)
		if v == nil {
			return "-"
		}
		if v.IsObject() || v.IsArray() {
			// the debugging form: order unspecified
			s := v.String()
			return fmt.Sprint(len(s))
		}
		return v.String() + v.ValueType().String()
	case "take":
		// a member becomes the content of another register (same identity)
		v := e.get(o.R)
		if v == nil || o.R >= sharedReg {
			return "-"
		}
		args := o.P.all()
		if len(args) == 0 {
			return "-"
		}
		x, err := v.Get(args[0], args[1:]...)
		if err != nil {
			return "error " + errClass(err)
		}
		e.put(o.D, x)
		return e.text(x)
	case "setdef":
		jsonvalue.SetDefaultMarshalOptions(libOpts(o.O)...)
		return ""
	case "resetdef":
		jsonvalue.ResetDefaultMarshalOptions()
		return ""
	}
	panic("bad operation " + o.K)
}

func parseBy(n int, s string) (*jsonvalue.V, error) {
	switch n {
	case 1:
		return jsonvalue.UnmarshalString(s)
	case 2:
		return jsonvalue.UnmarshalNoCopy([]byte(s))
	case 3:
		v := jsonvalue.MustUnmarshal([]byte(s))
		if v.ValueType() == jsonvalue.NotExist {
			return v, fmt.Errorf("must")
		}
		return v, nil
	case 4:
		v := jsonvalue.MustUnmarshalString(s)
		if v.ValueType() == jsonvalue.NotExist {
			return v, fmt.Errorf("must")
		}
		return v, nil
	case 5:
		v := jsonvalue.MustUnmarshalNoCopy([]byte(s))
		if v.ValueType() == jsonvalue.NotExist {
			return v, fmt.Errorf("must")
		}
		return v, nil
	}
	return jsonvalue.Unmarshal([]byte(s))
}

const newKinds = 24

func newKind(n int, s string) *jsonvalue.V {
	h := int64(0)
	for _, c := range s {
		h = h*31 + int64(c)
	}
	switch n {
	case 0:
		return jsonvalue.NewString(s)
	case 1:
		return jsonvalue.NewBytes([]byte(s))
	case 2:
		return jsonvalue.NewInt64(h)
	case 3:
		return jsonvalue.NewInt(int(h))
	case 4:
		return jsonvalue.NewInt32(int32(h))
	case 5:
		return jsonvalue.NewUint64(uint64(h))
	case 6:
		return jsonvalue.NewUint(uint(h))
	case 7:
		return jsonvalue.NewUint32(uint32(h))
	case 8:
		return jsonvalue.NewFloat64(float64(h%100000) / 16)
	case 9:
		return jsonvalue.NewFloat32(float32(h%1000) / 8)
	case 10:
		return jsonvalue.NewFloat64f(float64(h%100000)/3, 'f', 3)
	case 11:
		return jsonvalue.NewFloat32f(float32(h%100)/3, 'E', 4)
	case 12:
		return jsonvalue.NewBool(h&1 == 0)
	case 13:
		return jsonvalue.NewNull()
	case 14:
		return jsonvalue.NewArray()
	case 15:
		return jsonvalue.NewObject()
	case 16:
		return jsonvalue.NewObject(jsonvalue.M{s: h})
	case 17:
		return jsonvalue.New([]interface{}{s, h, nil, true, 1.25})
	case 18:
		return jsonvalue.New(struct {
			S string
			H int64
		}{s, h})
	case 19:
		v := jsonvalue.NewObject()
		v.MustSetString(s).At("s")
		v.MustSetInt64(h).At("list", 0)
		v.MustSetBytes([]byte(s)).At("b")
		v.MustSetFloat64(1.5).At("f")
		v.MustSetUint32(7).At("o", "u")
		return v
	case 20:
		v := jsonvalue.NewArray()
		v.MustAppendString(s).InTheEnd()
		v.MustAppendBytes([]byte(s)).InTheBeginning()
		v.MustAppendFloat32(0.5).InTheEnd()
		v.MustInsertBool(true).After(0)
		v.MustInsertInt64(h).Before(-1)
		v.MustAppendObject().InTheEnd()
		return v
	case 21:
		return jsonvalue.NewFloat64(math.NaN())
	case 22:
		return jsonvalue.NewFloat64(math.Inf(1))
	}
	return jsonvalue.New(nil)
}

func numText(v *jsonvalue.V) string {
	return fmt.Sprint(v.Int(), v.Uint(), v.Int64(), v.Uint64(), v.Int32(), v.Uint32(), v.Float64(), v.Float32())
}

func convText(v *jsonvalue.V, unord bool) string {
	var b strings.Builder
	fmt.Fprint(&b, v.ValueType(), v.IsArray(), v.IsBoolean(), v.IsFloat(), v.IsInteger(), v.IsNegative(), v.IsNull(), v.IsNumber(),
		v.IsObject(), v.IsPositive(), v.IsString(), v.GreaterThanInt64Max(), v.Bool(), v.Len(), " ", numText(v), " ")
	fmt.Fprintf(&b, "%q", v.Bytes())
	return b.String()
}

// convDeep is convText of a value and all values below it, at most *left.
func convDeep(v *jsonvalue.V, left *int) string {
	if *left--; *left < 0 {
		return ""
	}
	s := convText(v, false)
	for _, x := range v.ForRangeArr() {
		s += "\n" + convDeep(x, left)
	}
	m := v.ForRangeObj()
	for _, k := range keysOf(m) {
		s += "\n" + k + convDeep(m[k], left)
	}
	return s
}

// walkText visits members with one of the range functions, stopping after stop
// members if stop > 0.
func walkText(e *Env, v *jsonvalue.V, how int) string {
	var out []string
	stop := how >> 3
	n := 0
	add := func(k string, x *jsonvalue.V) bool {
		n++
		out = append(out, k+"="+e.text(x))
		return stop == 0 || n < stop
	}
	ordered := true
	switch how & 7 {
	case 0:
		ordered = false
		v.RangeObjects(func(k string, x *jsonvalue.V) bool { return add(k, x) })
	case 1:
		v.RangeArray(func(i int, x *jsonvalue.V) bool { return add(fmt.Sprint(i), x) })
	case 2:
		ordered = !e.unord
		v.RangeObjectsBySetSequence(func(k string, x *jsonvalue.V) bool { return add(k, x) })
	case 3:
		ordered = false
		m := v.ForRangeObj()
		for _, k := range keysOf(m) {
			add(k, m[k])
		}
		stop = 0
	case 4:
		for i, x := range v.ForRangeArr() {
			add(fmt.Sprint(i), x)
		}
	default:
		ordered = false
		v.RangeObjects(func(k string, x *jsonvalue.V) bool {
			v.RangeObjects(func(k2 string, x2 *jsonvalue.V) bool { n++; return true })
			return add(k, x)
		})
		stop = 0
	}
	if !ordered {
		if stop > 0 {
			return fmt.Sprint(len(out)) // which members were visited is unspecified
		}
		sort.Strings(out)
	}
	return strings.Join(out, ";")
}

func getsText(e *Env, v *jsonvalue.V, p interface{}, ps []interface{}) string {
	var b strings.Builder
	w := func(x interface{}, err error) { fmt.Fprintf(&b, "%v %s;", x, errClass(err)) }
	x, err := v.Get(p, ps...)
	w(e.text(x), err)
	b.WriteString(convText(x, e.unord))
	b.WriteString(e.text(v.MustGet(p, ps...)))
	{
		x, err := v.GetString(p, ps...)
		w(x, err)
	}
	{
		x, err := v.GetBytes(p, ps...)
		w(len(x), err)
	}
	{
		x, err := v.GetInt(p, ps...)
		w(x, err)
	}
	{
		x, err := v.GetUint64(p, ps...)
		w(x, err)
	}
	{
		x, err := v.GetFloat64(p, ps...)
		w(x, err)
	}
	{
		x, err := v.GetFloat32(p, ps...)
		w(x, err)
	}
	{
		x, err := v.GetInt64(p, ps...)
		w(x, err)
	}
	{
		x, err := v.GetInt32(p, ps...)
		w(x, err)
	}
	{
		x, err := v.GetUint(p, ps...)
		w(x, err)
	}
	{
		x, err := v.GetUint32(p, ps...)
		w(x, err)
	}
	{
		x, err := v.GetBool(p, ps...)
		w(x, err)
	}
	w("", v.GetNull(p, ps...))
	{
		x, err := v.GetObject(p, ps...)
		w(e.text(x), err)
	}
	{
		x, err := v.GetArray(p, ps...)
		w(e.text(x), err)
	}
	return b.String()
}

func cgetsText(e *Env, v *jsonvalue.V, p interface{}, ps []interface{}) string {
	var b strings.Builder
	c := v.Caseless()
	w := func(x interface{}, err error) { fmt.Fprintf(&b, "%v %s;", x, errClass(err)) }
	x, err := c.Get(p, ps...)
	w(e.text(x), err)
	b.WriteString(e.text(c.MustGet(p, ps...)))
	{
		x, err := c.GetString(p, ps...)
		w(x, err)
	}
	{
		x, err := c.GetInt64(p, ps...)
		w(x, err)
	}
	{
		x, err := c.GetBool(p, ps...)
		w(x, err)
	}
	{
		x, err := c.GetFloat64(p, ps...)
		w(x, err)
	}
	w("", c.GetNull(p, ps...))
	{
		x, err := c.GetObject(p, ps...)
		w(e.text(x), err)
	}
	{
		x, err := c.GetArray(p, ps...)
		w(e.text(x), err)
	}
	{
		x, err := c.GetBytes(p, ps...)
		w(len(x), err)
	}
	return b.String()
}

func exportText(v *jsonvalue.V, n int) string {
	show := func(x interface{}, err error) string {
		if err != nil {
			return "error " + plainJSON(x)
		}
		return plainJSON(x)
	}
	switch n {
	case 0:
		var x interface{}
		err := v.Export(&x)
		return show(x, err)
	case 1:
		var x tagged
		err := v.Export(&x)
		return show(x, err)
	case 2:
		var x map[string]interface{}
		err := v.Export(&x)
		return show(x, err)
	case 3:
		var x []json.Number
		err := v.Export(&x)
		return show(x, err)
	}
	var x *jsonvalue.V
	if err := v.Export(&x); err != nil {
		return "error"
	}
	return dump(x).canon(false)
}

// ---- generation of client programs ----

// ProgGen generates programs.
type ProgGen struct {
	g       *genCfg
	nShared int
	nData   int
	nOpts   int
	data    []GoSpec
	floats  bool
	only    string // if set, the kinds of call programs consist of after a few steps of preparation
}

// focuses are the kinds of call of programs that meet each other with the same
// calls on different values.
var focuses = []string{"cmp", "cmp", "contains cmp", "marshal mstring mmust mmuststr mjson", "gets cgets", "conv touch str", "walk iter", "copy marshal",
	"export", "t", "t", "parse ujson", "parse conv", "new", "import newgo bimport", "import marshal"}

var readFocuses = []string{"cmp", "contains cmp", "marshal mstring mmust mmuststr mjson", "gets", "conv touch str", "walk iter", "copy", "export"}

func (pg *ProgGen) wanted(o *Op) bool {
	return pg.only == "" || strings.Contains(" "+pg.only+" ", " "+o.K+" ")
}

// withMeet makes the clients wait for each other between their preparation and
// the calls in question.
func (pg *ProgGen) withMeet(ops []*Op) []*Op {
	for i, o := range ops {
		if pg.wanted(o) {
			out := append([]*Op{}, ops[:i]...)
			out = append(out, &Op{K: "meet"})
			return append(out, ops[i:]...)
		}
	}
	return ops
}

func meets(ops []*Op) bool {
	for _, o := range ops {
		if o.K == "meet" {
			return true
		}
	}
	return false
}

// respell is a copy of j that is equal to it, with the numbers written in
// another way.
func respell(r *R, j *J) *J {
	c := j.clone()
	var walk func(x *J)
	walk = func(x *J) {
		if x.T == '#' {
			x.S = respellNum(r, x.S)
		}
		for _, y := range x.A {
			walk(y)
		}
		for _, k := range x.K {
			walk(x.M[k])
		}
	}
	walk(c)
	return c
}

func respellNum(r *R, t string) string {
	if t == "" || r.P(25) {
		return t
	}
	dot, exp := strings.IndexByte(t, '.'), strings.IndexAny(t, "eE")
	switch {
	case exp >= 0:
		return t
	case dot >= 0:
		return t + r.Str([]string{"0", "e0", "00", "E+0"})
	case strings.HasSuffix(t, "00") && r.P(50):
		return t[:len(t)-2] + r.Str([]string{"e2", "E2", "e+2", ".0e2"})
	}
	return t + r.Str([]string{".0", "e0", ".00", "E-0"})
}

func (pg *ProgGen) path(r *R, j *J) *Path {
	p := genPath(r, j, pg.g.keys, r.Pick(0, 0, 0, 20))
	if p.F >= formExtra {
		p.F = 0
	}
	return &p
}

// read makes a read operation on register reg holding about j.
func (pg *ProgGen) read(r *R, reg int, j *J) *Op {
	o := &Op{R: reg}
	switch r.W(16, 6, 8, 5, 6, 6, 6, 4, 6, 5, 4, 5, 4) {
	case 0:
		o.K = []string{"marshal", "mstring", "mmust", "mmuststr"}[r.W(6, 3, 1, 1)]
		if pg.nOpts > 0 && r.P(50) {
			o.Q = r.In(1, pg.nOpts)
		} else {
			o.O = genOpts(r, pg.g.keys, 1, pg.floats)
			if o.O == nil {
				o.O = []O{}
			}
		}
	case 1:
		o.K, o.N = "mjson", r.N(3)
	case 2:
		o.K, o.P = "gets", pg.path(r, j)
	case 3:
		o.K, o.N = "conv", r.W(1, 4)
		if r.P(30) {
			o.K, o.N = "touch", r.N(touchKinds)
		}
	case 4:
		o.K, o.N = "walk", r.N(6)
		if r.P(20) {
			o.N |= r.In(1, 3) << 3
		}
	case 5:
		o.K, o.N = "iter", r.N(3)
		if reg >= sharedReg && r.P(25) {
			o.N = 3 // an abandoned iterator goes on reading: not on values that change
		}
	case 6:
		o.K, o.N = "copy", r.N(5)
		o.D = r.N(nRegs)
	case 7:
		o.K, o.N = "export", r.N(5)
	case 8:
		o.K, o.Q = "cmp", r.N(nRegs)
		if r.P(30) {
			o.N = r.N(6)
		}
		if pg.nShared > 0 && r.P(60) {
			o.Q = sharedReg + r.N(pg.nShared)
		}
	case 9:
		o.K, o.N, o.Q = "contains", r.N(3), r.N(nRegs)
		o.S = pg.g.tree(r, 1).text(0)
		if o.N == 1 && pg.nShared > 0 && r.P(50) {
			o.Q = sharedReg + r.N(pg.nShared)
		}
		if r.P(50) {
			o.P = pg.path(r, j)
		}
	case 10:
		o.K = "str"
	case 11:
		o.K = "t"
		o.T = pg.g.genTOp(r, j, "r", 10)
	default:
		o.K = "conv"
		if j != nil && (j.T == 'o' || j.T == 'a') {
			o.K, o.P = "gets", pg.path(r, j)
		}
	}
	return o
}

// prog makes a program of n steps on own registers; js tracks roughly what they
// hold.
func (pg *ProgGen) prog(r *R, n int, shared []*J) []*Op {
	js := make([]*J, nRegs)
	var ops []*Op
	old := make([]*J, nRegs)
	for tries := 0; len(ops) < n && tries < 60*n+100; tries++ {
		d := r.N(nRegs)
		var o *Op
		copy(old, js)
		k := r.W(14, 6, 7, 30, 40, 4, 3)
		if js[0] == nil && js[1] == nil && js[2] == nil && js[3] == nil && k >= 3 && len(shared) == 0 {
			k = r.N(2)
		}
		switch k {
		case 0:
			j := pg.g.container(r, r.In(1, 3))
			if x := js[r.N(nRegs)]; x != nil && r.P(12) || x != nil && strings.Contains(pg.only, "cmp") && r.P(60) {
				j = respell(r, x)
			} else if strings.Contains(pg.only, "cmp") && r.P(50) {
				j = jNum(genNum(r))
				if r.P(50) {
					j = jArr(j)
					for n := r.N(12); n > 0; n-- {
						j.A = append(j.A, jNum(genNum(r)))
					}
				}
			}
			o = &Op{K: "parse", D: d, N: r.N(6), S: j.text(r.style())}
			if r.P(10) {
				o.S = o.S[:r.N(len(o.S))] // broken
				j = nil
			}
			if r.P(12) {
				o.K, o.N = "ujson", r.N(4)
			}
			js[d] = j
		case 1:
			o = &Op{K: "new", D: d, N: r.N(newKinds), S: genStr(r)}
			if !pg.floats && (o.N == 21 || o.N == 22) {
				o.N = 0
			}
			js[d] = nil
			if o.N == 19 {
				js[d] = &J{T: 'o', K: []string{"s", "list", "b", "f", "o"}, M: map[string]*J{"s": jStr(""), "list": jArr(jInt(1)), "b": jStr(""), "f": jInt(1), "o": jObj()}}
			}
		case 2:
			if pg.nData == 0 {
				continue
			}
			o = &Op{K: []string{"import", "newgo", "bimport"}[r.W(5, 2, 1)], D: d, N: r.N(pg.nData)}
			o.Q = pg.data[o.N].N % goShapes
			if r.P(20) {
				o.O = []O{{K: "omitempty"}}
			}
			js[d] = nil
		case 3:
			j := js[d]
			if j == nil {
				continue
			}
			o = &Op{K: "t", R: d, T: pg.g.genTOp(r, j, "ws", 8)}
			c := j.clone()
			if res := o.T.tryModel(c); res.E == skipRes {
				continue
			} else if res.E == "" {
				js[d] = c
			}
		case 4:
			reg, j := d, js[d]
			if len(shared) > 0 && r.P(60) {
				k := r.N(len(shared))
				reg, j = sharedReg+k, shared[k]
			}
			if j == nil && r.P(60) {
				continue
			}
			o = pg.read(r, reg, j)
			if o.K == "cmp" && o.Q < sharedReg {
				for t := 0; t < 20 && (js[o.Q] == nil || o.Q == reg); t++ {
					o.Q = r.N(nRegs)
				}
				if pg.only != "" {
					o.N = r.N(25)
				}
			}
			if o.K == "copy" {
				js[o.D] = nil
				if j != nil {
					js[o.D] = j.clone()
				}
			}
		case 5:
			if js[d] == nil {
				continue
			}
			// caseless: keys of this generator do not differ only by case
			o = &Op{K: "cgets", R: d, P: pg.path(r, js[d])}
			for i := range o.P.E {
				if o.P.E[i].isStr() && r.P(50) {
					o.P.E[i].S = flipCase(r, o.P.E[i].S)
				}
			}
		case 6:
			if js[d] == nil {
				continue
			}
			o = &Op{K: "take", R: d, D: (d + 1) % nRegs, P: pg.path(r, js[d])}
			js[o.D] = nil
			js[d] = nil // aliasing: the model no longer follows
		}
		if pg.only != "" && !pg.wanted(o) && (len(ops) >= 3 || k > 2) {
			copy(js, old)
			continue
		}
		ops = append(ops, o)
	}
	return ops
}
