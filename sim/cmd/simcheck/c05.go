package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"unsafe"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
)

// C05: who owns which memory. Clients give buffers, slices and maps to the
// library, check that they were not modified, overwrite them later, overwrite
// what the library returned, and keep results to compare them again.

func init() {
	register(&propDef{id: "C05", race: true, plain: true, gen: genC05, exec: execC05,
		rule: "a case is 1-3 clients making 4-20 steps each (build a value from a caller-owned buffer, slice or map; change it; take bytes, strings, slices or maps out of it; overwrite buffers given or received; collect garbage) under one seeded schedule, with freed memory clobbered; after every step all kept arguments, results and values of the client are compared with private copies and with a tree model. Non-trivial: at least one buffer was overwritten and at least two results or values were kept",
		real: stdReal, stub: stdStub})
}

var c05Kinds = []string{"parse", "into", "shared", "bytes", "godata", "marsh", "op", "out", "slice", "map", "scribble", "scribbleout", "gc", "member", "path", "keys", "marshaler", "iter", "nocopy"}

func genC05(r *R, c *Case, tier string) {
	c.Kind = "owners"
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 4), odd: true, big: 300, huge: 900, most: 8192}
	nc := r.Pick(1, 1, 2, 2, 3)
	ln := r.In(4, 14)
	if tier == "thorough" {
		ln = r.In(4, 40)
	}
	c.N = []int{nc, r.N(2)} // N[1]: overwrite an argument at once after the call
	for n := r.In(1, 2); n > 0; n-- {
		c.Texts = append(c.Texts, g.container(r, r.In(1, 3)).text(r.style())) // shared read-only inputs
	}
	genData(r, c)
	for i := 0; i < nc; i++ {
		var ops []*TOp
		regs := make([]*J, nRegs)
		for k := 0; k < ln; k++ {
			a := Act{A: i, B: r.N(nRegs), C: r.N(16)}
			w := []int{16, 4, 5, 7, 6, 14, 14, 8, 5, 5, 8, 8, 4, 4, 3, 3, 4, 3, 4}
			a.K = c05Kinds[r.W(w...)]
			if regs[a.B] == nil && a.K != "scribble" && a.K != "scribbleout" && a.K != "gc" && a.K != "nocopy" {
				a.K = "parse"
			}
			switch a.K {
			case "parse", "into", "marshaler":
				j := g.container(r, r.In(1, 3))
				if r.P(10) {
					j = g.scalar(r)
				}
				a.S = j.text(r.style())
				if r.P(8) {
					a.S = a.S[:len(a.S)-1] + "!"
				} else {
					regs[a.B] = j
				}
			case "nocopy":
				// the keys of other values are likely to appear here too
				a.S = g.container(r, r.In(1, 3)).text(r.style())
				if r.P(10) {
					a.S = a.S[:len(a.S)-1] + "!"
				}
			case "bytes":
				a.S = strings.Repeat(genStr(r), r.In(1, 6))
			case "godata":
				a.S = g.tree(r, 2).text(0)
			case "op":
				t := g.genTOp(r, regs[a.B], "ws", 10)
				a.C = len(ops)
				ops = append(ops, t)
				m := regs[a.B].clone()
				if res := t.tryModel(m); res.E == "" {
					regs[a.B] = m
				}
			}
			c.Acts = append(c.Acts, a)
		}
		c.Ops = append(c.Ops, ops)
	}
	genSim(r, c)
}

type c05Arg struct {
	b     []byte
	want  string
	what  string
	mine  bool // may be overwritten
	alive func() string
}

type c05Out struct {
	b    []byte
	want string
	s    string
	isS  bool
	err  error
	what string
	done bool // overwritten by the client
}

type c05Client struct {
	o     *Outcome
	id    int
	v     [nRegs]*jsonvalue.V
	j     [nRegs]*J
	args  []*c05Arg
	outs  []*c05Out
	wrote int
	now   bool
	viol  *Viol
}

func (k *c05Client) fail(class, f string, a ...interface{}) {
	if k.viol == nil {
		k.viol = &Viol{class, fmt.Sprintf(f, a...)}
	}
}

// arg makes a caller-owned copy of the text, with spare capacity.
func (k *c05Client) arg(what, text string) *c05Arg {
	b := make([]byte, len(text), len(text)+16)
	copy(b, text)
	for i := len(text); i < cap(b); i++ {
		b[:cap(b)][i] = 0xAA
	}
	a := &c05Arg{b: b, want: text, what: what, mine: true}
	k.args = append(k.args, a)
	return a
}

func (a *c05Arg) check(k *c05Client, when string) {
	if string(a.b) != a.want {
		k.fail("argument", "the argument of %s was modified %s: it was %.300q and is %.300q", a.what, when, a.want, string(a.b))
	}
	for _, x := range a.b[len(a.b):cap(a.b)] {
		if x != 0xAA {
			k.fail("argument", "the memory beyond the argument of %s was modified %s", a.what, when)
		}
	}
}

func (k *c05Client) scribble(a *c05Arg, how int) {
	fill := []string{"#", "0", `"`, "z", "\x00", `\`, "]", " "}[how%8]
	copy(a.b, strings.Repeat(fill, len(a.b)))
	if how%3 == 0 {
		copy(a.b, `{"overwritten":1}`)
	}
	a.want = string(append([]byte{}, a.b...))
	k.wrote++
}

func (k *c05Client) after(a *c05Arg, how int) {
	a.check(k, "by the call")
	if k.now {
		k.scribble(a, how)
	}
}

func (k *c05Client) put(i int, v *jsonvalue.V, j *J) { k.v[i], k.j[i] = v, j }

func (k *c05Client) keepB(what string, b []byte) {
	k.outs = append(k.outs, &c05Out{b: b, want: string(append([]byte{}, b...)), what: what})
}

// bytesOf reads base64 strings as bytes, twice: what is done to the first result
// must not show in the second.
func (k *c05Client) bytesOf(v *jsonvalue.V, j *J, n int) {
	if n%3 == 0 {
		var x *J
		for i, y := range append(append([]*J{}, j.A...), vals(j)...) {
			if x = y; i >= n/3%(len(j.A)+len(j.K)) && x.T == 's' {
				break
			}
		}
		if x == nil || x.T != 's' {
			return
		}
		var es []Elem
		for i, y := range j.A {
			if y == x {
				es = []Elem{iE(i)}
			}
		}
		for _, key := range j.K {
			if j.M[key] == x {
				es = []Elem{sE(key)}
			}
		}
		v, j = at(v, es), x
	} else {
		for _, y := range append(append([]*J{}, j.A...), vals(j)...) {
			if y.T == 'a' || y.T == 'o' {
				var m *jsonvalue.V
				for _, key := range j.K {
					if j.M[key] == y {
						m = at(v, []Elem{sE(key)})
					}
				}
				for i := range j.A {
					if j.A[i] == y {
						m = at(v, []Elem{iE(i)})
					}
				}
				k.bytesOf(m, y, n/3)
				return
			}
		}
		if n == 0 {
			return
		}
		k.bytesOf(v, j, 3*(n/9))
		return
	}
	want, err := base64.StdEncoding.DecodeString(j.S)
	if err != nil {
		want = nil
	}
	for i := 0; i < 3; i++ {
		b := v.Bytes()
		if string(b) != string(want) {
			k.fail("result", "Bytes of %q the %d. time, the earlier results having been overwritten by the caller, is %q", j.S, i+1, b)
			return
		}
		if i == 1 {
			k.keepB("Bytes", b)
			continue
		}
		for x := range b {
			b[x] = '#'
		}
		k.wrote++
	}
}

func vals(j *J) []*J {
	var l []*J
	for _, key := range j.K {
		l = append(l, j.M[key])
	}
	return l
}

func (k *c05Client) keepS(what, s string) {
	k.outs = append(k.outs, &c05Out{s: s, isS: true, want: string(append([]byte{}, s...)), what: what})
}

func (k *c05Client) keepErr(what string, err error) {
	if err != nil {
		k.outs = append(k.outs, &c05Out{err: err, want: string(append([]byte{}, err.Error()...)), what: what})
	}
}

// all compares everything the client holds.
func (k *c05Client) all(when string) {
	for _, a := range k.args {
		a.check(k, when)
		if a.alive != nil {
			if t := a.alive(); t != "" {
				k.fail("argument", "%s: %s %s", a.what, t, when)
			}
		}
	}
	for _, x := range k.outs {
		if x.done {
			continue
		}
		got := string(x.b)
		if x.isS {
			got = x.s
		}
		if x.err != nil {
			got = x.err.Error()
		}
		if got != x.want {
			k.fail("result", "what %s returned changed %s: it was %.300q and is %.300q", x.what, when, x.want, got)
		}
	}
	for i, v := range k.v {
		if v == nil {
			continue
		}
		if got, want := vtext(v), k.j[i].canon(true); got != want {
			k.fail("value", "the value in register %d changed %s: it was %s and is %s", i, when, clip(want, 400), clip(got, 400))
		}
		if got, want := snapshot(v), snapModel(k.j[i]); got != want {
			k.fail("value", "the value in register %d marshals differently %s: expected %s, got %s", i, when, clip(want, 400), clip(got, 400))
		}
	}
}

type c05Marsh struct{ b []byte }

func (m *c05Marsh) MarshalJSON() ([]byte, error) { return m.b, nil }

type c05Text struct{ b []byte }

func (m *c05Text) MarshalText() ([]byte, error) { return m.b, nil }

func (k *c05Client) step(c *Case, a Act, shared [][]byte) {
	r := a.B % nRegs
	v, j := k.v[r], k.j[r]
	set := func(what, text string, v *jsonvalue.V, err error) {
		k.keepErr(what, err)
		m, perr := parseJSON(text)
		if err != nil {
			if perr == nil {
				k.fail("value", "%s refused %.300q: %v", what, text, err)
			}
			return
		}
		if perr != nil {
			m = dump(v)
		}
		k.put(r, v, m)
	}
	switch a.K {
	case "parse":
		switch a.C % 8 {
		case 0, 1:
			x := k.arg("Unmarshal", a.S)
			y, err := jsonvalue.Unmarshal(x.b)
			k.after(x, a.C)
			set("Unmarshal", a.S, y, err)
		case 2: // a string in memory of the caller's
			x := k.arg("UnmarshalString", a.S)
			x.mine = false
			y, err := jsonvalue.UnmarshalString(unsafe.String(unsafe.SliceData(x.b), len(x.b)))
			x.check(k, "by the call")
			set("UnmarshalString", a.S, y, err)
		case 3:
			x := k.arg("MustUnmarshal", a.S)
			y := jsonvalue.MustUnmarshal(x.b)
			k.after(x, a.C)
			if y.ValueType() != jsonvalue.NotExist {
				set("MustUnmarshal", a.S, y, nil)
			}
		case 4:
			x := k.arg("json.Unmarshal", a.S)
			y := &jsonvalue.V{}
			err := json.Unmarshal(x.b, y)
			k.after(x, a.C)
			set("json.Unmarshal", a.S, y, err)
		case 5:
			if !json.Valid([]byte(a.S)) {
				return
			}
			x := k.arg("Import(json.RawMessage)", a.S)
			y, err := jsonvalue.Import(json.RawMessage(x.b))
			k.after(x, a.C)
			set("Import(json.RawMessage)", a.S, y, err)
		case 6:
			x := k.arg("json.Decoder", a.S+" "+a.S)
			d := json.NewDecoder(bytes.NewReader(x.b))
			y, z := &jsonvalue.V{}, &jsonvalue.V{}
			err := d.Decode(y)
			d.Decode(z)
			k.after(x, a.C)
			set("json.Decoder", a.S, y, err)
		case 7:
			x := k.arg("UnmarshalBinary", a.S)
			y := &jsonvalue.V{}
			err := y.UnmarshalBinary(x.b)
			k.after(x, a.C)
			set("UnmarshalBinary", a.S, y, err)
		}
	case "into": // an existing value receives new content
		if v == nil {
			return
		}
		x := k.arg("UnmarshalJSON into an existing value", a.S)
		var err error
		if a.C%2 == 0 {
			err = v.UnmarshalJSON(x.b)
		} else {
			err = v.UnmarshalBinary(x.b)
		}
		k.after(x, a.C)
		set("UnmarshalJSON", a.S, v, err)
	case "nocopy": // the value refers to the buffer; the buffer is used again when the value is not
		x := k.arg("UnmarshalNoCopy", a.S)
		var y *jsonvalue.V
		var err error
		if a.C%4 != 1 {
			y, err = jsonvalue.UnmarshalNoCopy(x.b)
		} else {
			y = jsonvalue.MustUnmarshalNoCopy(x.b)
			if y.ValueType() == jsonvalue.NotExist {
				err = fmt.Errorf("no value")
			}
		}
		x.want = string(append([]byte{}, x.b...)) // escapes are decoded in the buffer
		m, perr := parseJSON(a.S)
		if (err == nil) != (perr == nil) {
			k.fail("value", "UnmarshalNoCopy of %.300q: error %v", a.S, err)
			return
		}
		if err == nil {
			if got, want := vtext(y), m.canon(true); got != want {
				k.fail("value", "UnmarshalNoCopy gave %s, expected %s", clip(got, 300), clip(want, 300))
			}
			y.RangeObjects(func(key string, _ *jsonvalue.V) bool {
				if v != nil {
					v.Get(key)
					v.Caseless().Get(key)
				}
				return true
			})
			b, _ := y.Marshal(jsonvalue.OptDefaultStringSequence())
			k.keepB("Marshal", b)
			b, _ = y.Marshal(jsonvalue.OptSetSequence())
			k.keepB("Marshal", b)
			var data interface{}
			if y.Export(&data) == nil {
				k.keepS("Export", plainJSON(data))
			}
		}
		x.check(k, "by reading the value")
		k.scribble(x, a.C)
	case "shared":
		i := a.C % len(shared)
		text := c.Texts[i]
		if a.C%2 == 0 {
			y, err := jsonvalue.Unmarshal(shared[i])
			set("Unmarshal", text, y, err)
		} else {
			y, err := jsonvalue.UnmarshalString(unsafe.String(unsafe.SliceData(shared[i]), len(shared[i])))
			set("UnmarshalString", text, y, err)
		}
	case "bytes":
		x := k.arg("a []byte constructor", a.S)
		m := jStr(base64.StdEncoding.EncodeToString([]byte(a.S)))
		switch a.C % 6 {
		case 0:
			k.put(r, jsonvalue.NewBytes(x.b), m)
		case 1:
			k.put(r, jsonvalue.New(x.b), m)
		case 2:
			y, err := jsonvalue.Import(x.b)
			if err == nil {
				k.put(r, y, m)
			}
		case 3:
			if v != nil && j.T == 'o' {
				if _, err := v.SetBytes(x.b).At("bytes"); err == nil {
					j.set("bytes", m)
				}
			}
		case 4:
			if v != nil && j.T == 'a' {
				if _, err := v.AppendBytes(x.b).InTheEnd(); err == nil {
					j.A = append(j.A, m)
				}
			}
		case 5:
			if v != nil && j.T == 'o' {
				if _, err := v.Set(map[string]interface{}{"in": x.b}).At("bytes"); err == nil {
					n := jObj()
					n.set("in", m)
					j.set("bytes", n)
				}
			}
		}
		k.after(x, a.C)
	case "godata":
		m, err := parseJSON(a.S)
		if err != nil {
			return
		}
		var data interface{}
		if json.Unmarshal([]byte(a.S), &data) != nil {
			return
		}
		before := plainJSON(data)
		y, err := jsonvalue.Import(data)
		if got := plainJSON(data); got != before {
			k.fail("argument", "Import changed its argument: it was %s and is %s", before, got)
		}
		if err != nil {
			return
		}
		_ = m
		k.put(r, y, dump(y))
		spoil(data)
		k.wrote++
	case "marshaler": // buffers that marshalers return stay theirs
		x := k.arg("a MarshalJSON or MarshalText result", a.S)
		var y *jsonvalue.V
		var err error
		m, perr := parseJSON(a.S)
		switch a.C % 3 {
		case 0:
			y, err = jsonvalue.Import(&c05Marsh{x.b})
		case 1:
			y, err = jsonvalue.Import([]interface{}{&c05Marsh{x.b}, 1})
			if perr == nil {
				m = jArr(m, jInt(1))
			}
		case 2:
			y, err = jsonvalue.Import(map[string]interface{}{"t": &c05Text{x.b}})
			m = jObj()
			m.set("t", jStr(a.S))
			perr = nil
		}
		k.after(x, a.C)
		k.keepErr("Import", err)
		if err == nil && perr == nil {
			k.put(r, y, m)
			if got, want := vtext(y), m.canon(true); got != want {
				k.fail("value", "Import of a marshaler gave %s, expected %s", clip(got, 300), clip(want, 300))
			}
		}
	case "marsh":
		if v == nil {
			return
		}
		switch a.C % 8 {
		case 0, 1:
			b, _ := v.Marshal()
			k.keepB("Marshal", b)
		case 2:
			s, _ := v.MarshalString()
			k.keepS("MarshalString", s)
		case 3:
			k.keepB("MustMarshal", v.MustMarshal(jsonvalue.OptIndent("", " "), jsonvalue.OptUTF8()))
		case 4:
			k.keepS("MustMarshalString", v.MustMarshalString(jsonvalue.OptSetSequence()))
		case 5:
			b, _ := v.MarshalJSON()
			k.keepB("MarshalJSON", b)
		case 6:
			b, _ := v.MarshalBinary()
			k.keepB("MarshalBinary", b)
		case 7:
			b, _ := v.Marshal(jsonvalue.OptDefaultStringSequence())
			k.keepB("Marshal", b)
			b, _ = json.Marshal(v)
			k.keepB("json.Marshal", b)
		}
	case "op":
		if v == nil || k.id >= len(c.Ops) || a.C >= len(c.Ops[k.id]) {
			return
		}
		t := c.Ops[k.id][a.C]
		m := j.clone()
		res := t.tryModel(m)
		if res.E == skipRes {
			return
		}
		if a.C%2 == 0 && len(t.P.E) > 0 && t.P.F < formExtra {
			// all in one slice of the caller's, which has more behind it
			k.pathOp(t, v)
		} else {
			t.lib(v)
		}
		if res.E == "" {
			k.j[r] = m
		}
	case "out":
		if v == nil {
			return
		}
		switch a.C % 7 {
		case 6:
			k.bytesOf(v, j, a.C/7)
		case 0:
			k.keepS("String", v.String())
		case 1:
			k.keepB("Bytes", v.Bytes())
		case 2:
			var raw json.RawMessage
			if v.Export(&raw) == nil {
				k.keepB("Export", raw)
			}
		case 3:
			if j.T == 'o' && len(j.K) > 0 {
				b, _ := v.GetBytes(j.K[0])
				k.keepB("GetBytes", b)
				s, _ := v.GetString(j.K[0])
				k.keepS("GetString", s)
			}
		case 4:
			v.RangeObjects(func(key string, x *jsonvalue.V) bool {
				k.keepS("a key given to RangeObjects", key)
				k.keepS("String", x.String())
				return true
			})
		case 5:
			var x interface{}
			if v.Export(&x) == nil {
				spoil(x)
				k.wrote++
			}
		}
	case "slice": // a returned slice is the caller's
		if v == nil {
			return
		}
		s := v.ForRangeArr()
		if len(s) > 0 {
			k.wrote++
			switch a.C % 3 {
			case 0:
				for i := range s {
					s[i] = nil
				}
			case 1:
				s[0], s[len(s)-1] = s[len(s)-1], s[0]
				s = append(s[:len(s)-1], jsonvalue.NewNull())
			case 2:
				s = append(s, jsonvalue.NewString("appended"))
				s = s[:cap(s)]
				for i := range s {
					s[i] = nil
				}
			}
		}
	case "map":
		if v == nil {
			return
		}
		m := v.ForRangeObj()
		if m != nil {
			k.wrote++
			for _, key := range keysOf(m) {
				delete(m, key)
			}
			m["inserted"] = jsonvalue.NewNull()
		}
	case "scribble":
		for i, x := range k.args {
			if x.mine && (a.C%2 == 0 || i%2 == a.B%2) && len(x.b) > 0 {
				k.scribble(x, a.C+i)
			}
		}
	case "scribbleout":
		for i, x := range k.outs {
			if x.b != nil && !x.done && (a.C%2 == 0 || i%2 == a.B%2) {
				x.done = true
				k.wrote++
				full := x.b[:cap(x.b)] // appending would use it
				for n := range full {
					full[n] = byte('#' + a.C)
				}
			}
		}
	case "gc":
		runtime.GC()
	case "member": // a member stays as it is when taken out and its parent dropped
		if v == nil {
			return
		}
		if j.T == 'o' && len(j.K) > 0 {
			key := j.K[a.C%len(j.K)]
			x, err := v.Get(key)
			if err == nil {
				k.put(r, x, j.M[key])
			}
		} else if j.T == 'a' && len(j.A) > 0 {
			i := a.C % len(j.A)
			x, err := v.Get(i)
			if err == nil {
				k.put(r, x, j.A[i])
			}
		}
	case "path": // path arguments
		if v == nil || j.T != 'o' {
			return
		}
		switch a.C % 4 {
		case 0:
			p := []string{"path", "of", "strings"}
			if _, ok := j.M["path"]; ok {
				return
			}
			_, err := v.SetString("x").At(p)
			if strings.Join(p, "/") != "path/of/strings" {
				k.fail("argument", "the path []string was changed to %q", p)
			}
			if err == nil {
				jSet(j, []Elem{sE("path"), sE("of"), sE("strings")}, jStr("x"))
			}
			p[0], p[1], p[2] = "spoilt", "spoilt", "spoilt"
		case 1:
			p := []interface{}{"anypath", 0, "x"}
			if _, ok := j.M["anypath"]; ok {
				return
			}
			_, err := v.SetInt(1).At(p)
			if p[0] != "anypath" || p[1] != 0 || p[2] != "x" {
				k.fail("argument", "the path []interface{} was changed to %v", p)
			}
			if err == nil {
				jSet(j, []Elem{sE("anypath"), iE(0), sE("x")}, jInt(1))
			}
			p[0], p[1], p[2] = "spoilt", "spoilt", "spoilt"
		case 2:
			p := []interface{}{"list"}
			rest := p[:1:1]
			v.Get("nowhere", rest...)
			v.AppendInt(1).InTheEnd("nowhere2", 5)
			v.Delete("nowhere", p...)
			if p[0] != "list" {
				k.fail("argument", "the variadic path was changed to %v", p)
			}
		case 3:
			backing := []interface{}{"aa", "bb", "cc", "dd"}
			p := backing[:2]
			v.Get(p)
			v.Set(nil).At(p, "too many")
			v.Delete(p)
			v.Get(p[0], p[1:]...)
			if backing[0] != "aa" || backing[1] != "bb" || backing[2] != "cc" || backing[3] != "dd" {
				k.fail("argument", "a path slice or the memory behind it was changed to %v", backing)
			}
		}
		k.wrote++
	case "keys": // option arguments
		if v == nil {
			return
		}
		seq := [][]string{
			{"c", "b", "a", "b", "zz"}, {"a", "a", "b", "b", "zz"}, {"b", "", "a", "b", ""}, {"zz", "y", "x", "a", "A"}, {"a", "a", "a", "a", "a"},
		}[a.C%5]
		if j.T == 'o' && len(j.K) > 0 && a.C%2 == 0 {
			seq[0], seq[1] = j.K[0], j.K[0]
		}
		keep := append([]string{}, seq...)
		b, _ := v.Marshal(jsonvalue.OptKeySequence(seq[:4]))
		k.keepB("Marshal", b)
		b, _ = v.Marshal(jsonvalue.Opt{MarshalKeySequence: seq[:3]})
		k.keepB("Marshal", b)
		for i := range seq {
			if seq[i] != keep[i] {
				k.fail("argument", "the key sequence was changed from %q to %q", keep, seq)
			}
		}
		opts := []jsonvalue.Option{jsonvalue.OptUTF8(), jsonvalue.OptSetSequence()}
		was := append([]jsonvalue.Option{}, opts...)
		b, _ = v.Marshal(opts[:1]...)
		k.keepB("Marshal", b)
		if opts[0] != was[0] || opts[1] != was[1] {
			k.fail("argument", "the option list was changed")
		}
	case "iter":
		if v == nil {
			return
		}
		ch := v.IterObjects()
		for {
			it, ok := simrt.Recv2(ch)
			if !ok {
				break
			}
			k.keepS("an iterator key", it.K)
			it.K, it.V = "spoilt", nil
			k.wrote++
		}
	}
}

// pathOp performs an operation with its path in a slice whose memory goes on, and
// overwrites that memory afterwards.
func (k *c05Client) pathOp(t *TOp, v *jsonvalue.V) {
	backing := []interface{}{}
	for _, e := range t.P.E {
		backing = append(backing, e.any())
	}
	n := len(backing)
	backing = append(backing, "behind the path", 77, "behind the path")
	keep := append([]interface{}{}, backing...)
	t.libArgs(v, []interface{}{backing[:n]})
	for i := range backing {
		if backing[i] != keep[i] {
			k.fail("argument", "the path slice of %s, or the memory behind it, was changed: it was %v and is %v", t.String(), keep, backing)
		}
	}
	for i := range backing {
		backing[i] = "spoilt"
	}
	k.wrote++
}

// spoil overwrites everything reachable in decoded Go data.
func spoil(x interface{}) {
	switch y := x.(type) {
	case map[string]interface{}:
		for k, v := range y {
			spoil(v)
			y[k] = "spoilt"
		}
		y["spoilt"] = 1
	case []interface{}:
		for i, v := range y {
			spoil(v)
			y[i] = "spoilt"
		}
	}
}

func execC05(c *Case, o *Outcome) {
	simrt.ResetAll()
	nc := c.NN(0)
	if nc == 0 || len(c.Texts) == 0 {
		return
	}
	shared := make([][]byte, len(c.Texts))
	for i, t := range c.Texts {
		shared[i] = []byte(t)
	}
	cs := make([]*c05Client, nc)
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		cs[i] = &c05Client{o: o, id: i, now: c.NN(1) == 1}
		clients[i] = func() {
			n := 0
			for _, a := range c.Acts {
				if a.A != i || cs[i].viol != nil {
					continue
				}
				if t := guard(func() { cs[i].step(c, a, shared) }); t != "" {
					cs[i].fail("panic", "step %d (%s %d %.200q): %s", n, a.K, a.C, a.S, t)
					return
				}
				cs[i].all(fmt.Sprintf("by step %d of client %d (%s, variant %d, register %d)", n, i, a.K, a.C, a.B))
				n++
			}
		}
	}
	res := o.sim(c.Cfg, true, clients)
	wrote, kept := 0, 0
	for i, k := range cs {
		if k.viol != nil {
			o.fail(k.viol.Class, "client %d: %s", i, k.viol.Msg)
		}
	}
	if o.Viol != nil {
		return
	}
	simrt.ResetAll()
	soloOf(c, o, 0, 1, func() {
		// everything again: after all clients ended, and after everything that may
		// be overwritten was, and the memory collected
		for i, k := range cs {
			k.all(fmt.Sprintf("by the end of all clients (client %d)", i))
		}
		for i, k := range cs {
			for n, a := range k.args {
				if a.mine && len(a.b) > 0 {
					k.scribble(a, n+i)
				}
			}
			for _, x := range k.outs {
				if x.b != nil {
					x.done = true
					full := x.b[:cap(x.b)]
					for n := range full {
						full[n] = '@'
					}
				}
			}
		}
		if c.Seed%8 == 0 {
			runtime.GC()
		}
		for i, k := range cs {
			k.all(fmt.Sprintf("by overwriting all buffers given and received (client %d)", i))
			wrote += k.wrote
			kept += len(k.outs)
			for _, v := range k.v {
				if v != nil {
					kept++
				}
			}
			for _, x := range k.outs {
				o.digest(x.want)
			}
		}
		for i, s := range shared {
			if string(s) != c.Texts[i] {
				o.fail("argument", "a shared input was changed: it was %.300q and is %.300q", c.Texts[i], s)
			}
		}
	})
	for i, k := range cs {
		if k.viol != nil {
			o.fail(k.viol.Class, "client %d: %s", i, k.viol.Msg)
		}
	}
	o.faultN("buffer-overwrite", int64(wrote))
	o.done(wrote > 0 && kept >= 2, c)
	_ = res
}
