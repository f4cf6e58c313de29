package main

import (
	"encoding/json"
	"fmt"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
	"verif.local/sim/simrt"
)

// C13: copies. Copies of one original are given to several clients; every client
// changes what it holds, makes further copies, and compares all of it with
// reference trees of its own.

func init() {
	register(&propDef{id: "C13", race: true, plain: true, gen: genC13, exec: execC13,
		rule: "a case is an original (parsed from a buffer that is overwritten later, edited, looked up caselessly, possibly with NaN or Inf) copied by 2-4 of sixteen methods, one copy per client plus the original, each client making 3-14 changes, caseless lookups, iterations and further copies of what it holds under one seeded schedule; every value is compared with its own reference tree after every step, and all at the end. Non-trivial: at least two clients were interleaved and at least 4 changes succeeded",
		real: stdReal, stub: stdStub})
}

const c13Methods = 16

type copyIn struct {
	Before int          `json:"before"`
	V      *jsonvalue.V `json:"v"`
	After  string       `json:"after"`
}

type copyEmb struct {
	copyIn
	More map[string]interface{} `json:"more"`
}

// spoilAll changes everything in and below v, each value in place and as a member.
func spoilAll(v *jsonvalue.V) {
	for _, x := range v.ForRangeArr() {
		spoilAll(x)
	}
	m := v.ForRangeObj()
	for _, k := range keysOf(m) {
		spoilAll(m[k])
	}
	switch {
	case v.IsArray():
		v.Set("spoiled").At(0)
		v.Append("spoiled").InTheBeginning()
		v.Delete(-1)
	case v.IsObject():
		v.Caseless().Get("SPOILED")
		for i, k := range keysOf(m) {
			if i%2 == 0 {
				v.Delete(k)
			} else {
				v.Set("spoiled").At(k)
			}
		}
		v.Set("spoiled").At("spoiled")
	default:
		v.UnmarshalJSON([]byte(`"spoiled"`))
	}
}

// spoilt spoils the other copies in a container x of copies.
func spoilt(x *jsonvalue.V, err error, p ...interface{}) {
	if err != nil {
		return
	}
	if y, err := x.Get(p[0], p[1:]...); err == nil {
		spoilAll(y)
	}
}

// copyBy copies a value; ordered: the member order is kept for certain.
func copyBy(m int, v *jsonvalue.V) (*jsonvalue.V, bool, error) {
	get := func(x *jsonvalue.V, err error, p ...interface{}) (*jsonvalue.V, bool, error) {
		if err != nil {
			return x, true, err
		}
		y, err := x.Get(p[0], p[1:]...)
		return y, true, err
	}
	switch m % c13Methods {
	case 1:
		return jsonvalue.New(v), true, nil
	case 2:
		x, err := jsonvalue.Import(map[string]interface{}{"x": v, "y": 1})
		return get(x, err, "x")
	case 3:
		x, err := jsonvalue.Import([]*jsonvalue.V{v, v, v})
		spoilt(x, err, 0)
		spoilt(x, err, 2)
		return get(x, err, 1)
	case 4:
		x, err := jsonvalue.Import(copyIn{1, v, "z"})
		return get(x, err, "v")
	case 5:
		x, err := jsonvalue.Import(&copyEmb{copyIn{1, v, "z"}, map[string]interface{}{"deep": []interface{}{v}}})
		spoilt(x, err, "v")
		return get(x, err, "more", "deep", 0)
	case 6:
		b, err := v.Marshal(jsonvalue.OptSetSequence())
		if err != nil {
			return nil, true, err
		}
		x, err := jsonvalue.Unmarshal(b)
		for i := range b {
			b[i] = '#'
		}
		return x, true, err
	case 7:
		b, err := json.Marshal(map[string]interface{}{"v": v})
		if err != nil {
			return nil, false, err
		}
		var x struct{ V jsonvalue.V }
		err = json.Unmarshal(b, &x)
		return &x.V, false, err
	case 8:
		x, err := beta.Import(v)
		return x, false, err
	case 9:
		// an array of values set by Go data
		d := jsonvalue.NewObject()
		_, err := d.Set([]interface{}{"first", v, map[string]interface{}{"k": v}}).At("a", "b")
		spoilt(d, err, "a", "b", 2)
		return get(d, err, "a", "b", 1)
	case 10:
		d := jsonvalue.NewArray()
		_, err := d.Append(map[string]*jsonvalue.V{"k": v}).InTheEnd()
		return get(d, err, 0, "k")
	case 11:
		var p **jsonvalue.V
		q := v
		p = &q
		x, err := jsonvalue.Import(p)
		return x, false, err
	case 12:
		x := &jsonvalue.V{}
		b, err := v.MarshalBinary()
		if err == nil {
			err = x.UnmarshalBinary(b)
			for i := range b {
				b[i] = '0'
			}
		}
		return x, false, err
	}
	switch m % c13Methods {
	case 13:
		x := &jsonvalue.V{}
		err := v.Export(x)
		return x, false, err
	case 14:
		var x *jsonvalue.V
		err := v.Export(&x)
		if x == nil && err == nil {
			x = jsonvalue.NewNull()
		}
		return x, false, err
	case 15:
		if v.IsArray() {
			var a []*jsonvalue.V
			if err := v.Export(&a); err != nil {
				return nil, false, err
			}
			x, err := jsonvalue.Import(a)
			return x, false, err
		}
		if v.IsObject() {
			var a map[string]*jsonvalue.V
			if err := v.Export(&a); err != nil {
				return nil, false, err
			}
			x := jsonvalue.NewObject()
			for _, k := range keysOf(a) {
				if a[k] == nil {
					a[k] = jsonvalue.NewNull()
				}
				x.MustSet(a[k]).At(k)
			}
			return x, false, nil
		}
	}
	x, err := jsonvalue.Import(v)
	return x, true, err
}

// needsJSON: methods that go through JSON text (not for NaN and Inf).
func needsJSON(m int) bool { m %= c13Methods; return m == 6 || m == 7 || m == 8 || m == 11 || m >= 12 }

func genC13(r *R, c *Case, tier string) {
	keys := pickKeys(r)
	if r.P(20) {
		keys = keysCase
	}
	g := &genCfg{keys: keys, width: r.In(1, 4), odd: r.P(50), big: 200, huge: 900, most: 2100}
	c.Kind = "copies"
	j := g.container(r, r.In(1, 3))
	c.Texts = append(c.Texts, j.text(r.style()))
	var pre []*TOp
	for k := r.N(6); k > 0; k-- {
		t := g.genTOp(r, j, "wsc", 0)
		m := j.clone()
		if res := t.tryModel(m); res.E == "" {
			j = m
			pre = append(pre, t)
		}
	}
	weird := 0
	if r.P(12) && j.T == 'o' {
		weird = 1
		t := &TOp{K: "set", P: Path{E: []Elem{sE("weird")}}, V: &Val{T: []string{"NaN", "+Inf", "-Inf"}[r.N(3)]}}
		pre = append(pre, t)
		j.set("weird", t.V.model())
	}
	c.Ops = append(c.Ops, pre)
	nc := r.In(2, 4)
	c.N = []int{r.Pick(0, 1, 3, 4), nc, weird}
	meth := func() int {
		m := r.N(c13Methods)
		for weird == 1 && needsJSON(m) {
			m = r.N(c13Methods)
		}
		return m
	}
	for i := 1; i < nc; i++ {
		c.N = append(c.N, meth())
		if r.P(25) && i > 1 {
			c.N[len(c.N)-1] |= 64 // a copy of the previous copy
		}
	}
	ln := r.In(3, 12)
	if tier == "thorough" {
		ln = r.In(3, 30)
	}
	for i := 0; i < nc; i++ {
		var ops []*TOp
		slots := []*J{j.clone()}
		for k := 0; k < ln; k++ {
			s := r.N(len(slots))
			a := Act{A: i, B: s}
			switch r.W(65, 15, 6, 8, 6) {
			case 1:
				if len(slots) < 4 {
					a.K, a.C = "copy", meth()
					slots = append(slots, slots[s].clone())
					break
				}
				fallthrough
			case 0:
				a.K, a.C = "op", len(ops)
				t := g.genTOp(r, slots[s], "wsrc", 5)
				ops = append(ops, t)
				m := slots[s].clone()
				if res := t.tryModel(m); res.E == "" {
					slots[s] = m
				}
			case 2:
				a.K, a.C = "iter", r.N(4)
			case 3:
				a.K, a.C = "marsh", r.N(3)
			default:
				a.K, a.C = "member", meth()
			}
			c.Acts = append(c.Acts, a)
		}
		c.Ops = append(c.Ops, ops)
	}
	genSim(r, c)
}

type c13Client struct {
	id   int
	v    []*jsonvalue.V
	j    []*J
	viol *Viol
	ok   int
}

func (k *c13Client) fail(class, f string, a ...interface{}) {
	if k.viol == nil {
		k.viol = &Viol{class, fmt.Sprintf("client %d: ", k.id) + fmt.Sprintf(f, a...)}
	}
}

func (k *c13Client) check(when string) {
	for i, v := range k.v {
		if got, want := vtext(v), k.j[i].canon(true); got != want {
			k.fail("content", "%s: value %d is %s, expected %s", when, i, clip(got, 500), clip(want, 500))
			return
		}
	}
}

// add makes a copy of v and checks it.
func (k *c13Client) add(m int, v *jsonvalue.V, j *J, when string) {
	x, ordered, err := copyBy(m, v)
	if err != nil || x == nil {
		k.fail("copy", "%s: copy by method %d of %s failed: %v", when, m%c13Methods, clip(j.canon(true), 400), err)
		return
	}
	n := j.clone()
	if !ordered {
		if got, want := vtextU(x), j.canon(false); got != want {
			k.fail("copy", "%s: copy by method %d is %s, the original %s", when, m%c13Methods, clip(got, 400), clip(want, 400))
		}
		n = dump(x)
	} else if got, want := vtext(x), j.canon(true); got != want {
		k.fail("copy", "%s: copy by method %d is %s, the original %s", when, m%c13Methods, clip(got, 400), clip(want, 400))
	}
	if !needsNaN(j) && (!x.Equal(v) || !v.Equal(x)) {
		k.fail("copy", "%s: the copy by method %d of %s does not Equal() it", when, m%c13Methods, clip(j.canon(true), 400))
	}
	k.v = append(k.v, x)
	k.j = append(k.j, n)
}

func needsNaN(j *J) bool {
	if j.T == 'f' {
		return true
	}
	for _, x := range j.A {
		if needsNaN(x) {
			return true
		}
	}
	for _, x := range j.M {
		if needsNaN(x) {
			return true
		}
	}
	return false
}

func execC13(c *Case, o *Outcome) {
	simrt.ResetAll()
	nc := c.NN(1)
	if nc == 0 || len(c.Texts) == 0 || len(c.Ops) < nc+1 {
		return
	}
	ks := make([]*c13Client, nc)
	var src []byte
	soloOf(c, o, 0, 1, func() {
		j, err := parseJSON(c.Texts[0])
		if err != nil {
			panic(err)
		}
		var v *jsonvalue.V
		switch c.NN(0) {
		case 1, 4:
			v, err = parseBy(c.NN(0), c.Texts[0])
		case 3:
			src = []byte(c.Texts[0])
			v = jsonvalue.MustUnmarshal(src)
		default:
			src = []byte(c.Texts[0])
			v, err = jsonvalue.Unmarshal(src)
		}
		if err != nil {
			o.fail("content", "a valid document was refused: %v", err)
			return
		}
		for _, t := range c.Ops[0] {
			m := j.clone()
			res := t.tryModel(m)
			if res.E == skipRes {
				continue
			}
			if res.E == "" {
				j = m
			}
			t.lib(v)
		}
		ks[0] = &c13Client{v: []*jsonvalue.V{v}, j: []*J{j}}
		for i := 1; i < nc; i++ {
			ks[i] = &c13Client{id: i}
			m := c.NN(2 + i)
			from := ks[0]
			if m&64 != 0 && i > 1 && len(ks[i-1].v) > 0 {
				from = ks[i-1]
			}
			ks[i].add(m&63, from.v[0], from.j[0], "before the clients start")
		}
	})
	for _, k := range ks {
		if k != nil && k.viol != nil {
			o.fail(k.viol.Class, "%s", k.viol.Msg)
		}
	}
	if o.Viol != nil {
		return
	}
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		k := ks[i]
		clients[i] = func() {
			if i == 0 && src != nil {
				for n := range src {
					src[n] = "#\"0}"[n%4]
				}
			}
			for n, a := range c.Acts {
				if a.A != i || k.viol != nil {
					continue
				}
				if t := guard(func() { k.step(c, n, a) }); t != "" {
					k.fail("panic", "act %d %s: %s", n, a.K, t)
				}
			}
		}
	}
	res := o.sim(c.Cfg, true, clients)
	ok := 0
	for _, k := range ks {
		if k.viol != nil {
			o.fail(k.viol.Class, "%s", k.viol.Msg)
		}
		ok += k.ok
	}
	if o.Viol != nil {
		return
	}
	if src != nil {
		o.fault("source-buffer-overwritten")
	}
	soloOf(c, o, 0, 1, func() {
		for _, k := range ks {
			k.check("at the end")
			for i, v := range k.v {
				if got, want := snapshot(v), snapModel(k.j[i]); got != want {
					k.fail("content", "value %d marshals to %s at the end, expected %s", i, clip(got, 500), clip(want, 500))
				}
				o.digest(k.j[i].canon(true))
			}
			if k.viol != nil {
				o.fail(k.viol.Class, "%s", k.viol.Msg)
			}
		}
	})
	o.done(res.Switches >= 2 && ok >= 4, c)
}

func (k *c13Client) step(c *Case, n int, a Act) {
	if len(k.v) == 0 {
		return
	}
	s := a.B % len(k.v)
	v, j := k.v[s], k.j[s]
	what := fmt.Sprintf("act %d %s on value %d", n, a.K, s)
	switch a.K {
	case "op":
		if a.C >= len(c.Ops[k.id+1]) {
			return
		}
		t := c.Ops[k.id+1][a.C]
		m := j.clone()
		want := t.tryModel(m)
		if want.E == skipRes {
			return
		}
		got := t.lib(v)
		what += " " + t.String()
		if !t.agree(want, got) {
			k.fail("result", "%s returned %s, expected %s", what, clip(got.String(), 300), clip(want.String(), 300))
			return
		}
		if want.E == "" {
			k.j[s] = m
			if t.write() {
				k.ok++
			}
		}
	case "copy":
		k.add(a.C, v, j, what)
	case "member":
		// a member is copied
		if len(j.K) > 0 {
			key := j.K[n%len(j.K)]
			k.add(a.C, v.MustGet(key), j.M[key], what)
		} else if len(j.A) > 0 {
			k.add(a.C, v.MustGet(n%len(j.A)), j.A[n%len(j.A)], what)
		}
	case "iter":
		e := &Env{}
		if a.C < 3 {
			iterText(e, v, a.C)
		}
		walkText(e, v, a.C)
	case "marsh":
		os := [][]O{{{K: "set"}}, nil, {{K: "str"}, {K: "omit", B: true}}}[a.C%3]
		b, err := v.Marshal(libOpts(os)...)
		if t := (&oState{}).apply(os).check(j, b, err); t != "" {
			k.fail("result", "%s: %s", what, t)
		}
		for i := range b {
			b[i] = '!'
		}
	}
	k.check("after " + what)
}
