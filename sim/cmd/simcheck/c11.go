package main

import (
	"encoding/json"
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
)

// C11: member order. The simulator yields the members of hash maps in seeded and
// adversarial orders; documents with long histories are marshaled under every
// order option.

func init() {
	register(&propDef{id: "C11", race: false, plain: true, gen: genC11, exec: execC11,
		rule: "a case is 1-3 clients with a document each (parsed, imported, edited by 0-20 operations, copied), marshaling it whole and in part by every marshal form under 2-10 option lists and defaults, each several times, with hash maps yielding members shuffled, sorted, reversed or rotated, under one seeded schedule; the exact member order at every depth is compared with a reference tree, repeated calls byte by byte, RangeObjectsBySetSequence with the set order. Non-trivial: an object with at least 2 members was marshaled under an order option",
		real: stdReal, stub: stdStub})
}

func genC11(r *R, c *Case, tier string) {
	keys := pickKeys(r)
	if r.P(10) {
		keys = keysCase
	}
	c.Kind = "orders"
	nc := r.Pick(1, 1, 2, 3)
	defaults := 0
	if nc == 1 && r.P(50) {
		defaults = 1
		c.Kind = "orders with defaults"
	}
	c.N = []int{nc, defaults}
	for i := 0; i < nc; i++ {
		g := &genCfg{keys: keys, width: r.In(1, 6), odd: r.P(40), big: 300, huge: 700}
		j := g.container(r, r.In(1, 3))
		if r.P(15) {
			// many members
			j = jObj()
			for n := r.In(5, 40); n > 0; n-- {
				j.set(fmt.Sprint("k", r.N(60)), []*J{jInt(n), jNull(), g.tree(r, 1)}[r.N(3)])
			}
			g.keys = append(append([]string{}, keys...), "k1", "k2", "k3", "k40")
		}
		c.Texts = append(c.Texts, j.text(r.style()))
		if r.P(4) || r.N(400) == 0 {
			// an object with a long history: one member set again and again
			n := 256
			if r.N(8) == 0 {
				n = 65536
			}
			c.Acts = append(c.Acts, Act{K: "burst", A: i, B: n - r.In(0, 9), S: r.Str(g.keys)})
			c.Kind = "long histories"
		}
		var ops []*TOp
		ln := r.In(2, 14)
		if tier == "thorough" {
			ln = r.In(2, 40)
		}
		for k := 0; k < ln; k++ {
			a := Act{A: i}
			switch r.W(45, 35, 6, 6, 8) {
			case 0:
				a.K = "op"
				a.C = len(ops)
				t := g.genTOp(r, j, "ws", 5)
				ops = append(ops, t)
				m := j.clone()
				if res := t.tryModel(m); res.E == "" {
					j = m
				}
			case 1:
				a.K = "marsh"
				a.B = r.N(6)
				a.C = len(c.Opts)
				c.Opts = append(c.Opts, genOpts(r, g.keys, 2-r.Pick(0, 0, 0, 1), false))
			case 2:
				a.K = "copy"
				a.B = r.N(6)
			case 3:
				a.K = "range"
			default:
				if defaults == 0 {
					continue
				}
				a.K = "default"
				a.C = len(c.Opts)
				c.Opts = append(c.Opts, genOpts(r, g.keys, 1, false))
				a.B = r.N(4)
			}
			c.Acts = append(c.Acts, a)
		}
		c.Acts = append(c.Acts, Act{K: "marsh", A: i, C: len(c.Opts)}, Act{K: "range", A: i})
		c.Opts = append(c.Opts, genOpts(r, g.keys, 2, false))
		c.Ops = append(c.Ops, ops)
	}
	genSim(r, c)
	if c.Kind == "long histories" {
		c.Cfg.MaxSteps = 10 * defaultMaxSteps
	}
}

type c11Client struct {
	viol *Viol
	big  int
	text []string
}

func (k *c11Client) fail(class, f string, a ...interface{}) {
	if k.viol == nil {
		k.viol = &Viol{class, fmt.Sprintf(f, a...)}
	}
}

func maxObj(j *J) int {
	n := len(j.K)
	for _, x := range j.A {
		if m := maxObj(x); m > n {
			n = m
		}
	}
	for _, x := range j.M {
		if m := maxObj(x); m > n {
			n = m
		}
	}
	return n
}

// checkSeq walks a value with RangeObjectsBySetSequence.
func (k *c11Client) checkSeq(what string, v *jsonvalue.V, j *J) {
	switch j.T {
	case 'o':
		var got []string
		var vs []*jsonvalue.V
		v.RangeObjectsBySetSequence(func(key string, x *jsonvalue.V) bool {
			got = append(got, key)
			vs = append(vs, x)
			return true
		})
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", append([]string(nil), j.K...)) {
			k.fail("range", "%s: RangeObjectsBySetSequence visits %.400q, set order is %.400q", what, got, j.K)
			return
		}
		n := 0
		v.RangeObjectsBySetSequence(func(key string, x *jsonvalue.V) bool { n++; return n < 2 })
		if w := len(j.K); n != w && !(w > 2 && n == 2) {
			k.fail("range", "%s: RangeObjectsBySetSequence told to stop after 2 of %d members visited %d", what, w, n)
		}
		for i, key := range got {
			k.checkSeq(what, vs[i], j.M[key])
		}
	case 'a':
		for i, x := range v.ForRangeArr() {
			k.checkSeq(what, x, j.A[i])
		}
	}
}

// marsh marshals by one of the forms, twice, and compares.
func (k *c11Client) marsh(what string, v *jsonvalue.V, j *J, how int, os, def []O) {
	all := append(append([]O{}, def...), os...)
	if how == 3 || how == 4 || how == 5 {
		all = def
		os = nil
	}
	st := (&oState{}).apply(all)
	var first []byte
	for n := 0; n < 2; n++ {
		var b []byte
		var err error
		switch how {
		case 1:
			var s string
			s, err = v.MarshalString(libOpts(os)...)
			b = []byte(s)
		case 2:
			b = v.MustMarshal(libOpts(os)...)
		case 3:
			b, err = v.MarshalJSON()
		case 4:
			b, err = v.MarshalBinary()
		case 5:
			b, err = json.Marshal(v)
		default:
			b, err = v.Marshal(libOpts(os)...)
		}
		if t := st.check(j, b, err); t != "" {
			k.fail("order", "%s, form %d, options %s, defaults %s: %s", what, how, showO(os), showO(def), t)
			return
		}
		if st.order == "" {
			continue
		}
		if n == 0 {
			first = b
		} else if string(first) != string(b) {
			k.fail("repeat", "%s, form %d, options %s: two calls gave %.400q and %.400q", what, how, showO(os), first, b)
		}
	}
	if st.order != "" && maxObj(j) >= 2 {
		k.big++
	}
	k.text = append(k.text, string(first))
}

func execC11(c *Case, o *Outcome) {
	simrt.ResetAll()
	nc := c.NN(0)
	if nc == 0 || len(c.Texts) < nc {
		return
	}
	ks := make([]*c11Client, nc)
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		ks[i] = &c11Client{}
		clients[i] = func() {
			n := 0
			if t := guard(func() { c11Run(c, i, ks[i], &n) }); t != "" {
				ks[i].fail("panic", "act %d: %s", n, t)
			}
		}
	}
	o.sim(c.Cfg, true, clients)
	big := 0
	for i, k := range ks {
		if k.viol != nil {
			o.fail(k.viol.Class, "client %d: %s", i, k.viol.Msg)
		}
		big += k.big
		o.digest(strings.Join(k.text, "\n"))
	}
	if c.Cfg.MapMode != 0 {
		o.fault("hash-map-order")
	}
	o.done(big > 0, c)
}

func c11Run(c *Case, me int, k *c11Client, at *int) {
	j, err := parseJSON(c.Texts[me])
	if err != nil {
		panic(err)
	}
	v, err := parseBy(me%3, c.Texts[me])
	if err != nil {
		k.fail("content", "a valid document was refused: %v", err)
		return
	}
	var def []O
	for n, a := range c.Acts {
		if a.A != me || k.viol != nil {
			continue
		}
		*at = n
		what := fmt.Sprintf("act %d, document %s", n, clip(j.canon(true), 300))
		switch a.K {
		case "op":
			if me >= len(c.Ops) || a.C >= len(c.Ops[me]) {
				continue
			}
			op := c.Ops[me][a.C]
			m := j.clone()
			want := op.tryModel(m)
			if want.E == skipRes {
				continue
			}
			if got := op.lib(v); !op.agree(want, got) {
				k.fail("result", "act %d %s returned %s, expected %s", n, op, clip(got.String(), 300), clip(want.String(), 300))
				return
			}
			if want.E == "" {
				j = m
			}
		case "marsh":
			if a.C >= len(c.Opts) {
				continue
			}
			x, y := v, j
			if a.B == 5 && len(j.K) > 0 {
				// a member on its own
				key := j.K[len(j.K)/2]
				x, y = v.MustGet(key), j.M[key]
			}
			for how := 0; how < 6; how++ {
				if how != a.B && how != 0 && how != 3 {
					continue
				}
				k.marsh(what, x, y, how, c.Opts[a.C], def)
			}
		case "burst":
			if j.T != 'o' {
				continue
			}
			for n := 0; n < a.B; n++ {
				if _, err := v.SetInt(n).At(a.S); err != nil {
					k.fail("result", "Set %d of member %q failed: %v", n, a.S, err)
					return
				}
			}
			j.set(a.S, jInt(a.B-1))
			for n, key := range []string{"burst-a", "burst-b", a.S, "burst-c"} {
				v.MustSet(n).At(key)
				j.set(key, jInt(n))
			}
		case "copy":
			switch a.B {
			case 0:
				v, _ = jsonvalue.Import(v)
			case 1:
				v = jsonvalue.New(v)
			case 2:
				v = jsonvalue.New(map[string]interface{}{"c": v}).MustGet("c")
			case 3:
				v = jsonvalue.New([]interface{}{v}).MustGet(0)
			case 4:
				v = jsonvalue.MustUnmarshal(v.MustMarshal(jsonvalue.Opt{}, jsonvalue.OptSetSequence()))
			default:
				w := jsonvalue.NewArray()
				w.MustAppend(v).InTheEnd()
				v = jsonvalue.New(w).MustGet(0)
			}
		case "range":
			k.checkSeq(what, v, j)
		case "default":
			if c.NN(1) == 0 || a.C >= len(c.Opts) {
				continue
			}
			if a.B == 0 {
				jsonvalue.ResetDefaultMarshalOptions()
				def = nil
			} else {
				jsonvalue.SetDefaultMarshalOptions(libOpts(c.Opts[a.C])...)
				def = c.Opts[a.C]
			}
		}
	}
}
