package main

import (
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
	sync "verif.local/sim/simsync"
)

// C10: documents shared under a read-write lock. The reference tree is changed
// inside the same critical sections, so the order of the operations is the
// order in which the simulated lock was taken.

func init() {
	register(&propDef{id: "C10", race: true, plain: true, gen: genC10, exec: execC10,
		rule: "a case is 1-2 documents, each under a read-write lock, and 2-4 clients making 3-20 operations each (every kind of change and read, path form, Must form, caseless access, members held across operations, automatic creation, negative indexes, failing paths) under one seeded schedule; every result is compared with a plain tree changed in lock order, and content and member order with it after writes and at the end. Non-trivial: at least two clients changed a document and at least 4 changes succeeded",
		real: stdReal, stub: append(append([]string{}, stdStub...), "the clients' sync.RWMutex")})
}

func genC10(r *R, c *Case, tier string) {
	keys := pickKeys(r)
	if r.P(15) {
		keys = keysCase
	}
	g := &genCfg{keys: keys, width: r.In(1, 4), odd: r.P(40), big: 200, huge: 900, most: 2100}
	if r.P(60) {
		u := 0
		g.uniq = &u
	}
	c.Kind = "shared documents"
	nd := r.Pick(1, 1, 1, 2)
	cur := make([]*J, nd)
	for i := range cur {
		cur[i] = g.container(r, r.In(0, 3))
		if r.P(15) {
			cur[i] = jObj()
		}
		if r.N(60) == 0 {
			cur[i] = g.same(r, r.Pick(1, 1, 1, 2), edgeSize(r, 1200)+r.N(300))
		}
		c.Texts = append(c.Texts, cur[i].text(r.style()))
	}
	nc := r.In(2, 4)
	ln := r.In(3, 10)
	if tier == "thorough" {
		ln = r.In(3, 25)
	}
	c.Ops = make([][]*TOp, nc)
	bad := r.Pick(0, 10, 25)
	kinds := r.Str([]string{"wsr", "wsrc", "wsrc", "w", "wr"})
	for k := 0; k < ln*nc; k++ {
		i := r.N(nc)
		d := r.N(nd)
		o := g.genTOp(r, cur[d], kinds, bad)
		m := cur[d].clone()
		if res := o.tryModel(m); res.E == "" {
			cur[d] = m
		}
		a := Act{A: i, B: d, C: len(c.Ops[i])}
		switch {
		case r.P(10):
			a.K = "hold" // the next operation works on a member held from here on
			a.C = r.N(3)
			p, ok := g.anyContainer(r, cur[d])
			if !ok {
				continue
			}
			o = &TOp{K: "get", P: Path{E: p}}
			a.C = len(c.Ops[i])
		case r.P(12):
			a.K = "held"
		case o.K == "range" && r.P(50):
			a.K = "iter"
		default:
			a.K = "op"
		}
		c.Ops[i] = append(c.Ops[i], o)
		c.Acts = append(c.Acts, a)
	}
	genSim(r, c)
}

// anyContainer finds a member that has members.
func (g *genCfg) anyContainer(r *R, j *J) ([]Elem, bool) {
	var found [][]Elem
	var walk func(x *J, p []Elem)
	walk = func(x *J, p []Elem) {
		if len(p) > 0 && (x.T == 'a' || x.T == 'o') {
			found = append(found, append([]Elem{}, p...))
		}
		for i, y := range x.A {
			walk(y, append(p[:len(p):len(p)], iE(i)))
		}
		for _, k := range x.K {
			walk(x.M[k], append(p[:len(p):len(p)], sE(k)))
		}
	}
	walk(j, nil)
	if len(found) == 0 {
		return nil, false
	}
	return found[r.N(len(found))], true
}

type c10Doc struct {
	mu sync.RWMutex
	v  *jsonvalue.V
	j  *J
}

type c10Client struct {
	viol   *Viol
	writes int
	reads  int
	holds  int
	errs   int
}

func (k *c10Client) fail(class, f string, a ...interface{}) {
	if k.viol == nil {
		k.viol = &Viol{class, fmt.Sprintf(f, a...)}
	}
}

func execC10(c *Case, o *Outcome) {
	simrt.ResetAll()
	nc := len(c.Ops)
	if nc == 0 || len(c.Texts) == 0 {
		return
	}
	docs := make([]*c10Doc, len(c.Texts))
	soloOf(c, o, 0, 1, func() {
		for i, t := range c.Texts {
			j, err := parseJSON(t)
			if err != nil {
				panic(err)
			}
			v, err := parseBy(i%3, t)
			if err != nil {
				o.fail("content", "a valid document was refused: %v", err)
				return
			}
			docs[i] = &c10Doc{v: v, j: j}
		}
	})
	if o.Viol != nil {
		return
	}
	ks := make([]*c10Client, nc)
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		k := &c10Client{}
		ks[i] = k
		clients[i] = func() {
			type ref struct {
				v *jsonvalue.V
				j *J
				d int
			}
			var held *ref
			for n, a := range c.Acts {
				if a.A != i || a.C >= len(c.Ops[i]) || k.viol != nil {
					continue
				}
				op := c.Ops[i][a.C]
				di := a.B % len(docs)
				if a.K == "held" && held != nil {
					di = held.d
				}
				d := docs[di]
				lock, unlock := d.mu.RLock, d.mu.RUnlock
				if op.write() {
					lock, unlock = d.mu.Lock, d.mu.Unlock
				}
				lock()
				v, j := d.v, d.j
				if a.K == "held" && held != nil {
					v, j = held.v, held.j
					k.holds++
				}
				t := guard(func() {
					k.step(n, a, op, v, j)
					if op.write() && k.viol == nil {
						if got, want := vtext(d.v), d.j.canon(true); got != want {
							k.fail("content", "after act %d of client %d, %s, the document is %s, expected %s", n, i, op, clip(got, 500), clip(want, 500))
						}
					}
					if a.K == "hold" && k.viol == nil {
						if x, err := jGet(d.j, op.P.E); err == "" && len(op.P.E) > 0 {
							args := op.P.all()
							if y, err := d.v.Get(args[0], args[1:]...); err == nil {
								held = &ref{y, x, di}
							}
						}
					}
				})
				unlock()
				if t != "" {
					k.fail("panic", "client %d, act %d %s: %s", i, n, op, t)
				}
			}
		}
	}
	o.sim(c.Cfg, true, clients)
	writers, writes, reads := 0, 0, 0
	for i, k := range ks {
		if k.viol != nil {
			o.fail(k.viol.Class, "client %d: %s", i, k.viol.Msg)
		}
		if k.writes > 0 {
			writers++
		}
		writes += k.writes
		reads += k.reads
		if k.holds > 0 {
			o.probe("held member used")
		}
		if k.errs > 0 {
			o.faultN("failing-operation", int64(k.errs))
		}
	}
	if o.Viol != nil {
		return
	}
	soloOf(c, o, 0, 1, func() {
		for i, d := range docs {
			want := d.j.canon(true)
			if got := vtext(d.v); got != want {
				o.fail("content", "document %d is %s at the end, expected %s", i, clip(got, 600), clip(want, 600))
			}
			if got, w := snapshot(d.v), snapModel(d.j); got != w {
				o.fail("content", "document %d marshals to %s at the end, expected %s", i, clip(got, 600), clip(w, 600))
			}
			w, err := jsonvalue.UnmarshalString(d.j.text(0))
			if err != nil || !w.Equal(d.v) || !d.v.Equal(w) {
				o.fail("content", "document %d is not Equal() to a parse of %s", i, clip(want, 600))
			}
			o.digest(want)
		}
	})
	o.done(writers >= 2 && writes >= 4, c)
}

// step makes one operation on the document (or a held member) and on the tree.
func (k *c10Client) step(n int, a Act, op *TOp, v *jsonvalue.V, j *J) {
	if a.K == "iter" {
		x, e := jGet(j, op.P.E)
		args := op.P.all()
		if e != "" || len(args) == 0 || op.P.F >= formExtra {
			return
		}
		y, err := v.Get(args[0], args[1:]...)
		if err != nil {
			k.fail("result", "act %d Get%s: %v, expected %s", n, op.P.String(), err, clip(x.canon(true), 300))
			return
		}
		k.reads++
		c10Iterate(k, n, y, x)
		return
	}
	var m *J
	if op.write() {
		// the tree is changed in place only when the change succeeds
		m = j.clone()
	} else {
		m = j
	}
	want := op.tryModel(m)
	if want.E == skipRes {
		return
	}
	got := op.lib(v)
	if !op.agree(want, got) {
		k.fail("result", "act %d %s returned %s, expected %s (document %s)", n, op, clip(got.String(), 400), clip(want.String(), 400), clip(j.canon(true), 400))
		return
	}
	if want.E != "" {
		k.errs++
		return
	}
	if !op.write() {
		k.reads++
		return
	}
	op.tryModel(j)
	if op.K != "cget" {
		k.writes++
	} else {
		k.reads++
	}
}

// c10Iterate reads a value in every way of walking over it.
func c10Iterate(k *c10Client, n int, v *jsonvalue.V, j *J) {
	e := &Env{}
	var want []string
	switch j.T {
	case 'o':
		for _, key := range j.K {
			want = append(want, key+"="+j.M[key].canon(true))
		}
	case 'a':
		for i, x := range j.A {
			want = append(want, fmt.Sprintf("%d=%s", i, x.canon(true)))
		}
	}
	w := strings.Join(want, ";")
	show := func(name, got, want string) {
		if got != want {
			k.fail("result", "act %d %s gives %s, expected %s", n, name, clip(got, 400), clip(want, 400))
		}
	}
	ws := strings.Join(sortedStrings(want), ";")
	if j.T == 'o' {
		show("RangeObjectsBySetSequence", walkText(e, v, 2), w)
		show("RangeObjects", walkText(e, v, 0), ws)
		show("ForRangeObj", walkText(e, v, 3), ws)
		show("IterObjects", iterText(e, v, 0), ws)
		return
	}
	show("RangeObjects", walkText(e, v, 0), "")
	if j.T == 'a' {
		show("RangeArray", walkText(e, v, 1), w)
		show("ForRangeArr", walkText(e, v, 4), w)
		show("IterArray", iterText(e, v, 1), w)
	}
}
