package main

import (
	"fmt"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
)

// C12: case-insensitive access. Documents whose keys differ by case live through
// histories of case-sensitive and caseless operations on every level; the
// reference is the set of outcomes some choice among equal candidates gives.

func init() {
	register(&propDef{id: "C12", race: false, plain: true, gen: genC12, exec: execC12,
		rule: "a case is 1-3 clients with a document each, whose keys differ only by case with high probability, making 4-30 case-sensitive and caseless operations (every getter, Get, Delete, Must forms, kept Caseless handles, on the root and on members, and on copies) with hash maps yielding members in seeded orders, under one seeded schedule; every outcome and resulting document must be one that some choice among the candidates gives. Non-trivial: at least 3 caseless operations were made after a change and one had to look beyond the exact key",
		real: stdReal, stub: stdStub})
}

var keysCase2 = []string{"key", "Key", "KEY", "kEY", "a", "A"}

func genC12(r *R, c *Case, tier string) {
	c.Kind = "caseless"
	nc := r.Pick(1, 1, 2, 3)
	c.N = []int{nc}
	keys := keysCase
	if r.P(40) {
		keys = keysCase2
	}
	for i := 0; i < nc; i++ {
		g := &genCfg{keys: keys, width: r.In(2, 6), big: 100, huge: 900}
		if r.P(60) {
			u := 0
			g.uniq = &u
		}
		j := g.object(r, r.In(1, 3))
		if r.P(15) {
			j = g.container(r, 2)
		}
		if r.N(900) == 0 {
			j = g.hugeDoc(r)
		}
		c.Texts = append(c.Texts, j.text(r.style()))
		var ops []*TOp
		ln := r.In(4, 14)
		if tier == "thorough" {
			ln = r.In(4, 40)
		}
		for k := 0; k < ln; k++ {
			a := Act{A: i, C: len(ops)}
			var t *TOp
			switch r.W(30, 45, 6, 8, 5) {
			case 0:
				a.K = "op"
				t = g.genTOp(r, j, "wr", 8)
				if r.P(30) && len(j.K) > 0 {
					// exactly an existing key, or a variant of one
					k := j.K[r.N(len(j.K))]
					if r.P(40) {
						k = flipCase(r, k)
					}
					t.P = Path{E: []Elem{sE(k)}}
				}
			case 1:
				a.K = "op"
				t = g.genTOp(r, j, "c", 8)
				if r.P(25) {
					t.N |= 64 // through a kept handle
				}
			case 2:
				a.K = "copy"
				a.B = r.N(4)
			case 3:
				a.K = "getters"
				t = g.genTOp(r, j, "c", 0)
				t.K = "cget"
			default:
				// work on a member: its own index is used
				a.K = "sub"
				t = g.genTOp(r, j, "c", 0)
				a.B = r.N(100)
			}
			if t != nil {
				t.N &^= atSet
				ops = append(ops, t)
				if t.K != "cget" && t.K != "cdel" {
					m := j.clone()
					if res := t.tryModel(m); res.E == "" {
						j = m
					}
				} else if o := caselessAll(j, t.P.E, t.K == "cdel"); len(o) > 0 && o[0].err == "" && t.K == "cdel" && a.K == "op" {
					j = o[0].tree
				}
			}
			c.Acts = append(c.Acts, a)
		}
		c.Ops = append(c.Ops, ops)
	}
	genSim(r, c)
}

// cOut is one admissible outcome of a caseless operation.
type cOut struct {
	err  string
	val  *J
	tree *J
}

// caselessAll lists the outcomes of a caseless Get or Delete over all choices.
func caselessAll(root *J, es []Elem, del bool) []cOut {
	var out []cOut
	var walk func(j *J, i int, path []Elem)
	walk = func(j *J, i int, path []Elem) {
		if i == len(es) {
			if !del {
				out = append(out, cOut{val: j})
				return
			}
			t := root.clone()
			p, _ := jGet(t, path[:len(path)-1])
			last := path[len(path)-1]
			if p.T == 'o' {
				p.del(last.S)
			} else {
				k, _ := last.pos(len(p.A))
				p.A = append(append([]*J{}, p.A[:k]...), p.A[k+1:]...)
			}
			out = append(out, cOut{tree: t})
			return
		}
		e := es[i]
		next := append(path[:len(path):len(path)], e)
		if j.T == 'o' && e.isStr() {
			cs := caseCandidates(j, e.S)
			if len(cs) == 0 {
				out = append(out, cOut{err: "NotFound"})
			}
			for _, k := range cs {
				next[len(next)-1] = sE(k)
				walk(j.M[k], i+1, append([]Elem{}, next...))
			}
			return
		}
		x, err := jGet(j, []Elem{e})
		if err != "" {
			out = append(out, cOut{err: err})
			return
		}
		walk(x, i+1, next)
	}
	walk(root, 0, nil)
	return out
}

type c12Client struct {
	viol    *Viol
	v       *jsonvalue.V
	j       *J
	handle  jsonvalue.Caseless
	changed bool
	caseN   int
	beyond  int
	choice  int
	log     []string
}

func (k *c12Client) fail(class, f string, a ...interface{}) {
	if k.viol == nil {
		k.viol = &Viol{class, fmt.Sprintf(f, a...) + "\n  operations before: " + clip(strings.Join(k.log, "; "), 1500)}
	}
}

func showOuts(outs []cOut) string {
	var s []string
	for _, x := range outs {
		switch {
		case x.err != "":
			s = append(s, "error "+x.err)
		case x.val != nil:
			s = append(s, x.val.canon(true))
		default:
			s = append(s, "document "+x.tree.canon(true))
		}
	}
	sort.Strings(s)
	return clip(strings.Join(s, " | "), 700)
}

// caseless makes one caseless operation.
func (k *c12Client) caseless(what string, t *TOp, v *jsonvalue.V, j *J, root bool) {
	args := t.P.all()
	if len(args) == 0 || t.P.F >= formExtra || len(t.P.E) == 0 {
		return
	}
	del := t.K == "cdel"
	outs := caselessAll(j, t.P.E, del)
	before := j.canon(true)
	c := v.Caseless()
	if root {
		if t.N&64 != 0 && k.handle != nil {
			c = k.handle
		} else {
			k.handle = c
		}
	}
	p, ps := split(args)
	exact := false
	if _, e := jGet(j, t.P.E); e == "" {
		exact = true
	}
	k.caseN++
	if !exact && len(outs) > 0 && outs[0].err == "" {
		k.beyond++
	}
	if len(outs) > 1 {
		k.choice++
	}
	if del {
		err := ""
		if t.N&must != 0 {
			c.MustDelete(p, ps...)
			err = "must"
		} else {
			err = errClass(c.Delete(p, ps...))
		}
		after := vtext(v)
		for _, x := range outs {
			if x.err != "" && (err == "must" || errMatch(x.err, err)) && after == before {
				return
			}
			if x.err == "" && (err == "must" || err == "") && after == x.tree.canon(true) {
				*j = *x.tree
				return
			}
		}
		k.fail("delete", "%s: error %q, document %s afterwards; admissible: %s", what, err, clip(after, 500), showOuts(outs))
		return
	}
	match := func(name string, x *jsonvalue.V, err error) {
		if err != nil || x == nil {
			if x == nil {
				k.fail("get", "%s: %s returned nil", what, name)
				return
			}
			for _, y := range outs {
				if y.err != "" && errMatch(y.err, errClass(err)) && notExist(x) == "" {
					return
				}
			}
			k.fail("get", "%s: %s returned error %s %s; admissible: %s", what, name, errClass(err), notExist(x), showOuts(outs))
			return
		}
		got := vtext(x)
		for _, y := range outs {
			if y.err == "" && y.val.canon(true) == got {
				return
			}
		}
		k.fail("get", "%s: %s returned %s; admissible: %s", what, name, clip(got, 300), showOuts(outs))
	}
	x, err := c.Get(p, ps...)
	match("Get", x, err)
	y := c.MustGet(p, ps...)
	if y != nil && y.ValueType() == jsonvalue.NotExist {
		ok := false
		for _, z := range outs {
			ok = ok || z.err != ""
		}
		if !ok {
			k.fail("get", "%s: MustGet returned nothing; admissible: %s", what, showOuts(outs))
		}
	} else {
		match("MustGet", y, nil)
	}
	if got := vtext(v); got != before {
		k.fail("content", "%s changed the document from %s to %s", what, clip(before, 400), clip(got, 400))
	}
}

// getters calls every typed caseless getter.
func (k *c12Client) getters(what string, t *TOp) {
	args := t.P.all()
	if len(args) == 0 || t.P.F >= formExtra || len(t.P.E) == 0 {
		return
	}
	outs := caselessAll(k.j, t.P.E, false)
	p, ps := split(args)
	c := k.v.Caseless()
	check := func(name string, typ byte, val string, err error) {
		for _, y := range outs {
			switch {
			case y.err != "":
				if err != nil && errMatch(y.err, errClass(err)) {
					return
				}
			case err == nil && (typ == y.val.T || typ == 'n' && y.val.T == 'n'):
				if val == "" || val == y.val.canon(true) {
					return
				}
			case err != nil && y.val.T != typ:
				return
			}
		}
		k.fail("getter", "%s: %s returned %s, error %v; admissible: %s", what, name, clip(val, 200), err, showOuts(outs))
	}
	s, err := c.GetString(p, ps...)
	check("GetString", 's', jStr(s).canon(true), err)
	b, err := c.GetBool(p, ps...)
	check("GetBool", 't', jBool(b).canon(true), err)
	check("GetNull", 'n', "", c.GetNull(p, ps...))
	x, err := c.GetObject(p, ps...)
	check("GetObject", 'o', vtext(x), err)
	x, err = c.GetArray(p, ps...)
	check("GetArray", 'a', vtext(x), err)
	// numbers: strings with a number are read as well, so only where no
	// candidate is a string
	for _, y := range outs {
		if y.err == "" && y.val.T == 's' {
			return
		}
	}
	number := func(name string, text string, err error) {
		for _, y := range outs {
			if y.err != "" && err != nil && errMatch(y.err, errClass(err)) || y.err == "" && y.val.T != '#' && err != nil {
				return
			}
			if y.err == "" && y.val.T == '#' && err == nil && (text == y.val.S || !isInt(y.val.S)) {
				return
			}
		}
		k.fail("getter", "%s: %s returned %s, error %v; admissible: %s", what, name, text, err, showOuts(outs))
	}
	i, err := c.GetInt64(p, ps...)
	number("GetInt64", fmt.Sprint(i), err)
	n, err := c.GetInt(p, ps...)
	number("GetInt", fmt.Sprint(n), err)
	f, err := c.GetFloat64(p, ps...)
	number("GetFloat64", fmt.Sprintf("%.0f", f), err)
}

func isInt(s string) bool { return strings.Trim(s, "0123456789") == "" && len(s) < 15 }

func execC12(c *Case, o *Outcome) {
	simrt.ResetAll()
	nc := c.NN(0)
	if nc == 0 || len(c.Texts) < nc || len(c.Ops) < nc {
		return
	}
	ks := make([]*c12Client, nc)
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		k := &c12Client{}
		ks[i] = k
		clients[i] = func() {
			if t := guard(func() { c12Run(c, i, k) }); t != "" {
				k.fail("panic", "%s", t)
			}
		}
	}
	o.sim(c.Cfg, true, clients)
	caseN, beyond := 0, 0
	for i, k := range ks {
		if k.viol != nil {
			o.fail(k.viol.Class, "client %d: %s", i, k.viol.Msg)
		}
		caseN += k.caseN
		beyond += k.beyond
		if k.choice > 0 {
			o.probe("several candidates")
		}
		if k.beyond > 0 {
			o.probe("found by another case")
		}
		if k.j != nil {
			o.digest(k.j.canon(false))
		}
	}
	if c.Cfg.MapMode != 0 {
		o.fault("hash-map-order")
	}
	o.done(caseN >= 3 && beyond > 0, c)
}

func c12Run(c *Case, me int, k *c12Client) {
	j, err := parseJSON(c.Texts[me])
	if err != nil {
		panic(err)
	}
	k.j = j
	if k.v, err = parseBy(me%3, c.Texts[me]); err != nil {
		k.fail("content", "a valid document was refused: %v", err)
		return
	}
	for n, a := range c.Acts {
		if a.A != me || k.viol != nil || a.K != "copy" && a.C >= len(c.Ops[me]) {
			continue
		}
		what := fmt.Sprintf("act %d %s", n, a.K)
		var t *TOp
		if a.K != "copy" {
			t = c.Ops[me][a.C]
			what += " " + t.String()
		}
		docText := clip(k.j.canon(true), 300)
		what += " of " + docText
		switch a.K {
		case "op":
			if t.K == "cget" || t.K == "cdel" {
				k.caseless(what, t, k.v, k.j, true)
				break
			}
			m := k.j.clone()
			want := t.tryModel(m)
			if want.E == skipRes {
				continue
			}
			if got := t.lib(k.v); !t.agree(want, got) {
				k.fail("result", "%s returned %s, expected %s", what, clip(got.String(), 300), clip(want.String(), 300))
			}
			if want.E == "" {
				*k.j = *m
				k.changed = true
			}
		case "getters":
			k.getters(what, t)
		case "copy":
			k.handle = nil
			switch a.B {
			case 0:
				k.v, _ = jsonvalue.Import(k.v)
			case 1:
				k.v = jsonvalue.New([]*jsonvalue.V{k.v}).MustGet(0)
			case 2:
				k.v = jsonvalue.MustUnmarshal(k.v.MustMarshal(jsonvalue.OptSetSequence()))
			default:
				w := jsonvalue.NewObject()
				w.MustSet(k.v).At("w")
				k.v = w.MustGet("w")
			}
		case "sub":
			// a member of a known exact path
			p := t.P.E
			cut := 1 + a.B%len(p)
			x, e := jGet(k.j, p[:cut])
			if e != "" || cut == len(p) {
				continue
			}
			args := (&Path{E: p[:cut]}).all()
			y, err := k.v.Get(args[0], args[1:]...)
			if err != nil {
				k.fail("result", "%s: Get%s: %v", what, (&Path{E: p[:cut]}).String(), err)
				break
			}
			k.caseless(what, &TOp{K: t.K, P: Path{E: p[cut:]}, N: t.N}, y, x, false)
		}
		if k.viol == nil {
			if got, want := vtext(k.v), k.j.canon(true); got != want {
				k.fail("content", "after %s the document is %s, expected %s", what, clip(got, 400), clip(want, 400))
			}
		}
		k.log = append(k.log, what)
	}
}
