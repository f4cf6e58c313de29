package main

import (
	"encoding/json"
	"errors"
	"fmt"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
)

// C14: Marshal gives one complete text or an error. Members that cannot be
// marshaled are placed in documents at any depth, less-functions panic, and the
// calls after a failure must give the bytes they give in a fresh process.

func init() {
	register(&propDef{id: "C14", race: true, plain: true, gen: genC14, exec: execC14,
		rule: "a case is 1-3 clients marshaling 1-3 shared documents and one own document each (edited between the calls) by seven marshal forms under 1-5 option lists and maybe default options, with NaN, infinite and uninitialised members placed at seeded positions of the documents, healed again, and less-functions panicking at their nth call, under one seeded schedule; each result is compared with the reference tree and options, then byte by byte with the same call alone in a fresh process state, and all results kept are compared again at the end. Non-trivial: a call failed or panicked and a later one succeeded",
		real: stdReal, stub: stdStub})
}

const c14Forms = 7

func genC14(r *R, c *Case, tier string) {
	c.Kind = "failing members"
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 4), odd: r.P(60), big: 200, huge: 900}
	nc, nd := r.In(1, 3), r.In(1, 3)
	for i := 0; i < nd+nc; i++ {
		var j *J
		switch r.W(80, 10, 10) {
		case 0:
			j = g.container(r, r.In(1, 4))
		case 1:
			j = g.scalar(r)
		default:
			// deep
			j = g.container(r, 1)
			for n := r.In(3, 20); n > 0; n-- {
				if r.P(50) {
					j = jArr(jInt(n), j)
				} else {
					o := jObj()
					o.set(r.Str(g.keys), j)
					if r.P(50) {
						o.set(r.Str(g.keys), jNull())
					}
					j = o
				}
			}
		}
		c.Texts = append(c.Texts, j.text(r.style()))
	}
	for n := r.In(1, 5); n > 0; n-- {
		os := genOpts(r, g.keys, 1, r.P(60))
		if r.P(15) {
			os = append(os, O{K: []string{"nanbad", "infbad"}[r.N(2)]})
		}
		c.Opts = append(c.Opts, os)
	}
	def := 0
	if r.P(40) {
		def = 1 + r.N(len(c.Opts))
	}
	c.N = []int{nc, nd, def}
	kind := func() string {
		return r.Str([]string{"NaN", "NaN", "+Inf", "-Inf", "none", "none", "set NaN", "set +Inf"})
	}
	for d := 0; d < nd; d++ {
		for n := r.Pick(0, 0, 1, 1, 2, 4); n > 0; n-- {
			c.Acts = append(c.Acts, Act{K: "bad", A: -1, B: d, C: r.N(1000), S: kind()})
		}
	}
	ln := r.In(3, 10)
	if tier == "thorough" {
		ln = r.In(3, 24)
	}
	for i := 0; i < nc; i++ {
		var ops []*TOp
		for k := 0; k < ln; k++ {
			a := Act{A: i, B: r.N(nd)}
			if r.P(60) {
				a.B = -1 // the own document
			}
			switch r.W(50, 15, 10, 10, 15, 15) {
			case 5:
				a.K, a.C = "touch", r.N(touchKinds)
			case 0:
				a.K, a.C, a.S = "marsh", r.N(c14Forms), fmt.Sprint(r.N(len(c.Opts)+1))
			case 1:
				a.K, a.B, a.C, a.S = "bad", -1, r.N(1000), kind()
			case 2:
				a.K, a.B, a.C, a.S = "heal", -1, r.N(1000), r.Str([]string{"1", `"x"`, "null", "{}", "[]", `{"h":[1,"2"]}`})
			case 3:
				a.K, a.B, a.C = "op", -1, len(ops)
				j, _ := parseJSON(c.Texts[nd+i])
				ops = append(ops, g.genTOp(r, j, "ws", 10))
			default:
				a.K, a.C, a.S = "panic", r.Pick(1, 1, 2, 3, 5, 9, 30), fmt.Sprint(r.N(len(c.Opts)+1))
			}
			c.Acts = append(c.Acts, a)
		}
		c.Acts = append(c.Acts, Act{K: "marsh", A: i, B: r.N(nd), C: r.N(c14Forms), S: fmt.Sprint(r.N(len(c.Opts) + 1))})
		c.Ops = append(c.Ops, ops)
	}
	genSim(r, c)
}

// pathOf is the path of the nth node in preorder.
func pathOf(j *J, n int) []Elem {
	n %= j.size()
	var path []Elem
	var walk func(x *J) bool
	walk = func(x *J) bool {
		if n == 0 {
			return true
		}
		n--
		for i, y := range x.A {
			path = append(path, iE(i))
			if walk(y) {
				return true
			}
			path = path[:len(path)-1]
		}
		for _, k := range x.K {
			path = append(path, sE(k))
			if walk(x.M[k]) {
				return true
			}
			path = path[:len(path)-1]
		}
		return false
	}
	walk(j)
	return path
}

// at walks to a member of a library value.
func at(v *jsonvalue.V, es []Elem) *jsonvalue.V {
	for _, e := range es {
		if e.isInt() {
			v = v.ForRangeArr()[e.I]
		} else {
			v = v.ForRangeObj()[e.S]
		}
	}
	return v
}

// replace gives the member of a tree and of a library value another content.
func replaceAt(j *J, v *jsonvalue.V, n int, text string) {
	bySet := false
	if len(text) > 4 && text[:4] == "set " {
		text, bySet = text[4:], true
	}
	es := pathOf(j, n)
	x := &Val{T: text}
	if bySet && len(es) > 0 {
		last := es[len(es)-1]
		parent := at(v, es[:len(es)-1])
		if _, err := parent.Set(x.lib()).At(last.any()); err != nil {
			panic(fmt.Sprintf("Set of a member that exists: %v", err))
		}
		jSet(j, es, x.model())
		return
	} else {
		*at(v, es) = *x.v()
	}
	t := j
	for _, e := range es {
		if e.isInt() {
			t = t.A[e.I]
		} else {
			t = t.M[e.S]
		}
	}
	*t = *x.model()
}

func hasNone(j *J) bool {
	if j.T == 'x' {
		return true
	}
	for _, x := range j.A {
		if hasNone(x) {
			return true
		}
	}
	for _, x := range j.M {
		if hasNone(x) {
			return true
		}
	}
	return false
}

// buildV builds a library value from a tree.
func buildV(j *J) *jsonvalue.V {
	switch j.T {
	case 'n':
		return jsonvalue.NewNull()
	case 't':
		return jsonvalue.NewBool(j.B)
	case 's':
		return jsonvalue.NewString(j.S)
	case '#':
		return jsonvalue.MustUnmarshalString(j.S)
	case 'f':
		return jsonvalue.NewFloat64(j.F)
	case 'a':
		v := jsonvalue.NewArray()
		for i, x := range j.A {
			if x.T == 'x' {
				v.MustAppend(1).InTheEnd()
				*v.ForRangeArr()[i] = jsonvalue.V{}
				continue
			}
			v.MustAppend(buildV(x)).InTheEnd()
		}
		return v
	case 'o':
		v := jsonvalue.NewObject()
		for _, k := range j.K {
			if j.M[k].T == 'x' {
				v.MustSet(1).At(k)
				*v.ForRangeObj()[k] = jsonvalue.V{}
				continue
			}
			v.MustSet(buildV(j.M[k])).At(k)
		}
		return v
	}
	return &jsonvalue.V{}
}

var errNoOutput = errors.New("(a Must form returned nothing)")

// c14Call makes one marshal call.
func c14Call(v *jsonvalue.V, how int, opts []jsonvalue.Option) ([]byte, error) {
	switch how {
	case 1:
		s, err := v.MarshalString(opts...)
		return []byte(s), err
	case 2:
		b := v.MustMarshal(opts...)
		if len(b) == 0 {
			return nil, errNoOutput
		}
		return b, nil
	case 3:
		s := v.MustMarshalString(opts...)
		if s == "" {
			return nil, errNoOutput
		}
		return []byte(s), nil
	case 4:
		return v.MarshalJSON()
	case 5:
		return v.MarshalBinary()
	case 6:
		return json.Marshal(v)
	}
	return v.Marshal(opts...)
}

// c14Opts are the options in force for a call.
func c14Opts(c *Case, how int, s string) (call, all []O) {
	if d := c.NN(2); d > 0 && d <= len(c.Opts) {
		all = append(all, c.Opts[d-1]...)
	}
	if how == 4 || how == 5 || how == 6 {
		return nil, all
	}
	n := 0
	fmt.Sscan(s, &n)
	if n > 0 && n <= len(c.Opts) {
		call = c.Opts[n-1]
	}
	return call, append(all, call...)
}

type c14Done struct {
	what string
	j    *J
	how  int
	s    string
	b    []byte // as returned
	out  c03Out
	nth  int // of a panicking less-function
}

type c14Client struct {
	viol     *Viol
	done     []*c14Done
	failed   int
	panicked int
	after    int // successes after a failure
}

func (k *c14Client) fail(class, f string, a ...interface{}) {
	if k.viol == nil {
		k.viol = &Viol{class, fmt.Sprintf(f, a...)}
	}
}

type c14Panic struct{ n int }

func execC14(c *Case, o *Outcome) {
	simrt.ResetAll()
	nc, nd := c.NN(0), c.NN(1)
	if nc == 0 || nd == 0 || len(c.Texts) < nc+nd {
		return
	}
	docs := make([]*jsonvalue.V, nd+nc)
	trees := make([]*J, nd+nc)
	soloOf(c, o, 0, 1, func() {
		for i := range docs {
			j, err := parseJSON(c.Texts[i])
			if err != nil {
				panic(err)
			}
			trees[i] = j
			if docs[i], err = parseBy(i%3, c.Texts[i]); err != nil {
				o.fail("content", "a valid document was refused: %v", err)
				return
			}
		}
		for _, a := range c.Acts {
			if a.A == -1 && a.K == "bad" && a.B >= 0 {
				replaceAt(trees[a.B%nd], docs[a.B%nd], a.C, a.S)
				o.fault("failing-member-placed")
			}
		}
		if d := c.NN(2); d > 0 && d <= len(c.Opts) {
			jsonvalue.SetDefaultMarshalOptions(libOpts(c.Opts[d-1])...)
		}
	})
	if o.Viol != nil {
		return
	}
	ks := make([]*c14Client, nc)
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		ks[i] = &c14Client{}
		clients[i] = func() {
			n := 0
			if t := guard(func() { c14Run(c, i, ks[i], docs, trees, nd, &n) }); t != "" {
				ks[i].fail("panic", "act %d: %s", n, t)
			}
		}
	}
	o.sim(c.Cfg, true, clients)
	ok := false
	for i, k := range ks {
		if k.viol != nil {
			o.fail(k.viol.Class, "client %d: %s", i, k.viol.Msg)
		}
		if k.failed > 0 {
			o.faultN("marshal-failed", int64(k.failed))
		}
		if k.panicked > 0 {
			o.faultN("less-function-panicked", int64(k.panicked))
		}
		ok = ok || k.after > 0
	}
	for _, a := range c.Acts {
		if a.A >= 0 && a.K == "bad" {
			o.fault("failing-member-placed")
		}
	}
	if o.Viol != nil {
		return
	}
	// the same calls, each alone in a fresh process state
	seen := map[uint64]c03Out{}
	for i, k := range ks {
		for n, d := range k.done {
			o.digest(d.out.sorted)
			if d.out.err || d.how == 6 && n%3 != 0 {
				continue
			}
			_, all := c14Opts(c, d.how, d.s)
			key := simrt.Hash(hashStr(d.j.canon(true)), uint64(d.how), hashStr(d.s), uint64(d.nth))
			want, have := seen[key]
			if !have {
				simrt.ResetAll()
				soloOf(c, o, 0, 1, func() {
					if df := c.NN(2); df > 0 && df <= len(c.Opts) {
						jsonvalue.SetDefaultMarshalOptions(libOpts(c.Opts[df-1])...)
					}
					call, _ := c14Opts(c, d.how, d.s)
					opts := libOpts(call)
					if d.nth > 0 {
						opts = append(opts, jsonvalue.OptKeySequenceWithLessFunc(lessFunc("str")))
					}
					b, err := c14Call(buildV(d.j), d.how, opts)
					want = c03OutOf(b, err)
				})
				simrt.ResetAll()
				seen[key] = want
				if o.Viol != nil {
					return
				}
			}
			ordered := d.nth > 0 || (&oState{}).apply(all).order != ""
			if !d.out.same(want, ordered) {
				o.fail("later", "client %d, %s: gave %v, but alone in a fresh process the same call gives %v", i, d.what, d.out, want)
				return
			}
		}
		for _, d := range k.done {
			if !d.out.err && string(d.b) != d.out.exact {
				o.fail("result", "client %d, %s: the bytes returned were %s, at the end they are %s", i, d.what, clip(d.out.exact, 300), clip(string(d.b), 300))
			}
		}
	}
	o.done(ok, c)
}

func c14Run(c *Case, me int, k *c14Client, docs []*jsonvalue.V, trees []*J, nd int, n0 *int) {
	v, j := docs[nd+me], trees[nd+me]
	for n, a := range c.Acts {
		if a.A != me || k.viol != nil {
			continue
		}
		*n0 = n
		x, y := v, j
		if a.B >= 0 {
			x, y = docs[a.B%nd], trees[a.B%nd]
		}
		switch a.K {
		case "bad", "heal":
			replaceAt(j, v, a.C, a.S)
		case "touch":
			touch(x, a.C)
		case "op":
			if me >= len(c.Ops) || a.C >= len(c.Ops[me]) || hasNone(j) {
				continue
			}
			op := c.Ops[me][a.C]
			m := j.clone()
			want := op.tryModel(m)
			if want.E == skipRes {
				continue
			}
			if got := op.lib(v); !op.agree(want, got) {
				k.fail("result", "act %d %s returned %s, expected %s", n, op, clip(got.String(), 300), clip(want.String(), 300))
				return
			}
			if want.E == "" {
				j = m
			}
		case "marsh", "panic":
			how := a.C % c14Forms
			if a.K == "panic" {
				how = 0
			}
			call, all := c14Opts(c, how, a.S)
			opts := libOpts(call)
			d := &c14Done{j: y.clone(), how: how, s: a.S}
			d.what = fmt.Sprintf("act %d, form %d of %s under options %s, defaults and options %s", n, how, clip(y.canon(true), 300), showO(call), showO(all))
			st := (&oState{}).apply(all)
			if a.K == "panic" {
				d.nth = a.C
				left := a.C
				less := lessFunc("str")
				opts = append(opts, jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, ka, kb string, va, vb *jsonvalue.V) bool {
					if left--; left == 0 {
						panic(&c14Panic{n})
					}
					return less(p, ka, kb, va, vb)
				}))
				st.order = "less:str"
			}
			var b []byte
			var err error
			var pan interface{}
			func() {
				defer func() { pan = recover() }()
				b, err = c14Call(x, how, opts)
			}()
			if pan != nil {
				if p, ok := pan.(*c14Panic); !ok || p.n != n || a.K != "panic" {
					k.fail("panic", "%s: panic: %v", d.what, pan)
					return
				}
				k.panicked++
				continue
			}
			unspec := st.omit && (st.nan == "null" || st.inf == "null") && needsNaN(y)
			if unspec {
				// whether a float that becomes null is omitted is not specified
				if _, perr := parseJSON(string(b)); (err == nil) != (perr == nil) || err != nil && len(b) > 0 {
					k.fail("text", "%s: gave %.300q and error %v", d.what, b, err)
				}
			} else if t := st.check(y, b, err); t != "" {
				k.fail("text", "%s: %s", d.what, t)
				return
			}
			d.b, d.out = b, c03OutOf(append([]byte{}, b...), err)
			k.done = append(k.done, d)
			if err != nil {
				k.failed++
			} else if k.failed+k.panicked > 0 {
				k.after++
			}
		}
	}
}
