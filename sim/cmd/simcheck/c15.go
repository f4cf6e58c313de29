package main

import (
	"encoding/json"
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
)

// C15: callbacks. Every kind of callback the library takes re-enters the library,
// waits for other clients, stops early or panics at seeded invocations.

func init() {
	register(&propDef{id: "C15", race: true, plain: true, gen: genC15, exec: execC15,
		rule: "a case is 1-3 clients making 2-8 calls that take callbacks (RangeObjects, RangeObjectsBySetSequence, RangeArray, SortArray, Marshal with a less-function of its own or of the default options, Import, New, Set, Append and json.Marshal of values with MarshalJSON or MarshalText) on shared and own documents; at seeded invocations the callback reads the same value, runs parts of a program on other values, changes another document, makes further calls with callbacks (to depth 3), waits for another client to finish, changes the default options, stops the iteration, or panics; under one seeded schedule. Reference: trees and options for every result, the program run straight alone. Non-trivial: at least two callback invocations re-entered the library",
		real: stdReal, stub: stdStub})
}

var c15APIs = []string{"robj", "rset", "rarr", "sort", "mless", "imp", "setcb", "json", "dless"}

func genC15(r *R, c *Case, tier string) {
	c.Kind = "re-entrant callbacks"
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 4), odd: r.P(60), big: 36, wideN: 12}
	nc, nd := r.Pick(1, 1, 2, 2, 3), r.In(1, 2)
	setdef := nc == 1 && r.P(40)
	var js []*J
	for i := 0; i < nd+2*nc; i++ {
		j := g.container(r, r.In(1, 3))
		if r.P(30) {
			a := jArr()
			for n := r.In(2, 20); n > 0; n-- {
				a.A = append(a.A, g.scalar(r))
			}
			j = jArr(a, j)
		} else if r.P(20) {
			o := jObj()
			for n := r.In(5, 24); n > 0; n-- {
				o.set(fmt.Sprintf("%s%d", r.Str(g.keys), r.N(40)), g.scalar(r))
			}
			j = o
		}
		js = append(js, j)
		c.Texts = append(c.Texts, j.text(r.style()))
	}
	for n := r.In(1, 3); n > 0; n-- {
		c.Opts = append(c.Opts, genOpts(r, g.keys, 1, false))
	}
	sd := 0
	if setdef {
		sd = 1
		c.Kind = "callbacks changing defaults"
	}
	c.N = []int{nc, nd, sd}
	ln := r.In(2, 7)
	if tier == "thorough" {
		ln = r.In(2, 14)
	}
	for i := 0; i < nc; i++ {
		for k := 0; k < ln; k++ {
			a := Act{A: i, K: r.Str(c15APIs[:len(c15APIs)-1+sd]), B: r.Pick(-1, -2, r.N(nd)), C: r.N(400)}
			var bs []string
			for n := r.In(1, 4); n > 0; n-- {
				kind := []string{"prog", "read", "write", "nest", "marsh", "stop", "panic", "panicout", "wait", "setdef"}[r.W(16, 16, 10, 14, 10, 8, 8, 5, 5, 6*sd)]
				bs = append(bs, fmt.Sprintf("%s@%d", kind, r.Pick(0, 1, 1, 2, 2, 3, 4, 7, 15, 1+r.N(20))))
			}
			if a.K[0] == 'r' && r.P(15) {
				bs = append(bs, fmt.Sprintf("%s@%d", r.Str([]string{"stop", "stop", "panic"}), r.In(1, 24)))
			}
			a.S = strings.Join(bs, " ")
			c.Acts = append(c.Acts, a)
		}
		var reads, writes []*TOp
		for k := r.In(2, 8); k > 0; k-- {
			d := r.Pick(nd+2*i, nd+2*i+1, r.N(nd))
			reads = append(reads, g.genTOp(r, js[d], "r", 10))
		}
		for k := r.In(1, 5); k > 0; k-- {
			writes = append(writes, g.genTOp(r, js[nd+2*i+r.N(2)], "ws", 10))
		}
		c.Ops = append(c.Ops, reads, writes)
		pg := &ProgGen{g: g}
		var p []*Op
		if !setdef {
			p = pg.prog(r, r.In(2, 12), nil)
			for _, op := range p {
				if op.K == "walk" {
					op.N &= 7 // where a walk in hash map order stops depends on the walks before it
				}
			}
		}
		c.Prog = append(c.Prog, p)
	}
	genSim(r, c)
}

type c15Panic struct{ id int }

// c15Frame is one call that takes a callback.
type c15Frame struct {
	act  Act
	id   int
	n    int // invocations of the callback
	doc  int
	node *jsonvalue.V // of a SortArray
	set  map[*jsonvalue.V]bool
	mod  bool // the document is being changed
	pan  *c15Panic
	// pan belongs to a call further out
	foreign bool
	stop    int
	bs      []string
	depth   int
}

type c15Client struct {
	id      int
	c       *Case
	v       []*jsonvalue.V
	j       []*J
	nd      int
	env     *Env
	pos     int
	out     []string
	stack   []*c15Frame
	viol    *Viol
	reads   int
	writes  int
	calls   int
	entered int
	pans    int
	stops   int
	waits   int
	def     []O
	done    []chan struct{}
	budget  int
	exact   []c15Exact
	deep    int
	busy    bool // in an operation that is checked step by step
}

// c15Exact is a marshaled text, to be compared with the same call made outside
// all callbacks in a fresh process.
type c15Exact struct {
	what, canon string
	d           int
	es          []Elem // the member
	def, os     []O
	b           []byte
}

func (k *c15Client) keep(what string, d int, x []Elem, def, os []O, b []byte, err error) {
	if err == nil && len(k.exact) < 30 && (&oState{}).apply(def).apply(os).order != "" {
		k.exact = append(k.exact, c15Exact{what, k.j[d].canon(true), d, x, def, os, append([]byte{}, b...)})
	}
}

func (k *c15Client) fail(class, f string, a ...interface{}) {
	if k.viol == nil {
		var in []string
		for _, f := range k.stack {
			in = append(in, fmt.Sprintf("%s(%s) invocation %d", f.act.K, f.act.S, f.n))
		}
		s := fmt.Sprintf("client %d", k.id)
		if len(in) > 0 {
			s += " inside " + strings.Join(in, " > ")
		}
		k.viol = &Viol{class, s + ": " + fmt.Sprintf(f, a...)}
	}
}

// doc is the number of a document: shared ones first.
func (k *c15Client) doc(b int) int {
	if b < 0 {
		return k.nd + (-b-1)%2
	}
	return b % k.nd
}

// sorting: the document is being changed by a call further out.
func (k *c15Client) changing(d int) bool {
	for _, f := range k.stack {
		if f.doc == d && f.mod && f.act.K == "sort" {
			return true
		}
	}
	return false
}

func (k *c15Client) inUse(d int) bool {
	for _, f := range k.stack {
		if f.doc == d {
			return true
		}
	}
	return false
}

func (k *c15Client) check(when string) {
	for d, v := range k.v {
		if d < k.nd || k.changing(d) {
			continue
		}
		if got, want := vtext(v), k.j[d].canon(true); got != want {
			k.fail("content", "%s: document %d is %s, expected %s", when, d, clip(got, 400), clip(want, 400))
			return
		}
	}
}

// call is one invocation of a callback.
func (k *c15Client) call(f *c15Frame) {
	f.n++
	if k.viol != nil || k.budget <= 0 || k.busy || simrt.Steps() > 2_000_000 {
		return // in a long run callbacks get plain in the end
	}
	k.budget--
	for i, b := range f.bs {
		kind, at := b, 0
		if x := strings.IndexByte(b, '@'); x > 0 {
			kind = b[:x]
			fmt.Sscan(b[x+1:], &at)
		}
		if at != 0 && at != f.n {
			continue
		}
		switch kind {
		case "prog":
			for n := 0; n < 2; n++ {
				k.prog()
			}
			k.entered++
		case "read":
			k.read(f)
			k.entered++
		case "write":
			k.write()
			k.entered++
		case "marsh":
			if k.changing(f.doc) {
				break
			}
			var os []O
			if n := (f.n + i) % (len(k.c.Opts) + 1); n < len(k.c.Opts) {
				os = k.c.Opts[n]
			}
			if k.deep > 1 {
				break
			}
			k.deep++
			k.budget -= 5 + k.j[f.doc].size()/2
			def := k.def
			b, err := k.v[f.doc].Marshal(libOpts(os)...)
			k.deep--
			k.keep(fmt.Sprintf("Marshal of document %d inside a callback", f.doc), f.doc, nil, def, os, b, err)
			if t := (&oState{}).apply(def).apply(os).check(k.j[f.doc], b, err); t != "" {
				k.fail("inside", "Marshal of document %d with %s: %s", f.doc, showO(os), t)
			}
			k.entered++
		case "nest":
			if len(k.stack) < 3 {
				n := (f.id + f.n + i) % len(k.c.Acts)
				if a := k.c.Acts[n]; a.A == k.id {
					k.run(n, a)
					k.entered++
				}
			}
		case "wait":
			if k.id+1 < len(k.done) && k.waits == 0 {
				k.waits++
				simrt.Recv2((<-chan struct{})(k.done[k.id+1]))
			}
		case "setdef":
			if k.c.NN(2) == 0 {
				break
			}
			if n := (f.n + i) % (len(k.c.Opts) + 1); n == len(k.c.Opts) {
				jsonvalue.ResetDefaultMarshalOptions()
				k.def = nil
			} else {
				jsonvalue.SetDefaultMarshalOptions(libOpts(k.c.Opts[n])...)
				k.def = k.c.Opts[n]
			}
		case "stop":
			if f.stop == 0 && at == f.n {
				f.stop = f.n
				k.stops++
			}
		case "panic", "panicout":
			if at == 0 && f.n != 1 {
				break
			}
			f.pan = &c15Panic{f.id}
			k.pans++
			panic(f.pan)
		}
	}
	if f.set != nil {
		// the array being sorted always has exactly its members
		seen := map[*jsonvalue.V]bool{}
		for i := 0; i < f.node.Len(); i++ {
			x, err := f.node.Get(i)
			if err != nil || !f.set[x] || seen[x] {
				k.fail("sort", "member %d of the array being sorted is %s, error %v", i, vtext(x), err)
				return
			}
			seen[x] = true
		}
		if len(seen) != len(f.set) {
			k.fail("sort", "the array being sorted has %d members, of %d", len(seen), len(f.set))
		}
	}
}

func (k *c15Client) prog() {
	p := k.c.Prog[k.id]
	if k.pos < len(p) {
		k.pos++
		k.out = append(k.out, k.env.run(p[k.pos-1]))
	}
}

func (k *c15Client) read(f *c15Frame) {
	ops := k.c.Ops[2*k.id]
	if len(ops) == 0 || k.changing(f.doc) {
		return
	}
	k.reads++
	op := ops[k.reads%len(ops)]
	if op.K == "marsh" && len(k.def) > 0 {
		return
	}
	want := op.tryModel(k.j[f.doc].clone())
	if want.E == skipRes {
		return
	}
	if got := k.quietly(op, k.v[f.doc]); !op.agree(want, got) {
		k.fail("inside", "%s on document %d (%s) returned %s, expected %s", op, f.doc, clip(k.j[f.doc].canon(true), 300), clip(got.String(), 300), clip(want.String(), 300))
	}
}

// quietly makes a call during which callbacks that belong to the default options
// do nothing but compare.
func (k *c15Client) quietly(op *TOp, v *jsonvalue.V) Res {
	was := k.busy
	k.busy = true
	defer func() { k.busy = was }()
	return op.lib(v)
}

func (k *c15Client) write() {
	ops := k.c.Ops[2*k.id+1]
	d := k.nd
	if k.inUse(d) {
		d++
	}
	if len(ops) == 0 || k.inUse(d) {
		return
	}
	k.writes++
	op := ops[k.writes%len(ops)]
	m := k.j[d].clone()
	want := op.tryModel(m)
	if want.E == skipRes {
		return
	}
	if got := k.quietly(op, k.v[d]); !op.agree(want, got) {
		k.fail("inside", "%s on document %d (%s) returned %s, expected %s", op, d, clip(k.j[d].canon(true), 300), clip(got.String(), 300), clip(want.String(), 300))
	}
	if want.E == "" {
		k.j[d] = m
	}
}

type cbJSON struct{ f func() []byte }

func (m cbJSON) MarshalJSON() ([]byte, error) { return m.f(), nil }

type cbPtr struct{ f func() []byte }

func (m *cbPtr) MarshalJSON() ([]byte, error) { return m.f(), nil }

type cbText struct{ f func() []byte }

func (m cbText) MarshalText() ([]byte, error) { return m.f(), nil }

// run makes one call that takes callbacks, and checks what it did.
func (k *c15Client) run(n int, a Act) {
	d := k.doc(a.B)
	f := &c15Frame{act: a, id: n, doc: d, bs: strings.Fields(a.S), depth: len(k.stack)}
	changes := a.K == "sort" || a.K == "setcb"
	if changes && (d < k.nd || k.inUse(d)) || k.changing(d) || k.viol != nil || k.calls > 200 || simrt.Steps() > 4_000_000 {
		return
	}
	f.mod = changes
	k.calls++
	v, j := k.v[d], k.j[d]
	// the node: prefer one of the right kind
	es := []Elem{}
	want := map[string]byte{"robj": 'o', "rset": 'o', "rarr": 'a', "sort": 'a', "setcb": 'o', "mless": 'o', "dless": 'o'}[a.K]
	node := j
	for i := 0; i < 40; i++ {
		es = pathOf(j, a.C+i)
		node, _ = jGet(j, es)
		if want == 0 || node.T == want || a.C%17 == 16 {
			break
		}
	}
	x := at(v, es)
	if x == nil {
		k.fail("content", "document %d has lost member %v", d, es)
		return
	}
	k.stack = append(k.stack, f)
	defer func() { k.stack = k.stack[:len(k.stack)-1] }()
	what := fmt.Sprintf("act %d %s on document %d at %v (%s)", n, a.K, d, es, clip(node.canon(true), 200))

	// safely makes the library call and sorts out its panic.
	panicked := false
	safely := func(call func()) {
		deep := k.deep
		defer func() {
			k.deep = deep
			p := recover()
			if p == nil {
				if f.pan != nil {
					k.fail("panic", "%s: the panic of the callback did not reach the caller", what)
				}
				return
			}
			panicked = true
			// the panic of the innermost call that let it out
			q, ok := p.(*c15Panic)
			for _, g := range k.stack {
				// or that of a call further out, whose callback is the default
				if ok && g != f && g.pan == q && f.pan == nil {
					f.pan, f.foreign = q, true
				}
			}
			if !ok || q != f.pan {
				k.fail("panic", "%s: panic: %v, the callback's own: %v", what, p, f.pan)
			}
		}()
		call()
	}
	oneCall := false
	body := func(text string) func() []byte {
		return func() []byte {
			k.call(f)
			return []byte(text)
		}
	}

	switch a.K {
	case "robj", "rset":
		members := x.ForRangeObj()
		var got []string
		cb := func(key string, m *jsonvalue.V) bool {
			if members[key] != m || m == nil {
				k.fail("visit", "%s: was given %q with a value that is not the member", what, key)
			}
			got = append(got, key)
			k.call(f)
			return f.stop == 0
		}
		safely(func() {
			if a.K == "robj" {
				x.RangeObjects(cb)
			} else {
				x.RangeObjectsBySetSequence(cb)
			}
		})
		var keys []string
		if node.T == 'o' {
			keys = node.K
		}
		k.visits(what, f, a.K == "rset", got, keys, panicked)
	case "rarr":
		members := x.ForRangeArr()
		var got, keys []string
		safely(func() {
			x.RangeArray(func(i int, m *jsonvalue.V) bool {
				if i < 0 || i >= len(members) || members[i] != m {
					k.fail("visit", "%s: was given %d with a value that is not the member", what, i)
				}
				got = append(got, fmt.Sprint(i))
				k.call(f)
				return f.stop == 0
			})
		})
		for i := range node.A {
			keys = append(keys, fmt.Sprint(i))
		}
		k.visits(what, f, true, got, keys, panicked)
	case "sort":
		old := map[*jsonvalue.V]*J{}
		if node.T == 'a' {
			f.node, f.set = x, map[*jsonvalue.V]bool{}
			for i, m := range x.ForRangeArr() {
				f.set[m] = true
				old[m] = node.A[i]
			}
			if len(f.set) != len(node.A) {
				k.fail("content", "%s: a member occurs twice", what)
				return
			}
		}
		safely(func() {
			x.SortArray(func(m1, m2 *jsonvalue.V) bool {
				if !f.set[m1] || !f.set[m2] {
					k.fail("visit", "%s: the less function was given a value that is no member", what)
				}
				k.call(f)
				return textLess(a.C, vtext(m1), vtext(m2))
			})
		})
		if node.T == 'a' && k.viol == nil {
			arr := jArr()
			for _, m := range x.ForRangeArr() {
				if old[m] == nil {
					k.fail("sort", "%s: afterwards the array has a member it did not have, or has one twice: %s", what, vtext(x))
					return
				}
				arr.A = append(arr.A, old[m])
				old[m] = nil
			}
			if len(arr.A) != len(node.A) {
				k.fail("sort", "%s: afterwards the array has %d members", what, len(arr.A))
				return
			}
			if !panicked {
				s := node.clone()
				jSort(s, a.C)
				if s.canon(true) != arr.canon(true) {
					k.fail("sort", "%s: afterwards the array is %s", what, clip(arr.canon(true), 300))
				}
			}
			node.A = arr.A
		}
	case "mless":
		os := k.c.Opts[a.C%len(k.c.Opts)]
		def := k.def
		st := (&oState{}).apply(def).apply(os)
		st.order = "less:" + lessNames[a.C%len(lessNames)]
		less := lessFunc(lessNames[a.C%len(lessNames)])
		var b []byte
		var err error
		safely(func() {
			opts := append(libOpts(os), jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
				if p != nil {
					_ = p.KeyPath.String()
				}
				k.call(f)
				return less(p, k1, k2, v1, v2)
			}))
			b, err = x.Marshal(opts...)
		})
		if panicked {
			if len(b) > 0 || err != nil {
				k.fail("panic", "%s: results with a panic", what)
			}
		} else if t := st.check(node, b, err); t != "" {
			k.fail("result", "%s, options %s: %s", what, showO(os), t)
		} else {
			k.keep(what, d, es, def, append(append([]O{}, os...), O{K: "less", S: []string{lessNames[a.C%len(lessNames)]}}), b, err)
		}
	case "dless":
		// the callback belongs to the default options
		name := lessNames[a.C%len(lessNames)]
		less := lessFunc(name)
		old := k.def
		os := append(append([]O{}, k.c.Opts[a.C%len(k.c.Opts)]...), O{K: "less", S: []string{name}})
		var b []byte
		var err error
		jsonvalue.SetDefaultMarshalOptions(append(libOpts(os[:len(os)-1]), jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
			k.call(f)
			return less(p, k1, k2, v1, v2)
		}))...)
		k.def = os
		safely(func() {
			if a.C/7%3 == 0 {
				var s string
				s, err = x.MarshalString()
				b = []byte(s)
			} else {
				b, err = x.Marshal()
			}
		})
		if len(old) > 0 {
			jsonvalue.SetDefaultMarshalOptions(libOpts(old)...)
		} else {
			jsonvalue.ResetDefaultMarshalOptions()
		}
		k.def = old
		if panicked {
			break
		}
		if t := (&oState{}).apply(os).check(node, b, err); t != "" {
			k.fail("result", "%s, default options %s: %s", what, showO(os), t)
		}
		k.keep(what, d, es, os, nil, b, err)
	case "imp", "setcb", "json":
		oneCall = true
		text := node.text(0)
		res := node.clone()
		var m interface{}
		switch a.C % 3 {
		case 0:
			m = cbJSON{body(text)}
		case 1:
			m = &cbPtr{body(text)}
		default:
			m = cbText{body("some text")}
			res = jStr("some text")
		}
		switch a.K {
		case "imp":
			var y *jsonvalue.V
			var err error
			wrap := jObj()
			wrap.set("a", jInt(1))
			wrap.set("m", res)
			wrap.set("z", jArr(jStr("end")))
			safely(func() {
				switch a.C / 3 % 5 {
				case 0:
					y, err = jsonvalue.Import(m)
					wrap = res
				case 1:
					y, err = jsonvalue.Import(map[string]interface{}{"a": 1, "m": m, "z": []string{"end"}})
				case 2:
					y, err = jsonvalue.Import(struct {
						A int         `json:"a"`
						M interface{} `json:"m"`
						Z []string    `json:"z"`
					}{1, m, []string{"end"}})
				case 3:
					y = jsonvalue.New(m)
					wrap = res
				default:
					y, err = jsonvalue.Import([]interface{}{1, m, "x"})
					wrap = jArr(jInt(1), res, jStr("x"))
				}
			})
			if panicked {
				if y != nil {
					k.fail("panic", "%s: a result with a panic", what)
				}
			} else if err != nil || y == nil || vtextU(y) != wrap.canon(false) {
				k.fail("result", "%s: gave %s, error %v, expected %s", what, vtext(y), err, clip(wrap.canon(false), 300))
			}
		case "setcb":
			var err error
			appnd := node.T == 'a'
			if node.T != 'o' && !appnd {
				oneCall = false
				break
			}
			safely(func() {
				switch {
				case appnd:
					_, err = x.Append(m).InTheEnd()
				case a.C/3%2 == 0:
					_, err = x.Set(m).At("callback")
				default:
					x.MustSet(m).At("callback", "deep")
				}
			})
			if panicked {
				break
			}
			if node.T == 'o' && a.C/3%2 == 1 {
				if jSet(node, []Elem{sE("callback"), sE("deep")}, res) != "" {
					break // the member is there and is no object: refused
				}
				break
			}
			if err != nil {
				k.fail("result", "%s: error %v", what, err)
			} else if appnd {
				node.A = append(node.A, res)
			} else {
				node.set("callback", res)
			}
		default:
			var b []byte
			var err error
			safely(func() {
				b, err = json.Marshal([]interface{}{m, x})
			})
			if panicked {
				break
			}
			j2 := jArr(res, node)
			if t := (&oState{}).check(j2, b, err); t != "" && len(k.def) == 0 {
				k.fail("result", "%s: json.Marshal: %s", what, t)
			}
		}
	}
	if oneCall && f.n != 1 && !f.foreign {
		k.fail("visit", "%s: the method was called %d times", what, f.n)
	}
	// check everything while f is still on the stack but no longer changes anything
	f.mod = false
	k.check("after " + what)
	if f.foreign && k.viol == nil {
		panic(f.pan)
	}
	if f.pan != nil && strings.Contains(a.S, "panicout") && f.depth > 0 && k.viol == nil {
		// goes on to the caller of the call that this callback belongs to
		up := k.stack[len(k.stack)-2]
		up.pan = f.pan
		panic(f.pan)
	}
}

// visits checks which members an iteration visited.
func (k *c15Client) visits(what string, f *c15Frame, ordered bool, got, keys []string, panicked bool) {
	n := len(keys)
	if f.stop > 0 && f.stop < n {
		n = f.stop
	}
	if panicked && f.n < n {
		n = f.n
	}
	if len(got) != n {
		k.fail("visit", "%s: visited %d members %.200q, expected %d of %.200q", what, len(got), got, n, keys)
		return
	}
	if ordered {
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", append([]string(nil), keys[:n]...)) {
			k.fail("visit", "%s: visited %.200q, expected %.200q", what, got, keys[:n])
		}
		return
	}
	s := sortedStrings(got)
	all := map[string]bool{}
	for _, x := range keys {
		all[x] = true
	}
	for i, x := range s {
		if !all[x] || i > 0 && s[i-1] == x {
			k.fail("visit", "%s: visited %.200q, the keys are %.200q", what, s, keys)
			return
		}
	}
}

func execC15(c *Case, o *Outcome) {
	simrt.ResetAll()
	nc, nd := c.NN(0), c.NN(1)
	if nc == 0 || nd == 0 || len(c.Texts) < nd+2*nc || len(c.Ops) < 2*nc || len(c.Prog) < nc || len(c.Opts) == 0 {
		return
	}
	// the programs, straight
	want := make([][]string, nc)
	for i := range want {
		i := i
		simrt.ResetAll()
		soloOf(c, o, i, nc, func() { want[i] = runProg(makeShared(c).env(c), c.Prog[i]) })
	}
	simrt.ResetAll()
	if o.Viol != nil {
		return
	}
	shared := make([]*jsonvalue.V, nd)
	trees := make([]*J, nd)
	parse := func(i int) (*jsonvalue.V, *J) {
		j, err := parseJSON(c.Texts[i])
		if err != nil {
			panic(err)
		}
		v, err := parseBy(i%3, c.Texts[i])
		if err != nil {
			panic(fmt.Sprintf("a valid document was refused: %v", err))
		}
		return v, j
	}
	soloOf(c, o, 0, 1, func() {
		for i := range shared {
			shared[i], trees[i] = parse(i)
		}
	})
	if o.Viol != nil {
		return
	}
	ks := make([]*c15Client, nc)
	clients := make([]func(), nc)
	done := make([]chan struct{}, nc)
	for i := range done {
		done[i] = make(chan struct{})
	}
	for i := range clients {
		i := i
		k := &c15Client{id: i, c: c, nd: nd, done: done, budget: 2000}
		ks[i] = k
		clients[i] = func() {
			defer simrt.Close((chan<- struct{})(done[i]))
			at := 0
			if t := guard(func() {
				k.env = makeShared(c).env(c)
				k.v = append(k.v, shared...)
				k.j = append(k.j, trees...)
				for n := 0; n < 2; n++ {
					v, j := parse(nd + 2*i + n)
					k.v, k.j = append(k.v, v), append(k.j, j)
				}
				for n, a := range c.Acts {
					if a.A != i || k.viol != nil {
						continue
					}
					at = n
					k.run(n, a)
				}
				for k.pos < len(c.Prog[i]) {
					k.prog()
				}
			}); t != "" {
				k.fail("panic", "act %d: %s", at, t)
			}
		}
	}
	o.sim(c.Cfg, true, clients)
	entered := 0
	for i, k := range ks {
		if k.viol != nil {
			o.fail(k.viol.Class, "%s", k.viol.Msg)
		}
		entered += k.entered
		o.faultN("callback-panicked", int64(k.pans))
		o.faultN("callback-stopped", int64(k.stops))
		o.faultN("callback-waited", int64(k.waits))
		if o.Viol == nil {
			compareRuns(o, i, c.Prog[i], want[i], k.out)
		}
		for _, s := range k.out {
			o.digest(s)
		}
		for _, j := range k.j {
			o.digest(j.canon(true))
		}
	}
	if o.Viol != nil {
		return
	}
	soloOf(c, o, 0, 1, func() {
		jsonvalue.ResetDefaultMarshalOptions()
		for i, v := range shared {
			if got, want := snapshot(v), snapModel(trees[i]); got != want {
				o.fail("content", "shared document %d is %s at the end, expected %s", i, clip(got, 400), clip(want, 400))
			}
		}
		for _, k := range ks {
			for d := nd; d < len(k.v); d++ {
				if got, want := snapshot(k.v[d]), snapModel(k.j[d]); got != want {
					o.fail("content", "document %d of client %d is %s at the end, expected %s", d, k.id, clip(got, 400), clip(want, 400))
				}
			}
		}
	})
	if o.Viol != nil {
		return
	}
	// what was marshaled inside or around callbacks, outside of all
	simrt.ResetAll()
	same := 0
	soloOf(c, o, 0, 1, func() {
		for _, k := range ks {
			for _, e := range k.exact {
				if k.j[e.d].canon(true) != e.canon {
					continue
				}
				if len(e.def) > 0 {
					jsonvalue.SetDefaultMarshalOptions(libOpts(e.def)...)
				} else {
					jsonvalue.ResetDefaultMarshalOptions()
				}
				b, err := at(k.v[e.d], e.es).Marshal(libOpts(e.os)...)
				if err != nil || string(b) != string(e.b) {
					o.fail("exact", "client %d: %s, defaults %s, options %s, gave %.400q, outside callbacks %.400q (error %v)", k.id, e.what, showO(e.def), showO(e.os), e.b, b, err)
					return
				}
				same++
			}
		}
		jsonvalue.ResetDefaultMarshalOptions()
	})
	if same > 0 {
		o.probe("marshaled texts compared outside callbacks")
	}
	o.done(entered >= 2, c)
}
