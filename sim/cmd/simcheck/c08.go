package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
	"verif.local/sim/simrt"
)

// C08: changes and imports that fail: bad paths, uninitialised children and
// callers' marshalers that fail, return bad data or panic at a chosen call.

func init() {
	register(&propDef{id: "C08", race: false, plain: true, gen: genC08, exec: execC08,
		rule: "a case is 1-3 clients with a document each, making 3-16 changes and imports, about half of which fail by an injected fault (bad path, position or type, uninitialised or nil child, marshaler that fails, returns bad data or panics at its nth call, unsupported Go type), under one seeded schedule; after every call result, content, order and, for failed calls, identity of members are compared with a reference tree that ignores failed calls. Non-trivial: at least one call failed and one succeeded",
		real: stdReal, stub: append(append([]string{}, stdStub...), "callers' MarshalJSON and MarshalText methods")})
}

var errC08 = errors.New("injected marshaler failure")

// badMarsh fails at its nth call; before that it is a good marshaler.
type badMarsh struct {
	how string
	n   *int // calls left before the failure
}

func (m badMarsh) act(text bool) ([]byte, error) {
	if *m.n > 0 {
		*m.n--
		if text {
			return []byte("fine"), nil
		}
		return []byte(`{"fine":[1,"x"]}`), nil
	}
	*m.n--
	switch m.how {
	case "err":
		return nil, errC08
	case "errdata":
		return []byte(`{"partial":`), errC08
	case "errgood":
		return []byte(`{"complete":1}`), errC08
	case "bad":
		return []byte(`{"a":1,"b":`), nil
	case "junk":
		return []byte(`not json`), nil
	case "empty":
		return []byte{}, nil
	case "nil":
		return nil, nil
	case "two":
		return []byte(`{"a":1} {"b":2}`), nil
	}
	panic("injected panic")
}

type badJ struct{ badMarsh }

func (m badJ) MarshalJSON() ([]byte, error) { return m.act(false) }

type badP struct{ badMarsh }

func (m *badP) MarshalJSON() ([]byte, error) { return m.act(false) }

type badT struct{ badMarsh }

func (m badT) MarshalText() ([]byte, error) { return m.act(true) }

type badIn struct {
	First int         `json:"first"`
	Bad   interface{} `json:"bad"`
	Last  string      `json:"last"`
}

type badEmb struct {
	badInner
	After []int `json:"after"`
}

type badInner struct {
	X interface{} `json:"x"`
	Y int         `json:"y,omitempty"`
}

var badKinds = []string{"j.err", "j.errdata", "j.errgood", "j.bad", "j.junk", "j.empty", "j.nil", "j.two", "j.panic", "p.err", "p.bad", "p.panic", "t.err", "t.errdata", "t.panic",
	"uninit", "chan", "func", "complex", "mapkey"}

const badShapes = 9

// badVal builds Go data whose import fails; spec is kind/shape/n.
func badVal(spec string) interface{} {
	p := strings.Split(spec, "/")
	kind := p[0]
	shape, n := 0, 0
	fmt.Sscan(p[1], &shape)
	fmt.Sscan(p[2], &n)
	calls := n
	mk := func() interface{} {
		m := badMarsh{how: kind[strings.Index(kind, ".")+1:], n: &calls}
		switch {
		case strings.HasPrefix(kind, "j."):
			return badJ{m}
		case strings.HasPrefix(kind, "p."):
			return &badP{m}
		case strings.HasPrefix(kind, "t."):
			return badT{m}
		}
		switch kind {
		case "uninit":
			return &jsonvalue.V{}
		case "chan":
			return make(chan int)
		case "func":
			return func() {}
		case "complex":
			return complex(1, 2)
		}
		return map[[1]int]string{{1}: "x"}
	}
	x := mk()
	many := func() []interface{} {
		// good calls come first, the failing one is at position n
		a := make([]interface{}, n+2)
		for i := range a {
			a[i] = x
		}
		return a
	}
	if kind[1] != '.' {
		many = func() []interface{} { return []interface{}{1, "two", x, 4} }
	}
	switch shape {
	case 1:
		return many()
	case 2:
		m := map[string]interface{}{"z": 1}
		for i, y := range many() {
			m[fmt.Sprint("k", i)] = y
		}
		return m
	case 3:
		return badIn{1, many(), "last"}
	case 4:
		return &badIn{1, map[string]interface{}{"deep": []interface{}{badIn{2, many(), "x"}}}, "last"}
	case 5:
		return badEmb{badInner{many(), 0}, []int{1}}
	case 6:
		return [2]interface{}{"good", many()}
	case 7:
		return map[string][]interface{}{"list": many()}
	case 8:
		return struct {
			Bad interface{} `json:"bad,omitempty"`
		}{many()}
	}
	if n > 0 || kind == "uninit" {
		return many()
	}
	return x
}

func genC08(r *R, c *Case, tier string) {
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 4), odd: r.P(40), big: 200, huge: 1200}
	nc := r.Pick(1, 1, 2, 3)
	ln := r.In(3, 12)
	if tier == "thorough" {
		ln = r.In(3, 30)
	}
	c.Kind = "failing changes"
	for i := 0; i < nc; i++ {
		j := g.container(r, r.In(0, 3))
		if r.P(5) {
			j = g.scalar(r)
		}
		c.Texts = append(c.Texts, j.text(r.style()))
		var ops []*TOp
		for k := 0; k < ln; k++ {
			o := g.genTOp(r, j, r.Str([]string{"ws", "ws", "w", "wsr"}), r.Pick(10, 40, 70))
			switch {
			case o.V != nil && r.P(30):
				o.V = &Val{T: "bad:" + genBad(r)}
			case o.V == nil && r.P(15):
				o = &TOp{K: "import", V: &Val{T: "bad:" + genBad(r)}, N: r.N(5)}
			case r.P(5):
				o = &TOp{K: "import", V: &Val{T: g.container(r, 2).text(0), F: 2}, N: r.N(5)}
			case r.P(6):
				o = &TOp{K: "dead", P: o.P, N: r.N(8)}
			}
			if o.V != nil && strings.HasPrefix(o.V.T, "bad:") && r.P(15) {
				o.Rep = r.Pick(1, 3, 9, 17, 33, 70)
				if r.P(5) {
					o.Rep = 300
				}
			}
			ops = append(ops, o)
			if o.V != nil && strings.HasPrefix(o.V.T, "bad:") || o.K == "import" || o.K == "dead" {
				continue
			}
			m := j.clone()
			if res := o.tryModel(m); res.E == "" {
				j = m
			}
		}
		c.Ops = append(c.Ops, ops)
	}
	genSim(r, c)
}

func genBad(r *R) string {
	return fmt.Sprintf("%s/%d/%d", r.Str(badKinds), r.N(badShapes), r.Pick(0, 0, 1, 2, 4))
}

// deadOp works on nil and uninitialised receivers.
func deadOp(o *TOp) (string, string) {
	var v *jsonvalue.V
	if o.N&1 != 0 {
		v = &jsonvalue.V{}
	}
	var x *jsonvalue.V
	var err error
	switch o.N >> 1 {
	case 0:
		x, err = v.Set("x").At("a")
	case 1:
		x, err = v.Append(1).InTheEnd()
	case 2:
		x, err = v.Insert(1).Before(0)
	default:
		if v == nil {
			v = &jsonvalue.V{}
		}
		err = v.Delete("a")
		x = &jsonvalue.V{}
	}
	if err == nil {
		return "", "no error"
	}
	if t := notExist(x); t != "" {
		return "", t
	}
	if v != nil && v.ValueType() != jsonvalue.NotExist {
		return "", "the receiver is " + vtext(v) + " now"
	}
	return "error", ""
}

type c08Client struct {
	id       int
	o        *Outcome
	v        *jsonvalue.V
	j        *J
	viol     *Viol
	failed   map[string]int64
	ok       int
	children []*jsonvalue.V // children that were refused: still usable
	childJ   []*J
}

func (k *c08Client) fail(class, f string, a ...interface{}) {
	if k.viol == nil {
		k.viol = &Viol{class, fmt.Sprintf("client %d: ", k.id) + fmt.Sprintf(f, a...)}
	}
}

func (k *c08Client) step(n int, o *TOp) {
	what := fmt.Sprintf("step %d %s", n, o)
	bad := o.V != nil && strings.HasPrefix(o.V.T, "bad:")
	var before map[string]*jsonvalue.V
	ids := func() map[string]*jsonvalue.V {
		m := map[string]*jsonvalue.V{}
		ptrs(k.v, m, "")
		return m
	}
	same := func(class, why string) {
		after := ids()
		if len(after) != len(before) {
			k.fail(class, "%s failed (%s) but the document has %d values after it and had %d", what, why, len(after), len(before))
			return
		}
		for _, p := range sortedPtrKeys(before) {
			if after[p] != before[p] {
				k.fail(class, "%s failed (%s) but member %s is another value after it", what, why, p)
				return
			}
		}
	}
	check := func(why string) {
		if got, want := vtext(k.v), k.j.canon(true); got != want {
			k.fail("content", "after %s (%s) the document is %s, expected %s", what, why, clip(got, 500), clip(want, 500))
			return
		}
		if got, want := snapshot(k.v), snapModel(k.j); got != want {
			k.fail("content", "after %s (%s) the document marshals to %s, expected %s", what, why, clip(got, 500), clip(want, 500))
		}
	}
	switch {
	case o.K == "dead":
		_, t := deadOp(o)
		if t != "" {
			k.fail("receiver", "an operation on a nil or uninitialised value (%d): %s", o.N, t)
		}
		k.failed["dead-receiver"]++
		return
	case o.K == "import":
		k.imp(o, bad, what)
		check("import")
		return
	}
	before = ids()
	if !bad {
		m := k.j.clone()
		want := o.tryModel(m)
		if want.E == skipRes {
			return
		}
		var child *jsonvalue.V
		op := *o
		if len(k.children) > 0 && o.V != nil && o.V.F == 0 && o.V.T != "none" && o.V.T != "nilv" && want.E == "" && o.N&must == 0 {
			// a child that was refused before is used again
			child = k.children[0]
			cj := k.childJ[0]
			k.children, k.childJ = k.children[1:], k.childJ[1:]
			op.V = &Val{T: cj.text(0)}
			m = k.j.clone()
			want = op.tryModel(m)
			what += " with a child refused before: " + cj.canon(true)
		}
		var got Res
		if o.V != nil && o.V.F == 0 && o.N&must == 0 {
			if child == nil {
				child = o.V.v()
			}
			got = op.libWith(k.v, child)
		} else {
			got = o.lib(k.v)
		}
		if !op.agree(want, got) {
			k.fail("result", "%s returned %s, expected %s", what, clip(got.String(), 500), clip(want.String(), 500))
			return
		}
		if want.E == "" {
			k.j = m
			k.ok++
		} else {
			kind := "bad-path"
			if o.V != nil && (o.V.T == "none" || o.V.T == "nilv") {
				kind = "uninitialised-child"
			} else if child != nil {
				if got, w := vtext(child), op.V.model().canon(true); got != w {
					k.fail("child", "%s failed and changed the child from %s to %s", what, clip(w, 300), clip(got, 300))
				}
				k.children = append(k.children, child)
				k.childJ = append(k.childJ, op.V.model())
			}
			k.failed[kind]++
			same("identity", got.String())
		}
		check(got.String())
		return
	}
	spec := o.V.T[4:]
	for i := 0; i < o.Rep; i++ {
		guard(func() { o.libBad(k.v, badVal(spec)) })
	}
	var got Res
	t := guard(func() { got = o.libBad(k.v, badVal(spec)) })
	switch {
	case t != "":
		if t != "panic: injected panic" || !strings.Contains(spec, "panic") {
			k.fail("panic", "%s: %s", what, t)
			return
		}
		k.failed["marshaler-panic"]++
	case o.N&must != 0:
		if got.E != "must" {
			k.fail("result", "%s returned %s", what, got)
		}
		k.failed[badFault(spec)]++
	case got.E == "":
		k.fail("result", "%s reported no error: %s", what, clip(got.String(), 400))
		return
	case got.V != "":
		k.fail("result", "%s returned error %s with a value: %s", what, got.E, clip(got.V, 400))
		return
	default:
		k.failed[badFault(spec)]++
	}
	same("identity", "bad value "+spec)
	check("bad value " + spec)
}

// good: marshalers that do not fail are imported as ever, whatever failed before.
func (k *c08Client) good() {
	left := 1 << 20
	m := badMarsh{how: "panic", n: &left}
	const fine = `{"fine":[1,"x"]}`
	in := map[string]interface{}{"j": badJ{m}, "p": &badP{m}, "t": badT{m}, "s": badIn{1, []interface{}{badJ{m}}, "l"}}
	want := `{"j":` + fine + `,"p":` + fine + `,"s":{"first":1,"bad":[` + fine + `],"last":"l"},"t":"fine"}`
	wj, err := parseJSON(want)
	if err != nil {
		panic(err)
	}
	var v *jsonvalue.V
	if t := guard(func() { v, err = jsonvalue.Import(in) }); t != "" || err != nil {
		k.fail("import", "after all this, importing marshalers that do not fail: error %v %s", err, t)
		return
	}
	if got, w := vtextU(v), wj.canon(false); got != w {
		k.fail("import", "after all this, importing marshalers that do not fail gave %s, expected %s", clip(got, 400), w)
		return
	}
	doc := jsonvalue.NewArray()
	if t := guard(func() { _, err = doc.Append(&badP{m}).InTheEnd() }); t != "" || err != nil || doc.MustMarshalString() != "["+fine+"]" {
		k.fail("import", "after all this, appending a marshaler that does not fail: error %v %s, %s", err, t, clip(vtext(doc), 400))
	}
}

func badFault(spec string) string {
	switch {
	case strings.Contains(spec, ".err"):
		return "marshaler-error"
	case spec[1] == '.':
		return "marshaler-bad-data"
	case strings.HasPrefix(spec, "uninit"):
		return "uninitialised-member"
	}
	return "unsupported-type"
}

// imp imports good or bad data without a document.
func (k *c08Client) imp(o *TOp, bad bool, what string) {
	var v *jsonvalue.V
	var err error
	call := func(x interface{}) {
		switch o.N {
		case 1:
			v = jsonvalue.New(x)
			if v == nil || v.ValueType() == jsonvalue.NotExist {
				err = errors.New("New")
			}
		case 2:
			v, err = beta.Import(x)
			if err != nil && v == nil {
				v = &jsonvalue.V{} // nothing is documented about the value of the beta form
			}
		case 3:
			v, err = jsonvalue.Import(x, jsonvalue.OptIgnoreOmitempty())
		case 4:
			v, err = jsonvalue.Import(map[string]interface{}{"in": x})
			if err == nil {
				v = v.MustGet("in")
			}
		default:
			v, err = jsonvalue.Import(x)
		}
	}
	if !bad {
		j := o.V.model()
		if !goSafe(j) {
			return
		}
		if t := guard(func() { call(goValue(j)) }); t != "" || err != nil || vtext(v) != j.canon(true) {
			k.fail("import", "%s gave %s, error %v %s, expected %s", what, clip(vtext(v), 400), err, t, clip(j.canon(true), 400))
		}
		k.ok++
		return
	}
	spec := o.V.T[4:]
	if o.N == 2 && !betaFails(spec) {
		return
	}
	for i := 0; i < o.Rep; i++ {
		guard(func() { call(badVal(spec)) })
	}
	v, err = nil, nil
	if t := guard(func() { call(badVal(spec)) }); t != "" {
		if t != "panic: injected panic" || !strings.Contains(spec, "panic") {
			k.fail("panic", "%s: %s", what, t)
		}
		k.failed["marshaler-panic"]++
		return
	}
	if err == nil {
		k.fail("import", "%s reported no error: %s", what, clip(vtext(v), 400))
		return
	}
	if t := inert(v); t != "" {
		k.fail("import", "%s failed (%v): %s", what, err, t)
	}
	k.failed[badFault(spec)]++
}

// betaFails: beta.Import goes through encoding/json for what it does not know.
func betaFails(spec string) bool { return !strings.HasPrefix(spec, "mapkey") }

// libWith is lib with a given child, by the forms taking a *V.
func (o *TOp) libWith(v, child *jsonvalue.V) Res {
	args := o.P.all()
	if len(args) == 0 && o.K != "append" {
		return Res{E: skipRes}
	}
	return o.libAny(v, child, args)
}

func (o *TOp) libBad(v *jsonvalue.V, x interface{}) Res {
	args := o.P.all()
	if len(args) == 0 && o.K != "append" {
		args = []interface{}{"a"}
	}
	return o.libAny(v, x, args)
}

func (o *TOp) libAny(v *jsonvalue.V, x interface{}, args []interface{}) Res {
	mst := o.N&must != 0
	switch o.K {
	case "set":
		p, ps := split(args)
		if mst {
			if o.N&atSet != 0 {
				v.At(p, ps...).Set(x)
			} else {
				v.MustSet(x).At(p, ps...)
			}
			return Res{E: "must"}
		}
		return o.setAt(v.Set(x), p, ps)
	case "append":
		if mst {
			if o.N&1 != 0 {
				v.MustAppend(x).InTheBeginning(args...)
			} else {
				v.MustAppend(x).InTheEnd(args...)
			}
			return Res{E: "must"}
		}
		return o.appendAt(v.Append(x), args)
	case "before", "after":
		p, ps := split(args)
		if mst {
			if o.K == "before" {
				v.MustInsert(x).Before(p, ps...)
			} else {
				v.MustInsert(x).After(p, ps...)
			}
			return Res{E: "must"}
		}
		return o.insertAt(v.Insert(x), p, ps)
	}
	panic("bad operation " + o.K)
}

func sortedPtrKeys(m map[string]*jsonvalue.V) []string { return keysOf(m) }

func execC08(c *Case, o *Outcome) {
	simrt.ResetAll()
	n := len(c.Texts)
	if n == 0 {
		return
	}
	ks := make([]*c08Client, n)
	clients := make([]func(), n)
	for i := range clients {
		i := i
		k := &c08Client{id: i, o: o, failed: map[string]int64{}}
		ks[i] = k
		clients[i] = func() {
			j, err := parseJSON(c.Texts[i])
			if err != nil {
				panic(err)
			}
			k.j = j
			if k.v, err = jsonvalue.UnmarshalString(c.Texts[i]); err != nil {
				k.fail("content", "a valid document was refused: %v", err)
				return
			}
			if i >= len(c.Ops) {
				return
			}
			for s, op := range c.Ops[i] {
				if t := guard(func() { k.step(s, op) }); t != "" {
					k.fail("panic", "step %d %s: %s", s, op, t)
				}
				if k.viol != nil {
					return
				}
			}
			// the document still takes every kind of operation
			if k.j.T == 'o' {
				for s, op := range []*TOp{
					{K: "set", P: Path{E: []Elem{sE("new"), sE("x"), iE(0)}}, V: &Val{T: `{"y":1}`}},
					{K: "append", P: Path{E: []Elem{sE("new"), sE("x")}}, V: &Val{T: `2`}},
					{K: "before", P: Path{E: []Elem{sE("new"), sE("x"), iE(0)}}, V: &Val{T: `3`}},
					{K: "del", P: Path{E: []Elem{sE("new"), sE("x"), iE(-1)}}},
				} {
					if t := guard(func() { k.step(100+s, op) }); t != "" {
						k.fail("panic", "final step %s: %s", op, t)
					}
				}
			}
			k.good()
			b, err := json.Marshal(k.v)
			if _, perr := parseJSON(string(b)); err != nil || perr != nil {
				k.fail("content", "the document does not marshal at the end: %v %v", err, perr)
			}
		}
	}
	o.sim(c.Cfg, true, clients)
	failed := int64(0)
	ok := 0
	for _, k := range ks {
		for _, f := range sortedKeys(k.failed) {
			o.faultN(f, k.failed[f])
			failed += k.failed[f]
		}
		ok += k.ok
		if k.viol != nil {
			o.fail(k.viol.Class, "%s", k.viol.Msg)
		}
		if k.j != nil {
			o.digest(k.j.canon(true))
		}
	}
	o.done(failed > 0 && ok > 0, c)
}
