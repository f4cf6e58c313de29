package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
	"verif.local/sim/simsync"
)

var stdReal = []string{"all packages of go.jsonvalue (every file of /repo, instrumented with yields)", "encoding/json, reflect, sort, strconv, base64 and the rest of the standard library", "shopspring/decimal", "Go memory allocator and garbage collector"}
var stdStub = []string{"goroutine scheduler (seeded)", "sync and sync/atomic (same semantics; blocking, wake-up order and pool behaviour seeded)", "channels (blocking and partner choice seeded)", "hash map iteration order (seeded)", "time"}

func init() {
	register(&propDef{id: "C01", race: true, plain: true, gen: genC01, exec: execC01,
		rule: "a case is 2-4 client programs of 2-12 library calls over own values, with shared read-only Go data and option values, run cold or after a history, under one seeded schedule; reference: each program alone in a fresh process state. Non-trivial: at least two clients were interleaved (>= 2 task switches) and at least 4 calls were compared",
		real: stdReal, stub: stdStub})
	register(&propDef{id: "C02", race: true, plain: true, gen: genC02, exec: execC02,
		rule: "a case is 1-3 shared documents (parsed, edited, imported, with or without a caseless index) and 2-4 clients making 2-12 read calls on them under one seeded schedule; reference: each client alone. Non-trivial: at least two clients were interleaved and a shared document has members",
		real: stdReal, stub: stdStub})
}

func pickKeys(r *R) []string {
	if r.P(65) {
		return keysPlain
	}
	if r.P(12) {
		// long keys that differ at the end only, or one of which begins with the other
		p := longStrOf(r, edgeSize(r, 300))
		ks := []string{"a", p, p + "a", p + "b", p + "0", p + "ab", p[:len(p)/2] + "x" + p[len(p)/2:]}
		for _, k := range ks {
			if !utf8.ValidString(k) {
				return ks[:6]
			}
		}
		return ks
	}
	if r.P(30) {
		// keys of random characters
		var ks []string
		seen := map[string]bool{}
		for len(ks) < 7 {
			if k := randStr(r, r.In(1, 5)); !seen[strings.ToLower(k)] {
				seen[strings.ToLower(k)] = true
				ks = append(ks, k)
			}
		}
		return ks
	}
	return keysOdd
}

// bigger replaces the text of one parse step by a large document now and then.
func bigger(r *R, ops []*Op, p int) {
	if !r.P(p) {
		return
	}
	for _, o := range ops {
		if o.K == "parse" && r.P(50) {
			switch r.N(4) {
			case 0:
				o.S = jArr(jStr(strings.Repeat("long ", r.In(500, 3000))), jStr("x<&>/中")).text(0)
			case 1:
				o.S = strings.Repeat("[", 60) + `{"a":1}` + strings.Repeat("]", 60)
			default:
				n := r.In(20, 250)
				if r.N(25) == 0 {
					n = r.Pick(1024, 2048, 4096) + r.N(100)
				}
				o.S = bigText(r, n, r.N(5))
			}
			return
		}
	}
}

func genData(r *R, c *Case) {
	for n := r.N(4); n > 0; n-- {
		c.Data = append(c.Data, GoSpec{N: r.N(goShapes), S: r.U() % 1000})
	}
}

func genC01(r *R, c *Case, tier string) {
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 4), odd: r.P(60), big: 300}
	genData(r, c)
	for n := r.N(4); n > 0; n-- {
		c.Opts = append(c.Opts, genOpts(r, g.keys, 1, true))
	}
	pg := &ProgGen{g: g, nData: len(c.Data), data: c.Data, nOpts: len(c.Opts), floats: r.P(30)}
	nc := r.In(2, 4)
	ln := r.In(2, 12)
	c.Kind = "independent programs"
	if r.P(30) {
		c.Kind = "like programs"
		pg.only = r.Str(focuses)
		ln += 3
	}
	for i := 0; i < nc; i++ {
		c.Prog = append(c.Prog, pg.prog(r, r.In(2, ln), nil))
	}
	if pg.only == "" && r.P(35) {
		c.Kind = "same program"
		for i := 1; i < nc; i++ {
			c.Prog[i] = c.Prog[0]
		}
	}
	for i := range c.Prog {
		bigger(r, c.Prog[i], 15)
	}
	if pg.only != "" && r.P(70) {
		for i := range c.Prog {
			c.Prog[i] = pg.withMeet(c.Prog[i])
		}
	}
	pg.only = ""
	if r.P(35) {
		c.Pre = pg.prog(r, r.In(1, 10), nil)
		bigger(r, c.Pre, 20)
	}
	genSim(r, c)
	if tier == "thorough" && r.P(20) {
		for i := range c.Prog {
			c.Prog[i] = append(c.Prog[i], pg.prog(r, r.In(4, 20), nil)...)
		}
	}
}

// newEnv makes a client's environment with fresh shared data.
type sharedIn struct {
	data []interface{}
	opts [][]jsonvalue.Option
}

func makeShared(c *Case) *sharedIn {
	s := &sharedIn{}
	for _, d := range c.Data {
		s.data = append(s.data, goData(d))
	}
	for _, os := range c.Opts {
		s.opts = append(s.opts, libOpts(os))
	}
	return s
}

func (s *sharedIn) env(c *Case) *Env {
	e := &Env{data: s.data, opts: s.opts, optsO: c.Opts}
	if len(e.data) == 0 {
		e.data = []interface{}{nil}
	}
	return e
}

func runProg(e *Env, ops []*Op) []string {
	out := make([]string, len(ops))
	for i, o := range ops {
		out[i] = e.run(o)
	}
	return out
}

func none() {}

// soloOf runs program k alone as the k-th task of a fresh process state.
func soloOf(c *Case, o *Outcome, k, n int, f func()) {
	cl := make([]func(), n)
	for i := range cl {
		cl[i] = none
	}
	cl[k] = f
	cfg := simrt.Config{Seed: 1, Strategy: simrt.StratSerial, MapMode: c.Cfg.MapMode, MapSeed: c.Cfg.MapSeed, MaxSteps: c.Cfg.MaxSteps}
	o.sim(cfg, false, cl)
}

func execC01(c *Case, o *Outcome) {
	n := len(c.Prog)
	if n == 0 {
		return
	}
	simrt.ResetAll()
	sh := makeShared(c)
	before := make([]string, len(sh.data))
	for i, d := range sh.data {
		before[i] = plainJSON(d)
	}
	if len(c.Pre) > 0 {
		soloOf(c, o, 0, 1, func() { runProg(sh.env(c), c.Pre) })
	}
	got := make([][]string, n)
	clients := make([]func(), n)
	bar := &simsync.Barrier{}
	for i := range clients {
		i := i
		env := sh.env(c)
		if meets(c.Prog[i]) {
			bar.N++
			env.meet = bar.Meet
		}
		clients[i] = func() { got[i] = runProg(env, c.Prog[i]) }
	}
	res := o.sim(c.Cfg, true, clients)
	if o.Viol != nil {
		return
	}
	for i, d := range sh.data {
		if t := plainJSON(d); t != before[i] {
			o.fail("input", "shared read-only Go data was changed: before %s, after %s", clip(before[i], 500), clip(t, 500))
			return
		}
	}
	compared := 0
	for i := range c.Prog {
		simrt.ResetAll()
		fresh := makeShared(c)
		var want []string
		soloOf(c, o, i, n, func() { want = runProg(fresh.env(c), c.Prog[i]) })
		if o.Viol != nil {
			return
		}
		compared += compareRuns(o, i, c.Prog[i], want, got[i])
	}
	o.done(res.Switches >= 2 && compared >= 4, c)
	if res.LibTasks > 0 {
		o.probe("library goroutines ran")
	}
	if len(c.Pre) > 0 {
		o.probe("warm start")
	}
}

func compareRuns(o *Outcome, client int, ops []*Op, want, got []string) int {
	for k, op := range ops {
		if k >= len(got) || k >= len(want) {
			o.fail("result", "client %d ended early", client)
			return k
		}
		o.digest(got[k])
		if strings.HasPrefix(want[k], "PANIC") || strings.HasPrefix(got[k], "PANIC") {
			o.fail("panic", "client %d, call %d %s:\n  alone:       %s\n  interleaved: %s", client, k, clip(op.String(), 800), clip(want[k], 500), clip(got[k], 500))
			return k
		}
		if want[k] != got[k] {
			o.fail("result", "client %d, call %d %s returned something else than when the client runs alone:\n  alone:       %s\n  interleaved: %s",
				client, k, clip(op.String(), 800), clip(want[k], 900), clip(got[k], 900))
			return k
		}
	}
	return len(ops)
}

// ---- C02 ----

func genC02(r *R, c *Case, tier string) {
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 4), odd: r.P(60), big: 300, huge: 300, most: 2100}
	c.Kind = "readers"
	c.N = []int{r.N(2)} // 1: nothing is read from the documents before the clients start
	var shared []*J
	for n := r.In(1, 3); n > 0; n-- {
		j := g.container(r, r.In(1, 3))
		text := j.text(r.style())
		var edits []*TOp
		for k := r.N(5); k > 0; k-- {
			t := g.genTOp(r, j, "wsc", 0)
			m := j.clone()
			if res := t.tryModel(m); res.E == "" {
				j = m
				edits = append(edits, t)
			}
		}
		if r.P(15) && j.T == 'o' {
			t := &TOp{K: "set", P: Path{E: []Elem{sE("weird")}}, V: &Val{T: []string{"NaN", "+Inf"}[r.N(2)]}}
			edits = append(edits, t)
			j.set("weird", t.V.model())
		}
		c.Texts = append(c.Texts, text)
		c.Ops = append(c.Ops, edits)
		shared = append(shared, j)
	}
	genData(r, c)
	if r.P(40) {
		// a document imported from Go data
		c.S = append(c.S, "import")
		c.Data = append(c.Data, GoSpec{N: r.Pick(0, 1, 2, 4, 5, 10, 12), S: r.U() % 1000})
		shared = append(shared, nil)
	}
	for n := r.N(3); n > 0; n-- {
		c.Opts = append(c.Opts, genOpts(r, g.keys, 1, true))
	}
	pg := &ProgGen{g: g, nShared: len(shared), nData: len(c.Data), data: c.Data, nOpts: len(c.Opts), floats: true}
	ln := r.In(2, 12)
	nc := r.In(2, 4)
	if r.P(25) {
		c.Kind = "like reads"
		pg.only = r.Str(readFocuses)
	}
	for i := 0; i < nc; i++ {
		var ops []*Op
		for len(ops) < ln {
			k := r.N(len(shared))
			if r.P(75) {
				o := pg.read(r, sharedReg+k, shared[k])
				for t := 0; t < 100 && !pg.wanted(o); t++ {
					o = pg.read(r, sharedReg+k, shared[k])
				}
				ops = append(ops, o)
			} else if pg.only != "" {
				only := pg.only
				pg.only = ""
				ops = append(ops, pg.prog(r, 1, shared)...)
				pg.only = only
			} else {
				ops = append(ops, pg.prog(r, 1, shared)...)
			}
		}
		c.Prog = append(c.Prog, ops)
	}
	if r.P(35) {
		c.Kind = "same reads" // (also of one kind only, now and then)
		for i := 1; i < nc; i++ {
			c.Prog[i] = c.Prog[0]
		}
	}
	genSim(r, c)
}

// buildDocs makes the shared documents (inside a simulated run).
func buildDocs(c *Case, sh *sharedIn) []*jsonvalue.V {
	var docs []*jsonvalue.V
	for i, t := range c.Texts {
		v, err := parseBy(i%3, t)
		if err != nil {
			panic(fmt.Sprintf("document does not parse: %v: %.300s", err, t))
		}
		if i < len(c.Ops) {
			for _, op := range c.Ops[i] {
				op.lib(v)
			}
		}
		docs = append(docs, v)
	}
	for range c.S {
		v, _ := jsonvalue.Import(sh.data[len(sh.data)-1])
		docs = append(docs, v)
	}
	return docs
}

func identities(docs []*jsonvalue.V) []map[string]*jsonvalue.V {
	var out []map[string]*jsonvalue.V
	for _, d := range docs {
		m := map[string]*jsonvalue.V{}
		ptrs(d, m, "")
		out = append(out, m)
	}
	return out
}

func execC02(c *Case, o *Outcome) {
	n := len(c.Prog)
	if n == 0 {
		return
	}
	simrt.ResetAll()
	sh := makeShared(c)
	var docs []*jsonvalue.V
	var snap, dmp []string
	var ids []map[string]*jsonvalue.V
	soloOf(c, o, 0, 1, func() {
		docs = buildDocs(c, sh)
		// the state is described on an equal second copy, so that nothing was
		// read from the documents before the clients start
		twin := buildDocs(c, makeShared(c))
		for _, d := range twin {
			snap = append(snap, snapshot(d))
			dmp = append(dmp, vtext(d))
		}
		if c.NN(0) == 0 {
			ids = identities(docs)
		}
	})
	if o.Viol != nil {
		return
	}
	got := make([][]string, n)
	clients := make([]func(), n)
	for i := range clients {
		i := i
		clients[i] = func() {
			e := sh.env(c)
			e.shared = docs
			got[i] = runProg(e, c.Prog[i])
		}
	}
	res := o.sim(c.Cfg, true, clients)
	if o.Viol != nil {
		return
	}
	soloOf(c, o, 0, 1, func() {
		after := identities(docs)
		if ids == nil {
			ids = after
		}
		for i, d := range docs {
			for p, v := range ids[i] {
				if after[i][p] != v {
					o.fail("identity", "after concurrent reads member %q of document %d is not the same value as before", p, i)
				}
			}
			if len(after[i]) != len(ids[i]) {
				o.fail("content", "document %d has %d values after concurrent reads, %d before", i, len(after[i]), len(ids[i]))
			}
			if s := vtext(d); s != dmp[i] {
				o.fail("content", "document %d changed by reading:\n  before %s\n  after  %s", i, clip(dmp[i], 700), clip(s, 700))
			}
			if s := snapshot(d); s != snap[i] {
				o.fail("content", "document %d changed by reading (marshaled in set order):\n  before %s\n  after  %s", i, clip(snap[i], 700), clip(s, 700))
			}
		}
	})
	if o.Viol != nil {
		return
	}
	compared := 0
	for i := range c.Prog {
		simrt.ResetAll()
		fresh := makeShared(c)
		var own []*jsonvalue.V
		soloOf(c, o, 0, 1, func() { own = buildDocs(c, fresh) })
		if o.Viol != nil {
			return
		}
		var want []string
		soloOf(c, o, i, n, func() {
			e := fresh.env(c)
			e.shared = own
			want = runProg(e, c.Prog[i])
		})
		if o.Viol != nil {
			return
		}
		compared += compareRuns(o, i, c.Prog[i], want, got[i])
	}
	big := false
	for _, m := range ids {
		big = big || len(m) > 2
	}
	o.done(res.Switches >= 2 && compared >= 4 && big, c)
	if res.LibTasks > 0 {
		o.probe("library goroutines ran")
	}
}
