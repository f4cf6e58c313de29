package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
)

// C03: the default marshal options as one atomic register. Clients set, reset and
// read (by marshaling); every read's result is compared with what the library
// gives under each default, alone in a fresh process state, and the history must
// be linearizable.

func init() {
	register(&propDef{id: "C03", race: true, plain: true, gen: genC03, exec: execC03,
		rule: "a case is 2-4 clients making 12-16 calls in all: SetDefaultMarshalOptions, ResetDefaultMarshalOptions and marshals of shared and own values in eight forms with call options, under one seeded schedule; reference: the same call under each default alone in a fresh process, the same options given per call, a model of the options, and a linearizability search over the recorded history. Non-trivial: at least two calls overlapped and at least one default was set",
		real: stdReal, stub: stdStub})
}

var c03Forms = []string{"marshal", "string", "must", "muststring", "mjson", "json", "export", "import", "binary", "jsonstruct"}

func genC03(r *R, c *Case, tier string) {
	c.Kind = "setters and readers"
	g := &genCfg{keys: pickKeys(r), width: r.In(2, 5), odd: true, big: 60, most: 4096}
	for n := r.In(1, 3); n > 0; n-- {
		j := g.object(r, r.In(1, 2))
		if r.N(500) == 0 {
			for j = g.hugeDoc(r); j.T != 'o'; {
				j = g.hugeDoc(r)
			}
		}
		if r.P(40) {
			j.set("n0", jNull())
		}
		if r.P(40) {
			j.set("s/", jStr("<a&b>/中\u2028"))
		}
		v := &Val{T: j.text(0)}
		if r.P(30) {
			v.F = 100 + r.N(3) // a NaN or infinite member is added
		}
		c.Vals = append(c.Vals, v)
	}
	for n := r.In(1, 3); n > 0; n-- {
		c.Opts = append(c.Opts, genOpts(r, append([]string{"n0", "s/", "float"}, g.keys...), 1, true))
		if r.P(25) {
			i := len(c.Opts) - 1
			c.Opts[i] = append(c.Opts[i], O{K: "omitempty"})
		}
		if len(c.Opts[len(c.Opts)-1]) == 0 && r.P(60) {
			c.Opts[len(c.Opts)-1] = []O{{K: "set"}}
		}
	}
	nc := r.In(2, 4)
	total := r.In(5, 14)
	own := r.P(30) // readers with option lists of their own, written in place by nobody
	for i := 0; i < total; i++ {
		a := Act{A: r.N(nc)}
		switch r.W(25, 10, 65) {
		case 0:
			a.K, a.B = "set", r.N(len(c.Opts))
		case 1:
			a.K = "reset"
		default:
			a.K, a.B, a.S = "read", r.N(len(c.Vals)), r.Str(c03Forms)
			if r.P(40) && own || r.P(20) {
				a.C = 1 + r.N(len(c.Opts))
			}
		}
		c.Acts = append(c.Acts, a)
	}
	if r.P(30) {
		for n := r.In(1, 4); n > 0; n-- {
			c.N = append(c.N, r.N(len(c.Opts)+1)) // defaults set before the clients start (0: reset)
		}
	}
	genSim(r, c)
}

type c03Struct struct {
	A int               `json:"a,omitempty"`
	B string            `json:"b,omitempty"`
	C []int             `json:"c,omitempty"`
	D map[string]string `json:"d,omitempty"`
	E *c03Struct        `json:"e,omitempty"`
	F bool              `json:"f"`
}

func c03Val(x *Val) *jsonvalue.V {
	v := jsonvalue.MustUnmarshalString(x.T)
	switch x.F {
	case 100:
		v.MustSet(jsonvalue.New(goNaN)).At("float")
	case 101:
		v.MustSet(jsonvalue.New(goInf)).At("float")
	case 102:
		v.MustSet(jsonvalue.New(-goInf)).At("list", 0)
	}
	return v
}

func c03Model(x *Val) *J {
	j, err := parseJSON(x.T)
	if err != nil {
		panic(err)
	}
	switch x.F {
	case 100:
		j.set("float", jFloat(goNaN))
	case 101:
		j.set("float", jFloat(goInf))
	case 102:
		if l, ok := j.M["list"]; ok && l.T != 'a' {
			return j
		}
		jSet(j, []Elem{sE("list"), iE(0)}, jFloat(-goInf))
	}
	return j
}

// c03Read makes one marshaling call.
func c03Read(v *jsonvalue.V, form string, opts []jsonvalue.Option) (b []byte, err error) {
	switch form {
	case "string":
		s, err := v.MarshalString(opts...)
		return []byte(s), err
	case "must":
		if t := guard(func() { b = v.MustMarshal(opts...) }); t != "" {
			return nil, fmt.Errorf("%s", t)
		}
		return b, nil
	case "muststring":
		s := ""
		if t := guard(func() { s = v.MustMarshalString(opts...) }); t != "" {
			return nil, fmt.Errorf("%s", t)
		}
		return []byte(s), nil
	case "mjson":
		return v.MarshalJSON()
	case "binary":
		return v.MarshalBinary()
	case "json":
		return json.Marshal(v)
	case "jsonstruct":
		return json.Marshal(struct {
			X int
			V *jsonvalue.V
		}{1, v})
	case "export":
		var x interface{}
		if err := v.Export(&x); err != nil {
			return nil, err
		}
		return json.Marshal(x)
	case "import":
		x, err := jsonvalue.Import(&c03Struct{F: true, E: &c03Struct{A: 1}}, opts...)
		if err != nil {
			return nil, err
		}
		return []byte(vtext(x)), nil
	}
	return v.Marshal(opts...)
}

// c03Out describes a result: exact is used when the member order is requested.
type c03Out struct {
	err    bool
	exact  string
	sorted string // content and spelling without regard to member order
}

func c03OutOf(b []byte, err error) c03Out {
	if err != nil {
		o := c03Out{err: true}
		if len(b) > 0 {
			o.exact = "bytes with an error: " + string(b)
		}
		return o
	}
	o := c03Out{exact: string(b)}
	j, perr := parseJSON(string(b))
	if perr != nil {
		o.sorted = "no JSON: " + string(b)
		return o
	}
	s := append([]byte{}, b...)
	sort.Slice(s, func(i, k int) bool { return s[i] < s[k] })
	o.sorted = j.canon(false) + "|" + string(s)
	return o
}

func (a c03Out) same(b c03Out, ordered bool) bool {
	if a.err || b.err {
		return a.err == b.err && a.exact == "" && b.exact == ""
	}
	if ordered {
		return a.exact == b.exact
	}
	return a.sorted == b.sorted
}

func (a c03Out) String() string {
	if a.err {
		return "an error " + a.exact
	}
	return clip(a.exact, 400)
}

func c03CallOpts(c *Case, a Act) []O {
	if a.C == 0 || a.C > len(c.Opts) {
		return nil
	}
	switch a.S {
	case "mjson", "json", "export", "binary", "jsonstruct":
		return nil
	}
	return c.Opts[a.C-1]
}

type c03Event struct {
	act      Act
	inv, ret int64
	out      c03Out
	ok       []bool // per default (0: none)
}

func execC03(c *Case, o *Outcome) {
	simrt.ResetAll()
	nv := len(c.Vals)
	if nv == 0 {
		return
	}
	opts := make([][]jsonvalue.Option, len(c.Opts))
	for i := range c.Opts {
		opts[i] = libOpts(c.Opts[i])
	}
	vals := make([]*jsonvalue.V, nv)
	start := 0
	soloOf(c, o, 0, 1, func() {
		for i, x := range c.Vals {
			vals[i] = c03Val(x)
		}
		for _, n := range c.N {
			if n == 0 || n > len(opts) {
				jsonvalue.ResetDefaultMarshalOptions()
				start = 0
			} else {
				jsonvalue.SetDefaultMarshalOptions(opts[n-1]...)
				start = n
			}
		}
	})
	nc := 0
	for _, a := range c.Acts {
		if a.A+1 > nc {
			nc = a.A + 1
		}
	}
	events := make([][]*c03Event, nc)
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		clients[i] = func() {
			for _, a := range c.Acts {
				if a.A != i {
					continue
				}
				e := &c03Event{act: a, inv: simrt.Tick()}
				switch a.K {
				case "set":
					os := opts[a.B%len(opts)]
					if len(events[i])%2 == 0 {
						// a slice that the caller uses again for something else
						os = append([]jsonvalue.Option{}, os...)
						jsonvalue.SetDefaultMarshalOptions(os...)
						for n := range os {
							os[n] = jsonvalue.OptIndent("@", "@")
						}
						break
					}
					jsonvalue.SetDefaultMarshalOptions(os...)
				case "reset":
					jsonvalue.ResetDefaultMarshalOptions()
				default:
					var co []jsonvalue.Option
					if c03CallOpts(c, a) != nil {
						co = opts[a.C-1]
					}
					b, err := c03Read(vals[a.B%nv], a.S, co)
					e.out = c03OutOf(b, err)
				}
				e.ret = simrt.Tick()
				events[i] = append(events[i], e)
			}
		}
	}
	res := o.sim(c.Cfg, true, clients)
	if o.Viol != nil {
		return
	}
	var all []*c03Event
	for _, es := range events {
		all = append(all, es...)
	}
	sort.Slice(all, func(i, k int) bool { return all[i].inv < all[k].inv })

	// what each read gives under each default
	type key struct {
		v, c int
		s    string
		d    int
	}
	memo := map[key]c03Out{}
	under := func(a Act, d int) c03Out {
		k := key{a.B % nv, a.C, a.S, d}
		if out, ok := memo[k]; ok {
			return out
		}
		co := c03CallOpts(c, a)
		x := c.Vals[a.B%nv]
		var out, per c03Out
		var direct []byte
		var derr error
		simrt.ResetAll()
		soloOf(c, o, 0, 1, func() {
			v := c03Val(x)
			if d > 0 {
				jsonvalue.SetDefaultMarshalOptions(libOpts(c.Opts[d-1])...)
			}
			b, err := c03Read(v, a.S, libOpts(co))
			out = c03OutOf(b, err)
			jsonvalue.ResetDefaultMarshalOptions()
			all := []O{}
			if d > 0 {
				all = append(all, c.Opts[d-1]...)
			}
			direct, derr = v.Marshal(libOpts(append(all, co...))...)
			per = c03OutOf(direct, derr)
		})
		simrt.ResetAll()
		memo[k] = out
		if o.Viol != nil {
			return out
		}
		var dOpts []O
		if d > 0 {
			dOpts = c.Opts[d-1]
		}
		st := (&oState{}).apply(dOpts).apply(co)
		nulls := st.omit && (st.nan == "null" || st.inf == "null") && x.F >= 100 // unspecified
		switch a.S {
		case "export", "import", "jsonstruct", "json":
		default:
			if a.S == "must" || a.S == "muststring" {
				break
			}
			if !out.same(per, st.order != "") {
				o.fail("default", "%s of %s with the default options %s and call options %s gives %v, but giving all of these options to one call gives %v",
					a.S, clip(x.T, 300), showO(dOpts), showO(co), out, per)
			}
		}
		if !nulls {
			if w := st.check(c03Model(x), direct, derr); w != "" {
				o.fail("options", "Marshal of %s (float %d) with the options %s: %s", clip(x.T, 300), x.F, showO(append(append([]O{}, dOpts...), co...)), w)
			}
		}
		return out
	}
	sets := 0
	for _, e := range all {
		if e.act.K != "read" {
			sets++
			continue
		}
		e.ok = make([]bool, len(c.Opts)+1)
		any := false
		for d := range e.ok {
			var dOpts []O
			if d > 0 {
				dOpts = c.Opts[d-1]
			}
			co := c03CallOpts(c, e.act)
			st := (&oState{}).apply(dOpts).apply(co)
			ordered := st.order != "" && e.act.S != "export"
			e.ok[d] = under(e.act, d).same(e.out, ordered)
			any = any || e.ok[d]
			if o.Viol != nil {
				return
			}
		}
		o.digest(e.out.sorted)
		if !any {
			o.fail("mixed", "%s of %s (float %d, call options %s) gave %v, which no default used in this run gives; without a default: %v",
				e.act.S, clip(c.Vals[e.act.B%nv].T, 300), c.Vals[e.act.B%nv].F, showO(c03CallOpts(c, e.act)), e.out, under(e.act, 0))
			return
		}
	}
	if len(all) > 24 {
		all = all[:24]
	}
	if !c03Lin(all, start, len(c.Opts)) {
		var b strings.Builder
		for _, e := range all {
			fmt.Fprintf(&b, "\n  client %d steps %d-%d: %s", e.act.A, e.inv, e.ret, e.act.K)
			switch e.act.K {
			case "set":
				fmt.Fprintf(&b, " options %d %s", e.act.B%len(c.Opts)+1, showO(c.Opts[e.act.B%len(c.Opts)]))
			case "read":
				var fits []int
				for d, ok := range e.ok {
					if ok {
						fits = append(fits, d)
					}
				}
				fmt.Fprintf(&b, " %s, as under default %v", e.act.S, fits)
			}
		}
		o.fail("stale", "no order of the calls explains the defaults the marshals used (default at the start: %d):%s", start, b.String())
	}
	overlap := false
	for i := 1; i < len(all); i++ {
		overlap = overlap || all[i].inv < all[i-1].ret
	}
	if overlap {
		o.probe("calls overlapped")
	}
	o.done(res.Switches >= 2 && sets > 0 && overlap, c)
}

// c03Lin searches for a linearization: a set of done calls and a current default.
func c03Lin(es []*c03Event, start, nOpts int) bool {
	n := len(es)
	seen := map[[2]int]bool{}
	var dfs func(done, cur int) bool
	dfs = func(done, cur int) bool {
		if done == 1<<n-1 {
			return true
		}
		if seen[[2]int{done, cur}] {
			return false
		}
		seen[[2]int{done, cur}] = true
		first := int64(1) << 62 // no call that began after this may come next
		for i, e := range es {
			if done&(1<<i) == 0 && e.ret < first {
				first = e.ret
			}
		}
		for i, e := range es {
			if done&(1<<i) != 0 || e.inv > first {
				continue
			}
			switch e.act.K {
			case "set":
				if dfs(done|1<<i, e.act.B%nOpts+1) {
					return true
				}
			case "reset":
				if dfs(done|1<<i, 0) {
					return true
				}
			default:
				if e.ok[cur] && dfs(done|1<<i, cur) {
					return true
				}
			}
		}
		return false
	}
	return dfs(0, start)
}

func showO(os []O) string {
	if len(os) == 0 {
		return "none"
	}
	b, _ := json.Marshal(os)
	return clip(string(b), 400)
}

var goNaN, goInf = math.NaN(), math.Inf(1)
