package main

import (
	"fmt"
	"time"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
	sync "verif.local/sim/simsync"
)

// C09: channel iterators. Clients iterate over shared and own documents at
// every pace, together, and stop at chosen points.

func init() {
	register(&propDef{id: "C09", race: true, plain: true, gen: genC09, exec: execC09,
		rule: "a case is 1-3 shared documents (objects, arrays, other values; 0-300 members), 1-4 clients and 2-10 acts each: drain, drain slowly, stop after k members, hold several iterators at once, share one iterator with another client, change an own document between iterations, under one seeded schedule; checked: members delivered exactly once, in index order for arrays, with their own key and value, the channel closed after them and never before, and no goroutine left at the end. Non-trivial: at least 3 members were delivered and at least two tasks were interleaved",
		real: stdReal, stub: stdStub})
}

func genC09(r *R, c *Case, tier string) {
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 6), odd: r.P(40), big: 600, huge: 500, most: 5000}
	c.Kind = "iterators"
	nd := r.In(1, 3)
	for i := 0; i < nd; i++ {
		var j *J
		switch r.W(30, 30, 12, 10, 8, 10) {
		case 0:
			j = g.object(r, 2)
		case 1:
			j = jArr()
			for n := r.N(9); n > 0; n-- {
				j.A = append(j.A, g.tree(r, 1))
			}
		case 2:
			j = jObj()
			for n := r.N(r.Pick(20, 60, 200)); n > 0; n-- {
				j.set(fmt.Sprint("k", r.N(300)), jInt(n))
			}
		case 3:
			j = jArr()
			for n := r.N(r.Pick(20, 60, 200)); n > 0; n-- {
				j.A = append(j.A, jInt(n))
			}
		case 4:
			j = g.scalar(r)
		default:
			j = []*J{jObj(), jArr()}[r.N(2)]
		}
		if r.N(800) == 0 {
			j = g.hugeDoc(r)
		}
		c.Texts = append(c.Texts, j.text(0))
	}
	nc := r.In(1, 4)
	c.N = []int{nc}
	for i := 0; i < nc; i++ {
		own := g.container(r, 2)
		c.Texts = append(c.Texts, own.text(0))
		var ops []*TOp
		for n := r.In(2, 8); n > 0; n-- {
			// A client, B document (-1: own), C kind of iterator (bit 0) and parameters
			a := Act{A: i, B: r.N(nd+1) - 1, C: r.N(2)}
			switch r.W(30, 20, 12, 10, 12, 16) {
			case 0:
				a.K = "drain"
			case 1:
				a.K = "slow"
				a.C |= r.In(1, 5) << 1
			case 2:
				a.K = "stop"
				a.C |= r.N(6) << 1
				if a.B < 0 {
					a.B = 0 // an abandoned iterator goes on reading: not on values that change
				}
			case 3:
				a.K = "both"
				a.C |= r.N(nd) << 1
			case 4:
				a.K = "share"
				a.C |= r.In(1, 3) << 1
			default:
				a.K = "edit"
				t := g.genTOp(r, own, "ws", 0)
				a.C = len(ops)
				ops = append(ops, t)
				m := own.clone()
				if res := t.tryModel(m); res.E == "" {
					own = m
				}
			}
			c.Acts = append(c.Acts, a)
		}
		c.Ops = append(c.Ops, ops)
	}
	genSim(r, c)
}

type c09Doc struct {
	v   *jsonvalue.V
	j   *J
	obj map[string]*jsonvalue.V
	arr []*jsonvalue.V
}

func newC09Doc(v *jsonvalue.V, j *J) *c09Doc {
	d := &c09Doc{v: v, j: j}
	if j.T == 'o' {
		d.obj = map[string]*jsonvalue.V{}
		for _, k := range j.K {
			d.obj[k] = v.MustGet(k)
		}
	}
	if j.T == 'a' {
		for i := range j.A {
			d.arr = append(d.arr, v.MustGet(i))
		}
	}
	return d
}

// c09It is one iterator and what it delivered.
type c09It struct {
	d    *c09Doc
	arr  bool
	objC <-chan *jsonvalue.ObjectIter
	arrC <-chan *jsonvalue.ArrayIter
	seen map[string]int
	n    int
	last int
	bad  string
	end  bool
}

func openC09(d *c09Doc, arr bool) *c09It {
	it := &c09It{d: d, arr: arr, seen: map[string]int{}, last: -1}
	if arr {
		it.arrC = d.v.IterArray()
	} else {
		it.objC = d.v.IterObjects()
	}
	return it
}

// recv takes one member from the channel; false: it is closed.
func (it *c09It) recv() (key string, idx int, v *jsonvalue.V, ok bool, bad string) {
	if it.arr {
		x, ok := simrt.Recv2(it.arrC)
		if !ok {
			return "", 0, nil, false, ""
		}
		if x == nil {
			return "", 0, nil, true, "a nil item was delivered"
		}
		return fmt.Sprint(x.I), x.I, x.V, true, ""
	}
	x, ok := simrt.Recv2(it.objC)
	if !ok {
		return "", 0, nil, false, ""
	}
	if x == nil {
		return "", 0, nil, true, "a nil item was delivered"
	}
	return x.K, 0, x.V, true, ""
}

// take receives one member and checks it.
func (it *c09It) take() bool {
	k, i, v, ok, bad := it.recv()
	if !ok {
		it.close()
		return false
	}
	if bad != "" {
		it.note(bad)
		return true
	}
	it.member(k, i, v)
	if it.arr {
		if i != it.last+1 {
			it.note(fmt.Sprintf("index %d delivered after %d", i, it.last))
		}
		it.last = i
	}
	return true
}

func (it *c09It) note(s string) {
	if it.bad == "" {
		it.bad = s
	}
}

func (it *c09It) member(k string, i int, v *jsonvalue.V) {
	it.n++
	it.seen[k]++
	if it.seen[k] > 1 {
		it.note(fmt.Sprintf("member %q was delivered twice", k))
	}
	var want *jsonvalue.V
	if it.arr {
		if i < 0 || i >= len(it.d.arr) {
			it.note(fmt.Sprintf("index %d was delivered of %d", i, len(it.d.arr)))
			return
		}
		want = it.d.arr[i]
	} else {
		want = it.d.obj[k]
	}
	if want == nil {
		it.note(fmt.Sprintf("unknown member %q was delivered", k))
	} else if want != v {
		it.note(fmt.Sprintf("member %q was delivered with the value of another one: %s", k, clip(vtext(v), 200)))
	}
}

func (it *c09It) want() int {
	if it.arr {
		return len(it.d.arr)
	}
	return len(it.d.obj)
}

func (it *c09It) close() {
	it.end = true
	if it.n != it.want() {
		it.note(fmt.Sprintf("the channel was closed after %d of %d members", it.n, it.want()))
	}
	// it stays closed
	if _, _, _, ok, _ := it.recv(); ok {
		it.note("a member was delivered after the channel was closed")
	}
}

func execC09(c *Case, o *Outcome) {
	simrt.ResetAll()
	nc := c.NN(0)
	nd := len(c.Texts) - nc
	if nc == 0 || nd < 1 {
		return
	}
	var docs []*c09Doc
	own := make([]*c09Doc, nc)
	soloOf(c, o, 0, 1, func() {
		for i, t := range c.Texts {
			j, err := parseJSON(t)
			if err != nil {
				panic(err)
			}
			v, err := jsonvalue.UnmarshalString(t)
			if err != nil {
				o.fail("content", "a valid document was refused: %v", err)
				return
			}
			d := newC09Doc(v, j)
			if i < nd {
				docs = append(docs, d)
			} else {
				own[i-nd] = d
			}
		}
	})
	if o.Viol != nil {
		return
	}
	viol := make([]string, nc)
	count := make([]int, nc)
	stops := make([]int64, nc)
	slow := make([]int64, nc)
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		clients[i] = func() {
			if t := guard(func() { c09Client(c, i, docs, own, &viol[i], &count[i], &stops[i], &slow[i]) }); t != "" && viol[i] == "" {
				viol[i] = "panic: " + t
			}
		}
	}
	res := o.sim(c.Cfg, true, clients)
	total := 0
	for i := range viol {
		total += count[i]
		if viol[i] != "" {
			o.fail("iterator", "client %d: %s", i, viol[i])
		}
		if stops[i] > 0 {
			o.faultN("consumer-stopped-early", stops[i])
		}
		if slow[i] > 0 {
			o.faultN("consumer-slow", slow[i])
		}
		o.digest(fmt.Sprint(count[i]))
	}
	if o.Viol == nil {
		soloOf(c, o, 0, 1, func() {
			for _, d := range append(append([]*c09Doc{}, docs...), own...) {
				if got := vtext(d.v); got != d.j.canon(true) {
					o.fail("content", "a document changed by iterating from %s to %s", clip(d.j.canon(true), 400), clip(got, 400))
				}
			}
		})
	}
	if res.LibTasks > 0 {
		o.probe("library goroutines ran")
	}
	o.done(total >= 3 && res.Switches >= 2, c)
}

func c09Client(c *Case, me int, docs, own []*c09Doc, viol *string, count *int, stops, slow *int64) {
	for n, a := range c.Acts {
		if a.A != me || *viol != "" {
			continue
		}
		d := own[me]
		if a.B >= 0 {
			d = docs[a.B%len(docs)]
		}
		arr := a.C&1 != 0
		par := a.C >> 1
		name := fmt.Sprintf("act %d %s of %s", n, a.K, clip(d.j.canon(true), 200))
		var its []*c09It
		switch a.K {
		case "drain":
			it := openC09(d, arr)
			its = append(its, it)
			for it.take() {
			}
		case "slow":
			it := openC09(d, arr)
			its = append(its, it)
			for it.take() {
				if it.n < 10 {
					for k := 0; k < par; k++ {
						simrt.Gosched()
					}
					simrt.TimeSleep(time.Duration(par) * time.Millisecond)
					*slow++
				}
			}
		case "stop":
			it := openC09(d, arr)
			its = append(its, it)
			for it.n < par && it.take() {
			}
			if !it.end {
				*stops++
			}
		case "both":
			x, y := openC09(d, arr), openC09(docs[par%len(docs)], !arr)
			z := openC09(d, arr)
			its = append(its, x, y, z)
			for more := true; more; {
				more = false
				for _, it := range its {
					if !it.end && it.take() {
						more = true
					}
				}
			}
		case "share":
			it := openC09(d, arr)
			its = append(its, it)
			var wg sync.WaitGroup
			type got struct {
				k   string
				i   int
				v   *jsonvalue.V
				bad string
			}
			lists := make([][]got, par+1)
			for w := range lists {
				w := w
				wg.Add(1)
				simrt.Go(func() {
					defer wg.Done()
					for {
						k, i, v, ok, bad := it.recv()
						if !ok {
							return
						}
						lists[w] = append(lists[w], got{k, i, v, bad})
						if w%2 == 1 {
							simrt.Gosched()
						}
					}
				})
			}
			wg.Wait()
			for _, l := range lists {
				last := -1
				for _, g := range l {
					if g.bad != "" {
						it.note(g.bad)
						continue
					}
					it.member(g.k, g.i, g.v)
					if arr && g.i <= last {
						it.note(fmt.Sprintf("one receiver got index %d after %d", g.i, last))
					}
					last = g.i
				}
			}
			it.close()
		case "edit":
			if me >= len(c.Ops) || a.C >= len(c.Ops[me]) {
				continue
			}
			t := c.Ops[me][a.C]
			d = own[me]
			m := d.j.clone()
			want := t.tryModel(m)
			if want.E == skipRes {
				continue
			}
			if want.E == "" {
				d.j = m
			}
			if got := t.lib(d.v); !t.agree(want, got) {
				*viol = fmt.Sprintf("act %d %s returned %s, expected %s", n, t, clip(got.String(), 300), clip(want.String(), 300))
				return
			}
			*d = *newC09Doc(d.v, d.j)
		}
		for _, it := range its {
			*count += it.n
			if it.bad != "" {
				*viol = name + ": " + it.bad
			}
		}
	}
}
