package main

import (
	"time"

	"verif.local/sim/simrt"
)

// shrink makes a violating case smaller while the same class of violation
// remains: first the work and the faults, then the schedule.
func shrink(c *Case, class string, budget time.Duration, test func(*Case) *Outcome) (*Case, *Outcome, int) {
	end := time.Now().Add(budget)
	tries := 0
	var bestOut *Outcome
	try := func(n *Case) bool {
		if time.Now().After(end) || tries > 3000 {
			return false
		}
		tries++
		o := test(cloneCase(n))
		if o != nil && o.Viol != nil && o.Viol.Class == class {
			bestOut = o
			return true
		}
		return false
	}
	cur := cloneCase(c)
	if !try(cur) {
		return c, nil, tries
	}
	out := bestOut

	// attempt a candidate under the current and a few other schedules
	attempt := func(n *Case) bool {
		if try(n) {
			cur, out = n, bestOut
			return true
		}
		if n.Cfg.Strategy == simrt.StratReplay || n.Cfg.Strategy == simrt.StratSerial {
			return false
		}
		for k := uint64(1); k <= 3; k++ {
			m := cloneCase(n)
			m.Cfg.Seed = simrt.Hash(c.Cfg.Seed, k)
			if try(m) {
				cur, out = m, bestOut
				return true
			}
		}
		return false
	}

	// simplest schedule first
	if cur.Cfg.Strategy != simrt.StratSerial {
		n := cloneCase(cur)
		n.Cfg.Strategy = simrt.StratSerial
		attempt(n)
	}
	for round := 0; round < 4; round++ {
		before := string(caseJSON(cur))
		if len(cur.Cfg.Faults) > 0 {
			n := cloneCase(cur)
			n.Cfg.Faults = nil
			if !attempt(n) {
				dropEach(func(i int) bool {
					if i >= len(cur.Cfg.Faults) {
						return false
					}
					n := cloneCase(cur)
					n.Cfg.Faults = append(n.Cfg.Faults[:i], n.Cfg.Faults[i+1:]...)
					return attempt(n)
				}, func() int { return len(cur.Cfg.Faults) })
			}
		}
		n := cloneCase(cur)
		n.Cfg.MapMode, n.Cfg.PoolMode, n.Cfg.StallP = 0, 0, 0
		attempt(n)
		// whole lists, then chunks, then single elements
		shrinkList(func() int { return len(cur.Pre) }, func(i, j int) *Case {
			n := cloneCase(cur)
			n.Pre = append(n.Pre[:i:i], n.Pre[j:]...)
			return n
		}, attempt)
		for k := 0; k < len(cur.Prog); k++ {
			k := k
			shrinkList(func() int { return len(cur.Prog[k]) }, func(i, j int) *Case {
				n := cloneCase(cur)
				n.Prog[k] = append(n.Prog[k][:i:i], n.Prog[k][j:]...)
				return n
			}, attempt)
		}
		for k := 0; k < len(cur.Ops); k++ {
			k := k
			shrinkList(func() int { return len(cur.Ops[k]) }, func(i, j int) *Case {
				n := cloneCase(cur)
				n.Ops[k] = append(n.Ops[k][:i:i], n.Ops[k][j:]...)
				return n
			}, attempt)
		}
		shrinkList(func() int { return len(cur.Acts) }, func(i, j int) *Case {
			n := cloneCase(cur)
			n.Acts = append(n.Acts[:i:i], n.Acts[j:]...)
			return n
		}, attempt)
		// options
		for k := range cur.Prog {
			for i := range cur.Prog[k] {
				for len(cur.Prog[k]) > i && len(cur.Prog[k][i].O) > 0 {
					n := cloneCase(cur)
					n.Prog[k][i].O = n.Prog[k][i].O[1:]
					if !attempt(n) {
						break
					}
				}
			}
		}
		// texts: try simpler documents
		for k := range cur.Texts {
			for again := true; again && time.Now().Before(end); {
				again = false
				for _, s := range simplerTexts(cur.Texts[k]) {
					n := cloneCase(cur)
					n.Texts[k] = s
					if attempt(n) {
						again = true
						break
					}
				}
			}
		}
		if string(caseJSON(cur)) == before || time.Now().After(end) {
			break
		}
	}

	// the schedule: record, then drop switches
	if out != nil && !out.Overflow && len(out.Segs) > 0 && cur.Cfg.Strategy != simrt.StratSerial {
		n := cloneCase(cur)
		n.Cfg.Strategy = simrt.StratReplay
		n.Cfg.Segs = out.Segs
		if try(n) {
			cur, out = n, bestOut
			shrinkList(func() int { return len(cur.Cfg.Segs) }, func(i, j int) *Case {
				n := cloneCase(cur)
				n.Cfg.Segs = append(n.Cfg.Segs[:i:i], n.Cfg.Segs[j:]...)
				return n
			}, func(n *Case) bool {
				if try(n) {
					cur, out = n, bestOut
					return true
				}
				return false
			})
		}
	}
	return cur, out, tries
}

func dropEach(drop func(i int) bool, n func() int) {
	for i := 0; i < n(); {
		if !drop(i) {
			i++
		}
	}
}

// shrinkList removes ranges of a list, large ones first.
func shrinkList(length func() int, without func(i, j int) *Case, attempt func(*Case) bool) {
	for size := length(); size >= 1; size /= 2 {
		for i := 0; i < length(); {
			j := i + size
			if j > length() {
				j = length()
			}
			if !attempt(without(i, j)) {
				i = j
			}
		}
	}
}

// simplerTexts proposes smaller documents.
func simplerTexts(s string) []string {
	j, _, err := parseJSONDup(s)
	if err != nil || len(s) > 100000 {
		if len(s) > 8 {
			return []string{s[:len(s)/2], s[len(s)/2:], s[:len(s)-1], s[1:]}
		}
		return nil
	}
	out := []string{}
	add := func(j *J) {
		if t := j.text(0); len(t) < len(s) {
			out = append(out, t)
		}
	}
	add(j)
	if j.T == 's' && len(j.S) > 1 {
		add(jStr("x"))
	}
	// all places of the document, outermost first
	type place struct {
		parent *J
		i      int
		k      string
	}
	var places []place
	get := func(p place) *J {
		if p.parent.T == 'a' {
			return p.parent.A[p.i]
		}
		return p.parent.M[p.k]
	}
	put := func(p place, x *J) {
		if p.parent.T == 'a' {
			p.parent.A[p.i] = x
		} else {
			p.parent.M[p.k] = x
		}
	}
	queue := []*J{j}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		for i, y := range x.A {
			places = append(places, place{x, i, ""})
			queue = append(queue, y)
		}
		if x.T == 'o' {
			for _, k := range x.K {
				places = append(places, place{x, 0, k})
				queue = append(queue, x.M[k])
			}
		}
	}
	step := len(places)/60 + 1
	for i := len(places) - 1; i >= 0; i -= step { // a part instead of the whole
		if x := get(places[i]); x.T == 'a' || x.T == 'o' {
			add(x)
		}
	}
	for i := 0; i < len(places); i += step { // without one member
		p := places[i]
		if p.parent.T == 'a' {
			old := p.parent.A
			p.parent.A = append(append([]*J{}, old[:p.i]...), old[p.i+1:]...)
			add(j)
			p.parent.A = old
		} else {
			keys, x := p.parent.K, p.parent.M[p.k]
			p.parent.K = append([]string{}, keys...)
			p.parent.del(p.k)
			add(j)
			p.parent.K, p.parent.M[p.k] = keys, x
		}
	}
	for i := 0; i < len(places); i += step { // one simpler member
		p := places[i]
		x := get(p)
		switch {
		case x.T == 'a' && len(x.A) > 0:
			put(p, x.A[len(x.A)-1])
		case x.T == 'o' && len(x.K) > 0:
			put(p, x.M[x.K[len(x.K)-1]])
		case x.T == 's' && len(x.S) > 1:
			put(p, jStr("x"))
		default:
			continue
		}
		add(j)
		put(p, x)
	}
	return out
}
