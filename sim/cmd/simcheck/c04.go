package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"syscall"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
)

// C04: parsing under the influence of the process's parsing history.

func init() {
	register(&propDef{id: "C04", race: true, plain: true, gen: genC04, exec: execC04,
		rule: "a case is a history of parses (texts of very different size and density, failing ones, and in volume cases two to nine gigabytes of refused input in large steps, in some of them up to the edge of two or four gigabytes, which the clients then cross) followed by 1-4 clients parsing 2-20 texts under one seeded schedule, values kept and compared again at the end; reference: a strict parser for valid texts, a parse alone in a fresh process for the others. Non-trivial: at least 4 parses were compared and either two clients interleaved or there was a history",
		real: stdReal, stub: stdStub})
}

// c04Text makes texts whose bytes-per-value ratio differs by orders of magnitude.
func c04Text(r *R, g *genCfg) (text string, valid bool) {
	n := r.In(1, 30)
	if r.P(10) {
		n = r.In(100, 800)
	}
	switch r.N(14) {
	case 0: // one value per byte or two
		return "[" + strings.TrimSuffix(strings.Repeat("1,", n), ",") + "]", true
	case 1: // nested
		k := r.In(1, 150)
		if r.P(20) {
			k = r.In(200, 1200)
		}
		if r.P(15) {
			return strings.Repeat("[", k) + strings.Repeat("]", r.N(k)), false
		}
		return strings.Repeat("[", k) + strings.Repeat("]", k), true
	case 2: // one long value
		return `["` + strings.Repeat("long", n*8) + `"]`, true
	case 3:
		return `"` + strings.Repeat("x", n) + `"`, true
	case 4: // almost only space
		return " " + strings.Repeat(" \n", n) + "{}" + strings.Repeat(" ", n), true
	case 5:
		return bigText(r, r.In(2, 60), r.N(5)), true
	case 6:
		return fmt.Sprint(r.In(-100, 100)), true
	case 7: // refused at the end
		return "[" + strings.Repeat("{},", n), false
	case 8: // refused at once
		return strings.Repeat("x", n), false
	case 9:
		t := g.container(r, 2).text(r.style())
		return t[:r.N(len(t))+0], false
	case 10: // empty members
		return "[" + strings.TrimSuffix(strings.Repeat(`{"":[]},`, n), ",") + "]", true
	case 11:
		return []string{"true", "null", "{}", "[]", `""`, "0", " 1 "}[r.N(7)], true
	}
	return g.container(r, r.In(1, 3)).text(r.style()), true
}

func genC04(r *R, c *Case, tier string) {
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 4), odd: true, big: 300, huge: 900, most: 65536}
	c.Kind = "mixed densities"
	nt := r.In(2, 8)
	for i := 0; i < nt; i++ {
		t, valid := c04Text(r, g)
		c.Texts = append(c.Texts, t)
		c.N = append(c.N, map[bool]int{true: 1}[valid])
	}
	nc := r.Pick(1, 2, 2, 3, 4)
	// history
	hist := r.Pick(0, 0, 3, 10, 40)
	if tier == "thorough" && r.P(10) {
		hist = 300
	}
	if r.N(150) == 0 {
		hist = r.In(300, 2500)
	}
	one := r.P(50) // all of the same kind
	k, total := r.N(nt), 0
	for i := 0; i < hist; i++ {
		if !one {
			k = r.N(nt)
		}
		if total += len(c.Texts[k]); total > 400_000 {
			break
		}
		c.Acts = append(c.Acts, Act{K: "pre", B: k, C: r.N(8)})
	}
	if r.P(1) || tier == "thorough" && r.P(2) {
		c.Kind = "volume"
		sizes := []int{1, 16}
		c.Acts = append(c.Acts, Act{K: "vol", B: 4 << 10}, Act{K: "vol", B: 64 << 10})
		for n := r.Pick(4, 4, 9, 18); n > 0; n-- { // beyond 2, 4 and 8 GiB
			sizes = append(sizes, 512)
		}
		for _, mb := range sizes {
			if r.P(20) {
				mb = mb * r.In(1, 2) / 2
			}
			c.Acts = append(c.Acts, Act{K: "vol", B: mb << 20})
			if r.P(30) {
				c.Acts = append(c.Acts, Act{K: "pre", B: r.N(nt), C: r.N(8)})
			}
		}
		for n := r.N(6); n > 0; n-- {
			c.Acts = append(c.Acts, Act{K: "pre", B: r.N(nt), C: r.N(8)})
		}
		if r.P(50) {
			c.Acts = append(c.Acts, Act{K: "vol", B: 512 << 20})
		}
	} else if r.P(10) {
		c.Kind = "large refused input"
		for n := r.In(1, 4); n > 0; n-- {
			c.Acts = append(c.Acts, Act{K: "vol", B: r.Pick(100, 5000, 1<<16, 1<<20)})
		}
	}
	edge := 0
	if c.Kind == "mixed densities" && total < 100_000 && r.N(30) == 0 {
		// the clients take the volume over the edge of 2 GiB, or twice that
		c.Kind = "volume reached by the clients"
		nc = r.In(2, 4)
		edge = r.Pick(30, 300, 3000)
		rest := 1<<31 - total - r.N(2*edge)
		if r.P(15) {
			rest += 1<<31 - r.N(1000)
		}
		for n := 4 << 10; rest > 0; n *= 16 { // the first are small: each prepares for as many values per byte as there were before
			if n > 512<<20 {
				n = 512 << 20
			}
			if n > rest {
				n = rest
			}
			c.Acts = append(c.Acts, Act{K: "vol", B: n})
			rest -= n
		}
	}
	for i := 0; i < nc; i++ {
		n := r.In(2, 20/nc+2)
		if edge > 0 {
			n = r.In(1, 4)
		}
		for ; n > 0; n-- {
			if edge > 0 && r.P(60) {
				c.Acts = append(c.Acts, Act{K: "cvol", A: i, B: r.In(1, edge)})
			}
			c.Acts = append(c.Acts, Act{K: "parse", A: i, B: r.N(nt), C: r.N(8)})
		}
	}
	genSim(r, c)
	if edge > 0 && r.P(70) {
		// switch where the predictor is read and written
		c.Cfg.Strategy, c.Cfg.Gap, c.Cfg.HotP = simrt.StratWalk, int64(r.Pick(40, 400, 1500)), int64(r.Pick(400, 700))
	}
}

// c04Parse parses by one of the entry points.
func c04Parse(how int, text string) (*jsonvalue.V, error) {
	switch how {
	case 6:
		v := &jsonvalue.V{}
		err := v.UnmarshalJSON([]byte(text))
		return v, err
	case 7:
		v := &jsonvalue.V{}
		err := v.UnmarshalBinary([]byte(text))
		return v, err
	case 5:
		if json.Valid([]byte(text)) {
			return jsonvalue.Import(json.RawMessage(text))
		}
	}
	return parseBy(how, text)
}

var zeroMap []byte

// zeros gives n zero bytes, which cost no memory as long as nobody touches them.
func zeros(n int) []byte {
	if n > len(zeroMap) {
		m, err := syscall.Mmap(-1, 0, 512<<20, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			m = make([]byte, n)
		}
		zeroMap = m
	}
	return zeroMap[:n]
}

func execC04(c *Case, o *Outcome) {
	simrt.ResetAll()
	type kept struct {
		v    *jsonvalue.V
		text string
		n    int
	}
	nc, hist := 0, 0
	for _, a := range c.Acts {
		if a.K == "parse" && a.A+1 > nc {
			nc = a.A + 1
		}
		if a.K != "parse" && a.K != "cvol" {
			hist++
		}
	}
	if nc == 0 || len(c.Texts) == 0 {
		return
	}
	// what each text gives alone in a fresh process
	model := make([]*J, len(c.Texts))
	alone := make([]string, len(c.Texts))
	for i, t := range c.Texts {
		if j, err := parseJSON(t); err == nil {
			model[i] = j
			alone[i] = j.canon(true)
			continue
		}
		simrt.ResetAll()
		i, t := i, t
		soloOf(c, o, 0, 1, func() {
			v, err := jsonvalue.Unmarshal([]byte(t))
			if err != nil {
				alone[i] = "error"
			} else {
				alone[i] = vtext(v)
			}
		})
		if o.Viol != nil {
			return
		}
	}
	simrt.ResetAll()
	check := func(who string, k, how int, v *jsonvalue.V, err error) bool {
		got := ""
		if err != nil {
			got = "error"
			if how != 6 && how != 7 && notExist(v) != "" {
				got = "error with " + notExist(v)
			}
		} else {
			got = vtext(v)
		}
		if got != alone[k] {
			o.fail("result", "%s: parsing text %d (%d bytes, by entry point %d) %s gave %s, expected %s", who, k, len(c.Texts[k]), how,
				clip(c.Texts[k], 200), clip(got, 400), clip(alone[k], 400))
			return false
		}
		return err == nil
	}
	var held []kept
	soloOf(c, o, 0, 1, func() {
		for _, a := range c.Acts {
			switch a.K {
			case "vol":
				if simrt.RaceEnabled && a.B > 1<<20 {
					continue // shadow memory
				}
				if v, err := jsonvalue.UnmarshalNoCopy(zeros(a.B)); err == nil {
					o.fail("result", "%d zero bytes were accepted as %s", a.B, clip(vtext(v), 100))
				}
				o.fault("large refused input")
			case "pre":
				k := a.B % len(c.Texts)
				if v, err := c04Parse(a.C, c.Texts[k]); check("history", k, a.C, v, err) && len(held) < 60 {
					held = append(held, kept{v: v, n: k})
				}
			}
		}
	})
	if o.Viol != nil {
		return
	}
	count := make([]int, nc)
	lists := make([][]kept, nc)
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		clients[i] = func() {
			for _, a := range c.Acts {
				if a.A != i || a.K != "parse" && a.K != "cvol" {
					continue
				}
				if a.K == "cvol" {
					if v, err := jsonvalue.UnmarshalNoCopy(zeros(a.B)); err == nil {
						o.fail("result", "%d zero bytes were accepted as %s", a.B, clip(vtext(v), 100))
					}
					continue
				}
				k := a.B % len(c.Texts)
				v, err := c04Parse(a.C, c.Texts[k])
				if check(fmt.Sprintf("client %d", i), k, a.C, v, err) {
					lists[i] = append(lists[i], kept{v: v, n: k})
				}
				count[i]++
			}
		}
	}
	res := o.sim(c.Cfg, true, clients)
	if o.Viol != nil {
		return
	}
	compared := 0
	for i, l := range lists {
		compared += count[i]
		held = append(held, l...)
	}
	soloOf(c, o, 0, 1, func() {
		for _, h := range held {
			if got := vtext(h.v); got != alone[h.n] {
				o.fail("altered", "a value parsed earlier from text %d %s was altered by later parsing: it was %s and is %s", h.n, clip(c.Texts[h.n], 200),
					clip(alone[h.n], 400), clip(got, 400))
				return
			}
			o.digest(alone[h.n])
		}
		// members may be changed without effect on values parsed from the same text
		for i, h := range held {
			if h.v.IsObject() && i%3 == 0 {
				h.v.MustSet(jsonvalue.NewString("changed")).At("changed")
				for k, x := range held {
					if k != i && x.v == h.v {
						o.fail("altered", "two parses returned the same value")
					}
				}
			}
		}
	})
	if hist > 0 {
		o.probe("history")
	}
	if strings.HasPrefix(c.Kind, "volume") {
		o.probe("more than two gigabytes parsed")
	}
	o.done(compared >= 4 && (res.Switches >= 2 || hist > 0), c)
}
