package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
	"verif.local/sim/simrt"
)

// C07: snapshots on a simulated disk. A process writes generations of a
// document to one file; a crash leaves some of the last write's sectors on the
// disk; another process restores from what is there.

func init() {
	register(&propDef{id: "C07", race: false, plain: true, gen: genC07, exec: execC07,
		rule: "a case is 1-3 generations of an edited document written by one of the marshal forms to a simulated file of 4-512 byte sectors (in place, truncating or by rename), a crash that leaves a seeded subset of the last write's sectors, possibly flipped bits and a short read, a restart with fresh process state, and 1-2 concurrent restores by one of nine parse forms followed by use of the result; checked: complete content restores equal and in order, truncated containers and stale tails are refused with an inert value, nothing panics or hangs. Non-trivial: a fault changed what was read, or the content was complete and has members",
		real: stdReal, stub: append(append([]string{}, stdStub...), "disk (sectors, crash, bit rot, short reads)", "process restart (library state reset)")})
}

const (
	c07Writes = 8
	c07Reads  = 9
)

func genC07(r *R, c *Case, tier string) {
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 4), odd: r.P(70), big: 600, huge: 900, most: 2048, wideN: 40}
	c.Kind = "intact"
	c.N = []int{r.Pick(4, 8, 16, 64, 512), r.N(c07Reads), r.N(c07Reads), r.In(1, 2)}
	ng := r.In(1, 3)
	deep := r.N(400) == 0
	if deep {
		ng = 1
		g.big = 0
	}
	for i := 0; i < ng; i++ {
		j := g.container(r, r.In(1, 3))
		if r.P(4) {
			j = g.scalar(r)
		}
		if nest := r.N(900); nest < 6 || deep {
			// deeply nested
			n := r.Pick(30, 100, 300)
			if deep {
				n = r.Pick(1000, 1024, 4096, 9990, 9999, 10000, 10000, 10000) - j.depth()
			}
			for ; n > 0; n-- {
				if r.P(50) {
					j = jArr(j)
				} else {
					o := jObj()
					o.set(r.Str(g.keys), j)
					j = o
				}
			}
		}
		c.Texts = append(c.Texts, j.text(r.style()))
		var edits []*TOp
		for k := r.N(5); k > 0 && !deep; k-- {
			t := g.genTOp(r, j, "ws", 0)
			m := j.clone()
			if res := t.tryModel(m); res.E == "" {
				j = m
				edits = append(edits, t)
			}
		}
		c.Ops = append(c.Ops, edits)
		c.Opts = append(c.Opts, genOpts(r, g.keys, 0, false))
		// A: how it is marshaled, B: how it is written
		c.Acts = append(c.Acts, Act{K: "write", A: r.N(c07Writes), B: r.N(3)})
		if deep { // indented, it would be hundreds of megabytes
			c.Opts[i] = nil
		}
	}
	switch r.W(20, 55, 15, 10) {
	case 1: // crash during the last write: A sector order (0: sequential), B permille of the sectors
		a := Act{K: "crash", A: 0, B: r.In(0, 1000), C: r.N(2)}
		if r.P(45) {
			a.A = 1 + r.N(1000)
		}
		c.Acts = append(c.Acts, a)
		c.Kind = "crash"
	case 2:
		for n := r.In(1, 4); n > 0; n-- {
			x := 1 << r.N(8)
			if r.P(40) {
				x = 1 + r.N(255)
			}
			c.Acts = append(c.Acts, Act{K: "flip", A: r.N(5000), B: x})
		}
		c.Kind = "bit rot"
	case 3:
		c.Acts = append(c.Acts, Act{K: "short", A: r.N(1000)})
		c.Kind = "short read"
	}
	if r.P(10) {
		c.Acts = append(c.Acts, Act{K: "flip", A: r.N(5000), B: 1 << r.N(8)})
		c.Kind += ", bit rot"
	}
	big := false
	if r.P(3) {
		// a region filled with a pattern
		a := Act{K: "fill", A: r.N(5000), B: r.Pick(1, 2, 5, 20, 100, 1500), S: r.Str(fillPats)}
		if r.N(30) == 0 {
			big = true
			a.B, a.S = r.Pick(30000, 1<<20, 3<<20), r.Str(fillPats[:3])
		}
		c.Acts = append(c.Acts, a)
		c.Kind += ", filled region"
	}
	if c.Kind == "crash" && r.P(50) && ng > 1 {
		c.Acts[ng-1].B = 0
	}
	genSim(r, c)
	if big || deep {
		c.Cfg.MaxSteps = 10 * defaultMaxSteps
	}
}

// what filled regions hold; the first ones nest
var fillPats = []string{"[", `{"a":`, `[{"":`, "]", "}", "\"", "\\", "0", "9", "-", ",", ":", " ", "\x00", "\xff", "e", ".", "\\u", "[1,", "{}", "null", "tr", "\ufeff"}

// c07Store marshals the document.
func c07Store(v *jsonvalue.V, how int, os []O) ([]byte, bool, error) {
	opts := libOpts(append(append([]O{}, os...), O{K: "set"}))
	switch how {
	case 1:
		b, err := v.MarshalBinary()
		return b, false, err
	case 2:
		b, err := v.MarshalJSON()
		return b, false, err
	case 3:
		b, err := json.Marshal(v)
		return b, false, err
	case 4:
		s, err := v.MarshalString(opts...)
		return []byte(s), true, err
	case 5:
		return v.MustMarshal(opts...), true, nil
	case 6:
		return []byte(v.MustMarshalString(opts...)), true, nil
	case 7:
		jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptSetSequence())
		b, err := v.MarshalBinary()
		return b, true, err
	}
	b, err := v.Marshal(opts...)
	return b, true, err
}

func c07Restore(how int, b []byte) (*jsonvalue.V, error) {
	switch how {
	case 6:
		v := &jsonvalue.V{}
		return v, v.UnmarshalBinary(b)
	case 7:
		v := &jsonvalue.V{}
		return v, v.UnmarshalJSON(b)
	case 8:
		v := &jsonvalue.V{}
		return v, json.Unmarshal(b, v)
	}
	return parseBy(how, string(b))
}

// c07Disk applies the writes and faults of a case. It returns what a reader
// finds, the newest generation's content and what happened.
func c07Disk(c *Case, gens [][]byte, o *Outcome) []byte {
	sec := c.NN(0)
	if sec < 1 {
		sec = 1
	}
	var disk []byte
	crash := Act{B: -1}
	for _, a := range c.Acts {
		if a.K == "crash" {
			crash = a
		}
	}
	n := 0
	for _, a := range c.Acts {
		if a.K != "write" || n >= len(gens) {
			continue
		}
		data := gens[n]
		n++
		last := n == len(gens)
		if !last || crash.B < 0 {
			if a.B == 0 && len(disk) > len(data) && last && crash.B < 0 {
				// in place, without truncating: the tail of the older one stays
				disk = append(append([]byte{}, data...), disk[len(data):]...)
				o.fault("stale-tail")
			} else {
				disk = append([]byte{}, data...)
			}
			continue
		}
		ns := (len(data) + sec - 1) / sec
		durable := ns * crash.B / 1000
		order := make([]int, ns)
		for i := range order {
			order[i] = i
		}
		if crash.A != 0 {
			r := newR(uint64(crash.A))
			for i := ns - 1; i > 0; i-- {
				k := r.N(i + 1)
				order[i], order[k] = order[k], order[i]
			}
		}
		switch {
		case a.B == 2: // new file, renamed when complete (or too early: C)
			if crash.C == 0 {
				o.fault("crash-before-rename")
				continue
			}
			disk = nil
			o.fault("crash-after-early-rename")
		case a.B == 1:
			disk = nil
			o.fault("crash-after-truncate")
		default:
			o.fault("crash-in-place")
		}
		nd := append([]byte{}, disk...)
		for _, s := range order[:durable] {
			end := (s + 1) * sec
			if end > len(data) {
				end = len(data)
			}
			for len(nd) < end {
				nd = append(nd, 0)
			}
			copy(nd[s*sec:end], data[s*sec:end])
		}
		if a.B == 0 && crash.C == 1 && durable == ns && len(nd) > len(data) {
			nd = nd[:len(data)] // the truncation got through too
		}
		disk = nd
	}
	for _, a := range c.Acts {
		switch a.K {
		case "flip":
			if len(disk) > 0 {
				disk[a.A%len(disk)] ^= byte(a.B)
				o.fault("bit-flip")
			}
		case "fill":
			if len(disk) > 0 {
				at := a.A % len(disk)
				fill := strings.Repeat(a.S, a.B)
				tail := ""
				if len(fill) < len(disk)-at {
					tail = string(disk[at+len(fill):])
				}
				disk = []byte(string(disk[:at]) + fill + tail)
				o.fault("filled-region")
			}
		case "short":
			k := len(disk) * a.A / 1000
			if k < len(disk) {
				o.fault("short-read")
			}
			disk = disk[:k]
		}
	}
	return disk
}

// c07Class says what the bytes are.
func c07Class(b []byte, gens [][]byte) (string, int) {
	for i := len(gens) - 1; i >= 0; i-- {
		if bytes.Equal(b, gens[i]) {
			return "complete", i
		}
	}
	isSpace := func(x []byte) bool { return len(bytes.Trim(x, " \t\r\n")) == 0 }
	for i := len(gens) - 1; i >= 0; i-- {
		g := gens[i]
		t := bytes.TrimLeft(g, " \t\r\n")
		if len(t) == 0 || t[0] != '{' && t[0] != '[' {
			if bytes.HasPrefix(g, b) && isSpace(b) {
				return "truncated", i
			}
			continue
		}
		if bytes.HasPrefix(g, b) {
			if isSpace(g[len(b):]) {
				return "complete", i
			}
			return "truncated", i
		}
		if bytes.HasPrefix(b, g) {
			if isSpace(b[len(g):]) {
				return "complete", i
			}
			if bytes.IndexFunc(b[len(g):], func(r rune) bool { return r > ' ' }) < 0 {
				// a filled region, not a rest of a snapshot; the library
				// takes a backspace for a blank
				return "corrupt", -1
			}
			return "tail", i
		}
	}
	return "corrupt", -1
}

// inert checks that a value returned with an error is usable and empty.
func inert(v *jsonvalue.V) string {
	if v == nil {
		return "a nil value was returned"
	}
	if v.ValueType() != jsonvalue.NotExist || v.Len() != 0 || v.IsObject() || v.IsArray() || v.IsNull() || v.IsString() || v.IsNumber() || v.IsBoolean() {
		return "the returned value is not a NotExist one but " + clip(vtext(v), 300)
	}
	if b, err := v.Marshal(); err == nil || len(b) > 0 {
		return fmt.Sprintf("the returned value marshals to %.200q, %v", b, err)
	}
	if x, err := v.Get("a"); err == nil || x == nil {
		return "Get on the returned value gives no error or a nil value"
	}
	if x := v.MustGet("a", 0); x == nil || x.ValueType() != jsonvalue.NotExist {
		return "MustGet on the returned value gives a value"
	}
	if x, err := v.SetInt(1).At("a"); err == nil || x == nil {
		return "Set on the returned value gives no error or a nil value"
	}
	if x, err := v.AppendInt(1).InTheEnd(); err == nil || x == nil {
		return "Append on the returned value gives no error or a nil value"
	}
	if v.Delete("a") == nil {
		return "Delete on the returned value gives no error"
	}
	n := 0
	v.RangeArray(func(int, *jsonvalue.V) bool { n++; return true })
	v.RangeObjects(func(string, *jsonvalue.V) bool { n++; return true })
	n += len(v.ForRangeArr()) + len(v.ForRangeObj())
	if n > 0 {
		return "the returned value has members"
	}
	_, _ = v.Int64(), v.Float64()
	_ = v.String() + v.ValueType().String()
	_ = v.Bytes()
	if v.Equal(jsonvalue.NewNull()) || v.ValueType() != jsonvalue.NotExist {
		return "the returned value is no longer a NotExist one after use"
	}
	// a good snapshot may still be decoded into it, which is nobody else's matter
	if err := v.UnmarshalJSON([]byte(`{"good":[1]}`)); err != nil || vtext(v) != `{"good":[1]}` {
		return fmt.Sprintf("decoding a good text into the returned value: %v, %s", err, clip(vtext(v), 200))
	}
	for i, t := range []string{"", "{", "[1", `"x`, "nul", "{}}"} {
		x, err := parseBy(i%6, t)
		if err == nil || notExist(x) != "" {
			return fmt.Sprintf("after decoding a good text into it, parsing %q gives error %v, %s", t, err, notExist(x))
		}
		if i%3 == 0 {
			gone(x)
		}
	}
	return ""
}

// useAll calls everything a user could call on a value.
func useAll(v *jsonvalue.V) string {
	e := &Env{}
	var out []string
	add := func(s string) { out = append(out, s) }
	add(snapshot(v))
	add(convText(v, false))
	for _, os := range [][]O{nil, {{K: "utf8"}, {K: "html"}, {K: "slash"}}, {{K: "indent", S: []string{" ", "\t"}}, {K: "str"}}, {{K: "omit", B: true}, {K: "less", S: []string{"len"}}}} {
		b, err := v.Marshal(libOpts(os)...)
		add(fmt.Sprint(len(b), err != nil))
		s := v.MustMarshalString(libOpts(os)...)
		add(fmt.Sprint(len(s)))
	}
	b, err := v.MarshalBinary()
	add(fmt.Sprint(len(b), err != nil))
	if b, err = v.MarshalJSON(); err == nil {
		w, werr := jsonvalue.Unmarshal(b)
		add(fmt.Sprint(w.ValueType(), werr != nil))
	}
	for how := 0; how < 6; how++ {
		add(walkText(e, v, how))
	}
	for n := 0; n < 3; n++ {
		add(iterText(e, v, n))
	}
	for n := 0; n < 5; n++ {
		add(exportText(v, n))
	}
	n := 0
	v.RangeObjectsBySetSequence(func(k string, x *jsonvalue.V) bool {
		add(getsText(e, v, k, nil))
		add(convText(x, false))
		add(fmt.Sprint(len(x.String())))
		n++
		return n < 6
	})
	for i, x := range v.ForRangeArr() {
		if i > 4 {
			break
		}
		add(getsText(e, v, i, nil))
		add(convText(x, false) + fmt.Sprint(len(x.String())))
	}
	_ = len(v.String())
	c, _ := jsonvalue.Import(v)
	add(fmt.Sprint(v.Equal(v), v.Equal(c), c.Equal(v), v.GreaterThan(c), v.LessThanOrEqual(c), v.LessThan(jsonvalue.NewInt(1))))
	some := v.ForRangeArr()
	if len(some) > 60 {
		some = some[len(some)-60:]
	}
	for _, x := range some {
		for _, y := range some {
			_ = x.Equal(y) || x.GreaterThan(y) || x.LessThan(y)
		}
	}
	add(fmt.Sprint(beta.Contains(v, c)))
	// changes
	for _, t := range []*TOp{
		{K: "cget", P: Path{E: []Elem{sE("A")}}}, {K: "set", P: Path{E: []Elem{sE("a")}}, V: &Val{T: "1"}}, {K: "set", P: Path{E: []Elem{iE(0)}}, V: &Val{T: `"x"`}},
		{K: "append", V: &Val{T: "[1]"}}, {K: "before", P: Path{E: []Elem{iE(0)}}, V: &Val{T: "2"}}, {K: "append", P: Path{E: []Elem{sE("list")}}, V: &Val{T: "3"}},
		{K: "sort"}, {K: "cdel", P: Path{E: []Elem{sE("KEY")}}}, {K: "del", P: Path{E: []Elem{sE("a")}}}, {K: "del", P: Path{E: []Elem{iE(-1)}}},
	} {
		add(t.lib(v).String())
	}
	add(snapshot(v))
	return strings.Join(out, "\n")
}

// textDepth is an upper bound of the nesting in a text.
func textDepth(b []byte) int {
	d, m := 0, 0
	for _, x := range b {
		switch x {
		case '[', '{':
			if d++; d > m {
				m = d
			}
		case ']', '}':
			d--
		}
	}
	return m
}

// useDeep calls what takes linear time in deep values.
func useDeep(v *jsonvalue.V) string {
	out := []string{snapshot(v), vtext(v)}
	b, err := v.MarshalBinary()
	out = append(out, fmt.Sprint(len(b), err != nil))
	w, err := jsonvalue.Unmarshal(b)
	out = append(out, fmt.Sprint(err != nil, v.Equal(w), w.Equal(v)))
	c := jsonvalue.New(v)
	out = append(out, fmt.Sprint(c.Equal(v)))
	for n, x := 0, v; n < 20000; n++ {
		y, err := x.Get(0)
		if x.IsObject() {
			x.RangeObjectsBySetSequence(func(k string, _ *jsonvalue.V) bool { y, err = x.Get(k); return false })
		}
		if err != nil || y == nil {
			out = append(out, fmt.Sprint(n))
			x.SetInt(1).At("new")
			break
		}
		x = y
	}
	return strings.Join(append(out, vtext(v)), "\n")
}

func execC07(c *Case, o *Outcome) {
	simrt.ResetAll()
	if len(c.Texts) == 0 {
		return
	}
	var gens [][]byte
	var want []*J
	var ordered []bool
	soloOf(c, o, 0, 1, func() {
		i := 0
		for _, a := range c.Acts {
			if a.K != "write" || i >= len(c.Texts) {
				continue
			}
			v, err := jsonvalue.UnmarshalString(c.Texts[i])
			j, perr := parseJSON(c.Texts[i])
			if perr != nil {
				panic(perr)
			}
			if err != nil {
				o.fail("content", "a valid document was refused: %v: %s", err, clip(c.Texts[i], 500))
				return
			}
			if i < len(c.Ops) {
				for _, t := range c.Ops[i] {
					m := j.clone()
					res := t.tryModel(m)
					if res.E == skipRes {
						continue
					}
					if res.E == "" {
						j = m
					}
					t.lib(v)
				}
			}
			var os []O
			if i < len(c.Opts) {
				os = c.Opts[i]
			}
			st := (&oState{}).apply(append(append([]O{}, os...), O{K: "set"}))
			b, ord, err := c07Store(v, a.A, os)
			if err != nil {
				o.fail("write", "generation %d, %s, could not be marshaled: %v", i, clip(j.canon(true), 400), err)
				return
			}
			if ord && a.A != 7 {
				j, _ = st.marshal(j)
			}
			gens = append(gens, b)
			want = append(want, j)
			ordered = append(ordered, ord)
			i++
			if a.A == 7 {
				jsonvalue.ResetDefaultMarshalOptions()
			}
		}
	})
	if o.Viol != nil || len(gens) == 0 {
		return
	}
	disk := c07Disk(c, gens, o)
	class, at := c07Class(disk, gens)
	o.probe("content " + class)
	o.fault("process-restart")
	simrt.ResetAll()
	nc := c.NN(3)
	if nc < 1 {
		nc = 1
	}
	outs := make([]string, nc)
	viols := make([]*Viol, nc)
	clients := make([]func(), nc)
	for i := range clients {
		i := i
		clients[i] = func() {
			how := c.NN(1 + i%2)
			fail := func(class, f string, a ...interface{}) {
				if viols[i] == nil {
					viols[i] = &Viol{class, fmt.Sprintf("restore by method %d of %.500q: ", how, disk) + fmt.Sprintf(f, a...)}
				}
			}
			if t := guard(func() {
				v, err := c07Restore(how, append([]byte{}, disk...))
				if err != nil {
					outs[i] = "refused"
					if t := inert(v); t != "" {
						fail("inert", "%s (error: %v)", t, err)
					}
				}
				switch class {
				case "complete":
					if err != nil {
						fail("lost", "complete content was refused: %v", err)
						break
					}
					if got, w := vtext(v), want[at].canon(true); ordered[at] && got != w {
						fail("content", "restored to %s, expected %s", clip(got, 500), clip(w, 500))
					}
					if got, w := vtextU(v), want[at].canon(false); got != w {
						fail("content", "restored to %s, expected %s", clip(got, 500), clip(w, 500))
					}
					w, err := jsonvalue.UnmarshalString(want[at].text(1))
					if err != nil || !v.Equal(w) || !w.Equal(v) {
						fail("content", "the restored value does not Equal() the stored one %s", clip(want[at].canon(true), 500))
					}
				case "truncated", "tail":
					if err == nil {
						fail("accepted", "%s content was accepted as %s", class, clip(vtext(v), 500))
					}
				}
				if err == nil {
					if v == nil {
						fail("inert", "nil value without an error")
						return
					}
					if textDepth(disk) > 400 {
						outs[i] = useDeep(v)
					} else {
						outs[i] = useAll(v)
					}
				}
			}); t != "" {
				fail("panic", "%s", t)
			}
		}
	}
	o.sim(c.Cfg, true, clients)
	for i, v := range viols {
		if v != nil {
			o.fail(v.Class, "%s", v.Msg)
		}
		o.digest(outs[i])
	}
	if nc == 2 && class != "corrupt" && c.NN(1) == c.NN(2) && outs[0] != outs[1] {
		a, b := firstDiff(outs[0], outs[1])
		o.fail("differs", "two restores of %.500q by method %d differ: %s and %s", disk, c.NN(1), a, b)
	}
	big := false
	if at >= 0 {
		big = want[at].size() > 1
	}
	o.done(class != "complete" || big, c)
}

// firstDiff shows the first lines that differ.
func firstDiff(a, b string) (string, string) {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			if i < len(y) {
				return clip(x[i], 400), clip(y[i], 400)
			}
			return clip(x[i], 400), "(end)"
		}
	}
	return "(end)", "more"
}
