package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif.local/sim/simrt"
)

// ---- seeded random numbers for case generation ----

// R is a small seeded generator.
type R struct{ s uint64 }

func newR(xs ...uint64) *R { return &R{simrt.Hash(xs...)} }

func (r *R) U() uint64 { r.s += 0x9e3779b97f4a7c15; return simrt.Hash(r.s) }
func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// In returns a number in [a,b].
func (r *R) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
func (r *R) P(p int) bool { return r.N(100) < p }

// style is a way to write a document: compact, or with seeded blanks and escapes.
func (r *R) style() uint64 {
	if r.P(30) {
		return 0
	}
	return r.U()
}

func (r *R) Pick(xs ...int) int { return xs[r.N(len(xs))] }

func (r *R) Str(xs []string) string { return xs[r.N(len(xs))] }

// W picks an index by weight.
func (r *R) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	k := r.N(t)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return 0
}

// ---- the reference JSON tree ----

// J is a plain JSON tree. T: 'n' null, 't' boolean, '#' number (raw text in S),
// 's' string, 'a' array, 'o' object, 'f' a float without JSON form (F), 'x'
// nothing.
type J struct {
	T byte
	B bool
	S string
	F float64
	A []*J
	K []string // keys in the order they were set last
	M map[string]*J
}

func jNull() *J           { return &J{T: 'n'} }
func jBool(b bool) *J     { return &J{T: 't', B: b} }
func jNum(s string) *J    { return &J{T: '#', S: s} }
func jInt(i int) *J       { return jNum(strconv.Itoa(i)) }
func jStr(s string) *J    { return &J{T: 's', S: s} }
func jArr(a ...*J) *J     { return &J{T: 'a', A: a} }
func jObj() *J            { return &J{T: 'o', M: map[string]*J{}} }
func jFloat(f float64) *J { return &J{T: 'f', F: f} }
func jNone() *J           { return &J{T: 'x'} }

func (j *J) set(k string, v *J) {
	if _, ok := j.M[k]; ok {
		j.dropKey(k)
	}
	j.K = append(j.K, k)
	j.M[k] = v
}

func (j *J) dropKey(k string) {
	for i, x := range j.K {
		if x == k {
			j.K = append(append([]string{}, j.K[:i]...), j.K[i+1:]...)
			return
		}
	}
}

func (j *J) del(k string) bool {
	if _, ok := j.M[k]; !ok {
		return false
	}
	delete(j.M, k)
	j.dropKey(k)
	return true
}

func (j *J) clone() *J {
	c := *j
	if j.A != nil {
		c.A = make([]*J, len(j.A))
		for i, x := range j.A {
			c.A[i] = x.clone()
		}
	}
	if j.T == 'o' {
		c.K = append([]string{}, j.K...)
		c.M = make(map[string]*J, len(j.M))
		for k, x := range j.M {
			c.M[k] = x.clone()
		}
	}
	return &c
}

func (j *J) size() int {
	n := 1
	for _, x := range j.A {
		n += x.size()
	}
	for _, x := range j.M {
		n += x.size()
	}
	return n
}

// canon is an unambiguous text of the tree: with the set order of members, or
// with members sorted by key.
func (j *J) canon(ordered bool) string {
	var b strings.Builder
	j.write(&b, ordered)
	return b.String()
}

func (j *J) write(b *strings.Builder, ordered bool) {
	switch j.T {
	case 'n':
		b.WriteString("null")
	case 't':
		b.WriteString(strconv.FormatBool(j.B))
	case '#':
		b.WriteString(j.S)
	case 'f':
		fmt.Fprintf(b, "<%v>", j.F)
	case 's':
		b.WriteString(strconv.Quote(j.S))
	case 'a':
		b.WriteByte('[')
		for i, x := range j.A {
			if i > 0 {
				b.WriteByte(',')
			}
			x.write(b, ordered)
		}
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		ks := j.K
		if !ordered {
			ks = append([]string{}, j.K...)
			sort.Strings(ks)
		}
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			j.M[k].write(b, ordered)
		}
		b.WriteByte('}')
	default:
		b.WriteString("<none>")
	}
}

// text emits JSON text; style varies spaces and escapes (0: compact, minimal).
func (j *J) text(style uint64) string {
	var b strings.Builder
	r := &R{style}
	j.emit(&b, r, style != 0)
	return b.String()
}

func ws(b *strings.Builder, r *R, on bool) {
	if on && r.N(6) == 0 {
		b.WriteString([]string{" ", "\n", "\t", "  ", "\r\n"}[r.N(5)])
	}
}

func (j *J) emit(b *strings.Builder, r *R, on bool) {
	switch j.T {
	case 's':
		emitString(b, j.S, r, on)
	case 'a':
		b.WriteByte('[')
		ws(b, r, on)
		for i, x := range j.A {
			if i > 0 {
				b.WriteByte(',')
				ws(b, r, on)
			}
			x.emit(b, r, on)
			ws(b, r, on)
		}
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		ws(b, r, on)
		for i, k := range j.K {
			if i > 0 {
				b.WriteByte(',')
				ws(b, r, on)
			}
			emitString(b, k, r, on)
			ws(b, r, on)
			b.WriteByte(':')
			ws(b, r, on)
			j.M[k].emit(b, r, on)
			ws(b, r, on)
		}
		b.WriteByte('}')
	case 'n':
		b.WriteString("null")
	case 't':
		b.WriteString(strconv.FormatBool(j.B))
	case '#':
		b.WriteString(j.S)
	default:
		b.WriteString("null")
	}
}

func emitString(b *strings.Builder, s string, r *R, on bool) {
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 0x20:
			fmt.Fprintf(b, `\u%04x`, c)
		case on && c < 0x10000 && r.N(8) == 0:
			fmt.Fprintf(b, `\u%04X`, c)
		case on && c >= 0x10000 && r.N(2) == 0:
			c -= 0x10000
			fmt.Fprintf(b, `\u%04x\u%04x`, 0xd800+(c>>10), 0xdc00+(c&0x3ff))
		case on && c == '/' && r.N(2) == 0:
			b.WriteString(`\/`)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
}

// ---- strict JSON parser (RFC 8259), independent of the code under test ----

type jparser struct {
	s    string
	i    int
	dups bool
}

var errJSON = fmt.Errorf("not a JSON text")

// parseJSON returns the tree of exactly one JSON text.
func parseJSON(s string) (*J, error) {
	j, dups, err := parseJSONDup(s)
	if err == nil && dups {
		return nil, fmt.Errorf("duplicate member in %.200q", s)
	}
	return j, err
}

func parseJSONDup(s string) (*J, bool, error) {
	p := &jparser{s: s}
	p.space()
	j, err := p.value(0)
	if err != nil {
		return nil, false, fmt.Errorf("%w: at byte %d of %.300q", err, p.i, s)
	}
	p.space()
	if p.i != len(s) {
		return nil, false, fmt.Errorf("%w: text after the value, at byte %d of %.300q", errJSON, p.i, s)
	}
	return j, p.dups, nil
}

func (p *jparser) space() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\r' || p.s[p.i] == '\t') {
		p.i++
	}
}

func (p *jparser) lit(w string) bool {
	if strings.HasPrefix(p.s[p.i:], w) {
		p.i += len(w)
		return true
	}
	return false
}

func (p *jparser) value(depth int) (*J, error) {
	if p.i >= len(p.s) || depth > 10000 {
		return nil, errJSON
	}
	switch c := p.s[p.i]; {
	case c == '{':
		p.i++
		o := jObj()
		p.space()
		if p.lit("}") {
			return o, nil
		}
		for {
			p.space()
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.space()
			if !p.lit(":") {
				return nil, errJSON
			}
			p.space()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			if _, ok := o.M[k]; ok {
				p.dups = true
			}
			o.set(k, v)
			p.space()
			if p.lit(",") {
				continue
			}
			if p.lit("}") {
				return o, nil
			}
			return nil, errJSON
		}
	case c == '[':
		p.i++
		a := jArr()
		p.space()
		if p.lit("]") {
			return a, nil
		}
		for {
			p.space()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			a.A = append(a.A, v)
			p.space()
			if p.lit(",") {
				continue
			}
			if p.lit("]") {
				return a, nil
			}
			return nil, errJSON
		}
	case c == '"':
		s, err := p.str()
		return jStr(s), err
	case c == 't' && p.lit("true"):
		return jBool(true), nil
	case c == 'f' && p.lit("false"):
		return jBool(false), nil
	case c == 'n' && p.lit("null"):
		return jNull(), nil
	case c == '-' || c >= '0' && c <= '9':
		st := p.i
		p.lit("-")
		digits := func() int {
			n := 0
			for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
				p.i++
				n++
			}
			return n
		}
		if !p.lit("0") && digits() == 0 {
			return nil, errJSON
		}
		if p.lit(".") && digits() == 0 {
			return nil, errJSON
		}
		if p.i < len(p.s) && (p.s[p.i] == 'e' || p.s[p.i] == 'E') {
			p.i++
			if !p.lit("+") {
				p.lit("-")
			}
			if digits() == 0 {
				return nil, errJSON
			}
		}
		return jNum(p.s[st:p.i]), nil
	}
	return nil, errJSON
}

func (p *jparser) hex() (rune, bool) {
	if p.i+4 > len(p.s) {
		return 0, false
	}
	n, err := strconv.ParseUint(p.s[p.i:p.i+4], 16, 32)
	if err != nil {
		return 0, false
	}
	p.i += 4
	return rune(n), true
}

func (p *jparser) str() (string, error) {
	if !p.lit(`"`) {
		return "", errJSON
	}
	var b strings.Builder
	for p.i < len(p.s) {
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			return b.String(), nil
		case c < 0x20:
			return "", errJSON
		case c == '\\':
			p.i++
			if p.i >= len(p.s) {
				return "", errJSON
			}
			c = p.s[p.i]
			p.i++
			switch c {
			case '"', '\\', '/':
				b.WriteByte(c)
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'u':
				u, ok := p.hex()
				if !ok {
					return "", errJSON
				}
				if u >= 0xd800 && u < 0xdc00 && p.lit(`\u`) {
					lo, ok := p.hex()
					if !ok || lo < 0xdc00 || lo > 0xdfff {
						return "", errJSON
					}
					u = 0x10000 + (u-0xd800)<<10 + (lo - 0xdc00)
				} else if u >= 0xd800 && u <= 0xdfff {
					return "", errJSON
				}
				b.WriteRune(u)
			default:
				return "", errJSON
			}
		default:
			r, n := utf8.DecodeRuneInString(p.s[p.i:])
			if r == utf8.RuneError && n <= 1 {
				return "", errJSON
			}
			b.WriteRune(r)
			p.i += n
		}
	}
	return "", errJSON
}

// ---- generators ----

// Key pools: small, so that operations meet; with case variants and characters
// that need escaping.
var (
	keysPlain = []string{"a", "b", "c", "d", "e", "key", "id", "list", "obj"}
	keysCase  = []string{"a", "A", "key", "Key", "KEY", "kEy", "id", "ID", "list", "LIST", "éa", "Éa", "b"}
	keysOdd   = []string{"a", "b", "", "with space", "<&>/", "中文", "q\"uote", "back\\slash", "emoji😀", "tab\t", "0", "-1", "line\u2028sep"}
	strPool   = []string{"", "x", "123", "hello", "a longer string value, 40 characters long", "中文字符", "😀 emoji 🎉", "<html>&amp;</html>", "/slash/", "\"quoted\"", "back\\slash", "tab\tnew\nline", "\u0001ctl\u007f", "true", "-1.5", " 17 ", "1e2", "18446744073709551615", "12abc", "-", " ", "aGVsbG8=", "é", "\u2028\u2029"}
	numPool   = []string{"0", "1", "-1", "7", "42", "-100", "1.5", "-0.25", "3.0", "1e3", "1E-2", "2.50", "123456789012", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "0.1", "1e+2", "100000"}
)

// genStr makes a string: from the pool, or of random characters over the whole
// range that a JSON string may hold, near the limits of the UTF-8 and UTF-16
// encodings in particular.
func genStr(r *R) string {
	if r.P(70) {
		return r.Str(strPool)
	}
	if r.P(6) {
		if r.P(15) {
			return longStrOf(r, r.Pick(1024, 2048, 4096, 8192)+r.In(-3, 700))
		}
		return longStr(r, 600)
	}
	return randStr(r, r.In(1, 9))
}

// edgeSize is a size at or near a power of two, the larger the rarer.
func edgeSize(r *R, max int) int {
	n := 16
	for n < max && r.P(65) {
		n *= 2
	}
	n += r.Pick(-1, 0, 0, 1, 2, r.N(n))
	if n > max {
		n = max
	}
	return n
}

// longStr makes a long string, mostly plain.
func longStr(r *R, max int) string {
	return longStrOf(r, edgeSize(r, max))
}

func longStrOf(r *R, n int) string {
	s := strings.Repeat(r.Str([]string{"x", "long text ", "ab/", "é", "中文", "a😀b"}), n)[:n]
	for !utf8.ValidString(s) {
		s = s[:len(s)-1]
	}
	if r.P(50) {
		k := r.N(len(s))
		for !utf8.RuneStart(s[k]) {
			k--
		}
		s = s[:k] + randStr(r, r.In(1, 4)) + s[k:]
	}
	return s
}

var edgeRunes = []rune{0x7f, 0x80, 0xa0, 0x7ff, 0x800, 0xfff, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0xfffff, 0x100000, 0x10ffff}

func randStr(r *R, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		switch r.W(4, 2, 2, 1) {
		case 0:
			b.WriteByte(byte(r.N(0x80)))
		case 1:
			b.WriteByte(byte(r.N(0x20)))
		case 2:
			b.WriteRune(edgeRunes[r.N(len(edgeRunes))])
		default:
			b.WriteString(r.Str([]string{"\\", "\"", "/", "<", ">", "&", "\\u", "\\n", "'", "{", "}", "[", "]", ":", ",", "."}))
		}
	}
	return b.String()
}

// genNum makes the text of a number that the library keeps exactly: an integer
// within 64 bits or a float.
func genNum(r *R) string {
	if r.P(70) {
		return r.Str(numPool)
	}
	digits := func(n int) string {
		b := []byte{byte('1' + r.N(9))}
		for ; n > 1; n-- {
			b = append(b, byte('0'+r.N(10)))
		}
		return string(b)
	}
	t := ""
	if r.P(40) {
		t = "-"
	}
	t += digits(r.In(1, 18))
	if r.P(50) {
		t += "." + digits(r.In(1, 12))
		if r.P(30) {
			t += "00"
		}
	}
	if r.P(20) {
		t += r.Str([]string{"e", "E"}) + r.Str([]string{"", "+", "-"}) + digits(r.In(1, 2))
	} else if r.P(3) {
		// too small for a float
		t += "e-" + digits(r.In(3, 9))
	}
	return t
}

type genCfg struct {
	keys  []string
	depth int
	wideN int // one container in wideN is big (0: in 100)
	width int
	odd   bool // strings that need escaping
	uniq  *int // unique numbers
	big   int  // the size of a container now and then
	huge  int  // one container in huge has thousands of members (0: none)
	most  int  // at most about so many (0: 4096)
}

func (g *genCfg) scalar(r *R) *J {
	switch r.W(4, 4, 1, 1) {
	case 0:
		if g.uniq != nil {
			*g.uniq++
			return jInt(1000 + *g.uniq)
		}
		return jNum(genNum(r))
	case 1:
		if g.uniq != nil && r.P(50) {
			*g.uniq++
			return jStr(fmt.Sprintf("s%d", *g.uniq))
		}
		if !g.odd {
			return jStr(strPool[r.N(5)])
		}
		return jStr(genStr(r))
	case 2:
		return jBool(r.P(50))
	}
	return jNull()
}

func (g *genCfg) tree(r *R, depth int) *J {
	k := r.W(3, 3, 4)
	if depth <= 0 {
		k = 0
	}
	if g.big > 0 && k > 0 && r.N(150) == 0 {
		return g.wide(r, k)
	}
	if g.big > 0 && k > 0 && r.N(400) == 0 {
		return g.chain(r)
	}
	if g.big > 0 && k > 0 && r.N(40) == 0 {
		return g.same(r, k, r.In(2, 3+r.N(14)))
	}
	switch k {
	case 1:
		a := jArr()
		for n := r.N(g.width + 1); n > 0; n-- {
			a.A = append(a.A, g.tree(r, depth-1))
		}
		return a
	case 2:
		return g.object(r, depth)
	}
	return g.scalar(r)
}

// maxVolume bounds the characters in one generated container.
const maxVolume = 60_000

// volume is about the length of the text.
func (j *J) volume() int {
	n := 3 + len(j.S)
	for _, x := range j.A {
		n += x.volume()
	}
	for k, x := range j.M {
		n += 3 + len(k) + x.volume()
	}
	return n
}

// wide makes an array (k = 1) or object of many scalars, rarely containers.
func (g *genCfg) wide(r *R, k int) *J {
	max := g.big
	if r.P(10) {
		max *= 6
	}
	n := edgeSize(r, max)
	if r.P(30) {
		return g.same(r, k, n)
	}
	item := func() *J {
		if r.P(95) {
			return g.scalar(r)
		}
		return g.tree(r, 1)
	}
	vol := 0
	if k == 1 {
		a := jArr()
		for ; n > 0 && vol < maxVolume; n-- {
			x := item()
			vol += x.volume()
			a.A = append(a.A, x)
		}
		return a
	}
	o := jObj()
	for i := 0; i < n && vol < maxVolume; i++ {
		k, x := fmt.Sprintf("%s%d", r.Str(g.keys), r.N(2*n)), item()
		vol += len(k) + x.volume()
		o.set(k, x)
	}
	return o
}

// same makes an array (k = 1) or object of n members of one kind.
func (g *genCfg) same(r *R, k, n int) *J {
	if n > 6*g.big {
		n = 6 * g.big
	}
	var keys []string
	for m := r.In(1, 5); m > 0; m-- {
		keys = append(keys, r.Str(g.keys))
	}
	first := g.scalar(r)
	kind := r.N(10)
	if g.uniq != nil && (kind == 0 || kind > 5) {
		kind = 5
	}
	item := func() *J {
		switch kind {
		case 0:
			return jInt(r.N(100))
		case 1:
			return jBool(r.P(50))
		case 2:
			return jNull()
		case 3:
			return jArr()
		case 4:
			return jObj()
		case 5: // records
			o := jObj()
			for i, d := r.N(len(keys)), 0; d < len(keys); d++ {
				o.set(keys[(i+d)%len(keys)], g.scalar(r))
			}
			return o
		case 6:
			return first.clone()
		case 7:
			return jStr(genStr(r))
		case 8:
			return jNum(genNum(r))
		}
		return jArr(jInt(r.N(10)), jInt(r.N(10)))
	}
	vol := 0
	if k == 1 {
		a := jArr()
		for ; n > 0 && vol < maxVolume; n-- {
			x := item()
			vol += x.volume()
			a.A = append(a.A, x)
		}
		return a
	}
	o := jObj()
	for i := 0; i < n && vol < maxVolume; i++ {
		k, x := fmt.Sprintf("%s%d", r.Str(g.keys), i), item()
		vol += len(k) + x.volume()
		o.set(k, x)
	}
	return o
}

// chain is a value deep in arrays and objects.
func (g *genCfg) chain(r *R) *J {
	max := 70
	if g.big < 40 {
		max = 20
	}
	j := g.tree(r, 1)
	for n := edgeSize(r, max); n > 0; n-- {
		x := jArr(j)
		if r.P(60) {
			x = jObj()
			if r.P(20) {
				x.set(r.Str(g.keys), g.scalar(r))
			}
			x.set(r.Str(g.keys), j)
		} else if r.P(20) {
			x.A = append(x.A, g.scalar(r))
		}
		j = x
	}
	return j
}

func (g *genCfg) object(r *R, depth int) *J {
	o := jObj()
	for n := r.N(g.width + 2); n > 0; n-- {
		o.set(r.Str(g.keys), g.tree(r, depth-1))
	}
	return o
}

// container returns an object or array with some content.
func (g *genCfg) container(r *R, depth int) *J {
	if g.huge > 0 && r.N(g.huge) == 0 {
		g.huge = 0 // once in a case
		return g.hugeDoc(r)
	}
	n := g.wideN
	if n == 0 {
		n = 100
	}
	if g.big > 0 && r.N(n) == 0 {
		return g.wide(r, r.In(1, 2))
	}
	if g.big > 0 && r.N(25) == 0 {
		return g.same(r, r.In(1, 2), r.In(2, 3+r.N(14)))
	}
	if r.P(30) {
		a := jArr()
		for n := r.In(1, g.width+1); n > 0; n-- {
			a.A = append(a.A, g.tree(r, depth-1))
		}
		return a
	}
	o := g.object(r, depth)
	for len(o.K) == 0 {
		o = g.object(r, depth)
	}
	return o
}

// hugeDoc has thousands of small members.
func (g *genCfg) hugeDoc(r *R) *J {
	n := r.Pick(2048, 4096, 4096, 4096, 8192, 16384, 65536) + r.Pick(-1, 0, 1, 2, r.N(200))
	most := g.most
	if most == 0 {
		most = 4096
	}
	if n > most {
		n = most + r.Pick(-1, 0, 1, r.N(200))
	}
	if r.P(20) {
		// or one long string (and key)
		long := strings.Repeat("long/text ", n/10+1)[:n]
		if r.P(30) {
			long = strings.Repeat("<長\n>", n/7+1)
		}
		j := jArr(jInt(1), jStr(long), jBool(true))
		if r.P(50) {
			j = jObj()
			j.set("a", jInt(1))
			j.set("s", jStr(long))
			if r.P(30) {
				j.set(long, jArr(jStr(long)))
			}
			j.set("b", jBool(true))
		}
		return j
	}
	item := func(i int) *J {
		switch r.N(12) {
		case 0:
			return jNull()
		case 1:
			return jBool(r.P(50))
		case 2:
			return jArr()
		case 3:
			return jStr("t" + strconv.Itoa(i))
		case 4:
			o := jObj()
			o.set("a", jInt(i))
			return o
		case 5:
			return jArr(jInt(i))
		}
		if g.uniq != nil {
			*g.uniq++
			return jInt(*g.uniq)
		}
		return jInt(i)
	}
	if r.P(60) {
		a := jArr()
		for i := 0; i < n; i++ {
			a.A = append(a.A, item(i))
		}
		return a
	}
	o := jObj()
	for i := 0; i < n; i++ {
		o.set("k"+strconv.Itoa(i), item(i))
	}
	return o
}

// bigText makes a document with the given number of members of a given density.
func bigText(r *R, n, density int) string {
	var b strings.Builder
	b.WriteByte('[')
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		switch density {
		case 0: // one byte per value
			b.WriteByte('1')
		case 1:
			fmt.Fprintf(&b, `{"k%d":%d,"s":"v%d"}`, i%7, i, i)
		case 2: // long strings
			fmt.Fprintf(&b, `"%s%d"`, strings.Repeat("long text ", 20), i)
		case 3:
			b.WriteString(strings.Repeat(" ", 30) + "null")
		default:
			fmt.Fprintf(&b, `[[],{},"%d\u00e9"]`, i)
		}
	}
	b.WriteByte(']')
	return b.String()
}

// jEqual compares trees, ignoring member order; numbers by text.
func jEqual(a, b *J) bool { return a.canon(false) == b.canon(false) }

func isNaNInf(f float64) bool { return math.IsNaN(f) || math.IsInf(f, 0) }

// depth is the number of containers on the longest way down.
func (j *J) depth() int {
	d := 0
	for _, x := range j.A {
		if n := x.depth(); n > d {
			d = n
		}
	}
	for _, x := range j.M {
		if n := x.depth(); n > d {
			d = n
		}
	}
	if j.T == 'a' || j.T == 'o' {
		d++
	}
	return d
}
