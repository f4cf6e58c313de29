package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"verif.local/sim/simrt"
	sync "verif.local/sim/simsync"
)

// C06: values cross a simulated transport between two peers. The link splits,
// delays, cuts and corrupts; the peers reconnect and send again what was not
// acknowledged.

func init() {
	register(&propDef{id: "C06", race: false, plain: true, gen: genC06, exec: execC06,
		rule: "a case is 1-2 streams of 2-10 messages of six shapes over a simulated link with chunked and delayed delivery, cuts, corruption, duplicated bytes and reconnects, sender and receiver being clients under one seeded schedule, framed by encoding/json encoders and decoders or by length and MarshalBinary; checked: delivered exactly once, in order, equal; a refused decode leaves its receiver as it was; decoded values unchanged at the end. Non-trivial: at least one fault fired or delivery was split, and at least 2 messages arrived",
		real: append(append([]string{}, stdReal...), "encoding/json Encoder and Decoder"), stub: append(append([]string{}, stdStub...), "network connection")})
}

func genC06(r *R, c *Case, tier string) {
	g := &genCfg{keys: pickKeys(r), width: r.In(1, 3), odd: r.P(60), big: 150, huge: 900, most: 4096}
	mode := r.W(3, 3, 3, 2)
	c.Kind = []string{"json stream", "json stream, one receiver", "binary frames", "json stream, one struct receiver"}[mode]
	ns := r.Pick(1, 1, 2)
	c.N = []int{mode, ns, r.N(6), r.N(2)} // shape of the messages; order options of the sender
	for i := 0; i < ns; i++ {
		for n := r.In(2, 6); n > 0; n-- {
			j := g.container(r, r.In(0, 3))
			if r.P(15) {
				j = g.scalar(r)
			}
			if r.P(5) {
				j = jArr(jStr(bigText(r, 60, r.N(5))), j)
			}
			c.Texts = append(c.Texts, j.text(0))
		}
	}
	for i := 0; i < ns; i++ {
		// per connection: chunk sizes, delays and at most one fault
		for n := r.In(1, 6); n > 0; n-- {
			a := Act{K: "conn", A: i, B: r.Pick(1, 2, 3, 7, 16, 64, 512, 4096), C: r.Pick(0, 0, 1, 3)}
			c.Acts = append(c.Acts, a)
			k := r.W(25, 35, 25, 10)
			at := r.N(r.Pick(20, 80, 300, 1500))
			switch k {
			case 1:
				c.Acts = append(c.Acts, Act{K: "cut", A: i, B: at})
			case 2:
				c.Acts = append(c.Acts, Act{K: "flip", A: i, B: at, C: 1 + r.N(255)})
			case 3:
				c.Acts = append(c.Acts, Act{K: "dup", A: i, B: at, C: r.In(1, 40)})
			}
		}
	}
	genSim(r, c)
}

// link is one connection: bytes written are delivered in chunks.
type link struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	n      int // bytes accepted from the sender
	closed bool
	broken bool
	chunk  int
	delay  int
	cut    int // break after this many bytes (-1: never)
	flipAt int
	flip   byte
	dupAt  int
	dupN   int
	o      *Outcome
	faults map[string]int64
}

func newLink() *link {
	l := &link{cut: -1, flipAt: -1, dupAt: -1, chunk: 1 << 20, faults: map[string]int64{}}
	l.cond = sync.NewCond(&l.mu)
	return l
}

var errLink = errors.New("connection broken")

func (l *link) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for i, x := range b {
		if l.broken {
			return i, errLink
		}
		if l.cut >= 0 && l.n >= l.cut {
			l.broken = true
			l.faults["connection-cut"]++
			l.cond.Broadcast()
			return i, errLink
		}
		if l.n == l.flipAt {
			x ^= l.flip
			l.faults["byte-corruption"]++
		}
		l.buf = append(l.buf, x)
		if l.n == l.dupAt {
			k := l.dupN
			if k > len(l.buf) {
				k = len(l.buf)
			}
			l.buf = append(l.buf, l.buf[len(l.buf)-k:]...)
			l.faults["duplicated-bytes"]++
		}
		l.n++
	}
	l.cond.Broadcast()
	return len(b), nil
}

func (l *link) Read(b []byte) (int, error) {
	l.mu.Lock()
	for len(l.buf) == 0 && !l.closed && !l.broken {
		l.cond.Wait()
	}
	if len(l.buf) == 0 {
		defer l.mu.Unlock()
		if l.broken {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := l.chunk
	if n > len(b) {
		n = len(b)
	}
	if n > len(l.buf) {
		n = len(l.buf)
	} else if n < len(l.buf) {
		l.faults["split-delivery"]++
	}
	copy(b, l.buf[:n])
	l.buf = append([]byte{}, l.buf[n:]...)
	d := l.delay
	l.mu.Unlock()
	for i := 0; i < d; i++ {
		simrt.Gosched()
		l.faults["delayed-delivery"]++
	}
	return n, nil
}

func (l *link) close(broken bool) {
	l.mu.Lock()
	l.closed = true
	if broken {
		l.broken = true
		l.buf = nil
	}
	l.cond.Broadcast()
	l.mu.Unlock()
}

// c06Msg is a message: the value travels in one of several positions.
type c06Msg struct {
	Seq int                     `json:"seq"`
	Sum uint64                  `json:"sum"`
	P   *jsonvalue.V            `json:"p,omitempty"`
	V   jsonvalue.V             `json:"v"`
	L   []*jsonvalue.V          `json:"l,omitempty"`
	S   []jsonvalue.V           `json:"s,omitempty"`
	M   map[string]*jsonvalue.V `json:"m,omitempty"`
	E   interface{}             `json:"e,omitempty"`
}

func sumOf(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() >> 12 }

// wrap builds message number seq. shape: where the value is.
func c06Wrap(seq, shape int, v *jsonvalue.V, text string) interface{} {
	m := &c06Msg{Seq: seq, Sum: sumOf(fmt.Sprint(seq, text)), V: *jsonvalue.NewInt(seq)}
	switch shape {
	case 0:
		o := jsonvalue.NewObject()
		o.MustSet(seq).At("seq")
		o.MustSet(v).At("body")
		o.MustSet(jsonvalue.NewUint64(m.Sum)).At("sum")
		o.MustSet(seq).At(c06Extra(seq))
		return o
	case 1:
		m.P = v
	case 2:
		m.L = []*jsonvalue.V{v, jsonvalue.NewInt(seq)}
	case 3:
		m.M = map[string]*jsonvalue.V{"x": v, "seq": jsonvalue.NewInt(seq)}
	case 4:
		m.V = *v
	case 5:
		m.S = []jsonvalue.V{*jsonvalue.NewInt(seq), *v}
	}
	return m
}

// c06Extra is a member that not every message has.
func c06Extra(seq int) string { return fmt.Sprint("only", seq%3) }

// unwrap gives number, checksum and value of a decoded message.
func (m *c06Msg) unwrap(shape int) (int, uint64, *jsonvalue.V, bool) {
	switch shape {
	case 1:
		if m.P == nil {
			return m.Seq, m.Sum, jsonvalue.NewNull(), true
		}
		return m.Seq, m.Sum, m.P, true
	case 2:
		if len(m.L) == 2 && m.L[1] != nil && m.L[1].Int() == m.Seq {
			if m.L[0] == nil {
				return m.Seq, m.Sum, jsonvalue.NewNull(), true
			}
			return m.Seq, m.Sum, m.L[0], true
		}
	case 3:
		if m.M["seq"] != nil && m.M["seq"].Int() == m.Seq {
			if m.M["x"] == nil {
				return m.Seq, m.Sum, jsonvalue.NewNull(), true
			}
			return m.Seq, m.Sum, m.M["x"], true
		}
	case 4:
		return m.Seq, m.Sum, &m.V, true
	case 5:
		if len(m.S) == 2 && m.S[0].Int() == m.Seq {
			return m.Seq, m.Sum, &m.S[1], true
		}
	}
	return 0, 0, nil, false
}

type c06Stream struct {
	o       *Outcome
	id      int
	mode    int
	shape   int
	texts   []string
	conns   []*link
	mu      sync.Mutex
	cond    *sync.Cond
	conn    int // number of the current connection
	acked   int
	got     []*jsonvalue.V
	want    []string
	badDec  int
	cur     *link
	viol    *Viol
	dropped int
	stop    bool // the receiver is gone
}

func (s *c06Stream) fail(class, f string, a ...interface{}) {
	if s.viol == nil {
		s.viol = &Viol{class, fmt.Sprintf("stream %d: ", s.id) + fmt.Sprintf(f, a...)}
	}
}

// link returns connection number n, made by whichever peer comes first; after the
// faulty ones follow flawless ones.
func (s *c06Stream) link(n int) *link {
	s.mu.Lock()
	defer s.mu.Unlock()
	for len(s.conns) <= n {
		l := newLink()
		if s.stop {
			l.close(true)
		}
		s.conns = append(s.conns, l)
	}
	return s.conns[n]
}

func (s *c06Stream) ack() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.acked
}

// send is the sending client: it sends everything after the last acknowledged
// message, on a new connection each time one breaks.
func (s *c06Stream) send() {
	for n := 0; ; n++ {
		if n > 200 {
			s.fail("liveness", "200 connections were not enough")
			return
		}
		l := s.link(n)
		from := s.ack()
		if from >= len(s.texts) || s.stopped() {
			l.close(false)
			return
		}
		enc := json.NewEncoder(l)
		for i := from; i < len(s.texts); i++ {
			v := jsonvalue.MustUnmarshalString(s.texts[i])
			var err error
			if s.mode == 2 {
				err = s.sendFrame(l, i, v)
			} else {
				err = enc.Encode(c06Wrap(i, s.shape, v, s.texts[i]))
			}
			if err != nil {
				if !errors.Is(err, errLink) {
					s.fail("encode", "message %d %s could not be encoded: %v", i, clip(s.texts[i], 300), err)
				}
				break
			}
		}
		l.close(false)
		// wait for the receiver to give up this connection or to finish
		s.mu.Lock()
		for s.conn <= n && s.acked < len(s.texts) && !s.stop {
			s.cond.Wait()
		}
		s.mu.Unlock()
	}
}

func (s *c06Stream) sendFrame(l *link, i int, v *jsonvalue.V) error {
	b, err := v.MarshalBinary()
	if err != nil {
		return err
	}
	h := make([]byte, 12, 12+len(b))
	binary.LittleEndian.PutUint32(h, uint32(i))
	binary.LittleEndian.PutUint32(h[4:], uint32(len(b)))
	binary.LittleEndian.PutUint32(h[8:], uint32(sumOf(s.texts[i])))
	_, err = l.Write(append(h, b...))
	return err
}

// accept takes a decoded message; false: it is damaged.
func (s *c06Stream) accept(seq int, sum uint64, v *jsonvalue.V, ok bool) bool {
	if !ok || v == nil || seq < 0 || seq >= len(s.texts) || sum != sumOf(fmt.Sprint(seq, s.texts[seq])) {
		return false
	}
	want, err := parseJSON(s.texts[seq])
	if err != nil {
		panic(err)
	}
	if vtextU(v) != want.canon(false) {
		// the checksum is of the sent text; a corrupted body is not accepted
		return false
	}
	if seq > s.acked {
		return false // a gap: the link lost something
	}
	if seq < s.acked {
		s.dropped++
		return true // a duplicate
	}
	s.mu.Lock()
	s.got = append(s.got, v)
	s.want = append(s.want, vtext(v))
	s.acked++
	s.cond.Broadcast()
	s.mu.Unlock()
	return true
}

func vtextU(v *jsonvalue.V) string { return dump(v).canon(false) }

// recv is the receiving client.
func (s *c06Stream) recv(clean func(n int) bool) {
	keep := &jsonvalue.V{} // mode 1: one receiver for every message
	keepMsg := &c06Msg{}   // mode 3
	frame := make([]byte, 0, 64)
	for n := 0; s.ack() < len(s.texts) && s.viol == nil; n++ {
		l := s.link(n)
		start := s.ack()
		dec := json.NewDecoder(l)
		for s.ack() < len(s.texts) && s.viol == nil {
			var err error
			ok := false
			switch {
			case s.mode == 2:
				frame, ok, err = s.recvFrame(l, frame)
			case s.mode == 1:
				ok, err = s.recvInto(dec, keep)
			case s.mode == 3 && s.shape > 0:
				if err = dec.Decode(keepMsg); err == nil {
					// the next message may reuse the value: it is copied
					seq, sum, v, done := keepMsg.unwrap(s.shape)
					if done && s.shape >= 4 && seq%2 == 0 {
						x := *v // the struct of the message was copied
						v = &x
					} else if done {
						var cerr error
						if v, cerr = jsonvalue.Import(v); cerr != nil {
							done = false
						}
					}
					ok = s.accept(seq, sum, v, done)
				}
			case s.shape == 0:
				v := &jsonvalue.V{}
				if err = dec.Decode(v); err == nil {
					ok = s.acceptV(v)
				} else {
					s.badDec++
					if v.ValueType() != jsonvalue.NotExist {
						s.fail("receiver", "a failed Decode (%v) changed the receiver to %s", err, clip(vtext(v), 300))
					}
				}
			default:
				m := &c06Msg{}
				if err = dec.Decode(m); err == nil {
					ok = s.accept(m.unwrap(s.shape))
				}
			}
			if err == nil && !ok && clean(n) {
				s.fail("content", "a message on an undisturbed connection was decoded to something else than was sent (next expected: %d %s)", s.ack(), clip(s.texts[s.ack()], 300))
			}
			if err != nil && clean(n) && s.ack() < len(s.texts) {
				s.fail("content", "decoding from an undisturbed connection failed after %d messages: %v (next: %s)", s.ack()-start, err, clip(s.texts[s.ack()], 300))
			}
			if err != nil || !ok {
				break
			}
		}
		l.close(true)
		s.mu.Lock()
		s.conn = n + 1
		s.cond.Broadcast()
		s.mu.Unlock()
	}
	// the sender must not wait for a receiver that found a violation
	s.mu.Lock()
	s.stop = true
	conns := s.conns
	s.cond.Broadcast()
	s.mu.Unlock()
	for _, l := range conns {
		l.close(true)
	}
}

func (s *c06Stream) stopped() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.stop
}

// recvInto decodes into one value again and again.
func (s *c06Stream) recvInto(dec *json.Decoder, keep *jsonvalue.V) (bool, error) {
	before := snapshot(keep)
	var raw json.RawMessage
	var err error
	if s.ack()%2 == 0 {
		err = dec.Decode(keep)
	} else if err = dec.Decode(&raw); err == nil {
		err = keep.UnmarshalJSON(raw)
		for i := range raw {
			raw[i] = '~'
		}
	}
	if err != nil {
		s.badDec++
		if after := snapshot(keep); after != before {
			s.fail("receiver", "a failed decode (%v) changed the receiver from %s to %s", err, clip(before, 300), clip(after, 300))
		}
		return false, err
	}
	if keep.ValueType() != jsonvalue.Object {
		return false, nil
	}
	return s.acceptV(keep), nil
}

func (s *c06Stream) acceptV(v *jsonvalue.V) bool {
	body, err := v.Get("body")
	if err != nil || v.Len() != 4 || v.MustGet(c06Extra(v.MustGet("seq").Int())).ValueType() != jsonvalue.Number {
		return false
	}
	return s.accept(v.MustGet("seq").Int(), v.MustGet("sum").Uint64(), body, true)
}

// recvFrame reads one frame into a buffer that is used again for the next one.
func (s *c06Stream) recvFrame(l *link, frame []byte) ([]byte, bool, error) {
	var h [12]byte
	if _, err := io.ReadFull(l, h[:]); err != nil {
		return frame, false, err
	}
	seq, n, sum := int(binary.LittleEndian.Uint32(h[:])), int(binary.LittleEndian.Uint32(h[4:])), binary.LittleEndian.Uint32(h[8:])
	if seq >= len(s.texts) || n > 1<<20 || sum != uint32(sumOf(s.texts[seq])) {
		return frame, false, nil
	}
	if cap(frame) < n {
		frame = make([]byte, n)
	}
	frame = frame[:n]
	m, rerr := io.ReadFull(l, frame)
	// the receiver holds the last message; a short or damaged frame must leave it
	v := &jsonvalue.V{}
	old := ""
	if k := len(s.got); k > 0 && s.mode == 2 {
		if w, err := jsonvalue.Import(s.got[k-1]); err == nil {
			v, old = w, vtext(w)
		}
	} else {
		old = vtext(v)
	}
	var err error
	switch seq % 4 {
	case 1:
		err = v.UnmarshalJSON(frame[:m])
	case 2:
		err = json.Unmarshal(frame[:m], v)
	default:
		err = v.UnmarshalBinary(frame[:m])
	}
	if err != nil {
		s.badDec++
		if vtext(v) != old {
			s.fail("receiver", "a failed decode (%v) of %.300q changed the receiver from %s to %s", err, frame[:m], clip(old, 300), clip(vtext(v), 300))
		}
	} else if rerr != nil && m > 0 && (frame[0] == '{' || frame[0] == '[') && !bytes.Contains(frame[:m], []byte("\x00")) && m < n {
		if _, perr := parseJSON(string(frame[:m])); perr != nil {
			s.fail("receiver", "a truncated message %.300q was accepted as %s", frame[:m], clip(vtext(v), 300))
		}
	}
	if rerr != nil || err != nil {
		if rerr == nil {
			rerr = err
		}
		return frame, false, rerr
	}
	text := s.texts[seq]
	return frame, s.accept(seq, sumOf(fmt.Sprint(seq, text)), v, true), nil
}

func execC06(c *Case, o *Outcome) {
	simrt.ResetAll()
	mode, ns, shape := c.NN(0), c.NN(1), c.NN(2)
	if ns == 0 || len(c.Texts) < ns {
		return
	}
	if mode == 1 {
		shape = 0
	}
	streams := make([]*c06Stream, ns)
	var clients []func()
	per := len(c.Texts) / ns
	for i := range streams {
		s := &c06Stream{o: o, id: i, mode: mode, shape: shape, texts: c.Texts[i*per : (i+1)*per]}
		s.cond = sync.NewCond(&s.mu)
		dirty := map[int]bool{}
		for _, a := range c.Acts {
			if a.A != i {
				continue
			}
			if a.K == "conn" {
				l := newLink()
				l.chunk, l.delay = a.B, a.C
				if l.chunk < 1 {
					l.chunk = 1
				}
				s.conns = append(s.conns, l)
				continue
			}
			if len(s.conns) == 0 {
				s.conns = append(s.conns, newLink())
			}
			l := s.conns[len(s.conns)-1]
			dirty[len(s.conns)-1] = true
			switch a.K {
			case "cut":
				l.cut = a.B
			case "flip":
				l.flipAt, l.flip = a.B, byte(a.C)
			case "dup":
				l.dupAt, l.dupN = a.B, a.C
			}
		}
		streams[i] = s
		clean := func(n int) bool { return !dirty[n] }
		send, recv := s.send, func() { s.recv(clean) }
		if c.NN(3) == 1 {
			inner := send
			send = func() {
				jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptSetSequence())
				inner()
			}
		}
		clients = append(clients, send, recv)
	}
	o.sim(c.Cfg, true, clients)
	faults := int64(0)
	total := 0
	for _, s := range streams {
		for _, l := range s.conns {
			for _, k := range sortedKeys(l.faults) {
				o.faultN(k, l.faults[k])
				faults += l.faults[k]
			}
		}
		if len(s.conns) > 1 {
			o.faultN("reconnect", int64(len(s.conns)-1))
		}
		if s.badDec > 0 {
			o.probe("decode refused")
		}
		if s.dropped > 0 {
			o.probe("duplicate message dropped")
		}
		if s.viol != nil {
			o.fail(s.viol.Class, "%s", s.viol.Msg)
		}
	}
	if o.Viol != nil {
		return
	}
	soloOf(c, o, 0, 1, func() {
		for _, s := range streams {
			total += len(s.got)
			if len(s.got) != len(s.texts) {
				o.fail("lost", "stream %d: %d of %d messages arrived", s.id, len(s.got), len(s.texts))
				return
			}
			for i, v := range s.got {
				want, _ := parseJSON(s.texts[i])
				if got := vtextU(v); got != want.canon(false) {
					o.fail("content", "stream %d: message %d was %s, now it is %s", s.id, i, clip(want.canon(false), 400), clip(got, 400))
				}
				if got := vtext(v); got != s.want[i] {
					o.fail("altered", "stream %d: message %d was %s when it arrived, later it is %s", s.id, i, clip(s.want[i], 400), clip(got, 400))
				}
				if c.NN(3) == 1 && vtext(v) != want.canon(true) {
					o.fail("order", "stream %d: message %d, sent in set order, arrived as %s, expected %s", s.id, i, clip(vtext(v), 400), clip(want.canon(true), 400))
				}
				left, lw := 60, 60
				fresh := jsonvalue.MustUnmarshalString(s.texts[i])
				if got, w := convDeep(v, &left), convDeep(fresh, &lw); got != w {
					o.fail("content", "stream %d: message %d is %s, but its conversions are %s, expected %s", s.id, i, clip(want.canon(false), 300), clip(got, 500), clip(w, 500))
				}
				o.digest(s.want[i])
			}
		}
	})
	o.done(faults > 0 && total >= 2, c)
}
