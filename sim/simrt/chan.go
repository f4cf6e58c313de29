package simrt

import (
	"time"
	"unsafe"
)

// chanPtr returns the identity of a channel.
//
//go:norace
func chanPtr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// rdvDo is the channel operation a task performs itself once it was paired.
type chanOp interface {
	ptr() unsafe.Pointer
	isSend() bool
	unbuffered() bool
	try() bool // non-blocking attempt
	do()       // blocking operation, when paired
}

// RecvCase is a receive operation.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func (c *RecvCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }
func (c *RecvCase[T]) isSend() bool        { return false }
func (c *RecvCase[T]) unbuffered() bool    { return cap(c.ch) == 0 }
func (c *RecvCase[T]) try() bool {
	select {
	case c.V, c.OK = <-c.ch:
		return true
	default:
		return false
	}
}
func (c *RecvCase[T]) do() { c.V, c.OK = <-c.ch }

// Get returns what was received.
func (c *RecvCase[T]) Get() T { return c.V }

// Get2 returns what was received and whether the channel was open.
func (c *RecvCase[T]) Get2() (T, bool) { return c.V, c.OK }

// SendCase is a send operation.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func (c *SendCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }
func (c *SendCase[T]) isSend() bool        { return true }
func (c *SendCase[T]) unbuffered() bool    { return cap(c.ch) == 0 }
func (c *SendCase[T]) try() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}
func (c *SendCase[T]) do() { c.ch <- c.v }

// CaseRecv and CaseSend make the cases of a select statement.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

// CaseSend is curried so that the value converts as in a send statement.
func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}

// Select stands for a select statement: it returns the index of the case that
// was carried out, or -1 for the default case.
func Select(hasDefault bool, cases ...chanOp) int {
	Hot()
	order := selOrder(len(cases))
	for {
		for _, i := range order {
			if c := cases[i]; c.ptr() != nil && attempt(c) {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		if !InSim() {
			panic("simrt: blocking channel operation outside a simulated run: deadlock")
		}
		if i := waitOffers(cases); i >= 0 {
			return i
		}
	}
}

func selOrder(n int) []int {
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if n > 1 && InSim() {
		for i := n - 1; i > 0; i-- {
			_, h := PoolChoice()
			j := int(h % uint64(i+1))
			order[i], order[j] = order[j], order[i]
		}
	}
	return order
}

// attempt carries the operation out if that is possible now.
func attempt(c chanOp) bool {
	if c.try() {
		wakeChan(c.ptr())
		return true
	}
	if c.unbuffered() && InSim() {
		if p := partner(c.ptr(), !c.isSend()); p != nil {
			release(p)
			c.do()
			return true
		}
	}
	return false
}

// partner finds the task that has waited longest with a matching offer.
//
//go:norace
func partner(ch unsafe.Pointer, send bool) *task {
	m := s
	var best *task
	bi := 0
	for i := 0; i < m.n; i++ {
		t := m.tasks[i]
		if t.state != stBlocked {
			continue
		}
		for j := 0; j < t.nOffer; j++ {
			if t.offers[j].ch == ch && t.offers[j].send == send {
				if best == nil || t.seq < best.seq {
					best, bi = t, j
				}
				break
			}
		}
	}
	if best != nil {
		best.chosen = bi
	}
	return best
}

// release lets a paired task perform its half of the rendezvous.
//
//go:norace
func release(p *task) {
	p.state = stRunnable
	p.timed = false
	p.nOffer = 0
	wake(p)
}

// waitOffers blocks with the cases on offer; it returns the case carried out, or
// -1 to try again.
func waitOffers(cases []chanOp) int {
	if len(cases) > maxOffers {
		panic("simrt: select statement with too many cases")
	}
	t := post(cases)
	i := chosen(t)
	if i >= 0 {
		cases[i].do()
		sleep(t)
	}
	return i
}

//go:norace
func post(cases []chanOp) *task {
	t := cur
	t.nOffer = 0
	t.chosen = -1
	for i := 0; i < len(cases); i++ {
		p := cases[i].ptr()
		if p == nil {
			p = unsafe.Pointer(&nilChan)
		}
		t.offers[t.nOffer] = offer{p, cases[i].isSend()}
		t.nOffer++
	}
	t.wait = nil
	t.waitWh = "a channel operation"
	blockTask(t)
	return t
}

var nilChan int

//go:norace
func chosen(t *task) int {
	t.nOffer = 0
	return t.chosen
}

// Send stands for a send statement.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, &SendCase[T]{ch: ch, v: v}) }
}

// Recv stands for a receive operation.
func Recv[T any](ch <-chan T) T {
	c := &RecvCase[T]{ch: ch}
	Select(false, c)
	return c.V
}

// Recv2 stands for a two-valued receive operation.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := &RecvCase[T]{ch: ch}
	Select(false, c)
	return c.V, c.OK
}

// Close stands for close.
func Close[T any](ch chan<- T) {
	Hot()
	close(ch)
	wakeChan(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
}

// ChanIter drives a range over a channel.
type ChanIter[T any] struct{ ch <-chan T }

// ChanRange stands for the range clause over a channel.
func ChanRange[T any](ch <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{ch}, z
}

// Next receives the next value.
func (it *ChanIter[T]) Next(p *T) bool {
	v, ok := Recv2(it.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// ---- time ----

var simEpoch = time.Date(2024, 2, 29, 23, 59, 0, 0, time.UTC)

//go:norace
func simNow() int64 {
	if s == nil {
		return 0
	}
	return s.now()
}

// TimeNow stands for time.Now.
func TimeNow() time.Time { return simEpoch.Add(time.Duration(simNow())) }

// TimeSince stands for time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeSleep stands for time.Sleep.
//
//go:norace
func TimeSleep(d time.Duration) {
	t := cur
	if t == nil {
		return
	}
	t.timed = true
	t.wakeAt = s.now() + int64(d)
	t.wait = nil
	t.waitWh = "time.Sleep"
	t.nOffer = 0
	blockTask(t)
}
