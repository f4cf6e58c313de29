// Package simsync stands for package sync in instrumented code: the same types
// and semantics, with blocking and wake-up order decided by the simulator, and
// the same happens-before edges for the race detector.
package simsync

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"unsafe"

	"verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// noCopy lets go vet complain as for the real types.
type noCopy struct{}

func (*noCopy) Lock()   {}
func (*noCopy) Unlock() {}

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	locked bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	simrt.Hot()
	for !m.tryLock() {
		simrt.Block(unsafe.Pointer(m), "Mutex.Lock")
	}
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) tryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	simrt.Hot()
	if m.tryLock() {
		simrt.RaceAcquire(unsafe.Pointer(m))
		return true
	}
	return false
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	simrt.RaceRelease(unsafe.Pointer(m))
	if !m.unlock() {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Wake(unsafe.Pointer(m))
	simrt.Hot()
}

//go:norace
func (m *Mutex) unlock() bool {
	ok := m.locked
	m.locked = false
	return ok
}

// RWMutex is a simulated sync.RWMutex: as in Go, a waiting writer keeps new
// readers out.
type RWMutex struct {
	writer  bool
	waiting int
	readers int
	w, r    byte
}

//go:norace
func (m *RWMutex) tryRLock(queue bool) bool {
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	simrt.Hot()
	for !m.tryRLock(true) {
		simrt.Block(unsafe.Pointer(m), "RWMutex.RLock")
	}
	simrt.RaceAcquire(unsafe.Pointer(&m.r))
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	simrt.Hot()
	if m.tryRLock(false) {
		simrt.RaceAcquire(unsafe.Pointer(&m.r))
		return true
	}
	return false
}

// RUnlock undoes a single RLock call.
func (m *RWMutex) RUnlock() {
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.w))
	if !m.runlock() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Wake(unsafe.Pointer(m))
	simrt.Hot()
}

//go:norace
func (m *RWMutex) runlock() bool {
	if m.readers == 0 {
		return false
	}
	m.readers--
	return true
}

//go:norace
func (m *RWMutex) tryLock(waiting int) bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.waiting -= waiting
	return true
}

//go:norace
func (m *RWMutex) queue() { m.waiting++ }

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	simrt.Hot()
	if !m.tryLock(0) {
		m.queue()
		for {
			simrt.Block(unsafe.Pointer(m), "RWMutex.Lock")
			if m.tryLock(1) {
				break
			}
		}
	}
	simrt.RaceAcquire(unsafe.Pointer(&m.r))
	simrt.RaceAcquire(unsafe.Pointer(&m.w))
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	simrt.Hot()
	if m.tryLock(0) {
		simrt.RaceAcquire(unsafe.Pointer(&m.r))
		simrt.RaceAcquire(unsafe.Pointer(&m.w))
		return true
	}
	return false
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	simrt.RaceRelease(unsafe.Pointer(&m.r))
	if !m.unlock() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Wake(unsafe.Pointer(m))
	simrt.Hot()
}

//go:norace
func (m *RWMutex) unlock() bool {
	ok := m.writer
	m.writer = false
	return ok
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	done uint32
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool { return o.done != 0 }

//go:norace
func (o *Once) setDone() { o.done = 1 }

// Do calls f once.
func (o *Once) Do(f func()) {
	simrt.Hot()
	if o.isDone() {
		simrt.RaceAcquire(unsafe.Pointer(&o.done))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer func() {
			simrt.RaceRelease(unsafe.Pointer(&o.done))
			o.setDone()
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var valid bool
	var p any
	var v T
	return func() T {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			v = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { p := g(); return p.a, p.b }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n int
}

//go:norace
func (w *WaitGroup) add(d int) int { w.n += d; return w.n }

// Add adds delta to the counter.
func (w *WaitGroup) Add(delta int) {
	simrt.Hot()
	if delta < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(w))
	}
	n := w.add(delta)
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a new goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits until the counter is zero.
func (w *WaitGroup) Wait() {
	simrt.Hot()
	for w.add(0) != 0 {
		simrt.Block(unsafe.Pointer(w), "WaitGroup.Wait")
	}
	simrt.RaceAcquire(unsafe.Pointer(w))
}

// Barrier lets tasks wait for each other. Unlike the others it is no
// synchronisation in the sense of the memory model: the race detector takes
// the tasks as unordered across it.
type Barrier struct{ N int }

//go:norace
func (b *Barrier) add(d int) int { b.N += d; return b.N }

// Meet waits until N tasks have called it.
func (b *Barrier) Meet() {
	simrt.Hot()
	if b.add(-1) <= 0 {
		simrt.Wake(unsafe.Pointer(b))
	}
	for b.add(0) > 0 {
		simrt.Block(unsafe.Pointer(b), "Barrier.Meet")
	}
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L    Locker
	tick int64
	wait int
	wake int
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enter() { c.wait++ }

//go:norace
func (c *Cond) leave() bool {
	if c.wake > 0 {
		c.wake--
		c.wait--
		return true
	}
	return false
}

//go:norace
func (c *Cond) signal(all bool) {
	if all {
		c.wake = c.wait
	} else if c.wake < c.wait {
		c.wake++
	}
}

// Wait waits for a signal.
func (c *Cond) Wait() {
	c.enter()
	c.L.Unlock()
	for !c.leave() {
		simrt.Block(unsafe.Pointer(c), "Cond.Wait")
	}
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	simrt.Hot()
	c.signal(false)
	simrt.Wake(unsafe.Pointer(c))
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	simrt.Hot()
	c.signal(true)
	simrt.Wake(unsafe.Pointer(c))
}

// Pool is a simulated sync.Pool. What it hands out is decided by the simulator:
// usually the item put last, by whichever goroutine, so that an item still in use
// meets its next user at once; evictions are injected.
type Pool struct {
	noCopy noCopy
	New    func() any

	head  *poolItem
	epoch int64
}

type poolItem struct {
	x    any
	next *poolItem
}

//go:norace
func (p *Pool) flush() {
	if e := simrt.PoolEpoch(); p.epoch != e {
		p.head, p.epoch = nil, e
	}
}

//go:norace
func (p *Pool) pop() *poolItem {
	p.flush()
	if p.head == nil {
		return nil
	}
	mode, h := simrt.PoolChoice()
	switch mode {
	case 1: // the oldest
		pp := &p.head
		for (*pp).next != nil {
			pp = &(*pp).next
		}
		it := *pp
		*pp = nil
		return it
	case 2: // sometimes nothing
		if h%4 == 0 {
			return nil
		}
	}
	it := p.head
	p.head = it.next
	return it
}

//go:norace
func (p *Pool) push(it *poolItem) {
	p.flush()
	it.next = p.head
	p.head = it
}

// Get takes an item.
func (p *Pool) Get() any {
	simrt.Hot()
	it := p.pop()
	if it == nil {
		if p.New == nil {
			return nil
		}
		return p.New()
	}
	simrt.RaceAcquire(unsafe.Pointer(it))
	return itemOf(it)
}

//go:norace
func itemOf(it *poolItem) any { return it.x }

//go:norace
func newItem(x any) *poolItem { return &poolItem{x: x} }

// Put gives an item back.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	it := newItem(x)
	simrt.RaceRelease(unsafe.Pointer(it))
	p.push(it)
	simrt.Hot()
}

// Map is a simulated sync.Map.
type Map struct {
	mu sync.Mutex // real: never held across a yield; gives the happens-before edges
	m  map[any]any
}

func (m *Map) with(f func()) {
	simrt.Hot()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	f()
}

// Load is sync.Map.Load.
func (m *Map) Load(k any) (v any, ok bool) { m.with(func() { v, ok = m.m[k] }); return }

// Store is sync.Map.Store.
func (m *Map) Store(k, v any) { m.with(func() { m.m[k] = v }) }

// Clear is sync.Map.Clear.
func (m *Map) Clear() { m.with(func() { m.m = nil }) }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (actual any, loaded bool) {
	m.with(func() {
		if actual, loaded = m.m[k]; !loaded {
			m.m[k], actual = v, v
		}
	})
	return
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.with(func() { v, ok = m.m[k]; delete(m.m, k) })
	return
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (prev any, ok bool) {
	m.with(func() { prev, ok = m.m[k]; m.m[k] = v })
	return
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n any) (swapped bool) {
	m.with(func() {
		if v, ok := m.m[k]; ok && v == o {
			m.m[k], swapped = n, true
		}
	})
	return
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) (deleted bool) {
	m.with(func() {
		if v, ok := m.m[k]; ok && v == o {
			delete(m.m, k)
			deleted = true
		}
	})
	return
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	var keys []any
	m.with(func() {
		for k := range m.m {
			keys = append(keys, k)
		}
	})
	sort.Slice(keys, func(i, j int) bool { return keyText(keys[i]) < keyText(keys[j]) })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

func keyText(k any) string {
	if t, ok := k.(reflect.Type); ok {
		return t.PkgPath() + "." + t.String()
	}
	return fmt.Sprint(k)
}
