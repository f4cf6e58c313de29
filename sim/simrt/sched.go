// Package simrt is the simulator: it runs real goroutines one at a time and
// decides, from one seed (or from a recorded schedule), which of them runs and
// for how many steps, what order hash maps yield, what the clock says, and when
// garbage collections, stack moves and pool evictions happen.
//
// Hand-over between goroutines is hidden from the race detector (RaceDisable in
// go:norace functions), so that in a -race build the only happens-before edges
// are those the code under test makes itself, and a missing one is reported
// whichever way the run was interleaved.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// ---- random numbers ----

// Hash mixes its arguments (splitmix64).
//
//go:norace
func Hash(xs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for i := 0; i < len(xs); i++ {
		h ^= xs[i]
		h += 0x9e3779b97f4a7c15
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

//go:norace
func mix2(a, b uint64) uint64 {
	h := a ^ (b * 0x9e3779b97f4a7c15)
	h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
	h = (h ^ (h >> 27)) * 0x94d049bb133111eb
	return h ^ (h >> 31)
}

// ---- configuration ----

// Fault is something the simulator does at a given global step.
type Fault struct {
	Step int64 `json:"step"`
	Kind int   `json:"kind"` // FaultGC ...
}

// Kinds of injected runtime faults.
const (
	FaultGC = iota
	FaultStack
	FaultPool
	FaultKinds
)

// FaultNames names the runtime fault kinds.
var FaultNames = [FaultKinds]string{"garbage-collection", "stack-move", "pool-eviction"}

// Strategies.
const (
	StratSerial = iota // run each task until it blocks or ends
	StratWalk          // random walk
	StratPCT           // random priorities with change points
	StratReplay        // follow Segs
)

// Seg says: task T runs for N yields and is then preempted (N < 0: runs until it
// blocks or ends).
type Seg struct {
	T int32 `json:"t"`
	N int32 `json:"n"`
}

// Config decides one run completely.
type Config struct {
	Seed     uint64  `json:"seed"`
	Strategy int     `json:"strategy"`
	Gap      int64   `json:"gap,omitempty"`    // mean steps between switches
	HotP     int64   `json:"hotp,omitempty"`   // switch probability at hot sites, /1024
	StallP   int64   `json:"stallp,omitempty"` // probability of stalling a preempted task, /1024
	Depth    int     `json:"depth,omitempty"`  // PCT change points
	Length   int64   `json:"length,omitempty"` // PCT run length estimate
	MapMode  int     `json:"map_mode,omitempty"`
	MapSeed  uint64  `json:"map_seed,omitempty"`
	PoolMode int     `json:"pool_mode,omitempty"`
	MaxSteps int64   `json:"max_steps"`
	Faults   []Fault `json:"faults,omitempty"`
	Segs     []Seg   `json:"segs,omitempty"`
}

// Result of one run.
type Result struct {
	Steps    int64
	Switches int64
	SimNanos int64
	Hash     uint64 // of the interleaving: (task, site) at every switch
	Segs     []Seg
	Overflow bool // schedule longer than the log
	Deadlock bool
	Hang     bool
	Stuck    []string // tasks that never ended
	Panics   []string // panics that reached the top of a library goroutine
	Tasks    int
	LibTasks int
	Fired    [FaultKinds]int64
	Stalls   int64
	Blocked  int64
}

// ---- tasks ----

const (
	stRunnable = iota
	stBlocked
	stDone
)

const maxOffers = 8

type offer struct {
	ch   unsafe.Pointer
	send bool
}

type task struct {
	id     int32
	lib    bool
	state  int32
	name   string
	park   chan struct{}
	y      int64 // local yields
	segY   int64 // local yields when last scheduled
	mapN   uint64
	poolN  uint64
	prio   int64
	stall  int64 // not before this step unless nothing else can run
	wait   unsafe.Pointer
	waitWh string
	sel    bool // waits for any channel event
	wakeAt int64
	timed  bool
	seq    int64 // order of blocking
	offers [maxOffers]offer
	nOffer int
	chosen int
	site   int
}

const maxTasks = 512
const maxSegs = 1 << 15

type sim struct {
	cfg    Config
	rng    uint64
	tasks  [maxTasks]*task
	n      int
	live   int
	client int // clients not ended
	res    Result
	segs   []Seg
	nseg   int
	segPos int
	hash   uint64
	clock  int64 // extra nanoseconds
	seq    int64
	fault  int
	nextSw int64
	points [16]int64 // PCT change points
	nPoint int
	low    int64
	over   bool
	done   chan struct{}
	join   int64
	epoch  int64
}

var (
	cur       *task
	s         *sim
	steps     int64
	nextEvent int64
	hotP      int64
)

// mapMode and friends also apply outside a run (solo mode).
var (
	soloMapMode int
	soloMapSeed uint64
	soloMapN    uint64
	poolEpoch   int64
	poolMode    int
)

// SetSolo sets the map order used outside a run.
func SetSolo(mapMode int, mapSeed uint64) { soloMapMode, soloMapSeed, soloMapN = mapMode, mapSeed, 0 }

//go:norace
func (m *sim) rnd() uint64 {
	m.rng += 0x9e3779b97f4a7c15
	return mix2(m.rng, 0x5851f42d4c957f2d)
}

//go:norace
func (m *sim) rndN(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(m.rnd() % uint64(n))
}

// InSim tells whether the caller runs inside a simulated run.
//
//go:norace
func InSim() bool { return cur != nil }

// TaskID returns the number of the running task, or -1.
//
//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return int(cur.id)
}

// Steps returns the global step counter: the event sequence number of histories.
//
//go:norace
func Steps() int64 { return steps }

// Tick counts one step and returns its number (never switches).
//
//go:norace
func Tick() int64 {
	steps++
	if cur != nil {
		cur.y++
	}
	return steps
}

// Run runs the clients as tasks 0..n-1 until every task ended, or nothing can
// run any more.
func Run(cfg Config, clients []func()) *Result {
	m := &sim{cfg: cfg, done: make(chan struct{}, 1), segs: make([]Seg, maxSegs)}
	m.rng = Hash(cfg.Seed, 77)
	if m.cfg.MaxSteps == 0 {
		m.cfg.MaxSteps = 1 << 40
	}
	start(m)
	for i, f := range clients {
		newTask(fmt.Sprintf("client%d", i), false, f)
	}
	kick(m)
	<-m.done
	return finish(m)
}

//go:norace
func start(m *sim) {
	s = m
	steps = 0
	hotP = m.cfg.HotP
	poolMode = m.cfg.PoolMode
	poolEpoch++
	if m.cfg.Strategy == StratReplay {
		hotP = 0
	}
	if m.cfg.Strategy == StratPCT {
		hotP = 0
		n := m.cfg.Depth
		if n > len(m.points) {
			n = len(m.points)
		}
		l := m.cfg.Length
		if l < 10 {
			l = 10
		}
		for i := 0; i < n; i++ {
			m.points[i] = 1 + m.rndN(l)
		}
		for i := 0; i < n; i++ { // sort
			for j := i; j > 0 && m.points[j] < m.points[j-1]; j-- {
				m.points[j], m.points[j-1] = m.points[j-1], m.points[j]
			}
		}
		m.nPoint = n
	}
}

//go:norace
func kick(m *sim) {
	t := m.pick(nil)
	if t == nil {
		m.done <- struct{}{}
		return
	}
	cur = t
	m.began(t)
	wake(t)
}

func finish(m *sim) *Result {
	RaceAcquire(unsafe.Pointer(&m.join))
	return collect(m)
}

//go:norace
func collect(m *sim) *Result {
	r := &m.res
	r.Steps = steps
	r.SimNanos = steps*1000 + m.clock
	r.Hash = m.hash
	n := m.nseg
	if n > maxSegs {
		n = maxSegs
		r.Overflow = true
	}
	r.Segs = m.segs[:n]
	r.Tasks = m.n
	cur = nil
	s = nil
	return r
}

func newTask(name string, lib bool, f func()) *task {
	t := &task{name: name, lib: lib, park: make(chan struct{}, 1)}
	register(t)
	go taskMain(s, t, f)
	return t
}

//go:norace
func register(t *task) {
	m := s
	if m.n >= maxTasks {
		panic("simrt: too many tasks")
	}
	t.id = int32(m.n)
	m.tasks[m.n] = t
	m.n++
	m.live++
	if t.lib {
		m.res.LibTasks++
	} else {
		m.client++
	}
	if m.cfg.Strategy == StratPCT {
		t.prio = 1 + int64(m.rnd()>>2)
	}
}

func taskMain(m *sim, t *task, f func()) {
	sleep(t)
	defer func() {
		if e := recover(); e != nil {
			notePanic(m, fmt.Sprintf("%s: %v\n%s", t.name, e, debug.Stack()))
		}
		RaceReleaseMerge(unsafe.Pointer(&m.join))
		end(m, t)
	}()
	f()
}

//go:norace
func notePanic(m *sim, text string) {
	p := make([]string, len(m.res.Panics)+1)
	copy(p, m.res.Panics)
	p[len(p)-1] = text
	m.res.Panics = p
}

//go:norace
func end(m *sim, t *task) {
	m.logSeg(t, true)
	t.state = stDone
	m.live--
	if !t.lib {
		m.client--
	}
	m.next(t)
}

// next hands over after t blocked or ended (t does not run on).
//
//go:norace
func (m *sim) next(t *task) {
	n := m.pick(nil)
	if n == nil {
		if m.live > 0 {
			m.stuck()
		}
		cur = nil
		raceDisable()
		m.done <- struct{}{}
		raceEnable()
		return
	}
	m.noteSwitch(n)
	cur = n
	m.began(n)
	wake(n)
}

//go:norace
func (m *sim) stuck() {
	if m.client > 0 {
		m.res.Deadlock = true
	}
	list := make([]string, 0, m.live)
	for i := 0; i < m.n; i++ {
		t := m.tasks[i]
		if t.state != stDone {
			list = list[:len(list)+1]
			list[len(list)-1] = describe(t)
		}
	}
	m.res.Stuck = list
}

//go:norace
func describe(t *task) string {
	return fmt.Sprintf("%s blocked in %s after site %d", t.name, t.waitWh, t.site)
}

//go:norace
func wake(t *task) {
	raceDisable()
	t.park <- struct{}{}
	raceEnable()
}

//go:norace
func sleep(t *task) {
	raceDisable()
	<-t.park
	raceEnable()
}

//go:norace
func (m *sim) noteSwitch(n *task) {
	m.res.Switches++
	m.hash = mix2(m.hash+uint64(n.id)+1, uint64(n.site))
}

// logSeg closes the segment of t.
//
//go:norace
func (m *sim) logSeg(t *task, ended bool) {
	if m.nseg < maxSegs {
		n := int32(t.y - t.segY)
		if ended {
			n = -1
		}
		m.segs[m.nseg] = Seg{t.id, n}
	}
	m.nseg++
}

// began sets up the switch that ends the segment of t.
//
//go:norace
func (m *sim) began(t *task) {
	t.segY = t.y
	const inf = int64(1) << 60
	switch m.cfg.Strategy {
	case StratWalk:
		g := m.cfg.Gap
		if g < 1 {
			g = 1
		}
		m.nextSw = steps + 1 + m.rndN(2*g)
	case StratPCT:
		m.nextSw = inf
		for i := 0; i < m.nPoint; i++ {
			if m.points[i] > steps {
				m.nextSw = m.points[i]
				break
			}
		}
	case StratReplay:
		m.nextSw = inf
		// pick advanced segPos to the segment after the one now starting
		if m.segPos > 0 && m.segPos <= len(m.cfg.Segs) {
			if g := m.cfg.Segs[m.segPos-1]; g.T == t.id && g.N >= 0 {
				m.nextSw = steps + int64(g.N)
				if g.N == 0 {
					m.nextSw = steps + 1
				}
			}
		}
	default:
		m.nextSw = inf
	}
	if m.nextSw == inf && m.segPos > len(m.cfg.Segs) || m.cfg.Strategy == StratSerial {
		m.nextSw = steps + tailSlice // fairness, should a task spin
	}
	if m.cfg.Strategy == StratPCT && steps > 20*m.cfg.Length+20000 {
		m.nextSw = steps + 1 + m.rndN(200)
	}
	m.arm()
}

// tailSlice is the time slice once no recorded schedule is left.
const tailSlice = 20000

//go:norace
func (m *sim) arm() {
	e := m.nextSw
	if m.fault < len(m.cfg.Faults) && m.cfg.Faults[m.fault].Step < e {
		e = m.cfg.Faults[m.fault].Step
	}
	if m.cfg.MaxSteps+1 < e {
		e = m.cfg.MaxSteps + 1
	}
	nextEvent = e
}

// pick chooses the task to run next; not is the preempted task (still runnable),
// which is chosen only if nothing else can run (or PCT says so).
//
//go:norace
func (m *sim) pick(not *task) *task {
	for {
		count, stalled := 0, 0
		var best *task
		for i := 0; i < m.n; i++ {
			t := m.tasks[i]
			if t.state != stRunnable {
				continue
			}
			if t == not && m.cfg.Strategy != StratPCT {
				continue
			}
			if t.stall > steps {
				stalled++
				continue
			}
			count++
			if best == nil || t.prio > best.prio {
				best = t
			}
		}
		if m.cfg.Strategy == StratReplay {
			for m.segPos < len(m.cfg.Segs) {
				g := m.cfg.Segs[m.segPos]
				m.segPos++
				if int(g.T) < m.n && g.T >= 0 {
					if t := m.tasks[g.T]; t.state == stRunnable {
						return t
					}
				}
			}
			m.segPos = len(m.cfg.Segs) + 1
		}
		if count > 0 {
			switch {
			case not != nil && (m.cfg.Strategy == StratReplay || m.cfg.Strategy == StratSerial):
				for i := 1; i <= m.n; i++ {
					t := m.tasks[(int(not.id)+i)%m.n]
					if t.state == stRunnable {
						return t
					}
				}
			case m.cfg.Strategy == StratWalk || m.cfg.Strategy == StratPCT && steps > 20*m.cfg.Length+20000:
				k := m.rndN(int64(count))
				for i := 0; i < m.n; i++ {
					t := m.tasks[i]
					if t.state != stRunnable || t.stall > steps || t == not && m.cfg.Strategy != StratPCT {
						continue
					}
					if k == 0 {
						return t
					}
					k--
				}
			}
			return best
		}
		if stalled > 0 {
			// everything that could run is stalled: the earliest wakes up
			var t *task
			for i := 0; i < m.n; i++ {
				x := m.tasks[i]
				if x.state == stRunnable && x != not && (t == nil || x.stall < t.stall) {
					t = x
				}
			}
			if not == nil {
				t.stall = 0
				return t
			}
			return not
		}
		if not != nil {
			return not
		}
		// nothing can run: let time pass
		var t *task
		for i := 0; i < m.n; i++ {
			x := m.tasks[i]
			if x.state == stBlocked && x.timed && (t == nil || x.wakeAt < t.wakeAt) {
				t = x
			}
		}
		if t == nil {
			return nil
		}
		if d := t.wakeAt - m.now(); d > 0 {
			m.clock += d
		}
		t.timed = false
		t.state = stRunnable
	}
}

//go:norace
func (m *sim) now() int64 { return steps*1000 + m.clock }

// Y is a yield point: called before every statement of the code under test.
//
//go:norace
func Y(site int) {
	t := cur
	if t == nil {
		return
	}
	steps++
	t.y++
	sitesHit[site&(maxSites-1)] = 1
	if steps < nextEvent {
		return
	}
	t.site = site
	slow(t)
}

const maxSites = 1 << 14

var sitesHit [maxSites]byte

// SitesHit returns a bitmap of the yield sites reached so far.
//
//go:norace
func SitesHit() []byte {
	b := make([]byte, maxSites/8)
	for i := 0; i < maxSites; i++ {
		if sitesHit[i] != 0 {
			b[i>>3] |= 1 << (uint(i) & 7)
		}
	}
	return b
}

// YH is a yield point at a statement that touches shared state.
//
//go:norace
func YH(site int) {
	t := cur
	if t == nil {
		return
	}
	steps++
	t.y++
	t.site = site
	sitesHit[site&(maxSites-1)] = 1
	if hotP > 0 && s.rndN(1024) < hotP {
		s.nextSw = steps
		nextEvent = steps
	}
	if steps < nextEvent {
		return
	}
	slow(t)
}

// Hot is YH for the simulated sync primitives.
//
//go:norace
func Hot() {
	if cur != nil {
		YH(cur.site)
	}
}

//go:norace
func slow(t *task) {
	m := s
	if steps > m.cfg.MaxSteps {
		if !m.res.Hang {
			m.res.Hang = true
			m.res.Stuck = []string{fmt.Sprintf("%s still running after %d steps near site %d", t.name, steps, t.site)}
			cur = nil
			raceDisable()
			m.done <- struct{}{}
			select {} // this run is over; the goroutine is abandoned
		}
	}
	for m.fault < len(m.cfg.Faults) && m.cfg.Faults[m.fault].Step <= steps {
		k := m.cfg.Faults[m.fault].Kind
		m.fault++
		m.res.Fired[k]++
		switch k {
		case FaultGC:
			doGC()
		case FaultStack:
			growStack(24)
		case FaultPool:
			poolEpoch++
		}
	}
	if steps >= m.nextSw {
		if m.cfg.Strategy == StratPCT {
			m.low--
			t.prio = m.low
		}
		if m.cfg.StallP > 0 && m.cfg.Strategy == StratWalk && m.rndN(1024) < m.cfg.StallP {
			t.stall = steps + 50 + m.rndN(2000)
			m.res.Stalls++
		}
		n := m.pick(t)
		if n != t {
			m.logSeg(t, false)
			m.noteSwitch(n)
			cur = n
			m.began(n)
			raceDisable()
			n.park <- struct{}{}
			<-t.park
			raceEnable()
			return
		}
		if m.cfg.Strategy == StratReplay {
			// keep the segment boundaries of the recording
			m.logSeg(t, false)
		}
		keep := t.segY
		m.began(t)
		if m.cfg.Strategy != StratReplay {
			t.segY = keep
		}
		return
	}
	m.arm()
}

func doGC() { runtime.GC() }

//go:noinline
func growStack(n int) byte {
	var pad [2048]byte
	for i := range pad {
		pad[i] = byte(n + i)
	}
	if n > 0 {
		return growStack(n-1) + pad[n]
	}
	return pad[len(pad)/2]
}

// Gosched stands for runtime.Gosched.
//
//go:norace
func Gosched() {
	if cur == nil {
		return
	}
	if s.cfg.Strategy == StratReplay && s.segPos <= len(s.cfg.Segs) {
		Y(cur.site) // the recorded segments say what happened here
		return
	}
	s.nextSw = steps + 1
	nextEvent = steps + 1
	Y(cur.site)
}

// ---- blocking ----

// Block parks the running task until Wake(on) is called. The caller re-checks
// its condition in a loop.
//
//go:norace
func Block(on unsafe.Pointer, what string) {
	t := cur
	if t == nil {
		panic("simrt: " + what + " blocks outside a simulated run: deadlock")
	}
	t.wait = on
	t.waitWh = what
	blockTask(t)
}

//go:norace
func blockTask(t *task) {
	m := s
	m.logSeg(t, true)
	t.state = stBlocked
	m.seq++
	t.seq = m.seq
	m.res.Blocked++
	m.next(t)
	sleep(t)
	t.wait = nil
}

// Wake makes every task runnable that is blocked on the object.
//
//go:norace
func Wake(on unsafe.Pointer) {
	m := s
	if m == nil {
		return
	}
	for i := 0; i < m.n; i++ {
		t := m.tasks[i]
		if t.state == stBlocked && t.wait == on && t.nOffer == 0 {
			t.state = stRunnable
			t.timed = false
		}
	}
}

// wakeChan also wakes tasks with offers on the channel, to try again.
//
//go:norace
func wakeChan(ch unsafe.Pointer) {
	m := s
	if m == nil {
		return
	}
	for i := 0; i < m.n; i++ {
		t := m.tasks[i]
		if t.state != stBlocked {
			continue
		}
		for j := 0; j < t.nOffer; j++ {
			if t.offers[j].ch == ch {
				t.state = stRunnable
				t.timed = false
				break
			}
		}
	}
}

// ---- goroutines ----

// Go stands for the go statement.
func Go(f func()) {
	if !InSim() {
		// outside a run: the harness never does this
		go f()
		return
	}
	newTask(libName(), true, f)
	Hot()
}

//go:norace
func libName() string {
	return fmt.Sprintf("goroutine%d (started by %s at site %d)", s.n, cur.name, cur.site)
}

// ---- pools ----

// PoolEpoch changes whenever simulated pools lose their content.
//
//go:norace
func PoolEpoch() int64 { return poolEpoch }

// PoolChoice returns the pool mode and a deterministic per-task number.
//
//go:norace
func PoolChoice() (int, uint64) {
	if cur == nil {
		return 0, 0
	}
	cur.poolN++
	return poolMode, Hash(s.cfg.MapSeed, uint64(cur.id), cur.poolN, 991)
}

// ---- resetting package state ----

type resetEntry struct {
	path string
	fn   func()
}

var resets []resetEntry

// RegisterReset is called by the generated code of every instrumented package.
func RegisterReset(path string, fn func()) { resets = append(resets, resetEntry{path, fn}) }

// ResetAll puts all package-level variables of the instrumented packages back to
// their state at program start, in initialisation order.
func ResetAll() {
	poolReset()
	for _, r := range resets {
		r.fn()
	}
}

//go:norace
func poolReset() { poolEpoch++ }

// ResetCount tells how many packages are instrumented.
func ResetCount() int { return len(resets) }

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
