package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"verif.local/sim/simrt"
)

// Case is one simulated execution, complete and self-contained: the same case
// on the same code gives the same execution.
type Case struct {
	Prop  string       `json:"prop"`
	Kind  string       `json:"kind"`
	Seed  uint64       `json:"seed"` // the seed it was generated from
	Cfg   simrt.Config `json:"cfg"`
	Texts []string     `json:"texts,omitempty"`
	Pre   []*Op        `json:"pre,omitempty"`  // made before the clients start
	Prog  [][]*Op      `json:"prog,omitempty"` // client programs
	Ops   [][]*TOp     `json:"ops,omitempty"`  // tree operations per client
	Data  []GoSpec     `json:"data,omitempty"`
	Opts  [][]O        `json:"opts,omitempty"`
	Vals  []*Val       `json:"vals,omitempty"`
	Acts  []Act        `json:"acts,omitempty"` // scenario-specific steps and faults
	N     []int        `json:"n,omitempty"`
	S     []string     `json:"s,omitempty"`
	// Replay is the recorded schedule of the violating run (a minimised case has
	// it in Cfg instead).
}

// NN is number i of the case, 0 if it is missing.
func (c *Case) NN(i int) int {
	if i < len(c.N) {
		return c.N[i]
	}
	return 0
}

// Act is a scenario-specific step or injected fault.
type Act struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

// Viol is a violation.
type Viol struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Outcome is what one execution gave.
type Outcome struct {
	Viol       *Viol
	NonTrivial bool
	Sig        uint64 // identifies the case for counting distinct ones
	Hash       uint64 // of the interleavings
	Digest     uint64 // of all results
	Steps      int64
	Margin     int64 // percent of the step limit used by the longest run
	SimNanos   int64
	Switches   int64
	Tasks      int64
	Segs       []simrt.Seg // schedule of the main run
	Overflow   bool
	mainRun    bool
	Probes     map[string]int64
	Faults     map[string]int64
}

func newOutcome() *Outcome {
	return &Outcome{Probes: map[string]int64{}, Faults: map[string]int64{}}
}

func (o *Outcome) fail(class, format string, a ...interface{}) {
	if o.Viol == nil {
		o.Viol = &Viol{class, fmt.Sprintf(format, a...)}
	}
}

func (o *Outcome) probe(name string)             { o.Probes[name]++ }
func (o *Outcome) fault(name string)             { o.Faults[name]++ }
func (o *Outcome) faultN(name string, n int64)   { o.Faults[name] += n }
func (o *Outcome) digest(s string)               { o.Digest = simrt.Hash(o.Digest, hashStr(s)) }
func (o *Outcome) distinct(parts ...uint64)      { o.Sig = simrt.Hash(append([]uint64{o.Sig}, parts...)...) }
func (o *Outcome) done(nontrivial bool, c *Case) { o.NonTrivial = o.NonTrivial || nontrivial }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

const defaultMaxSteps = 80_000_000

// sim runs the clients under the simulator. main: this is the run whose
// schedule matters (the first such run records it).
func (o *Outcome) sim(cfg simrt.Config, main bool, clients []func()) *simrt.Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = defaultMaxSteps
	}
	races := simrt.RaceErrors()
	res := simrt.Run(cfg, clients)
	o.Steps += res.Steps
	if n := res.Steps * 100 / cfg.MaxSteps; n > o.Margin {
		o.Margin = n
	}
	o.SimNanos += res.SimNanos
	o.Switches += res.Switches
	o.Tasks += int64(res.Tasks)
	for i, n := range res.Fired {
		if n > 0 {
			o.faultN(simrt.FaultNames[i], n)
		}
	}
	if res.Stalls > 0 {
		o.faultN("task-stall", res.Stalls)
	}
	o.Hash = simrt.Hash(o.Hash, res.Hash)
	if main && !o.mainRun {
		o.mainRun = true
		o.Segs, o.Overflow = append([]simrt.Seg{}, res.Segs...), res.Overflow
	}
	if n := simrt.RaceErrors() - races; n > 0 {
		o.fail("race", "data race reported between simulated tasks: %s", lastRace())
	}
	for _, p := range res.Panics {
		o.fail("panic", "panic: %.1500s", p)
	}
	if res.Hang {
		o.fail("hang", "no end after %d steps: %s", cfg.MaxSteps, strings.Join(res.Stuck, "; "))
	}
	if res.Deadlock {
		o.fail("deadlock", "nothing can run any more: %s", strings.Join(res.Stuck, "; "))
	} else if !res.Hang && len(res.Stuck) > 0 {
		o.fail("leak", "goroutines never end: %s", strings.Join(res.Stuck, "; "))
	}
	return res
}

// quiet runs one client alone, without faults, in its own run, as task number
// id (so that what depends on the task number is the same).
func (o *Outcome) quiet(c *Case, f func()) *simrt.Result {
	cfg := simrt.Config{Seed: 1, Strategy: simrt.StratSerial, MapMode: c.Cfg.MapMode, MapSeed: c.Cfg.MapSeed}
	return o.sim(cfg, false, []func(){f})
}

// raceLog is the prefix of the race detector's report files.
var raceLog = os.Getenv("SIM_RACE_LOG")

func lastRace() string {
	if raceLog == "" {
		return "(no log)"
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", raceLog, os.Getpid()))
	if err != nil {
		return "(no report text)"
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	return shortRace(s)
}

// shortRace keeps the accesses and their innermost frames in the library.
func shortRace(s string) string {
	var out []string
	n := 0
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Previous"):
			if i := strings.Index(t, " at 0x"); i > 0 {
				t = t[:i]
			}
			out = append(out, t)
			n = 0
		case strings.HasPrefix(t, "Goroutine"), strings.HasPrefix(t, "====="):
			n = 99
		case t != "" && !strings.Contains(t, "WARNING") && n < 6:
			if strings.Contains(t, ".go:") {
				t = t[strings.LastIndex(t, "/")+1:]
				if i := strings.Index(t, " +"); i > 0 {
					t = t[:i]
				}
			}
			out = append(out, "  "+t)
			n++
		}
		if len(out) > 30 {
			break
		}
	}
	return strings.Join(out, "\n    ")
}

// genCfg0 draws scheduler, faults and map order for a case.
func genSim(r *R, c *Case) {
	cfg := &c.Cfg
	cfg.Seed = r.U()
	cfg.MapSeed = r.U()
	cfg.MapMode = r.Pick(simrt.MapShuffled, simrt.MapShuffled, simrt.MapSorted, simrt.MapReversed, simrt.MapRotated)
	cfg.PoolMode = r.N(4)
	cfg.MaxSteps = defaultMaxSteps
	switch r.W(10, 55, 35) {
	case 0:
		cfg.Strategy = simrt.StratSerial
	case 1:
		cfg.Strategy = simrt.StratWalk
		cfg.Gap = int64(r.Pick(2, 5, 15, 40, 120, 400, 1500, 6000))
		cfg.HotP = int64(r.Pick(0, 0, 60, 250, 700))
		if r.P(25) {
			cfg.StallP = int64(r.Pick(30, 150, 400))
		}
	case 2:
		cfg.Strategy = simrt.StratPCT
		cfg.Depth = r.In(1, 5)
		cfg.Length = int64(r.Pick(200, 800, 2500, 8000, 25000))
	}
	if r.P(30) {
		for n := r.In(1, 3); n > 0; n-- {
			cfg.Faults = append(cfg.Faults, simrt.Fault{Step: int64(r.N(r.Pick(300, 1500, 6000))), Kind: r.Pick(simrt.FaultGC, simrt.FaultStack, simrt.FaultPool)})
		}
		sortFaults(cfg.Faults)
	}
}

func sortFaults(f []simrt.Fault) {
	for i := range f {
		for k := i; k > 0 && f[k].Step < f[k-1].Step; k-- {
			f[k], f[k-1] = f[k-1], f[k]
		}
	}
}

// guard runs f and returns the text of its panic, if any.
func guard(f func()) (text string) {
	defer func() {
		if x := recover(); x != nil {
			text = fmt.Sprintf("panic: %v", x)
			if os.Getenv("SIM_STACK") != "" {
				text += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return ""
}

func caseJSON(c *Case) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func cloneCase(c *Case) *Case {
	n := &Case{}
	if err := json.Unmarshal(caseJSON(c), n); err != nil {
		panic(err)
	}
	return n
}

// propDef is one property's scenario.
type propDef struct {
	id    string
	race  bool // also explored under the race detector
	plain bool // also explored without it
	gen   func(r *R, c *Case, tier string)
	exec  func(c *Case, o *Outcome)
	rule  string
	real  []string
	stub  []string
}

var props = map[string]*propDef{}

func register(p *propDef) { props[p.id] = p }

// makeCase generates case number i of a check.
func makeCase(prop, tier string, seed uint64, i int64) *Case {
	s := simrt.Hash(seed, hashStr(prop), uint64(i))
	c := &Case{Prop: prop, Seed: s}
	props[prop].gen(newR(s), c, tier)
	// large inputs may take longer
	if n := int64(len(caseJSON(c))) / 10_000; n > 0 {
		if n > 20 {
			n = 20
		}
		if c.Cfg.MaxSteps == 0 {
			c.Cfg.MaxSteps = defaultMaxSteps
		}
		c.Cfg.MaxSteps *= 1 + n
	}
	return c
}

// execute runs a case.
func execute(c *Case) *Outcome {
	o := newOutcome()
	p := props[c.Prop]
	if t := guard(func() { p.exec(c, o) }); t != "" {
		o.fail("harness", "panic in the harness: %s", t)
	}
	o.Sig = simrt.Hash(o.Sig, o.Hash, hashCase(c))
	return o
}

func hashCase(c *Case) uint64 {
	n := *c
	n.Seed = 0
	n.Cfg.Seed = 0
	return hashStr(string(caseJSON(&n)))
}

func init() {
	debug.SetMaxStack(256 << 20)
	_ = runtime.NumCPU
}
