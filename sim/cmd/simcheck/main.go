// Command simcheck runs the simulated checks: "drive" is a whole check, "work"
// one worker process of it, "replay" re-executes a replay file.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/simrt"
)

// Replay is a replay file.
type Replay struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	Variant  string `json:"variant"` // race or plain build
	Seed     uint64 `json:"verif_seed"`
	Index    int64  `json:"index"`
	Shrunk   int    `json:"shrink_executions"`
	Case     *Case  `json:"case"`
	// Batch, if given, stands for the cases First, First+Stride ... Index in one
	// process (for violations that need what earlier cases left behind).
	Batch *Batch `json:"batch,omitempty"`
	// Wall, if given, is the wall time in seconds after which a call counts as
	// hung (it passed no yield point, so no step limit ends it).
	Wall int `json:"wall,omitempty"`
}

// Batch is a sequence of generated cases.
type Batch struct {
	Tier   string `json:"tier"`
	First  int64  `json:"first"`
	Stride int64  `json:"stride"`
}

// Stats is what a worker reports.
type Stats struct {
	Runs, NonTrivial, Steps, SimNanos, Switches, Tasks int64
	Probes, Faults                                     map[string]int64
	Samples                                            []string
	Checked, Mismatch                                  int64
	Sites                                              []byte
	Seconds                                            float64
	Strategies                                         map[string]int64
	Kinds                                              map[string]int64
	Last                                               int64
	Margin, MarginCase                                 int64
	Slowest                                            float64 // seconds of the slowest run
	SlowestCase                                        int64
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck drive|work|replay|gen ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "drive":
		os.Exit(drive(os.Args[2:]))
	case "work":
		os.Exit(work(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "gen":
		fs := flag.NewFlagSet("gen", flag.ExitOnError)
		prop, tier, seed, i := fs.String("prop", "", ""), fs.String("tier", "quick", ""), fs.Uint64("seed", 1, ""), fs.Int64("i", 0, "")
		fs.Parse(os.Args[2:])
		b, _ := json.MarshalIndent(makeCase(*prop, *tier, *seed, *i), "", " ")
		fmt.Println(string(b))
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
}

// ---- worker ----

func work(args []string) int {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	first := fs.Int64("first", 0, "")
	stride := fs.Int64("stride", 1, "")
	last := fs.Int64("last", -1, "do not go beyond this case")
	seconds := fs.Float64("seconds", 10, "")
	dir := fs.String("dir", "", "")
	name := fs.String("name", "w", "")
	shrinkS := fs.Float64("shrink", 30, "")
	fs.Parse(args)
	if props[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 3
	}
	runtime.GOMAXPROCS(2)
	start := time.Now()
	state, err := os.OpenFile(filepath.Join(*dir, *name+".state"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	st := &Stats{Probes: map[string]int64{}, Faults: map[string]int64{}, Strategies: map[string]int64{}, Kinds: map[string]int64{}}
	sigs := map[uint64]struct{}{}
	inter := map[uint64]struct{}{}
	finish := func() {
		st.Seconds = time.Since(start).Seconds()
		st.Sites = simrt.SitesHit()
		b, _ := json.Marshal(st)
		os.WriteFile(filepath.Join(*dir, *name+".stats"), b, 0o644)
		for ext, m := range map[string]map[uint64]struct{}{".sigs": sigs, ".inter": inter} {
			var buf bytes.Buffer
			for s := range m {
				binary.Write(&buf, binary.LittleEndian, s)
			}
			os.WriteFile(filepath.Join(*dir, *name+ext), buf.Bytes(), 0o644)
		}
	}
	var word [8]byte
	for i := *first; *last < 0 || i <= *last; i += *stride {
		if time.Since(start).Seconds() > *seconds {
			break
		}
		if st.Runs%8 == 0 {
			if _, err := os.Stat(filepath.Join(*dir, "stop")); err == nil {
				break // another worker found a violation
			}
		}
		binary.LittleEndian.PutUint64(word[:], uint64(i)+1)
		state.WriteAt(word[:], 0)
		c := cloneCase(makeCase(*prop, *tier, *seed, i))
		began := time.Now()
		o := execute(c)
		if d := time.Since(began).Seconds(); d > st.Slowest {
			st.Slowest, st.SlowestCase = d, i
		}
		st.Runs++
		st.Last = i
		st.Steps += o.Steps
		if o.Margin > st.Margin {
			st.Margin, st.MarginCase = o.Margin, i
		}
		st.SimNanos += o.SimNanos
		st.Switches += o.Switches
		st.Tasks += o.Tasks
		st.Strategies[[]string{"serial", "random-walk", "pct", "replay"}[c.Cfg.Strategy]]++
		st.Kinds[c.Kind]++
		for k, n := range o.Probes {
			st.Probes[k] += n
		}
		for k, n := range o.Faults {
			st.Faults[k] += n
		}
		if o.NonTrivial {
			st.NonTrivial++
			if len(sigs) < 2_000_000 {
				sigs[o.Sig] = struct{}{}
			}
		}
		if len(inter) < 2_000_000 {
			inter[o.Hash] = struct{}{}
		}
		if o.NonTrivial && (st.Runs%997 == 3 || len(st.Samples) == 0) && len(st.Samples) < 3 {
			st.Samples = append(st.Samples, string(caseJSON(c)))
		}
		if o.Viol != nil {
			finish()
			return report(*dir, *name, *prop, *tier, *seed, i, *first, *stride, c, o, *shrinkS)
		}
		if st.Runs%64 == 7 {
			// the same case must give the same execution
			p := execute(cloneCase(c))
			st.Checked++
			if p.Digest != o.Digest || p.Hash != o.Hash || p.Steps != o.Steps {
				st.Mismatch++
				if d := os.Getenv("SIM_MISMATCH"); d != "" {
					writeJSON(filepath.Join(d, fmt.Sprintf("mismatch-%s-%d.json", variantName(), i)), &Replay{Property: *prop, Variant: variantName(), Case: c,
						Message: fmt.Sprintf("digest %x %x hash %x %x steps %d %d", o.Digest, p.Digest, o.Hash, p.Hash, o.Steps, p.Steps)})
				}
			}
		}
	}
	finish()
	return 0
}

func report(dir, name, prop, tier string, seed uint64, i, first, stride int64, c *Case, o *Outcome, shrinkS float64) int {
	small, out, n := c, o, 0
	if o.Viol.Class != "harness" {
		s, so, k := shrink(c, o.Viol.Class, time.Duration(shrinkS*float64(time.Second)), execute)
		n = k
		if so != nil {
			small, out = s, so
		}
	}
	rp := &Replay{Property: prop, Class: out.Viol.Class, Message: out.Viol.Msg, Variant: variantName(), Seed: seed, Index: i, Shrunk: n, Case: small}
	writeJSON(filepath.Join(dir, name+".viol"), rp)
	rp.Case, rp.Class, rp.Message = c, o.Viol.Class, o.Viol.Msg
	writeJSON(filepath.Join(dir, name+".viol-full"), rp)
	rp.Batch = &Batch{tier, first, stride}
	writeJSON(filepath.Join(dir, name+".viol-batch"), rp)
	return 1
}

func variantName() string {
	if simrt.RaceEnabled {
		return "race"
	}
	return "plain"
}

func writeJSON(path string, x interface{}) {
	b, err := json.MarshalIndent(x, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// ---- replay ----

// replay executes a replay file: exit 1 if the recorded violation occurs, 0 if
// none does.
func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("q", false, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if rp.Variant != variantName() {
		fmt.Fprintf(os.Stderr, "this replay file needs the %s build\n", rp.Variant)
		return 3
	}
	if props[rp.Case.Prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		return 3
	}
	if rp.Batch != nil {
		for i := rp.Batch.First; i < rp.Index; i += rp.Batch.Stride {
			execute(cloneCase(makeCase(rp.Property, rp.Batch.Tier, rp.Seed, i)))
		}
	}
	if rp.Wall > 0 {
		time.AfterFunc(time.Duration(rp.Wall)*time.Second, func() {
			fmt.Printf("hang: a library call did not return within %d s of wall time\n", rp.Wall)
			os.Exit(1)
		})
	}
	o := execute(rp.Case)
	if o.Viol == nil {
		if !*quiet {
			fmt.Println("no violation")
		}
		return 0
	}
	if !*quiet {
		fmt.Printf("%s: %s\n", o.Viol.Class, o.Viol.Msg)
	}
	if o.Viol.Class == "harness" {
		return 3
	}
	return 1
}

// ---- driver ----

type binary_ struct{ path, variant string }

func drive(args []string) int {
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	seconds := fs.Float64("seconds", 30, "")
	workers := fs.Int("workers", 8, "")
	dir := fs.String("dir", "", "scratch directory")
	plain := fs.String("plain", "", "plain binary")
	race := fs.String("race", "", "race binary")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "directory for replay files")
	sites := fs.String("sites", "", "sites.json")
	known := fs.String("known", "", "known findings")
	fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	start := time.Now()
	fmt.Printf("property %s, tier %s, VERIF_SEED %d, %d workers, %.0f s\n", *prop, *tier, *seed, *workers, *seconds)

	var bins []binary_
	if p.plain {
		bins = append(bins, binary_{*plain, "plain"})
	}
	if p.race {
		bins = append(bins, binary_{*race, "race"})
	}
	type result struct {
		name string
		bin  binary_
		w    int
		code int
		err  string
		hung bool
	}
	results := make([]*result, *workers)
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		// race builds take most of the machine: they are slower
		b := bins[0]
		if len(bins) == 2 && w%8 >= 3 {
			b = bins[1]
		}
		r := &result{name: fmt.Sprintf("w%d", w), bin: b, w: w}
		results[w] = r
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(b.path, "work", "-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-first", fmt.Sprint(r.w),
				"-stride", fmt.Sprint(*workers), "-seconds", fmt.Sprint(*seconds), "-dir", *dir, "-name", r.name)
			cmd.Env = workerEnv(*dir, r.name)
			var errb tail
			cmd.Stderr = &errb
			if err := cmd.Start(); err != nil {
				r.code, r.err = 2, err.Error()
				return
			}
			stop := make(chan struct{})
			go func() {
				prev, since := "", time.Now()
				for {
					select {
					case <-stop:
						return
					case <-time.After(2 * time.Second):
					}
					b, _ := os.ReadFile(filepath.Join(*dir, r.name+".state"))
					if string(b) != prev {
						prev, since = string(b), time.Now()
					} else if time.Since(since) > 150*time.Second {
						r.hung = true
						cmd.Process.Kill()
						return
					}
				}
			}()
			err := cmd.Wait()
			close(stop)
			r.err = errb.String()
			if err != nil {
				r.code = cmd.ProcessState.ExitCode()
				os.WriteFile(filepath.Join(*dir, "stop"), nil, 0o644)
			}
		}()
	}
	wg.Wait()

	// gather
	total := &Stats{Probes: map[string]int64{}, Faults: map[string]int64{}, Strategies: map[string]int64{}, Kinds: map[string]int64{}}
	sigs, inter := map[uint64]struct{}{}, map[uint64]struct{}{}
	byVariant := map[string]int64{}
	for _, r := range results {
		b, err := os.ReadFile(filepath.Join(*dir, r.name+".stats"))
		if err != nil {
			continue
		}
		st := &Stats{}
		if json.Unmarshal(b, st) != nil {
			continue
		}
		total.add(st)
		byVariant[r.bin.variant] += st.Runs
		readSet(filepath.Join(*dir, r.name+".sigs"), sigs)
		readSet(filepath.Join(*dir, r.name+".inter"), inter)
	}
	ev := evidenceOf(p, *tier, *seed, total, len(sigs), len(inter), byVariant, *sites, *workers, *seconds)
	writeEv := func(viol int) {
		ev["wall_s"] = time.Since(start).Seconds()
		ev["violations"] = viol
		if *evidence != "" {
			writeJSON(*evidence, ev)
		}
	}

	// judge
	code := 0
	for _, r := range results {
		if r.code == 0 && !r.hung {
			continue
		}
		v := confirm(*dir, *replays, *prop, *tier, *seed, r.name, r.bin, r.w, *workers, r.code, r.hung, r.err)
		if v.known(*known) {
			continue
		}
		if v.exit == 1 {
			writeEv(1)
			fmt.Printf("violation (%s build, case %d, class %s):\n  %s\n", r.bin.variant, v.rp.Index, v.rp.Class, strings.ReplaceAll(clip(v.rp.Message, 3000), "\n", "\n  "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, v.path)
			return 1
		}
		code = 2
		fmt.Fprintf(os.Stderr, "check error: %s\n", v.text)
	}
	writeEv(0)
	for _, l := range knownLines(*known, *prop) {
		fmt.Println(l)
	}
	if total.Runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "check error: no case was executed")
		code = 2
	}
	cov := ev["coverage"].(map[string]interface{})
	fmt.Printf("%d runs (%d distinct non-trivial, %d distinct interleavings), %v steps, %.0f runs/h, sites reached %v\n",
		total.Runs, len(sigs), len(inter), total.Steps, cov["runs_per_hour"], cov["yield_sites_reached"])
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func workerEnv(dir, name string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GODEBUG=") && !strings.HasPrefix(e, "GOGC=") && !strings.HasPrefix(e, "GOMEMLIMIT=") {
			env = append(env, e)
		}
	}
	log := filepath.Join(dir, name+".race")
	return append(env,
		"GORACE=log_path="+log+" halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5 exitcode=0",
		"SIM_RACE_LOG="+log, "GODEBUG=clobberfree=1", "GOTRACEBACK=single", "TZ=UTC")
}

// tail keeps the last part of what is written to it.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte{}, t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

type verdict struct {
	exit int
	text string
	path string
	rp   *Replay
}

func (v *verdict) known(path string) bool { return false }

// knownLines: no finding is recorded as known; every defect found was repaired.
func knownLines(path, prop string) []string {
	if path == "" {
		return nil
	}
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if l := sc.Text(); strings.HasPrefix(l, "KNOWN-FINDING: property="+prop+" ") {
			out = append(out, l)
		}
	}
	return out
}

// confirm re-executes what a worker reported, in fresh processes.
func confirm(dir, replays, prop, tier string, seed uint64, name string, b binary_, w, workers, code int, hung bool, stderr string) *verdict {
	os.MkdirAll(replays, 0o755)
	state := func() int64 {
		s, err := os.ReadFile(filepath.Join(dir, name+".state"))
		if err != nil || len(s) < 8 {
			return -1
		}
		return int64(binary.LittleEndian.Uint64(s)) - 1
	}
	save := func(rp *Replay) string {
		path := filepath.Join(replays, fmt.Sprintf("%s-%d-%d.json", prop, seed, rp.Index))
		writeJSON(path, rp)
		return path
	}
	if hung {
		// a call that never comes back and passes no yield point: the step
		// limit cannot end it, so it is repeated here against the wall clock
		i := state()
		if i < 0 {
			return &verdict{exit: 2, text: "worker " + name + " made no progress before its first case"}
		}
		rp := &Replay{Property: prop, Class: "hang", Variant: b.variant, Seed: seed, Index: i, Case: makeCase(prop, tier, seed, i),
			Message: "a library call did not return within 100 s of wall time", Wall: 100}
		path := filepath.Join(dir, name+".hang")
		writeJSON(path, rp)
		if got, _ := runReplay(dir, b, path); got != 1 {
			return &verdict{exit: 2, text: fmt.Sprintf("worker %s made no progress for 150 s in case %d, which ends on its own", name, i)}
		}
		return &verdict{exit: 1, rp: rp, path: save(rp)}
	}
	if code == 1 {
		for _, ext := range []string{".viol", ".viol-full", ".viol-batch"} {
			rp := &Replay{}
			raw, err := os.ReadFile(filepath.Join(dir, name+ext))
			if err != nil || json.Unmarshal(raw, rp) != nil {
				return &verdict{exit: 2, text: "worker " + name + " reported a violation but wrote no replay file\n" + stderr}
			}
			if rp.Class == "harness" {
				return &verdict{exit: 2, text: fmt.Sprintf("case %d: %s", rp.Index, rp.Message)}
			}
			for try := 0; try < 2; try++ {
				if got, _ := runReplay(dir, b, filepath.Join(dir, name+ext)); got == 1 || crashed(got) {
					return &verdict{exit: 1, rp: rp, path: save(rp)}
				}
			}
		}
		rp := &Replay{}
		raw, _ := os.ReadFile(filepath.Join(dir, name+".viol"))
		json.Unmarshal(raw, rp)
		return &verdict{exit: 2, text: fmt.Sprintf("case %d reported %s (%s) but does not replay", rp.Index, rp.Class, clip(rp.Message, 600))}
	}
	if code == 3 {
		return &verdict{exit: 2, text: "worker " + name + ": " + stderr}
	}
	// the process died
	i := state()
	if i < 0 {
		return &verdict{exit: 2, text: "worker " + name + " failed before its first case: " + stderr}
	}
	c := makeCase(prop, tier, seed, i)
	rp := &Replay{Property: prop, Class: "crash", Variant: b.variant, Seed: seed, Index: i, Case: c}
	test := func(c *Case) (bool, string) {
		n := *rp
		n.Case = c
		path := filepath.Join(dir, name+".crash")
		writeJSON(path, &n)
		got, text := runReplay(dir, b, path)
		return crashed(got), text
	}
	if crashed, text := test(c); crashed {
		rp.Message = "the process died: " + crashText(text)
		k := 0
		small, _, _ := shrink(c, "crash", 40*time.Second, func(c *Case) *Outcome {
			if k++; k > 60 {
				return nil
			}
			o := newOutcome()
			if crashed, _ := test(c); crashed {
				o.fail("crash", "")
			}
			return o
		})
		rp.Case = small
		return &verdict{exit: 1, rp: rp, path: save(rp)}
	}
	rp.Batch = &Batch{tier, int64(w), int64(workers)}
	path := filepath.Join(dir, name+".crash")
	writeJSON(path, rp)
	if got, text := runReplay(dir, b, path); crashed(got) {
		rp.Message = "the process died: " + crashText(text)
		return &verdict{exit: 1, rp: rp, path: save(rp)}
	}
	return &verdict{exit: 2, text: fmt.Sprintf("worker %s ended with code %d in case %d, which does not repeat: %s", name, code, i, clip(stderr, 2000))}
}

// crashed: 1 is a violation, 3 trouble of the harness itself.
func crashed(code int) bool { return code != 0 && code != 1 && code != 3 }

func crashText(s string) string {
	for _, key := range []string{"fatal error:", "panic:", "SIGSEGV", "runtime:"} {
		if i := strings.Index(s, key); i >= 0 {
			return clip(s[i:], 1200)
		}
	}
	return clip(s, 1200)
}

func runReplay(dir string, b binary_, path string) (int, string) {
	cmd := exec.Command(b.path, "replay", path)
	cmd.Env = workerEnv(dir, "replay")
	var out tail
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return 0, err.Error()
	}
	t := time.AfterFunc(240*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return 0, "timeout"
	}
	if err == nil {
		return 0, out.String()
	}
	return cmd.ProcessState.ExitCode(), out.String()
}

func (t *Stats) add(s *Stats) {
	t.Runs += s.Runs
	t.NonTrivial += s.NonTrivial
	t.Steps += s.Steps
	if s.Slowest > t.Slowest {
		t.Slowest, t.SlowestCase = s.Slowest, s.SlowestCase
	}
	if s.Margin > t.Margin {
		t.Margin, t.MarginCase = s.Margin, s.MarginCase
	}
	t.SimNanos += s.SimNanos
	t.Switches += s.Switches
	t.Tasks += s.Tasks
	t.Checked += s.Checked
	t.Mismatch += s.Mismatch
	t.Seconds += s.Seconds
	for i, m := range []map[string]int64{s.Probes, s.Faults, s.Strategies, s.Kinds} {
		to := []map[string]int64{t.Probes, t.Faults, t.Strategies, t.Kinds}[i]
		for k, n := range m {
			to[k] += n
		}
	}
	if len(t.Samples) < 4 {
		t.Samples = append(t.Samples, s.Samples...)
	}
	for len(t.Sites) < len(s.Sites) {
		t.Sites = append(t.Sites, 0)
	}
	for i, b := range s.Sites {
		t.Sites[i] |= b
	}
}

func readSet(path string, m map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for ; len(b) >= 8; b = b[8:] {
		m[binary.LittleEndian.Uint64(b)] = struct{}{}
	}
}

func evidenceOf(p *propDef, tier string, seed uint64, t *Stats, distinct, inter int, byVariant map[string]int64, sites string, workers int, seconds float64) map[string]interface{} {
	var samples []interface{}
	for i, s := range t.Samples {
		if i >= 3 {
			break
		}
		if len(s) > 6000 {
			samples = append(samples, clip(s, 6000))
			continue
		}
		var x interface{}
		json.Unmarshal([]byte(s), &x)
		samples = append(samples, x)
	}
	reached, all := 0, 0
	if raw, err := os.ReadFile(sites); err == nil {
		var list []struct{ ID int }
		json.Unmarshal(raw, &list)
		all = len(list)
		for _, x := range list {
			if x.ID>>3 < len(t.Sites) && t.Sites[x.ID>>3]&(1<<(x.ID&7)) != 0 {
				reached++
			}
		}
	}
	perHour := 0.0
	if t.Seconds > 0 {
		perHour = float64(t.Runs) / (t.Seconds / float64(workers)) * 3600
	}
	cov := map[string]interface{}{
		"evaluations":             t.Runs,
		"distinct_nontrivial":     distinct,
		"rule":                    p.rule,
		"samples":                 samples,
		"runs_per_hour":           float64(int64(perHour)),
		"seeds":                   t.Runs,
		"runs_by_build":           byVariant,
		"runs_by_strategy":        t.Strategies,
		"runs_by_scenario":        t.Kinds,
		"steps":                   t.Steps,
		"slowest_run":             fmt.Sprintf("%.1f s (case %d)", t.Slowest, t.SlowestCase),
		"longest_run":             fmt.Sprintf("%d percent of the step limit (case %d)", t.Margin, t.MarginCase),
		"simulated_seconds":       float64(t.SimNanos) / 1e9,
		"task_switches":           t.Switches,
		"tasks":                   t.Tasks,
		"distinct_interleavings":  inter,
		"interleaving_measure":    "hash of the sequence of (task switched to, yield site it stood at) of every simulated run of a case",
		"faults_injected":         t.Faults,
		"rare_conditions_reached": t.Probes,
		"yield_sites_reached":     fmt.Sprintf("%d of %d", reached, all),
		"determinism_rechecks":    t.Checked,
		"determinism_mismatches":  t.Mismatch,
		"components_running_real": p.real,
		"components_simulated":    p.stub,
	}
	return map[string]interface{}{
		"property": p.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"steps are interleaved at statement boundaries of the library (one yield before every statement); finer interleavings are covered only through the race detector",
			"encoding/json, the standard library and shopspring/decimal run uninstrumented, as one step each",
		},
	}
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = strconv.Itoa
