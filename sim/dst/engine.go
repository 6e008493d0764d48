package dst

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Named is a scenario with a selection weight.
type Named struct {
	Name   string
	Weight int
	Fn     Scenario
}

// Check is the machinery deciding one property.
type Check struct {
	ID        string
	Title     string
	Scenarios []Named
	Quick     int // simulated runs in the quick tier
	Thorough  int
	Lim       Limits
	Rule      string
	Real      []string // components that run real code
	Stub      []string // components that are stand-ins
	Assume    []string
	RaceBuild bool
	Cold      int     // additional runs, each the first of a fresh process
	Long      []Named // made once each, in a process of its own
}

// Registry of checks.
var Registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { Registry[c.ID] = c }

// Replay is the on-disk form of a failing run.
type Replay struct {
	Property    string   `json:"property"`
	Kind        string   `json:"kind"`
	Detail      string   `json:"detail"`
	Scenario    string   `json:"scenario"`
	Tier        string   `json:"tier"`
	Seed        uint64   `json:"verif_seed"`
	Index       int      `json:"run_index"`
	Gen         []uint64 `json:"gen"`
	Sched       []uint64 `json:"sched"`
	BySeed      bool     `json:"by_seed,omitempty"`
	Shard       []int    `json:"shard,omitempty"` // with by_seed: replay every run of this worker up to the failing one
	LogHash     string   `json:"log_hash"`
	ShrinkTries int      `json:"shrink_tries"`
	OrigGen     int      `json:"original_gen_choices"`
	OrigSched   int      `json:"original_sched_choices"`
	Race        bool     `json:"race_build,omitempty"`
	GoDebug     string   `json:"godebug,omitempty"`
	Arch        string   `json:"arch,omitempty"`
	Trace       []string `json:"trace"`
}

// longBase is the index of the first long run; those of the 32-bit build are
// longNarrow further on.
const (
	longBase   = 1 << 28
	longNarrow = 1 << 10
)

func (c *Check) long(i int) (Named, bool) {
	i = (i - longBase) % longNarrow
	if i < 0 || i >= len(c.Long) {
		return Named{}, false
	}
	return c.Long[i], true
}

func isLong(i int) bool { return i >= longBase && i < longBase+2*longNarrow }

// limits of the run with the given index.
func (c *Check) limits(i int) Limits {
	if isLong(i) {
		return Limits{MaxSteps: 1 << 40, MaxYield: 1 << 32, Long: true}
	}
	return c.Lim
}

// scenario for the run with the given index.
func (c *Check) scenario(index int) Scenario {
	if isLong(index) {
		l, ok := c.long(index)
		return func(t *T) {
			if !ok {
				return
			}
			t.Log("scenario %s", l.Name)
			t.Cov.Probes["scenario:"+l.Name]++
			t.Desc = "scenario=" + l.Name
			l.Fn(t)
		}
	}
	return func(t *T) {
		w := make([]int, len(c.Scenarios))
		for i, s := range c.Scenarios {
			w[i] = s.Weight
		}
		i := 0
		if len(w) > 1 {
			i = t.Weighted(w...)
		}
		t.Log("scenario %s", c.Scenarios[i].Name)
		t.Cov.Probes["scenario:"+c.Scenarios[i].Name]++
		t.Describe("scenario=%s", c.Scenarios[i].Name)
		t.Desc = "scenario=" + c.Scenarios[i].Name
		c.Scenarios[i].Fn(t)
	}
}

// Streams for run i.
func seedsFor(prop string, seed uint64, i int) (*Stream, *Stream) {
	a := mix(seed, hashString(prop), uint64(i), 1)
	b := mix(seed, hashString(prop), uint64(i), 2)
	return NewStream(a), NewStream(b)
}

// WorkerResult is what one worker reports.
type WorkerResult struct {
	Runs      int               `json:"runs"`
	Faults    map[string]uint64 `json:"faults"`
	Probes    map[string]uint64 `json:"probes"`
	States    []uint64          `json:"states"`
	Scheds    []uint64          `json:"scheds"`
	Nontriv   []uint64          `json:"nontriv"`
	Switches  uint64            `json:"switches"`
	Decisions uint64            `json:"decisions"`
	Steps     uint64            `json:"steps"`
	Checks    uint64            `json:"checks"`
	SimTimeNs int64             `json:"sim_ns"`
	Samples   []string          `json:"samples"`
	Known     map[string]int    `json:"known"`
	Replay    *Replay           `json:"replay"`
	Hashes    []string          `json:"hashes,omitempty"`
	TimedOut  bool              `json:"timed_out"`
	WallS     float64           `json:"wall_s"`
}

// KnownFinding is one line of the known-findings file that suppresses.
type KnownFinding struct {
	Property, Match, Text string
}

// LoadKnown reads the known-findings file.
func LoadKnown(path string) []KnownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=C01 match="substring of kind: detail" what fails
		k := KnownFinding{Text: l}
		if i := strings.Index(l, "property="); i >= 0 {
			k.Property = strings.Fields(l[i+9:])[0]
		}
		if i := strings.Index(l, "match=\""); i >= 0 {
			r := l[i+7:]
			if j := strings.Index(r, "\""); j >= 0 {
				k.Match = r[:j]
				k.Text = strings.TrimSpace(r[j+1:])
			}
		}
		if k.Property != "" && k.Match != "" {
			out = append(out, k)
		}
	}
	return out
}

// Worker performs a shard of runs.
func Worker(c *Check, tier string, seed uint64, from, step, total int, maxWall time.Duration, statusFile string, hashes bool, known []KnownFinding, shrink time.Duration) *WorkerResult {
	start := time.Now()
	cov := NewCoverage()
	res := &WorkerResult{Known: map[string]int{}}
	var status *os.File
	if statusFile != "" {
		status, _ = os.Create(statusFile)
	}
	watch := newWatchdog(c.ID)
	defer watch.stop()
	for i := from; i < total; i += step {
		if time.Since(start) > maxWall {
			res.TimedOut = true
			break
		}
		if status != nil {
			_, _ = status.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		watch.begin(i)
		g, s := seedsFor(c.ID, seed, i)
		o := Execute(c.ID, tier, c.scenario(i), g, s, cov, false, c.limits(i))
		watch.end()
		res.Runs++
		if hashes {
			res.Hashes = append(res.Hashes, fmt.Sprintf("%d:%016x", i, o.LogHash))
		}
		if len(res.Samples) < 2 && o.Viol == nil && cov != nil && i%7 == from%7 {
			res.Samples = append(res.Samples, fmt.Sprintf("run %d: %s; gen=%d choices, sched=%d choices, %d task switches, %d steps, sim time %v, log %016x", i, o.Desc, len(o.Gen), len(o.Sched), o.Sim.Switches, o.Sim.Steps, o.Sim.SimTime, o.LogHash))
		}
		if o.Viol != nil {
			line := o.Viol.Kind + ": " + o.Viol.Detail
			sup := false
			for _, k := range known {
				if k.Property == c.ID && strings.Contains(line, k.Match) {
					res.Known[k.Text]++
					sup = true
				}
			}
			if sup {
				continue
			}
			if isLong(i) {
				res.Replay = &Replay{Property: c.ID, Kind: o.Viol.Kind, Detail: o.Viol.Detail, Scenario: o.Desc, Tier: tier, Seed: seed, Index: i, BySeed: true,
					OrigGen: len(o.Gen), OrigSched: len(o.Sched), GoDebug: os.Getenv("GODEBUG"), Arch: archFor(runtime.GOARCH == "386"), LogHash: fmt.Sprintf("%016x", o.LogHash)}
				break
			}
			res.Replay = MakeReplay(c, tier, seed, i, o, shrink, watch)
			break
		}
	}
	res.Faults, res.Probes = cov.Faults, cov.Probes
	res.Switches, res.Decisions, res.Steps, res.Checks = cov.Switches, cov.Decisions, cov.Steps, cov.Checks
	res.SimTimeNs = int64(cov.SimTime)
	for k := range cov.States {
		res.States = append(res.States, k)
	}
	for k := range cov.Scheds {
		res.Scheds = append(res.Scheds, k)
	}
	for k := range cov.Nontrivial {
		res.Nontriv = append(res.Nontriv, k)
	}
	res.WallS = time.Since(start).Seconds()
	return res
}

// MakeReplay minimises a failing run and renders it.
func MakeReplay(c *Check, tier string, seed uint64, i int, o Outcome, budget time.Duration, w *watchdog) *Replay {
	sc := c.scenario(i)
	run := func(gen, sched []uint64) Outcome {
		if w != nil {
			w.begin(i)
			defer w.end()
		}
		return Execute(c.ID, tier, sc, ReplayStream(gen), ReplayStream(sched), NewCoverage(), false, c.Lim)
	}
	best, tries := Shrink(run, o, budget)
	fin := Execute(c.ID, tier, sc, ReplayStream(best.Gen), ReplayStream(best.Sched), NewCoverage(), true, c.Lim)
	r := &Replay{Property: c.ID, Tier: tier, Seed: seed, Index: i, Gen: best.Gen, Sched: best.Sched, ShrinkTries: tries,
		OrigGen: len(o.Gen), OrigSched: len(o.Sched), Race: c.RaceBuild, LogHash: fmt.Sprintf("%016x", fin.LogHash), Trace: fin.Trace, Scenario: fin.Desc, GoDebug: os.Getenv("GODEBUG"), Arch: archFor(runtime.GOARCH == "386")}
	if fin.Viol != nil {
		r.Kind, r.Detail = fin.Viol.Kind, fin.Viol.Detail
	} else {
		r.Kind, r.Detail = o.Viol.Kind, o.Viol.Detail
		r.Gen, r.Sched = o.Gen, o.Sched
	}
	if len(r.Trace) > 4000 {
		r.Trace = append(r.Trace[:2000:2000], r.Trace[len(r.Trace)-2000:]...)
	}
	return r
}

// RunReplay re-executes a replay file's run.
func RunReplay(r *Replay) Outcome {
	c := Registry[r.Property]
	if c == nil {
		return Outcome{}
	}
	if r.BySeed {
		if len(r.Shard) == 2 && r.Shard[1] > 0 {
			for i := r.Shard[0]; i < r.Index; i += r.Shard[1] {
				g, s := seedsFor(c.ID, r.Seed, i)
				Execute(c.ID, r.Tier, c.scenario(i), g, s, NewCoverage(), false, c.Lim)
			}
		}
		g, s := seedsFor(c.ID, r.Seed, r.Index)
		return Execute(c.ID, r.Tier, c.scenario(r.Index), g, s, NewCoverage(), true, c.limits(r.Index))
	}
	return Execute(c.ID, r.Tier, c.scenario(r.Index), ReplayStream(r.Gen), ReplayStream(r.Sched), NewCoverage(), true, c.Lim)
}

// ------------------------------------------------------------------ watchdog

type watchdog struct {
	mu   sync.Mutex
	at   time.Time
	idx  int
	quit chan struct{}
}

func newWatchdog(id string) *watchdog {
	w := &watchdog{quit: make(chan struct{})}
	go func() {
		tk := time.NewTicker(time.Second)
		defer tk.Stop()
		for {
			select {
			case <-w.quit:
				return
			case <-tk.C:
				w.mu.Lock()
				at, idx := w.at, w.idx
				w.mu.Unlock()
				limit := 75 * time.Second
				if isLong(idx) {
					limit = 300 * time.Second
				}
				if !at.IsZero() && time.Since(at) > limit {
					fmt.Fprintf(os.Stderr, "watchdog: property %s run %d exceeded %v of real time\n", id, idx, limit)
					os.Exit(3)
				}
			}
		}
	}()
	return w
}

func (w *watchdog) begin(i int) { w.mu.Lock(); w.at, w.idx = time.Now(), i; w.mu.Unlock() }
func (w *watchdog) end()        { w.mu.Lock(); w.at = time.Time{}; w.mu.Unlock() }
func (w *watchdog) stop()       { close(w.quit) }

// -------------------------------------------------------------------- driver

// coldBase is the index of the first run made in a process of its own.
const coldBase = 1 << 30

// narrowBase is the index of the first run made by the 32-bit build.
const narrowBase = 1 << 29

// DriveOptions of a check invocation.
type DriveOptions struct {
	Tier    string
	Seed    uint64
	Workers int
	Runs    int // override
	Verif   string
	MaxWall time.Duration
	WorkDir string
}

// Drive runs a whole check: workers, evidence, replay verification.
func Drive(c *Check, o DriveOptions) int {
	start := time.Now()
	total := c.Quick
	if o.Tier == "thorough" {
		total = c.Thorough
	}
	if o.Runs > 0 {
		total = o.Runs
	}
	self, _ := os.Executable()
	type wr struct {
		res *WorkerResult
		err error
		out string
		idx string
	}
	// one more worker runs the 32-bit build, if there is one
	narrowDir := filepath.Join(o.WorkDir, "32")
	narrow := filepath.Join(narrowDir, "simrun")
	extra := 0
	if _, err := os.Stat(narrow); err == nil {
		if out, err := exec.Command(narrow, "list").CombinedOutput(); err == nil && len(out) > 0 {
			extra = 1
		}
	}
	type job struct {
		exe, workDir    string
		from, step, end int
	}
	var jobs []job
	for w := 0; w < o.Workers; w++ {
		jobs = append(jobs, job{self, o.WorkDir, w, o.Workers, total})
	}
	if extra == 1 {
		jobs = append(jobs, job{narrow, narrowDir, narrowBase, 1, narrowBase + (total+15)/16})
	}
	if o.Runs == 0 && os.Getenv("VERIF_NOLONG") == "" {
		for i, l := range c.Long {
			jobs = append(jobs, job{self, o.WorkDir, longBase + i, 1, longBase + i + 1})
			if extra == 1 && l.Weight > 1 {
				jobs = append(jobs, job{narrow, narrowDir, longBase + longNarrow + i, 1, longBase + longNarrow + i + 1})
			}
		}
	}
	results := make([]wr, len(jobs))
	cmds := make([]*exec.Cmd, len(jobs))
	var stopMu sync.Mutex
	stopped := false
	var wg sync.WaitGroup
	for w := range jobs {
		w := w
		exe, workDir := jobs[w].exe, jobs[w].workDir
		from, step, end := jobs[w].from, jobs[w].step, jobs[w].end
		outFile := filepath.Join(o.WorkDir, fmt.Sprintf("w%d.json", w))
		statFile := filepath.Join(o.WorkDir, fmt.Sprintf("w%d.status", w))
		_ = os.Remove(outFile)
		cmd := exec.Command(exe, "worker", "-prop", c.ID, "-tier", o.Tier, "-seed", fmt.Sprint(o.Seed),
			"-from", fmt.Sprint(from), "-step", fmt.Sprint(step), "-total", fmt.Sprint(end),
			"-out", outFile, "-status", statFile, "-verif", o.Verif, "-maxwall", o.MaxWall.String())
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "VERIF_WORKDIR="+workDir, fmt.Sprintf("VERIF_WORKER=%d", w),
			raceEnv(o.WorkDir, fmt.Sprintf("race%d", w)), "VERIF_RACELOG="+filepath.Join(o.WorkDir, fmt.Sprintf("race%d", w)))
		// vary the CPU-feature environment across workers: generic fallbacks run too
		if w%4 == 3 && w < o.Workers {
			cmd.Env = append(cmd.Env, "GODEBUG=cpu.pclmulqdq=off,cpu.sse41=off")
		}
		var buf bytes.Buffer
		cmd.Stdout = &buf
		cmd.Stderr = &buf
		stopMu.Lock()
		err := cmd.Start()
		if err == nil {
			cmds[w] = cmd
		}
		stopMu.Unlock()
		if err != nil {
			results[w].err = err
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmd.Wait()
			r := &results[w]
			r.out = buf.String()
			if b, e := os.ReadFile(statFile); e == nil {
				r.idx = strings.TrimSpace(string(b))
			}
			b, e := os.ReadFile(outFile)
			if err != nil || e != nil {
				stopMu.Lock()
				st := stopped
				stopMu.Unlock()
				if st {
					return
				}
				if err == nil {
					err = e
				}
				r.err = err
				return
			}
			var x WorkerResult
			if e := json.Unmarshal(b, &x); e != nil {
				r.err = e
				return
			}
			r.res = &x
			if x.Replay != nil {
				stopMu.Lock()
				if !stopped {
					stopped = true
					for k, other := range cmds {
						if k != w && other != nil && other.Process != nil {
							_ = other.Process.Kill()
						}
					}
				}
				stopMu.Unlock()
			}
		}()
	}
	wg.Wait()
	// runs that are the first of their process (package state still untouched)
	if cold := c.Cold; cold > 0 && !stopped {
		if o.Runs > 0 && cold > o.Runs {
			cold = o.Runs
		}
		if o.Tier == "thorough" {
			cold *= 16
		}
		more := make([]wr, cold)
		sem := make(chan struct{}, o.Workers)
		for k := range more {
			k := k
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				idx := coldBase + k
				outFile := filepath.Join(o.WorkDir, fmt.Sprintf("c%d.json", k))
				cmd := exec.Command(self, "worker", "-prop", c.ID, "-tier", o.Tier, "-seed", fmt.Sprint(o.Seed),
					"-from", fmt.Sprint(idx), "-step", "1", "-total", fmt.Sprint(idx+1), "-out", outFile, "-verif", o.Verif, "-maxwall", o.MaxWall.String())
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "VERIF_WORKDIR="+o.WorkDir, raceEnv(o.WorkDir, fmt.Sprintf("cold%d", k)), "VERIF_RACELOG="+filepath.Join(o.WorkDir, fmt.Sprintf("cold%d", k)))
				b, err := cmd.CombinedOutput()
				r := &more[k]
				r.out, r.idx, r.err = string(b), fmt.Sprint(idx), err
				if err == nil {
					if b, r.err = os.ReadFile(outFile); r.err == nil {
						var x WorkerResult
						if r.err = json.Unmarshal(b, &x); r.err == nil {
							r.res = &x
							_ = os.Remove(outFile)
						}
					}
				}
			}()
		}
		wg.Wait()
		results = append(results, more...)
	}

	agg := &WorkerResult{Faults: map[string]uint64{}, Probes: map[string]uint64{}, Known: map[string]int{}}
	states, scheds, nontriv := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	var rep *Replay
	narrowRuns, longRuns := 0, 0
	for w := range results {
		r := &results[w]
		if r.err != nil {
			continue
		}
		if r.res == nil {
			continue
		}
		x := r.res
		if extra == 1 && w == o.Workers {
			narrowRuns = x.Runs
		}
		if w < len(jobs) && isLong(jobs[w].from) {
			longRuns += x.Runs
		}
		agg.Runs += x.Runs
		agg.Switches += x.Switches
		agg.Decisions += x.Decisions
		agg.Steps += x.Steps
		agg.Checks += x.Checks
		agg.SimTimeNs += x.SimTimeNs
		agg.TimedOut = agg.TimedOut || x.TimedOut
		for k, v := range x.Faults {
			agg.Faults[k] += v
		}
		for k, v := range x.Probes {
			agg.Probes[k] += v
		}
		for k, v := range x.Known {
			agg.Known[k] += v
		}
		for _, k := range x.States {
			states[k] = struct{}{}
		}
		for _, k := range x.Scheds {
			scheds[k] = struct{}{}
		}
		for _, k := range x.Nontriv {
			nontriv[k] = struct{}{}
		}
		agg.Samples = append(agg.Samples, x.Samples...)
		if x.Replay != nil && (rep == nil || x.Replay.Index < rep.Index) {
			rep = x.Replay
		}
	}
	// a worker that died
	if rep == nil {
		for w := range results {
			r := &results[w]
			if r.err == nil {
				continue
			}
			exe, workDir := self, o.WorkDir
			if w < len(jobs) && jobs[w].exe == narrow {
				exe, workDir = narrow, narrowDir
				if strings.Contains(r.out, "out of memory") {
					// the address space of that build, not the code under test
					fmt.Fprintf(os.Stderr, "check %s: note: the 32-bit worker ran out of address space\n", c.ID)
					continue
				}
			}
			fmt.Fprintf(os.Stderr, "worker %d ended abnormally (%v) at run %s\n%s\n", w, r.err, r.idx, tail(r.out, 60))
			// a process-fatal runtime error (not catchable by recover) that
			// repeats in a fresh process is a violation; anything else is an
			// error of the check
			if strings.Contains(r.out, "fatal error: ") && !strings.Contains(r.out, "out of memory") && !strings.Contains(r.out, "all goroutines are asleep") && r.idx != "" {
				cmd := exec.Command(exe, "one", "-prop", c.ID, "-tier", o.Tier, "-seed", fmt.Sprint(o.Seed), "-index", r.idx)
				cmd.Env = append(os.Environ(), "VERIF_WORKDIR="+workDir, raceEnv(o.WorkDir, "race-one"))
				out, err := cmd.CombinedOutput()
				if err != nil && strings.Contains(string(out), "fatal error: ") {
					idx := 0
					fmt.Sscan(r.idx, &idx)
					rep = &Replay{Property: c.ID, Kind: "process-crash", Detail: firstLine(string(out), "fatal error: "), Tier: o.Tier, Seed: o.Seed, Index: idx, BySeed: true, Arch: archFor(exe == narrow), Trace: strings.Split(tail(string(out), 80), "\n")}
					break
				}
			}
			// a run that never comes back (a loop without any scheduling point)
			// and does so again in a fresh process is a hang
			if strings.Contains(r.out, "watchdog: property") && r.idx != "" {
				cmd := exec.Command(exe, "one", "-prop", c.ID, "-tier", o.Tier, "-seed", fmt.Sprint(o.Seed), "-index", r.idx)
				cmd.Env = append(os.Environ(), "VERIF_WORKDIR="+workDir, raceEnv(o.WorkDir, "race-one"))
				out, _ := cmd.CombinedOutput()
				if strings.Contains(string(out), "watchdog: property") {
					idx := 0
					fmt.Sscan(r.idx, &idx)
					rep = &Replay{Property: c.ID, Kind: "hang", Detail: "the run makes no progress: " + firstLine(string(out), "watchdog: "), Tier: o.Tier, Seed: o.Seed, Index: idx, BySeed: true, Arch: archFor(exe == narrow), Trace: strings.Split(tail(string(out), 80), "\n")}
					break
				}
			}
			fmt.Fprintf(os.Stderr, "check %s: error: worker failed\n", c.ID)
			return 2
		}
	}
	wall := time.Since(start).Seconds()
	code := 0
	violations := 0
	if rep != nil {
		violations = 1
		dir := filepath.Join(o.Verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", c.ID, sanitize(rep.Kind), rep.Seed, rep.Index))
		// The replay must fail the same way in a fresh process.  The minimised
		// choices are tried first, then the whole run by its seed, then (a run
		// that depends on what earlier runs left in package state) the whole
		// series of runs of that worker.
		forms := []*Replay{rep}
		if !rep.BySeed {
			one := *rep
			one.BySeed, one.Gen, one.Sched = true, nil, nil
			forms = append(forms, &one)
			if rep.Index < coldBase && !isLong(rep.Index) {
				all := one
				all.Shard = []int{rep.Index % o.Workers, o.Workers}
				if rep.Index >= narrowBase {
					all.Shard = []int{narrowBase, 1}
				}
				forms = append(forms, &all)
			}
		}
		confirmed := false
		var out []byte
		var err error
		for _, f := range forms {
			b, _ := json.MarshalIndent(f, "", " ")
			if err := os.WriteFile(path, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			exe, workDir := self, o.WorkDir
			if rep.Arch == "386" {
				exe, workDir = narrow, narrowDir
			}
			cmd := exec.Command(exe, "replay", "-file", path, "-quiet")
			cmd.Env = append(os.Environ(), "GODEBUG="+rep.GoDebug, "GOMAXPROCS=2", "VERIF_WORKDIR="+workDir, raceEnv(o.WorkDir, "race-replay"), "VERIF_RACELOG="+filepath.Join(o.WorkDir, "race-replay"))
			out, err = cmd.CombinedOutput()
			if rep.Kind == "process-crash" || rep.Kind == "hang" || (err != nil && cmd.ProcessState.ExitCode() == 1) {
				rep = f
				confirmed = true
				break
			}
		}
		if !confirmed && rep.Kind == "data-race" {
			// the monitor's word alone, never seen again in any replay: not an alarm
			fmt.Fprintf(os.Stderr, "check %s: note: an access pair reported once by the happens-before monitor was not reported again in any replay: %s\n", c.ID, firstLines(rep.Detail, 3))
			agg.Probes["unconfirmed-monitor-report"]++
			_ = os.Remove(path)
			rep, violations = nil, 0
		}
		if rep == nil {
			goto evidence
		}
		if !confirmed {
			fmt.Fprintf(os.Stderr, "check %s: error: the recorded run did not replay identically (%v)\n%s: %s\n%s\n", c.ID, err, rep.Kind, firstLines(rep.Detail, 10), tail(string(out), 40))
			return 2
		}
		fmt.Printf("%s: %s\n", rep.Kind, firstLines(rep.Detail, 30))
		fmt.Printf("seed %d, run %d, %s; minimised %d+%d -> %d+%d choices in %d tries\n", rep.Seed, rep.Index, rep.Scenario, rep.OrigGen, rep.OrigSched, len(rep.Gen), len(rep.Sched), rep.ShrinkTries)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		code = 1
	}
evidence:
	ks := make([]string, 0)
	for k := range agg.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
	}
	if len(agg.Samples) > 6 {
		agg.Samples = agg.Samples[:6]
	}
	if len(agg.Samples) == 0 {
		agg.Samples = []string{"no completed run before the violation"}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": o.Tier, "seed": o.Seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"assumptions": c.Assume,
		"coverage": map[string]interface{}{
			"evaluations":            agg.Runs,
			"distinct_nontrivial":    len(nontriv),
			"rule":                   c.Rule,
			"samples":                agg.Samples,
			"simulated_runs":         agg.Runs,
			"oracle_evaluations":     agg.Checks,
			"runs_per_hour":          int(float64(agg.Runs) / wall * 3600),
			"seeds_per_hour":         int(float64(agg.Runs) / wall * 3600),
			"simulated_seconds":      float64(agg.SimTimeNs) / 1e9,
			"faults_fired":           agg.Faults,
			"probes":                 agg.Probes,
			"distinct_interleavings": len(scheds),
			"interleaving_measure":   "hash of the sequence of (task, synchronisation operation) at every scheduling point with more than one task alive",
			"distinct_states":        len(states),
			"state_measure":          "hash of the abstract state tuples reported by the scenario (configuration, operation kind, outcome class)",
			"task_switches":          agg.Switches,
			"scheduling_decisions":   agg.Decisions,
			"code_steps":             agg.Steps,
			"components_real":        c.Real,
			"components_stubbed":     c.Stub,
			"stopped_by_wall_cap":    agg.TimedOut,
			"workers":                o.Workers,
			"runs_of_32_bit_build":   narrowRuns,
			"long_runs":              longRuns,
		},
	}
	evDir := filepath.Join(o.Verif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if code == 0 && agg.Runs == 0 {
		fmt.Fprintf(os.Stderr, "check %s: error: nothing was explored\n", c.ID)
		return 2
	}
	fmt.Printf("%s: %d runs, %d distinct non-trivial, %d interleavings, %d oracle evaluations, %.1fs\n", c.ID, agg.Runs, len(nontriv), len(scheds), agg.Checks, wall)
	return code
}

func archFor(narrow bool) string {
	if narrow {
		return "386"
	}
	return ""
}

// raceEnv configures the happens-before monitor: keep going, report the same
// pair again in every run.
func raceEnv(dir, name string) string {
	return "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=5 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=" + filepath.Join(dir, name)
}

var raceSeen int64

// raceReports reads the monitor's reports that are new since the last call.  It
// returns how many concern the code under test (accesses by the simulator itself,
// which the run-time reports for a few built-in operations, are not counted) and
// a rendering of the first.
func raceReports() (int, string) {
	prefix := os.Getenv("VERIF_RACELOG")
	if prefix == "" {
		return 1, "(no log)"
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", prefix, os.Getpid()))
	if err != nil {
		return 1, "(no log)"
	}
	defer f.Close()
	b, _ := io.ReadAll(io.NewSectionReader(f, raceSeen, 1<<30))
	raceSeen += int64(len(b))
	count, first := 0, ""
	for _, rep := range strings.Split(string(b), "WARNING: DATA RACE")[1:] {
		ours, desc := raceAccesses(rep)
		if !ours {
			continue
		}
		count++
		if first == "" {
			first = desc
		}
	}
	return count, first
}

// raceAccesses renders the two accesses of a report and tells whether both
// were made by (or declared on behalf of) code outside the simulator.
func raceAccesses(txt string) (bool, string) {
	var out []string
	ours := true
	lines := strings.Split(txt, "\n")
	for i, l := range lines {
		if !strings.Contains(l, " at 0x") || !strings.Contains(l, " by ") {
			continue
		}
		what := strings.Fields(strings.TrimSpace(l))
		head := what[0]
		if head == "Previous" && len(what) > 1 {
			head += " " + what[1]
		}
		k := 0
		judged := false
		for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
			fn := strings.TrimSpace(lines[j])
			where := ""
			if j+1 < len(lines) {
				where = strings.Fields(strings.TrimSpace(lines[j+1]) + " -")[0]
				where = where[strings.LastIndex(where, "/")+1:]
			}
			if !judged && k == 0 && (strings.HasPrefix(fn, "runtime.racewriterange") || strings.HasPrefix(fn, "runtime.racereadrange")) {
				judged = true // declared on behalf of the caller
			}
			if !judged && !strings.HasPrefix(fn, "runtime.") && !strings.HasPrefix(fn, "internal/") {
				judged = true
				if strings.HasPrefix(fn, "verif.local/sim/") && !strings.HasPrefix(fn, "verif.local/sim/vsync.Race") {
					ours = false
				}
			}
			if k < 3 {
				head += "; " + fn + " " + where
			}
			k++
		}
		if !judged {
			ours = false // made by the run-time on behalf of the simulator
		}
		out = append(out, head)
	}
	return ours, strings.Join(out, " | ")
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if (r >= 'a' && r <= 'z') || (r >= '0' && r <= '9') || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func tail(s string, n int) string {
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func firstLine(s, prefix string) string {
	sc := bufio.NewScanner(strings.NewReader(s))
	for sc.Scan() {
		if strings.HasPrefix(sc.Text(), prefix) {
			return sc.Text()
		}
	}
	return prefix
}
