package dst

import (
	"fmt"
	"runtime/debug"
	"strings"
	"time"

	"verif.local/sim/vsync"
)

// Violation is a failed check of a property.
type Violation struct {
	Kind   string // stable class, used by minimisation and known findings
	Detail string
}

func (v *Violation) String() string { return v.Kind + ": " + v.Detail }

// T is the context of one simulated run.
type T struct {
	Prop        string
	Tier        string
	gen         *Stream
	sched       *Stream
	viol        *Violation
	logHash     uint64
	verbose     bool
	Trace       []string
	Cov         *Coverage
	strat       strategy
	seqOps      int
	sim         vsync.Result
	SchedFaults bool
	cleanup     []func()
	nontrivial  bool
	Desc        string
}

// Nontrivial marks the run as one whose deciding oracle was evaluated on a
// non-trivial case.
func (t *T) Nontrivial() { t.nontrivial = true }

// Describe keeps a one-line description of the run (for samples).
func (t *T) Describe(format string, v ...interface{}) {
	if t.Desc == "" {
		t.Desc = fmt.Sprintf(format, v...)
	}
}

// Coverage accumulates over runs.
type Coverage struct {
	Runs       uint64
	Faults     map[string]uint64
	Probes     map[string]uint64
	States     map[uint64]struct{}
	Scheds     map[uint64]struct{}
	Shapes     map[uint64]struct{}
	Nontrivial map[uint64]struct{}
	Switches   uint64
	Decisions  uint64
	Steps      uint64
	SimTime    time.Duration
	Checks     uint64
}

// NewCoverage returns an empty record.
func NewCoverage() *Coverage {
	return &Coverage{Faults: map[string]uint64{}, Probes: map[string]uint64{}, States: map[uint64]struct{}{},
		Scheds: map[uint64]struct{}{}, Shapes: map[uint64]struct{}{}, Nontrivial: map[uint64]struct{}{}}
}

type failPanic struct{}

// Fail records a violation and ends the run; it does not return.
func (t *T) Fail(kind, format string, v ...interface{}) {
	t.Note(kind, format, v...)
	if vsync.Active() {
		vsync.Abort()
	}
	panic(failPanic{})
}

// Note records a violation without unwinding (first one wins).
func (t *T) Note(kind, format string, v ...interface{}) {
	if t.viol == nil {
		t.viol = &Violation{kind, fmt.Sprintf(format, v...)}
		t.Log("VIOLATION %s: %s", kind, t.viol.Detail)
	}
}

// Failed reports whether a violation was recorded.
func (t *T) Failed() bool { return t.viol != nil }

// Check counts an evaluated oracle and fails if !ok.
func (t *T) Check(ok bool, kind, format string, v ...interface{}) {
	t.Cov.Checks++
	if !ok {
		t.Fail(kind, format, v...)
	}
}

// Log appends to the event log (hashed always, kept when verbose).
func (t *T) Log(format string, v ...interface{}) {
	h := t.logHash
	if t.verbose {
		line := fmt.Sprintf("%6d t=%-8v %-8s ", vsync.Seq(), vsync.Now(), vsync.CurName()) + fmt.Sprintf(format, v...)
		if len(t.Trace) < 20000 {
			t.Trace = vsync.Push(t.Trace, line)
		}
	}
	for i := 0; i < len(format); i++ {
		h = (h ^ uint64(format[i])) * 1099511628211
	}
	for _, x := range v {
		switch y := x.(type) {
		case int:
			h = (h ^ uint64(y)) * 1099511628211
		case string:
			for i := 0; i < len(y); i++ {
				h = (h ^ uint64(y[i])) * 1099511628211
			}
		case uint64:
			h = (h ^ y) * 1099511628211
		default:
			for _, c := range fmt.Sprint(x) {
				h = (h ^ uint64(c)) * 1099511628211
			}
		}
	}
	t.logHash = h
}

// Fault counts a fault that actually fired.
func (t *T) Fault(kind string) {
	t.Cov.Faults[kind]++
	t.Log("FAULT %s", kind)
}

// Probe counts that a rare condition was reached.
func (t *T) Probe(name string) { t.Cov.Probes[name]++ }

// State records an abstract state for the coverage measure.
func (t *T) State(parts ...interface{}) {
	h := uint64(1469598103934665603)
	for _, p := range parts {
		for _, c := range fmt.Sprint(p) {
			h = (h ^ uint64(c)) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	t.Cov.States[h] = struct{}{}
}

// Choose returns a choice in [0,n).
func (t *T) Choose(n int) int { return int(t.gen.Draw(uint64(n))) }

// Range returns a choice in [lo,hi].
func (t *T) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + t.Choose(hi-lo+1)
}

// Chance is true with probability num/den; choice 0 means false.
func (t *T) Chance(num, den int) bool { return t.Choose(den) >= den-num }

// Weighted picks an index with the given weights; index 0 is the simplest.
func (t *T) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := t.Choose(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Size draws a roughly log-uniform size in [0,max].
func (t *T) Size(max int) int {
	bits := 0
	for (1 << uint(bits)) <= max {
		bits++
	}
	// now and then next to where some buffer ends
	if bits > 6 && t.Chance(1, 8) {
		unit := 1 << uint(t.Range(6, bits-1))
		k := max / unit
		if k > 16 {
			k = 16
		}
		n := unit*(1+t.Choose(k)) + t.Choose(3) - 1
		if n > max {
			n = max
		}
		return n
	}
	b := t.Choose(bits + 1)
	if b == 0 {
		return 0
	}
	lo := 1 << uint(b-1)
	hi := lo*2 - 1
	if hi > max {
		hi = max
	}
	return t.Range(lo, hi)
}

// Seed draws a seed for bulk content.
func (t *T) Seed() uint64 { return t.gen.Draw(1 << 32) }

// ---------------------------------------------------------------- scheduling

type strategy struct {
	kind     int
	p        uint64 // switch probability in 1/256
	prio     []uint64
	changeAt []uint64
	n        uint64
	preempt  uint64
	starve   int
}

const (
	stratUniform = iota
	stratSticky
	stratPCT
	stratRunToBlock
	stratStarve
)

func (t *T) initStrategy(seed *Stream) {
	// The strategy is only used while generating; a replay needs just the
	// recorded picks.
	r := seed.rand
	st := &t.strat
	st.kind = int(r() % 5)
	switch st.kind {
	case stratSticky:
		st.p = []uint64{4, 16, 64, 128}[r()%4]
	case stratPCT:
		d := r() % 6
		for i := uint64(0); i < d; i++ {
			st.changeAt = vsync.Push(st.changeAt, r()%([]uint64{16, 64, 256, 1024}[r()%4]))
		}
	case stratStarve:
		st.starve = int(r() % 4)
		st.p = []uint64{1, 8, 32}[r()%3]
	}
	st.preempt = []uint64{0, 0, 0, 20, 100, 500, 3000}[r()%7]
}

// Pick implements vsync.Chooser.
func (t *T) Pick(n int, opts []int) int {
	s := t.sched
	v := s.put(uint64(n), func() uint64 {
		st := &t.strat
		st.n++
		r := s.rand()
		switch st.kind {
		case stratUniform:
			return r % uint64(n)
		case stratSticky:
			if r%256 < st.p {
				return (r >> 8) % uint64(n)
			}
			return 0
		case stratPCT:
			best, bi := uint64(0), 0
			for _, id := range opts {
				for len(st.prio) <= id {
					st.prio = vsync.Push(st.prio, 0)
				}
			}
			for _, at := range st.changeAt {
				if at == st.n && len(opts) > 0 {
					st.prio[opts[0]] = 1 + r%100
				}
			}
			for i, id := range opts {
				p := st.prio[id]
				if p == 0 {
					p = 1000 + s.rand()%1000000
					st.prio[id] = p
				}
				if p > best {
					best, bi = p, i
				}
			}
			return uint64(bi)
		case stratStarve:
			if r%256 < st.p {
				return (r >> 8) % uint64(n)
			}
			// prefer anything but the starved task
			k := int((r >> 16) % uint64(n))
			for j := 0; j < n; j++ {
				i := (k + j) % n
				if opts[i] != st.starve {
					return uint64(i)
				}
			}
			return 0
		}
		return 0
	})
	return int(v)
}

// NextPreempt implements vsync.Chooser.
func (t *T) NextPreempt() uint64 {
	s := t.sched
	return s.put(1<<40, func() uint64 {
		st := &t.strat
		if st.preempt == 0 {
			return 0
		}
		return 1 + s.rand()%(2*st.preempt)
	})
}

// ---------------------------------------------------------------- running

// Scenario is one property's simulated run.
type Scenario func(t *T)

// Limits of one run.
type Limits struct {
	MaxSteps uint64
	MaxYield uint64
	Long     bool // no record of the choices, no preemption between synchronisation operations
}

// Outcome of one run.
type Outcome struct {
	Viol    *Violation
	Gen     []uint64
	Sched   []uint64
	LogHash uint64
	Trace   []string
	Sim     vsync.Result
	Desc    string
}

// Execute performs one run.
func Execute(prop, tier string, sc Scenario, gen, sched *Stream, cov *Coverage, verbose bool, lim Limits) (out Outcome) {
	t := &T{Prop: prop, Tier: tier, gen: gen, sched: sched, verbose: verbose, Cov: cov, logHash: 14695981039346656037}
	t.initStrategy(sched)
	if lim.Long {
		gen.noRec, sched.noRec, t.strat.preempt = true, true, 0
	}
	if lim.MaxSteps == 0 {
		lim.MaxSteps = 200_000_000
	}
	if lim.MaxYield == 0 {
		lim.MaxYield = 3_000_000
	}
	raceBefore := vsync.RaceErrors()
	cfg := vsync.Config{Chooser: t, MaxSteps: lim.MaxSteps, MaxYield: lim.MaxYield}
	if verbose {
		cfg.OnSwitch = func(task, op string) {}
	}
	res := vsync.Run(cfg, func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(failPanic); ok {
					return
				}
				if vsync.IsAbort(v) {
					panic(v)
				}
				t.Note("panic", "panic in caller: %v\n%s", v, shortStack(string(debug.Stack())))
				vsync.Abort()
			}
		}()
		sc(t)
	})
	t.sim = res
	if t.viol == nil {
		switch {
		case res.Panic != nil:
			t.Note("panic", "panic in task %s: %v\n%s", res.Panic.Task, res.Panic.Value, shortStack(res.Panic.Stack))
		case res.OutOfFuel != "":
			t.Note("no-progress", "%s", res.OutOfFuel)
		case res.Deadlock != "":
			t.Note("deadlock", "nothing can run: %s", res.Deadlock)
		case len(res.Leaked) > 0:
			t.Note("leak", "left running: %s", strings.Join(res.Leaked, "; "))
		}
	}
	if n := vsync.RaceErrors() - raceBefore; n > 0 {
		if n, what := raceReports(); n > 0 && t.viol == nil {
			t.Note("data-race", "%d unsynchronised conflicting access pair(s) reported by the happens-before monitor: %s", n, what)
		}
	}
	if cov != nil {
		cov.Runs++
		cov.Switches += res.Switches
		cov.Decisions += res.Decisions
		cov.Steps += res.Steps
		cov.SimTime += res.SimTime
		if len(cov.Scheds) < 1<<20 {
			cov.Scheds[res.SchedHash] = struct{}{}
		}
	}
	h := t.logHash
	h = (h ^ res.SchedHash) * 1099511628211
	h = (h ^ res.Steps) * 1099511628211
	if cov != nil && t.nontrivial {
		cov.Nontrivial[h] = struct{}{}
	}
	return Outcome{Desc: t.Desc, Viol: t.viol, Gen: gen.Rec, Sched: sched.Rec, LogHash: h, Trace: t.Trace, Sim: res}
}

func shortStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "runtime/") || strings.HasPrefix(l, "goroutine ") || strings.Contains(l, "runtime.") {
			continue
		}
		if i := strings.Index(l, " +0x"); i > 0 {
			l = l[:i]
		}
		if strings.HasPrefix(l, "\t") || strings.Contains(l, "(") {
			if j := strings.Index(l, "(0x"); j > 0 {
				l = l[:j]
			}
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}
