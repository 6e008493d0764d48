// Package vsync is the simulator's seam for concurrency and time: a
// cooperative, seeded scheduler together with drop-in replacements for the
// exported surface of package sync.
//
// Exactly one simulated task runs at any instant.  Tasks are real goroutines,
// parked on a private channel and released one at a time; which one is
// released is decided only by the Chooser, at every intercepted operation.
package vsync

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Chooser supplies scheduling decisions.  Pick returns an index in [0,n);
// index 0 always means "carry on with the default" (keep the current task
// running, or wake the oldest waiter).
type Chooser interface {
	Pick(n int, opts []int) int
	// NextPreempt returns the number of loop/function steps until the next
	// forced preemption point, or 0 for none.
	NextPreempt() uint64
}

type taskState byte

const (
	tsRunnable taskState = iota
	tsBlocked
	tsSleeping
	tsDone
)

type task struct {
	id      int
	name    string
	wake    chan struct{}
	state   taskState
	waitOn  string
	wakeAt  time.Duration
	wakeSeq uint64
	skipped int
}

// Abort is the panic value used to unwind tasks when a run is torn down.
type abortSentinel struct{}

// PanicInfo describes a panic that escaped a task.
type PanicInfo struct {
	Task  string
	Value interface{}
	Stack string
}

func (p *PanicInfo) String() string { return fmt.Sprintf("task %s: panic: %v", p.Task, p.Value) }

// Result is what a run of the scheduler reports.
type Result struct {
	Deadlock  string     // non-empty: nothing could run, with the blocked tasks
	OutOfFuel string     // non-empty: step budget exhausted
	Panic     *PanicInfo // first panic that escaped a task
	Leaked    []string   // tasks still alive when the root returned and the rest was quiescent
	Switches  uint64     // task switches
	Decisions uint64     // scheduling decisions with more than one option
	Steps     uint64     // loop/function steps executed
	SimTime   time.Duration
	SchedHash uint64 // hash of the sequence of (task, operation)
}

// Config for one run.
type Config struct {
	Chooser  Chooser
	MaxSteps uint64 // step budget (loops and function entries of the code under test)
	MaxYield uint64 // budget of scheduling points
	OnSwitch func(task string, op string)
}

type sim struct {
	cfg       Config
	tasks     []*task
	cur       *task
	nextID    int
	now       time.Duration
	nextWake  time.Duration
	seq       uint64
	aborting  bool
	res       Result
	yields    uint64
	done      chan struct{}
	opts      []int
	optTasks  []*task
	rootDone  bool
	inHook    bool
	timers    []*simTimer
	idleFires int
	quiet     []*task // tasks in Quiesce
	advances  int     // clock advances since the first of them began
}

var s *sim // the active simulation, or nil

// step accounting kept in plain globals so that Step is cheap.
var (
	stepCount uint64
	stepNext  uint64 = ^uint64(0)
	fuelLimit uint64
	preemptAt uint64
)

// Epoch distinguishes runs, so that process-wide state (pools) can be reset.
var epoch uint64

// Active reports whether a simulation is running.
func Active() bool { return s != nil }

// Now returns the simulated time since the start of the run.
func Now() time.Duration {
	if s == nil {
		return 0
	}
	return s.now
}

var simEpochStart = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// TimeNow replaces time.Now.
func TimeNow() time.Time { return simEpochStart.Add(Now()) }

// TimeSince replaces time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil replaces time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Seq returns a fresh global event sequence number.
func Seq() uint64 {
	if s == nil {
		return 0
	}
	s.seq++
	return s.seq
}

// CurName returns the name of the running task.
func CurName() string {
	if s == nil || s.cur == nil {
		return "main"
	}
	return s.cur.name
}

// CurID returns the id of the running task (0 = root).
func CurID() int {
	if s == nil || s.cur == nil {
		return -1
	}
	return s.cur.id
}

// Aborting reports whether the run is being torn down.
func Aborting() bool { return s != nil && s.aborting }

// IsAbort reports whether a recovered panic value is the simulator's own
// teardown signal.
func IsAbort(v interface{}) bool { _, ok := v.(abortSentinel); return ok }

// Run executes root as the first task of a fresh simulation and returns when
// every task has finished or been torn down.
func Run(cfg Config, root func()) Result {
	if s != nil {
		panic("vsync: nested Run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 1 << 40
	}
	if cfg.MaxYield == 0 {
		cfg.MaxYield = 1 << 40
	}
	epoch++
	ss := &sim{cfg: cfg, nextWake: never, done: make(chan struct{}), opts: make([]int, 0, 8), optTasks: make([]*task, 0, 8)}
	ss.res.SchedHash = 14695981039346656037
	s = ss
	stepCount = 0
	fuelLimit = cfg.MaxSteps
	preemptAt = 0
	if k := cfg.Chooser.NextPreempt(); k != 0 {
		preemptAt = k
	}
	rearm()
	raceAcquire(unsafe.Pointer(&epoch))
	raceDisable()
	t := ss.spawn("root", func() {
		root()
	}, true)
	ss.cur = t
	t.wake <- struct{}{}
	<-ss.done
	raceEnable()
	ss.res.Steps = stepCount
	ss.res.SimTime = ss.now
	stepNext = ^uint64(0)
	s = nil
	return ss.res
}

func rearm() {
	stepNext = fuelLimit
	if preemptAt != 0 && preemptAt < stepNext {
		stepNext = preemptAt
	}
}

// Step is inserted at the top of every loop body and function of the code
// under test.
func Step() {
	stepCount++
	if stepCount >= stepNext {
		stepSlow()
	}
}

//go:noinline
func stepSlow() {
	ss := s
	if ss == nil {
		stepNext = ^uint64(0)
		return
	}
	if ss.aborting {
		panic(abortSentinel{})
	}
	if stepCount >= fuelLimit {
		if ss.res.OutOfFuel == "" {
			ss.res.OutOfFuel = fmt.Sprintf("task %s did not finish within %d steps", ss.cur.name, fuelLimit)
		}
		ss.startAbort()
		panic(abortSentinel{})
	}
	if preemptAt != 0 && stepCount >= preemptAt {
		preemptAt = 0
		if k := ss.cfg.Chooser.NextPreempt(); k != 0 {
			preemptAt = stepCount + k
		}
		rearm()
		ss.yield("preempt")
		return
	}
	rearm()
}

func (ss *sim) spawn(name string, fn func(), root bool) *task {
	t := &task{id: ss.nextID, name: name, wake: make(chan struct{}), state: tsRunnable}
	ss.nextID++
	ss.tasks = Push(ss.tasks, t)
	raceEnable()
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		defer func() {
			v := recover()
			raceReleaseMerge(unsafe.Pointer(&epoch))
			raceDisable()
			if v != nil && !IsAbort(v) {
				if ss.res.Panic == nil {
					ss.res.Panic = &PanicInfo{Task: t.name, Value: v, Stack: string(debug.Stack())}
				}
				ss.startAbort()
			}
			t.state = tsDone
			if root && !ss.aborting {
				ss.rootDone = true
			}
			ss.exitTask(t)
			raceEnable()
		}()
		if ss.aborting {
			panic(abortSentinel{})
		}
		fn()
	}()
	raceDisable()
	return t
}

// exitTask hands control to some other task, or ends the run.
func (ss *sim) exitTask(t *task) {
	for i, x := range ss.tasks {
		if x == t {
			ss.tasks = Cut(ss.tasks, i)
			break
		}
	}
	if len(ss.tasks) == 0 {
		close(ss.done)
		return
	}
	next := ss.next(nil, "exit")
	if next == nil {
		// nothing left can run
		if ss.rootDone {
			for _, x := range ss.tasks {
				ss.res.Leaked = Push(ss.res.Leaked, x.name+" blocked on "+x.waitOn)
			}
		} else if ss.res.Deadlock == "" {
			ss.res.Deadlock = ss.describe()
		}
		ss.startAbort()
		next = ss.tasks[0]
	}
	ss.cur = next
	next.wake <- struct{}{}
}

func (ss *sim) describe() string {
	var parts []string
	for _, x := range ss.tasks {
		parts = append(parts, fmt.Sprintf("%s waits for %s", x.name, x.waitOn))
	}
	return strings.Join(parts, "; ")
}

func (ss *sim) startAbort() {
	if ss.aborting {
		return
	}
	ss.aborting = true
	stepNext = 0
	for _, x := range ss.tasks {
		if x.state != tsDone {
			x.state = tsRunnable
		}
	}
}

// Abort tears the run down; it does not return.
func Abort() {
	ss := s
	if ss == nil {
		panic("vsync.Abort outside a simulation")
	}
	ss.startAbort()
	panic(abortSentinel{})
}

// maxSkipped bounds how many scheduling decisions in a row may pass over a task
// that can run.
const maxSkipped = 5000

// tick is what the clock advances at every scheduling point.
const tick = time.Microsecond

// maxIdleFires bounds how many timers in a row fire while nothing else happens.
const maxIdleFires = 1000

const never = time.Duration(1<<63 - 1)

// next chooses the task to run next; self (may be nil) is the current task if
// it is still runnable.  Returns nil if nothing can run, now or later.
func (ss *sim) next(self *task, op string) *task {
	if ss.aborting {
		if self != nil {
			return self
		}
		if len(ss.tasks) == 0 {
			return nil
		}
		return ss.tasks[0]
	}
	// work takes time: a timer may fire while others keep running
	ss.now += tick
	if ss.now >= ss.nextWake {
		ss.nextWake = never
		ss.fireTimers()
		for _, x := range ss.timers {
			if x.at < ss.nextWake {
				ss.nextWake = x.at
			}
		}
		for _, x := range ss.tasks {
			if x.state == tsSleeping {
				if x.wakeAt <= ss.now {
					x.state = tsRunnable
				} else if x.wakeAt < ss.nextWake {
					ss.nextWake = x.wakeAt
				}
			}
		}
	}
	opts := ss.opts[:0]
	ot := ss.optTasks[:0]
	if self != nil {
		opts = Push(opts, self.id)
		ot = Push(ot, self)
	}
	for _, x := range ss.tasks {
		if x != self && x.state == tsRunnable {
			opts = Push(opts, x.id)
			ot = Push(ot, x)
		}
	}
	if len(ot) == 0 {
		// advance the clock to the next timer
		var best *task
		for _, x := range ss.tasks {
			if x.state == tsSleeping && (best == nil || x.wakeAt < best.wakeAt || (x.wakeAt == best.wakeAt && x.wakeSeq < best.wakeSeq)) {
				best = x
			}
		}
		if len(ss.quiet) > 0 {
			ss.advances++
			if ss.advances > maxAdvances {
				return ss.wakeQuiet()
			}
		}
		if ss.idleFires < maxIdleFires {
			first := never
			for _, x := range ss.timers {
				if x.at < first {
					first = x.at
				}
			}
			if first != never && (best == nil || first < best.wakeAt) {
				// a timer comes first: fire it and choose again
				ss.idleFires++
				if first > ss.now {
					ss.now = first
				}
				ss.nextWake = 0
				return ss.next(nil, op)
			}
		}
		if best == nil {
			return ss.wakeQuiet()
		}
		if best.wakeAt > ss.now {
			ss.now = best.wakeAt
		}
		best.state = tsRunnable
		return best
	}
	if !ss.rootDone {
		ss.idleFires = 0
	}
	idx := 0
	if len(ot) > 1 {
		ss.res.Decisions++
		idx = ss.cfg.Chooser.Pick(len(ot), opts)
		// fairness: nobody who can run is passed over for ever
		for i, x := range ot {
			if i == idx {
				continue
			}
			if x.skipped++; x.skipped > maxSkipped {
				idx = i
				break
			}
		}
	}
	ot[idx].skipped = 0
	return ot[idx]
}

func (ss *sim) hash(id int, op string) {
	h := ss.res.SchedHash
	h = (h ^ uint64(id+1)) * 1099511628211
	for i := 0; i < len(op); i++ {
		h = (h ^ uint64(op[i])) * 1099511628211
	}
	ss.res.SchedHash = h
}

// yield is a scheduling point for the running task.
func (ss *sim) yield(op string) {
	if ss.aborting {
		panic(abortSentinel{})
	}
	ss.yields++
	if ss.yields > ss.cfg.MaxYield {
		if ss.res.OutOfFuel == "" {
			ss.res.OutOfFuel = fmt.Sprintf("no completion within %d scheduling points; last task %s at %s", ss.cfg.MaxYield, ss.cur.name, op)
		}
		ss.startAbort()
		panic(abortSentinel{})
	}
	self := ss.cur
	if ss.cfg.OnSwitch != nil {
		ss.cfg.OnSwitch(self.name, op)
	}
	if len(ss.tasks) == 1 {
		return
	}
	ss.hash(self.id, op)
	next := ss.next(self, op)
	if next != self {
		ss.switchTo(self, next)
	}
}

func (ss *sim) switchTo(self, next *task) {
	ss.res.Switches++
	ss.cur = next
	raceDisable()
	next.wake <- struct{}{}
	<-self.wake
	raceEnable()
	if ss.aborting {
		panic(abortSentinel{})
	}
}

// block parks the running task until something makes it runnable again.
func (ss *sim) block(on string) {
	if ss.aborting {
		panic(abortSentinel{})
	}
	self := ss.cur
	self.state = tsBlocked
	self.waitOn = on
	ss.park(self, on)
}

func (ss *sim) park(self *task, on string) {
	if ss.cfg.OnSwitch != nil {
		ss.cfg.OnSwitch(self.name, "blocks on "+on)
	}
	ss.hash(self.id, on)
	next := ss.next(nil, on)
	if next == nil {
		if ss.rootDone {
			for _, x := range ss.tasks {
				ss.res.Leaked = Push(ss.res.Leaked, x.name+" blocked on "+x.waitOn)
			}
		} else if ss.res.Deadlock == "" {
			ss.res.Deadlock = ss.describe()
		}
		ss.startAbort()
		panic(abortSentinel{})
	}
	if next != self {
		ss.switchTo(self, next)
	}
	self.waitOn = ""
}

func (ss *sim) ready(t *task) {
	if t.state == tsBlocked {
		t.state = tsRunnable
	}
}

// Yield is a scheduling point for harness components (sources, sinks,
// tracers).
func Yield(op string) {
	if s != nil {
		s.yield(op)
	}
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if s == nil {
		runtime.Gosched()
		return
	}
	s.yield("gosched")
}

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	ss := s
	if ss == nil {
		return
	}
	if ss.aborting {
		panic(abortSentinel{})
	}
	if d <= 0 {
		ss.yield("sleep0")
		return
	}
	self := ss.cur
	self.state = tsSleeping
	self.waitOn = "timer"
	self.wakeAt = ss.now + d
	if self.wakeAt < ss.nextWake {
		ss.nextWake = self.wakeAt
	}
	ss.seq++
	self.wakeSeq = ss.seq
	ss.yields++
	if ss.yields > ss.cfg.MaxYield {
		ss.res.OutOfFuel = fmt.Sprintf("no completion within %d scheduling points (sleep)", ss.cfg.MaxYield)
		ss.startAbort()
		panic(abortSentinel{})
	}
	ss.park(self, "timer")
}

// Go replaces the go statement.
func Go(fn func()) { GoNamed("", fn) }

// GoNamed starts a task with a name.
func GoNamed(name string, fn func()) {
	ss := s
	if ss == nil {
		panic("vsync.Go outside a simulation")
	}
	if ss.aborting {
		panic(abortSentinel{})
	}
	if name == "" {
		name = fmt.Sprintf("bg%d", ss.nextID)
	}
	raceDisable()
	ss.spawn(name, fn, false)
	raceEnable()
	ss.yield("go")
}

// LiveTasks returns the names of the tasks other than the caller that have not
// finished.
func LiveTasks() []string {
	var out []string
	if s == nil {
		return nil
	}
	for _, x := range s.tasks {
		if x != s.cur {
			out = append(out, x.name)
		}
	}
	sort.Strings(out)
	return out
}

// LiveBackground counts live tasks that were started by the code under test
// (go statements), excluding the caller.
func LiveBackground() int {
	n := 0
	if s == nil {
		return 0
	}
	for _, x := range s.tasks {
		if x != s.cur && strings.HasPrefix(x.name, "bg") {
			n++
		}
	}
	return n
}

// maxAdvances bounds how long Quiesce waits for tasks that keep using timers.
const maxAdvances = 100000

func (ss *sim) wakeQuiet() *task {
	if len(ss.quiet) == 0 {
		return nil
	}
	t := ss.quiet[0]
	ss.quiet = Cut(ss.quiet, 0)
	ss.ready(t)
	return t
}

// Quiesce lets every other task run until all of them are finished or blocked
// and no timer is pending.
func Quiesce() {
	ss := s
	if ss == nil {
		return
	}
	if len(ss.quiet) == 0 {
		ss.advances = 0
	}
	ss.quiet = Push(ss.quiet, ss.cur)
	ss.block("quiescence")
}

// Steps returns the number of loop and function steps executed by the code
// under test so far in this run.
func Steps() uint64 { return stepCount }
