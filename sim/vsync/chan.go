package vsync

import (
	"time"
	"unsafe"
)

// Channels.  The code under test keeps its real channels; only the operations
// on them are redirected here.  A buffered channel's buffer is the real one;
// what blocks, and the hand-over of unbuffered channels, is simulated.

type chanState struct {
	ep    uint64
	keep  interface{} // keeps the channel alive while its address is a key
	sendq []*chanOp
	recvq []*chanOp
}

type chanOp struct {
	t   *task
	sel *chanSel
	idx int
	val interface{}
	ok  bool
}

type chanSel struct {
	fired *chanOp
}

// The simulator's own state must stay invisible to the happens-before monitor:
// generic functions may be compiled with the code under test, and the run-time
// reports every access to a map.  So what follows is not generic, generic
// functions only touch what belongs to the calling task, and the channels in
// use are found without a map.

type chanEntry struct {
	p unsafe.Pointer
	c *chanState
}

var chans [256][]chanEntry
var chansEpoch uint64

func chanOf(p unsafe.Pointer, keep interface{}) *chanState {
	if chansEpoch != epoch {
		chansEpoch = epoch
		for i := range chans {
			chans[i] = nil
		}
	}
	h := uintptr(p) >> 5
	b := &chans[(h^h>>8)%uintptr(len(chans))]
	for i := range *b {
		if (*b)[i].p == p {
			return (*b)[i].c
		}
	}
	c := &chanState{keep: keep}
	if len(*b) == cap(*b) {
		n := make([]chanEntry, len(*b), 2*cap(*b)+4)
		for i := range *b {
			n[i] = (*b)[i]
		}
		*b = n
	}
	*b = (*b)[:len(*b)+1]
	(*b)[len(*b)-1] = chanEntry{p, c}
	return c
}

func pushOp(q []*chanOp, o *chanOp) []*chanOp {
	n := make([]*chanOp, len(q)+1)
	for i := range q {
		n[i] = q[i]
	}
	n[len(q)] = o
	return n
}

// offer hands v to a waiting receiver, if there is one.
func offer(ss *sim, p unsafe.Pointer, keep, v interface{}) bool {
	o := firstOp(chanOf(p, keep).recvq, ss.cur)
	if o == nil {
		return false
	}
	o.val, o.ok = v, true
	o.sel.fired = o
	raceReleaseMerge(unsafe.Pointer(o))
	raceAcquire(unsafe.Pointer(o.sel))
	ss.ready(o.t)
	return true
}

// take takes the value of a waiting sender, if there is one.
func take(ss *sim, p unsafe.Pointer, keep interface{}) (interface{}, bool) {
	o := firstOp(chanOf(p, keep).sendq, ss.cur)
	if o == nil {
		return nil, false
	}
	o.sel.fired = o
	raceAcquire(unsafe.Pointer(o))
	raceReleaseMerge(unsafe.Pointer(o.sel))
	ss.ready(o.t)
	return o.val, true
}

// received is what o was handed.
func received(o *chanOp) (interface{}, bool) {
	raceReleaseMerge(unsafe.Pointer(o.sel))
	raceAcquire(unsafe.Pointer(o))
	return o.val, o.ok
}

func moved(ss *sim, p unsafe.Pointer, keep interface{}) { chanOf(p, keep).retry(ss) }

func waitRecv(p unsafe.Pointer, keep interface{}, o *chanOp) {
	c := chanOf(p, keep)
	c.recvq = pushOp(c.recvq, o)
}

func unwaitRecv(p unsafe.Pointer, keep interface{}, o *chanOp) {
	c := chanOf(p, keep)
	c.recvq = without(c.recvq, o)
}

func waitSend(p unsafe.Pointer, keep interface{}, o *chanOp, v interface{}) {
	o.val = v
	c := chanOf(p, keep)
	c.sendq = pushOp(c.sendq, o)
}

func unwaitSend(p unsafe.Pointer, keep interface{}, o *chanOp) {
	c := chanOf(p, keep)
	c.sendq = without(c.sendq, o)
}

func closed(p unsafe.Pointer, keep interface{}) {
	ss := s
	if ss == nil || ss.aborting {
		return
	}
	moved(ss, p, keep)
	ss.yield("closechan")
}

func chanPtr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func bidiS[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }
func bidiR[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

// retry wakes everybody waiting on c, to try again.
func (c *chanState) retry(ss *sim) {
	for _, o := range c.sendq {
		ss.ready(o.t)
	}
	for _, o := range c.recvq {
		ss.ready(o.t)
	}
}

func firstOp(q []*chanOp, self *task) *chanOp {
	for _, o := range q {
		if o.sel.fired == nil && o.t != self {
			return o
		}
	}
	return nil
}

func trySend[T any](ss *sim, ch chan T, v T) bool {
	if ch == nil {
		return false
	}
	if cap(ch) == 0 {
		if isClosed(ch) {
			ch <- v // panics
		}
		return offer(ss, chanPtr(ch), ch, v)
	}
	select {
	case ch <- v:
		moved(ss, chanPtr(ch), ch)
		return true
	default:
		return false
	}
}

func isClosed[T any](ch chan T) bool {
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

func tryRecv[T any](ss *sim, ch chan T) (v T, ok, done bool) {
	if ch == nil {
		return v, false, false
	}
	if cap(ch) == 0 {
		if x, found := take(ss, chanPtr(ch), ch); found {
			v, _ = x.(T)
			return v, true, true
		}
		select {
		case v, ok = <-ch:
			return v, ok, true
		default:
			return v, false, false
		}
	}
	select {
	case v, ok = <-ch:
		moved(ss, chanPtr(ch), ch)
		return v, ok, true
	default:
		return v, false, false
	}
}

// SelCase is one case of a select statement.
type SelCase interface {
	try(ss *sim) bool
	enqueue(o *chanOp)
	dequeue(o *chanOp)
	finish(o *chanOp)
}

// RecvCase is a receive; V and OK hold the result when it was chosen.
type RecvCase[T any] struct {
	ch chan T
	V  T
	OK bool
}

// R makes a receive case.
func R[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: bidiR(ch)} }

func (r *RecvCase[T]) try(ss *sim) bool {
	v, ok, done := tryRecv(ss, r.ch)
	if done {
		r.V, r.OK = v, ok
	}
	return done
}
func (r *RecvCase[T]) enqueue(o *chanOp) {
	if r.ch != nil {
		waitRecv(chanPtr(r.ch), r.ch, o)
	}
}
func (r *RecvCase[T]) dequeue(o *chanOp) {
	if r.ch != nil {
		unwaitRecv(chanPtr(r.ch), r.ch, o)
	}
}
func (r *RecvCase[T]) finish(o *chanOp) {
	v, ok := received(o)
	r.V, _ = v.(T)
	r.OK = ok
}

// SendCase is a send.
type SendCase[T any] struct {
	ch chan T
	v  T
}

// W makes a send case.
func W[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{bidiS(ch), v} }
}

func (w *SendCase[T]) try(ss *sim) bool { return trySend(ss, w.ch, w.v) }
func (w *SendCase[T]) enqueue(o *chanOp) {
	if w.ch != nil {
		waitSend(chanPtr(w.ch), w.ch, o, w.v)
	}
}
func (w *SendCase[T]) dequeue(o *chanOp) {
	if w.ch != nil {
		unwaitSend(chanPtr(w.ch), w.ch, o)
	}
}
func (w *SendCase[T]) finish(o *chanOp) { sent(o) }

func sent(o *chanOp) { raceAcquire(unsafe.Pointer(o.sel)) }

func without(q []*chanOp, o *chanOp) []*chanOp {
	for i := range q {
		if q[i] == o {
			n := make([]*chanOp, 0, len(q))
			for j := range q {
				if j != i {
					n = n[:len(n)+1]
					n[len(n)-1] = q[j]
				}
			}
			return n
		}
	}
	return q
}

// Select performs one of the cases and returns its index; -1 stands for the
// default case.
func Select(hasDefault bool, cases ...SelCase) int {
	ss := s
	if ss == nil {
		panic("vsync.Select outside simulation")
	}
	ss.yield("select")
	for {
		// which of the ready cases is taken is a decision; trying has effects, so
		// the order of trying is drawn
		n := len(cases)
		start := 0
		if n > 1 {
			opts := make([]int, n)
			start = ss.cfg.Chooser.Pick(n, opts)
		}
		for k := 0; k < n; k++ {
			i := (start + k) % n
			if cases[i].try(ss) {
				ss.yield("chan")
				return i
			}
		}
		if hasDefault {
			return -1
		}
		sel := &chanSel{}
		ops := make([]*chanOp, n)
		for i, c := range cases {
			o := &chanOp{t: ss.cur, sel: sel, idx: i}
			ops[i] = o
			c.enqueue(o)
			// the value being sent is published to whoever takes it
			raceReleaseMerge(unsafe.Pointer(o))
		}
		ss.block("channel")
		for i, c := range cases {
			c.dequeue(ops[i])
		}
		if o := sel.fired; o != nil {
			cases[o.idx].finish(o)
			return o.idx
		}
	}
}

// Send replaces ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			ch <- v
			return
		}
		Select(false, W(ch)(v))
	}
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	r := R(ch)
	Select(false, r)
	return r.V, r.OK
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	close(ch)
	b := bidiS(ch)
	closed(chanPtr(b), b)
}

// Forever replaces select{}.
func Forever() {
	if s == nil {
		select {}
	}
	s.block("nothing")
}

// ------------------------------------------------------------------- timers

type simTimer struct {
	at   time.Duration
	seq  uint64
	fire func(ss *sim)
	on   bool
}

func (ss *sim) addTimer(d time.Duration, fire func(ss *sim)) *simTimer {
	if d < 0 {
		d = 0
	}
	ss.seq++
	t := &simTimer{at: ss.now + d, seq: ss.seq, fire: fire, on: true}
	ss.timers = Push(ss.timers, t)
	if t.at < ss.nextWake {
		ss.nextWake = t.at
	}
	return t
}

func (ss *sim) stopTimer(t *simTimer) bool {
	if t == nil || !t.on {
		return false
	}
	t.on = false
	for i := range ss.timers {
		if ss.timers[i] == t {
			ss.timers = Cut(ss.timers, i)
			break
		}
	}
	return true
}

// fireTimers fires everything due.
func (ss *sim) fireTimers() {
	for {
		var best *simTimer
		for _, t := range ss.timers {
			if t.at <= ss.now && (best == nil || t.at < best.at || (t.at == best.at && t.seq < best.seq)) {
				best = t
			}
		}
		if best == nil {
			return
		}
		ss.stopTimer(best)
		best.fire(ss)
	}
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *simTimer
}

func (t *Timer) arm(d time.Duration) {
	ss := s
	if ss == nil {
		panic("vsync: timer outside simulation")
	}
	t.t = ss.addTimer(d, func(ss *sim) {
		if t.f != nil {
			raceDisable()
			ss.spawn("timer", t.f, false)
			raceEnable()
			return
		}
		select {
		case t.c <- simEpochStart.Add(ss.now):
			chanOf(chanPtr(t.c), t.c).retry(ss)
		default:
		}
	})
}

// Stop prevents the timer from firing.
func (t *Timer) Stop() bool {
	if s == nil {
		return false
	}
	r := s.stopTimer(t.t)
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return r
}

// Reset re-arms the timer.
func (t *Timer) Reset(d time.Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// After replaces time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	t *simTimer
}

func (t *Ticker) arm() {
	t.t = s.addTimer(t.d, func(ss *sim) {
		select {
		case t.c <- simEpochStart.Add(ss.now):
			chanOf(chanPtr(t.c), t.c).retry(ss)
		default:
		}
		t.arm()
	})
}

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

// Tick replaces time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Stop turns the ticker off.
func (t *Ticker) Stop() {
	if s != nil {
		s.stopTimer(t.t)
	}
}

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.arm()
}
