package vsync

import (
	"fmt"
	"unsafe"
)

// A Locker represents an object that can be locked and unlocked.
type Locker interface {
	Lock()
	Unlock()
}

func resName(kind string, p unsafe.Pointer) string { return kind }

// Mutex replaces sync.Mutex.
type Mutex struct {
	held     bool
	ep       uint64
	waiters  []*task
	starving *task // has been overtaken too often; gets the lock next
}

// maxOvertaken is how often a waiter may find the lock taken again before it is
// handed over (the real mutex has a starvation mode for this).
const maxOvertaken = 24

func (m *Mutex) fresh() {
	// A mutex left locked by a torn-down run must not poison the next run
	// (only package-level mutexes can outlive a run).
	if m.ep != epoch {
		m.ep = epoch
		m.held = false
		m.waiters = nil
		m.starving = nil
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	ss := s
	if ss == nil {
		m.fresh()
		if m.held {
			panic("vsync: deadlock outside simulation")
		}
		m.held = true
		raceAcquire(unsafe.Pointer(m))
		return
	}
	m.fresh()
	ss.yield("lock")
	self := ss.cur
	for tries := 0; m.held || (m.starving != nil && m.starving != self); tries++ {
		if tries >= maxOvertaken && m.starving == nil {
			m.starving = self
		}
		m.waiters = Push(m.waiters, self)
		ss.block("mutex")
	}
	if m.starving == self {
		m.starving = nil
	}
	m.held = true
	raceAcquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	ss := s
	m.fresh()
	if ss != nil {
		ss.yield("trylock")
	}
	if m.held || m.starving != nil {
		return false
	}
	m.held = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	ss := s
	if ss != nil && ss.aborting {
		return
	}
	m.fresh()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.held = false
	if ss == nil {
		return
	}
	for _, t := range m.waiters {
		ss.ready(t)
	}
	m.waiters = m.waiters[:0]
	ss.yield("unlock")
}

// unlockQuiet releases without a scheduling point (used by Cond.Wait, whose
// unlock-and-wait is atomic with respect to signals).
func (m *Mutex) unlockQuiet(ss *sim) {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.held = false
	for _, t := range m.waiters {
		ss.ready(t)
	}
	m.waiters = m.waiters[:0]
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w       bool
	readers int
	pendW   int
	ep      uint64
	waiters []*task
	rsync   byte
}

func (m *RWMutex) fresh() {
	if m.ep != epoch {
		*m = RWMutex{ep: epoch}
	}
}

func (m *RWMutex) wakeAll(ss *sim) {
	if ss == nil {
		return
	}
	for _, t := range m.waiters {
		ss.ready(t)
	}
	m.waiters = m.waiters[:0]
}

func (m *RWMutex) Lock() {
	ss := s
	m.fresh()
	if ss == nil {
		if m.w || m.readers > 0 {
			panic("vsync: deadlock outside simulation")
		}
		m.w = true
		return
	}
	ss.yield("rwlock")
	m.pendW++
	for m.w || m.readers > 0 {
		m.waiters = Push(m.waiters, ss.cur)
		ss.block("rwmutex")
	}
	m.pendW--
	m.w = true
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rsync))
}

func (m *RWMutex) TryLock() bool {
	ss := s
	m.fresh()
	if ss != nil {
		ss.yield("tryrwlock")
	}
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rsync))
	return true
}

func (m *RWMutex) Unlock() {
	ss := s
	if ss != nil && ss.aborting {
		return
	}
	m.fresh()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.w = false
	m.wakeAll(ss)
	if ss != nil {
		ss.yield("rwunlock")
	}
}

func (m *RWMutex) RLock() {
	ss := s
	m.fresh()
	if ss == nil {
		if m.w {
			panic("vsync: deadlock outside simulation")
		}
		m.readers++
		return
	}
	ss.yield("rlock")
	// a pending writer blocks new readers, as in package sync
	for m.w || m.pendW > 0 {
		m.waiters = Push(m.waiters, ss.cur)
		ss.block("rwmutex(r)")
	}
	m.readers++
	raceAcquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	ss := s
	m.fresh()
	if ss != nil {
		ss.yield("tryrlock")
	}
	if m.w || m.pendW > 0 {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	ss := s
	if ss != nil && ss.aborting {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.rsync))
	m.readers--
	m.wakeAll(ss)
	if ss != nil {
		ss.yield("runlock")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Cond replaces sync.Cond.
type Cond struct {
	L       Locker
	waiters []*condWaiter
	ep      uint64
}

type condWaiter struct {
	t        *task
	signaled bool
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) fresh() {
	if c.ep != epoch {
		c.ep = epoch
		c.waiters = nil
	}
}

// Wait atomically unlocks c.L and suspends the calling task.
func (c *Cond) Wait() {
	ss := s
	if ss == nil {
		panic("vsync: Cond.Wait outside simulation")
	}
	if ss.aborting {
		panic(abortSentinel{})
	}
	c.fresh()
	w := &condWaiter{t: ss.cur}
	c.waiters = Push(c.waiters, w)
	switch l := c.L.(type) {
	case *Mutex:
		l.unlockQuiet(ss)
	default:
		c.L.Unlock()
	}
	for !w.signaled {
		ss.block("cond")
	}
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one waiter, if there is any; which one is a scheduling
// decision.
func (c *Cond) Signal() {
	ss := s
	if ss == nil || ss.aborting {
		return
	}
	c.fresh()
	raceReleaseMerge(unsafe.Pointer(c))
	if n := len(c.waiters); n > 0 {
		i := 0
		if n > 1 {
			ss.res.Decisions++
			opts := make([]int, n)
			for k := range opts {
				opts[k] = c.waiters[k].t.id
			}
			i = ss.cfg.Chooser.Pick(n, opts)
		}
		w := c.waiters[i]
		c.waiters = Cut(c.waiters, i)
		w.signaled = true
		ss.ready(w.t)
	}
	ss.yield("signal")
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	ss := s
	if ss == nil || ss.aborting {
		return
	}
	c.fresh()
	raceReleaseMerge(unsafe.Pointer(c))
	for _, w := range c.waiters {
		w.signaled = true
		ss.ready(w.t)
	}
	c.waiters = nil
	ss.yield("broadcast")
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n       int
	ep      uint64
	waiters []*task
}

func (wg *WaitGroup) fresh() {
	if wg.ep != epoch {
		*wg = WaitGroup{ep: epoch}
	}
}

// Add adds delta to the counter.
func (wg *WaitGroup) Add(delta int) {
	ss := s
	if ss != nil && ss.aborting {
		return
	}
	wg.fresh()
	if delta < 0 {
		raceReleaseMerge(unsafe.Pointer(wg))
	}
	wg.n += delta
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 && ss != nil {
		for _, t := range wg.waiters {
			ss.ready(t)
		}
		wg.waiters = nil
	}
	if ss != nil {
		ss.yield("wgadd")
	}
}

// Done decrements the counter.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Go runs f in a task.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	Go(func() {
		defer wg.Done()
		f()
	})
}

// Wait blocks until the counter is zero.
func (wg *WaitGroup) Wait() {
	ss := s
	if ss == nil {
		return
	}
	wg.fresh()
	ss.yield("wgwait")
	for wg.n > 0 {
		wg.waiters = Push(wg.waiters, ss.cur)
		ss.block("waitgroup")
	}
	raceAcquire(unsafe.Pointer(wg))
}

// Once replaces sync.Once.  Every simulated run stands for a fresh process, so
// the guarded initialisation is performed again in each run (otherwise a run
// would depend on the runs before it).
type Once struct {
	done bool
	m    Mutex
	ep   uint64
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if s != nil && o.ep != epoch {
		o.ep = epoch
		o.done = false
		o.m = Mutex{}
	}
	if o.done {
		raceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			raceRelease(unsafe.Pointer(o))
			if s == nil || !s.aborting {
				o.done = true
			}
		}()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc (panics are not cached).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues mirrors sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool replaces sync.Pool deterministically: a stack that is emptied at the
// start of every run; the chooser decides whether a stored item is reused.
type Pool struct {
	New   func() interface{}
	items []interface{}
	ep    uint64
}

// PoolReuse lets a run switch off reuse (every Get allocates) to compare.
var PoolReuse = true

// PoolGets / PoolHits count pool traffic of the current process.
var PoolGets, PoolHits uint64

// itemAddr is the address of a pooled item: as with the real pool, a Get is
// ordered after the Put of the same item and after no other.
func itemAddr(x interface{}) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}

// Get returns an item.
func (p *Pool) Get() interface{} {
	if p.ep != epoch {
		p.ep = epoch
		p.items = nil
	}
	if s != nil && !s.aborting {
		s.yield("poolget")
	}
	PoolGets++
	if n := len(p.items); n > 0 && PoolReuse {
		i := n - 1
		if s != nil && n > 1 {
			opts := make([]int, n)
			i = n - 1 - s.cfg.Chooser.Pick(n, opts)
			s.res.Decisions++
		}
		x := p.items[i]
		p.items = Cut(p.items, i)
		raceAcquire(itemAddr(x))
		PoolHits++
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put stores an item.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if p.ep != epoch {
		p.ep = epoch
		p.items = nil
	}
	if s != nil && s.aborting {
		return
	}
	raceReleaseMerge(itemAddr(x))
	if len(p.items) < 16 {
		p.items = Push(p.items, x)
	}
	if s != nil {
		s.yield("poolput")
	}
}

// Map replaces sync.Map with a deterministic, insertion-ordered map.
type Map struct {
	keys []interface{}
	vals []interface{}
	live []bool
}

// at finds a key's place (no map: the run-time reports accesses to those to
// the happens-before monitor).
func (m *Map) at(key any) (int, bool) {
	for i := range m.keys {
		if m.keys[i] == key {
			return i, true
		}
	}
	return 0, false
}

func (m *Map) pt() {
	if s != nil {
		s.yield("map")
	}
	raceAcquire(unsafe.Pointer(m))
	raceReleaseMerge(unsafe.Pointer(m))
}

func (m *Map) Load(key any) (value any, ok bool) {
	m.pt()
	if i, found := m.at(key); found && m.live[i] {
		return m.vals[i], true
	}
	return nil, false
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	m.pt()
	if i, found := m.at(key); found {
		prev, was := m.vals[i], m.live[i]
		m.vals[i], m.live[i] = value, true
		if was {
			return prev, true
		}
		return nil, false
	}
	m.keys = Push(m.keys, key)
	m.vals = Push(m.vals, value)
	m.live = Push(m.live, true)
	return nil, false
}

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	if v, ok := m.Load(key); ok {
		return v, true
	}
	m.Store(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	v, ok := m.Load(key)
	if ok {
		i, _ := m.at(key)
		m.live[i] = false
	}
	return v, ok
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) CompareAndSwap(key, old, new any) bool {
	v, ok := m.Load(key)
	if ok && v == old {
		m.Store(key, new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	v, ok := m.Load(key)
	if ok && v == old {
		i, _ := m.at(key)
		m.live[i] = false
		return true
	}
	return false
}

func (m *Map) Range(f func(key, value any) bool) {
	m.pt()
	for i := 0; i < len(m.keys); i++ {
		if m.live[i] && !f(m.keys[i], m.vals[i]) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.pt()
	m.keys, m.vals, m.live = nil, nil, nil
}

// Point is a scheduling point with acquire-release semantics on p, used by the
// vatomic package.
func Point(p unsafe.Pointer) {
	if s != nil {
		s.yield("atomic")
	}
	raceAcquire(p)
}

// PointEnd publishes on p.
func PointEnd(p unsafe.Pointer) { raceReleaseMerge(p) }

// Notify is a wait queue for harness components: Wait parks the task, Wake
// releases all waiters.
type Notify struct {
	name    string
	waiters []*task
}

// NewNotify names a queue.
func NewNotify(name string) *Notify { return &Notify{name: name} }

// Wait parks the calling task until the next Wake.
func (n *Notify) Wait() {
	ss := s
	if ss == nil {
		panic(fmt.Sprintf("vsync: %s: wait outside simulation", n.name))
	}
	n.waiters = Push(n.waiters, ss.cur)
	ss.block(n.name)
}

// Wake releases all waiters.
func (n *Notify) Wake() {
	ss := s
	if ss == nil || ss.aborting {
		return
	}
	for _, t := range n.waiters {
		ss.ready(t)
	}
	n.waiters = n.waiters[:0]
}
