package dst

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"

	buffer "github.com/chronos-tachyon/buffer/v3"

	"verif.local/sim/vsync"
)

// ErrInjected values used as source and sink errors: distinct, comparable.
type InjectedError struct{ Name string }

func (e *InjectedError) Error() string { return "injected: " + e.Name }

// timeoutError is an error of the net package's kind: it claims to be temporary.
type timeoutError struct{ Name string }

func (e *timeoutError) Error() string   { return "injected timeout: " + e.Name }
func (e *timeoutError) Timeout() bool   { return true }
func (e *timeoutError) Temporary() bool { return true }

// emptyError has an empty message.
type emptyError struct{ _ int }

func (*emptyError) Error() string { return "" }

// valueError is not a pointer (and not comparable to anything else).
type valueError struct{ A, B int }

func (e valueError) Error() string { return fmt.Sprint("injected value ", e.A, e.B) }

// DrawError draws one of the error values real sources and sinks fail with.
// Every one is a failure; none may be treated as an end of file, retried,
// ignored or replaced.
func (t *T) DrawError(sink bool) error {
	var list []error
	if sink {
		list = []error{
			&InjectedError{Name: "sink"},
			syscall.ENOSPC,
			fmt.Errorf("wrapped: %w", &InjectedError{Name: "io"}),
			fs.ErrClosed,
			io.ErrShortWrite,
			io.ErrClosedPipe,
			&timeoutError{Name: "sink"},
			&fs.PathError{Op: "write", Path: "/out", Err: syscall.EIO},
			&fs.PathError{Op: "write", Path: "/out", Err: syscall.EINTR},
			syscall.EAGAIN,
			syscall.EINVAL, // (to be ignored when it comes from Sync, only)
			&fs.PathError{Op: "write", Path: "/out", Err: syscall.EINVAL},
			fmt.Errorf("peer closed: %w", io.EOF),
			io.EOF,
			context.Canceled,
			valueError{1, 2},
			&emptyError{},
			errors.Join(&InjectedError{Name: "a"}, syscall.EDQUOT),
			buffer.ErrFull,
		}
	} else {
		list = []error{
			&InjectedError{Name: "disk"},
			fmt.Errorf("wrapped: %w", &InjectedError{Name: "net"}),
			io.ErrClosedPipe,
			io.ErrUnexpectedEOF,
			fmt.Errorf("connection reset: %w", io.EOF),
			fmt.Errorf("upload: %w", io.ErrUnexpectedEOF),
			&timeoutError{Name: "net"},
			&fs.PathError{Op: "read", Path: "/in", Err: syscall.EIO},
			&fs.PathError{Op: "read", Path: "/in", Err: syscall.EINTR},
			syscall.EAGAIN,
			fs.ErrClosed,
			context.DeadlineExceeded,
			os.ErrDeadlineExceeded,
			io.ErrNoProgress,
			io.ErrShortBuffer,
			valueError{3, 4},
			&emptyError{},
			errors.Join(&InjectedError{Name: "a"}, io.EOF),
			buffer.ErrEmpty,
			buffer.ErrFull,
		}
	}
	if t.Chance(1, 4) {
		return list[0]
	}
	return list[t.Choose(len(list))]
}

// SourcePlan decides how a Source behaves.
type SourcePlan struct {
	Mode        int // 0 everything, 1 one byte, 2 fixed K, 3 random up to K
	K           int
	Seed        uint64
	EOFWithData bool
	ZeroEvery   int // a zero-length read before about one in ZeroEvery reads
	StallEvery  int // simulated delay before about one in StallEvery reads
	Scratch     bool
	ErrAt       int   // byte offset after which Err is returned (-1: none)
	Err         error // error at ErrAt
	ErrWithData bool
	Continue    bool // after the error the source would deliver more data if asked
}

func (p SourcePlan) String() string {
	return fmt.Sprintf("mode=%d k=%d seed=%d eofWithData=%v zero=%d stall=%d scratch=%v errAt=%d errWithData=%v err=%v", p.Mode, p.K, p.Seed, p.EOFWithData, p.ZeroEvery, p.StallEvery, p.Scratch, p.ErrAt, p.ErrWithData, p.Err)
}

// DrawSource draws a fault-free plan (fragmentation and timing only).
func (t *T) DrawSource() SourcePlan {
	p := SourcePlan{ErrAt: -1}
	p.Mode = t.Weighted(3, 2, 2, 4)
	if p.Mode >= 2 {
		p.K = 1 + t.Size(5000)
	}
	if p.Mode == 3 || p.Mode == 0 {
		p.Seed = t.Seed()
	}
	p.EOFWithData = t.Chance(1, 2)
	if t.Chance(1, 4) {
		p.ZeroEvery = t.Range(2, 10)
	}
	if t.Chance(1, 4) {
		p.StallEvery = t.Range(1, 8)
	}
	p.Scratch = t.Chance(1, 4)
	return p
}

// Source is a simulated io.Reader.
type Source struct {
	T           *T
	Name        string
	Data        []byte
	Plan        SourcePlan
	pos         int
	rng         *RNG
	Calls       int
	Ended       bool
	EndErr      error
	AfterEnd    int // calls after the terminal result
	busy        bool
	Delivered   int
	Closed      bool // set by the scenario: no further call is allowed
	AfterClose  int
	OnRead      func()
	Stalls      []int // byte positions at which the source waits for Release
	Stalled     bool
	gate        *vsync.Notify
	zeroRun     int
	LastCallSeq uint64
}

// NewSource builds a source over data.
func (t *T) NewSource(name string, data []byte, plan SourcePlan) *Source {
	t.Log("source %s len=%d %s", name, len(data), plan.String())
	return &Source{T: t, Name: name, Data: data, Plan: plan, rng: NewRNG(plan.Seed + 77)}
}

// Read implements io.Reader.
func (s *Source) Read(p []byte) (n int, err error) {
	t := s.T
	if s.busy {
		t.Fail("concurrent-source-read", "source %s: Read called while another Read is in progress", s.Name)
	}
	if len(p) == 0 {
		return 0, nil
	}
	s.busy = true
	s.Calls++
	s.LastCallSeq = vsync.Seq()
	if s.Closed {
		s.AfterClose++
	}
	vsync.Yield("src")
	if s.OnRead != nil {
		s.OnRead()
	}
	pl := &s.Plan
	if pl.StallEvery > 0 && s.rng.N(pl.StallEvery) == 0 {
		t.Cov.Faults["source-stall"]++
		vsync.Sleep(time.Duration(1+s.rng.N(1000)) * time.Millisecond)
	}
	if pl.ZeroEvery > 0 && s.rng.N(pl.ZeroEvery) == 0 && s.zeroRun < 3 && !s.Ended {
		s.zeroRun++
		t.Cov.Faults["source-zero-read"]++
		s.busy = false
		return 0, nil
	}
	s.zeroRun = 0
	if s.Ended {
		s.AfterEnd++
		s.busy = false
		if pl.Continue && s.pos < len(s.Data) {
			n = copy(p, s.Data[s.pos:])
			s.pos += n
			return n, nil
		}
		return 0, s.EndErr
	}
	for len(s.Stalls) > 0 && s.pos >= s.Stalls[0] {
		// nothing more arrives until Release
		if s.gate == nil {
			s.gate = vsync.NewNotify("source " + s.Name)
		}
		t.Cov.Faults["source-stall"]++
		s.Stalled = true
		s.gate.Wait()
	}
	s.Stalled = false
	limit := len(s.Data)
	if len(s.Stalls) > 0 && s.Stalls[0] < limit {
		limit = s.Stalls[0]
	}
	if pl.ErrAt >= 0 && pl.ErrAt < limit {
		limit = pl.ErrAt
	}
	avail := limit - s.pos
	want := len(p)
	switch pl.Mode {
	case 1:
		want = 1
	case 2:
		want = pl.K
	case 3:
		want = 1 + s.rng.N(pl.K)
	}
	if s.Calls > 2000 && want < len(s.Data)/64 {
		// trickling megabytes in takes very long and shows nothing new
		want = len(s.Data) / 64
	}
	if want > len(p) {
		want = len(p)
	}
	if want > avail {
		want = avail
	}
	if want < len(p) && want > 0 {
		t.Cov.Faults["source-short-read"]++
	}
	n = copy(p[:want], s.Data[s.pos:])
	vsync.RaceWrite(p[:n])
	s.pos += n
	s.Delivered += n
	if pl.Scratch && n < len(p) {
		t.Cov.Faults["source-scratch-use"]++
		q := p[n:]
		if len(q) > 300 {
			q = q[:300]
		}
		for i := range q {
			q[i] = 0x5A
		}
	}
	atEnd := s.pos >= limit && (len(s.Stalls) == 0 || s.pos < s.Stalls[0])
	isErr := pl.ErrAt >= 0 && pl.ErrAt <= len(s.Data)
	if atEnd {
		if isErr && (n == 0 || pl.ErrWithData) {
			s.Ended = true
			s.EndErr = pl.Err
			err = pl.Err
			t.Fault("source-error")
		} else if !isErr && (n == 0 || pl.EOFWithData) {
			s.Ended = true
			s.EndErr = io.EOF
			err = io.EOF
			if n > 0 {
				t.Cov.Faults["source-eof-with-data"]++
			}
		}
	}
	t.Log("src %s -> %d %v", s.Name, n, err)
	s.busy = false
	return n, err
}

// Release lets a stalled source go on to its next stall.
func (s *Source) Release() {
	if len(s.Stalls) > 0 {
		s.Stalls = s.Stalls[1:]
		if s.gate != nil {
			s.gate.Wake()
		}
	}
}

// Pos is the number of bytes handed out so far.
func (s *Source) Pos() int { return s.pos }

// SinkPlan decides how a Sink fails.
type SinkPlan struct {
	FailAt     int // byte offset at which a write fails (-1: never)
	FailCall   int // write call number that fails (-1: never)
	Partial    int // bytes of the failing call accepted before the error (call mode)
	Err        error
	FlushFail  int // Flush call number that fails (-1)
	SyncFail   int // Sync call number that fails (-1)
	FlushErr   error
	SyncErr    error
	EINVAL     bool // Sync reports EINVAL (unsupported), which must be ignored
	Recover    bool // writes after the failing one would succeed
	StallEvery int
	ShortEvery int // about one in ShortEvery writes accepts only a part, without an error
	Seed       uint64
	Iface      int // 0 plain, 1 +Flush, 2 +Sync, 3 both
}

// NoSinkFault is the fault-free plan.
func NoSinkFault() SinkPlan {
	return SinkPlan{FailAt: -1, FailCall: -1, FlushFail: -1, SyncFail: -1}
}

func (p SinkPlan) String() string {
	return fmt.Sprintf("iface=%d failAt=%d failCall=%d partial=%d flushFail=%d syncFail=%d einval=%v recover=%v", p.Iface, p.FailAt, p.FailCall, p.Partial, p.FlushFail, p.SyncFail, p.EINVAL, p.Recover)
}

// SinkCall is one call made on a sink.
type SinkCall struct {
	Op   byte // 'w', 'f', 's'
	Off  int  // bytes accepted before the call
	Len  int  // bytes offered
	N    int
	Err  error
	Task int
}

// Sink is a simulated io.Writer with durable-state bookkeeping.
type Sink struct {
	T              *T
	Name           string
	Plan           SinkPlan
	Buf            []byte // accepted bytes
	Calls          []SinkCall
	Durable        int // bytes known to survive a crash (covered by a successful Sync)
	Flushed        int // bytes covered by a successful Flush
	Failed         bool
	FailErr        error
	FailNo         int // index in Calls of the failing call
	AfterFail      int
	AfterFailBytes int
	nW, nF, nS     int
	busy           bool
	rng            *RNG
	Closed         bool
	OnCall         func(op byte)
	Tee            io.Writer // accepted bytes are passed on (a pipe to another task)
}

// NewSink builds a sink.
func (t *T) NewSink(name string, plan SinkPlan) *Sink {
	t.Log("sink %s %s", name, plan.String())
	return &Sink{T: t, Name: name, Plan: plan, rng: NewRNG(plan.Seed + 99)}
}

// W returns the view of the sink with the planned optional methods.
func (s *Sink) W() io.Writer {
	switch s.Plan.Iface {
	case 1:
		return sinkF{s}
	case 2:
		return sinkS{s}
	case 3:
		return sinkFS{s}
	}
	return sinkP{s}
}

type sinkP struct{ s *Sink }

func (x sinkP) Write(p []byte) (int, error) { return x.s.write(p) }

type sinkF struct{ s *Sink }

func (x sinkF) Write(p []byte) (int, error) { return x.s.write(p) }
func (x sinkF) Flush() error                { return x.s.flush() }

type sinkS struct{ s *Sink }

func (x sinkS) Write(p []byte) (int, error) { return x.s.write(p) }
func (x sinkS) Sync() error                 { return x.s.sync() }

type sinkFS struct{ s *Sink }

func (x sinkFS) Write(p []byte) (int, error) { return x.s.write(p) }
func (x sinkFS) Flush() error                { return x.s.flush() }
func (x sinkFS) Sync() error                 { return x.s.sync() }

func (s *Sink) enter(op string) {
	if s.busy {
		s.T.Fail("concurrent-sink-call", "sink %s: %s while another call is in progress", s.Name, op)
	}
	s.busy = true
	if s.Failed {
		s.AfterFail++
	}
	vsync.Yield("sink-" + op)
	if s.Plan.StallEvery > 0 && s.rng.N(s.Plan.StallEvery) == 0 {
		s.T.Cov.Faults["sink-stall"]++
		vsync.Sleep(time.Duration(1+s.rng.N(1000)) * time.Millisecond)
	}
	if s.OnCall != nil {
		s.OnCall(op[0])
	}
}

func (s *Sink) fail(err error) {
	if !s.Failed {
		s.Failed = true
		s.FailErr = err
		s.FailNo = len(s.Calls)
	}
}

func (s *Sink) write(p []byte) (int, error) {
	s.enter("write")
	defer func() { s.busy = false }()
	vsync.RaceRead(p)
	pl := &s.Plan
	call := s.nW
	s.nW++
	n, err := len(p), error(nil)
	switch {
	case s.Failed && !pl.Recover:
		n, err = 0, s.FailErr
	case !s.Failed && pl.FailCall >= 0 && call == pl.FailCall:
		n = pl.Partial
		if n > len(p) {
			n = len(p)
		}
		err = pl.Err
	case !s.Failed && pl.FailAt >= 0 && len(s.Buf)+len(p) > pl.FailAt:
		n = pl.FailAt - len(s.Buf)
		err = pl.Err
	case pl.ShortEvery > 0 && len(p) > 1 && s.rng.N(pl.ShortEvery) == 0:
		n = 1 + s.rng.N(len(p)-1)
		s.T.Fault("sink-short-write")
	}
	if s.Failed {
		s.AfterFailBytes += len(p)
	}
	if err != nil && !s.Failed {
		if n > 0 && n < len(p) {
			s.T.Fault("sink-partial-write")
		} else if n == len(p) {
			s.T.Fault("sink-full-write-with-error")
		} else {
			s.T.Fault("sink-write-error")
		}
		if errors.Is(err, syscall.ENOSPC) {
			s.T.Fault("sink-disk-full")
		}
		s.fail(err)
	}
	s.Calls = append(s.Calls, SinkCall{'w', len(s.Buf), len(p), n, err, vsync.CurID()})
	s.Buf = append(s.Buf, p[:n]...)
	if s.Tee != nil && n > 0 {
		_, _ = s.Tee.Write(p[:n])
	}
	s.T.Log("sink %s write %d -> %d %v", s.Name, len(p), n, err)
	return n, err
}

func (s *Sink) flush() error {
	s.enter("flush")
	defer func() { s.busy = false }()
	call := s.nF
	s.nF++
	var err error
	if s.Failed && !s.Plan.Recover {
		err = s.FailErr
	} else if s.Plan.FlushFail >= 0 && call == s.Plan.FlushFail {
		err = s.Plan.FlushErr
		s.T.Fault("sink-flush-error")
		s.fail(err)
	}
	s.Calls = append(s.Calls, SinkCall{'f', len(s.Buf), 0, 0, err, vsync.CurID()})
	if err == nil {
		s.Flushed = len(s.Buf)
	}
	s.T.Log("sink %s flush %v", s.Name, err)
	return err
}

func (s *Sink) sync() error {
	s.enter("sync")
	defer func() { s.busy = false }()
	call := s.nS
	s.nS++
	var err error
	if s.Failed && !s.Plan.Recover {
		err = s.FailErr
	} else if s.Plan.SyncFail >= 0 && call == s.Plan.SyncFail {
		err = s.Plan.SyncErr
		s.T.Fault("sink-sync-error")
		s.fail(err)
	} else if s.Plan.EINVAL {
		err = &wrapped{syscall.EINVAL}
		s.T.Cov.Faults["sink-sync-einval"]++
	}
	s.Calls = append(s.Calls, SinkCall{'s', len(s.Buf), 0, 0, err, vsync.CurID()})
	if err == nil {
		// with a Flush method, only flushed bytes reach the medium
		if s.Plan.Iface == 3 {
			s.Durable = s.Flushed
		} else {
			s.Durable = len(s.Buf)
		}
	}
	s.T.Log("sink %s sync %v", s.Name, err)
	return err
}

type wrapped struct{ e error }

func (w *wrapped) Error() string { return "sync: " + w.e.Error() }
func (w *wrapped) Unwrap() error { return w.e }

// Pipe is a simulated bounded pipe between tasks.
type Pipe struct {
	t       *T
	buf     []byte
	cap     int
	wEOF    bool
	rGone   bool
	rd, wr  *vsync.Notify
	Err     error // delivered instead of EOF once drained
	MaxRead int
	calls   int
}

// NewPipe returns a pipe with the given capacity.
func (t *T) NewPipe(capacity int) *Pipe {
	return &Pipe{t: t, cap: capacity, rd: vsync.NewNotify("pipe-read"), wr: vsync.NewNotify("pipe-write")}
}

// Read implements io.Reader.
func (p *Pipe) Read(b []byte) (int, error) {
	vsync.Yield("pipe-read")
	for len(p.buf) == 0 {
		if p.wEOF {
			if p.Err != nil {
				return 0, p.Err
			}
			return 0, io.EOF
		}
		p.rd.Wait()
	}
	p.calls++
	if p.calls == 3000 {
		// more of the same shows nothing new
		p.MaxRead = 0
		if p.cap < 4096 {
			p.cap = 4096
		}
	}
	if p.MaxRead > 0 && len(b) > p.MaxRead {
		b = b[:p.MaxRead]
	}
	n := copy(b, p.buf)
	vsync.RaceWrite(b[:n])
	p.buf = append(p.buf[:0], p.buf[n:]...)
	p.wr.Wake()
	p.t.Log("pipe read %d", n)
	return n, nil
}

// Write implements io.Writer.
func (p *Pipe) Write(b []byte) (int, error) {
	vsync.Yield("pipe-write")
	vsync.RaceRead(b)
	total := 0
	for len(b) > 0 {
		if p.rGone {
			return total, syscall.EPIPE
		}
		room := p.cap - len(p.buf)
		if room <= 0 {
			p.wr.Wait()
			continue
		}
		if room > len(b) {
			room = len(b)
		}
		p.buf = append(p.buf, b[:room]...)
		b = b[room:]
		total += room
		p.rd.Wake()
	}
	p.t.Log("pipe write %d", total)
	return total, nil
}

// CloseWrite signals end of input to the reader.
func (p *Pipe) CloseWrite() { p.wEOF = true; p.rd.Wake(); p.wr.Wake(); vsync.Yield("pipe-close") }

// CloseRead makes further writes fail.
func (p *Pipe) CloseRead() { p.rGone = true; p.wr.Wake(); p.rd.Wake(); vsync.Yield("pipe-close") }

// Discard is a sink that accepts everything.
type Discard struct{}

func (Discard) Write(p []byte) (int, error) { return len(p), nil }
