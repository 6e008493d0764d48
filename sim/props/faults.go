package props

import (
	"errors"
	"fmt"
	"io/fs"
	"syscall"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C08", Title: "Sink failures are never hidden and never corrupt what was accepted",
		Scenarios: []dst.Named{{"fault-at-byte", 4, c08Byte}, {"fault-at-call", 3, c08Call}, {"closed", 1, c08Closed}, {"short-writes", 1, c08Short}},
		Quick:     90000, Thorough: 3600000,
		Rule: "a run counts when a sink fault fired and the failing call, every later call and the accepted bytes were checked against the fault-free twin; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C09", Title: "A successful flush makes all earlier data recoverable from the sink",
		Scenarios: []dst.Named{{"flush", 4, c09Flush}, {"crash", 4, c09Crash}, {"fault", 2, c09Fault}},
		Long:      []dst.Named{{"long-flushes", 2, longFlushes}},
		Quick:     250000, Thorough: 10000000,
		Rule: "a run counts when at least one flush succeeded with data before it and the (surviving) bytes were decoded; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C10", Title: "A full flush is a restart point",
		Scenarios: []dst.Named{{"full", 1, c10Full}},
		Long:      []dst.Named{{"long-flushes", 2, longFlushes}},
		Quick:     90000, Thorough: 3600000,
		Rule: "a run counts when at least one full flush with data on both sides was decoded from its position; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

// ---------------------------------------------------------------------- C08

// opCall describes which sink calls one step made.
type opSpan struct{ from, to int }

func c08Run(t *T, ops []Op, plan dst.SinkPlan) {
	// fault-free twin
	good := &Drv{T: t, Name: "good", Strict: true, NewSinkPlan: func(int) dst.SinkPlan { p := dst.NoSinkFault(); p.Iface = plan.Iface; return p }}
	good.RunAll(ops)
	full := good.Use().Sink.Buf

	d := &Drv{T: t, Name: "bad", NewSinkPlan: func(int) dst.SinkPlan { return plan }}
	failedAt := -1
	var firstErr error
	closed := false
	// more calls after the program, so that the tail of the history is probed
	tail := []Op{{Kind: OpWrite, Data: []byte("tail")}, {Kind: OpFlush, Flush: allFlushes[t.Choose(4)]}, {Kind: OpWrite, Data: []byte{1}}, {Kind: OpFlush, Flush: flate.FinishFlush}, {Kind: OpClose}, {Kind: OpWrite, Data: []byte{2}}, {Kind: OpFlush, Flush: flate.SyncFlush}, {Kind: OpClose}}
	all := append(append([]Op{}, ops...), tail...)
	for i, op := range all {
		var s *dst.Sink
		before := false
		if len(d.Uses) > 0 {
			s = d.Use().Sink
			before = s.Failed
		}
		err := d.Do(op)
		s = d.Use().Sink
		if op.Kind == OpReset || op.Kind == OpHeader {
			continue
		}
		if op.Kind == OpWrite && len(op.Data) == 0 && failedAt < 0 && !closed {
			// an empty write may but need not touch the sink
		}
		switch {
		case closed:
			t.Check(errors.Is(err, fs.ErrClosed), "closed-not-reported", "step %d %v after Close returned %s, want fs.ErrClosed", i, op, errStr(err))
		case s.Failed && !before:
			t.Check(err != nil, "failure-hidden", "step %d %v: the sink failed during it (%v), but it reported success", i, op, s.FailErr)
			t.Check(errors.Is(err, s.FailErr), "error-replaced", "step %d %v: the sink failed with %v, the call reported %s", i, op, s.FailErr, errStr(err))
			failedAt, firstErr = i, err
		case before:
			t.Check(err != nil, "failure-forgotten", "step %d %v: the sink failed in step %d (%v), but this call reported success", i, op, failedAt, firstErr)
		case i < len(ops):
			t.Check(err == nil, "spurious-error", "step %d %v: no fault so far, but %s", i, op, errStr(err))
		}
		if op.Kind == OpClose {
			closed = true
		}
	}
	s := d.Use().Sink
	if !s.Failed {
		t.Probe("fault-not-reached")
		return
	}
	t.Check(s.AfterFail == 0 || s.AfterFailBytes == 0, "write-after-failure", "%d bytes were sent to the sink after it had failed (step %d)", s.AfterFailBytes, failedAt)
	if failedAt < len(ops) {
		t.Check(isPrefix(s.Buf, full), "accepted-bytes-differ", "accepted bytes are no prefix of the fault-free output: %s", diff(full, s.Buf))
	}
	t.Nontrivial()
	t.State(d.Use().Cfg.Format, plan.Iface, s.Calls[s.FailNo].Op, failedAt < len(ops))
}

func c08Prog(t *T) []Op {
	ops := GenProgram(t, ProgOpts{MaxData: 20000, MaxStreams: 3, MaxUses: 1, Headers: true, FlushRate: 3, NoClose: true})
	return ops
}

func drawSinkErr(t *T) error { return t.DrawError(true) }

// syncErr replaces the one error that Sync may report without having failed.
func syncErr(err error) error {
	if errors.Is(err, syscall.EINVAL) {
		return syscall.EIO
	}
	return err
}

func c08Byte(t *T) {
	ops := c08Prog(t)
	// dry run for the length
	dry := &Drv{T: t, Name: "dry", Strict: true}
	dry.RunAll(ops)
	plan := dst.NoSinkFault()
	plan.Iface = t.Choose(4)
	n := len(dry.Use().Sink.Buf)
	plan.FailAt = t.Range(0, n)
	if t.Chance(1, 3) {
		plan.FailAt = t.Size(n)
	}
	plan.Err = drawSinkErr(t)
	plan.Recover = t.Chance(1, 3)
	c08Run(t, ops, plan)
}

func c08Call(t *T) {
	ops := c08Prog(t)
	plan := dst.NoSinkFault()
	plan.Iface = t.Choose(4)
	dry := &Drv{T: t, Name: "dry", Strict: true, NewSinkPlan: func(int) dst.SinkPlan { return plan }}
	dry.RunAll(ops)
	var nw, nf, ns int
	for _, c := range dry.Use().Sink.Calls {
		switch c.Op {
		case 'w':
			nw++
		case 'f':
			nf++
		case 's':
			ns++
		}
	}
	kind := t.Choose(3)
	if kind == 1 && nf == 0 || kind == 2 && ns == 0 {
		kind = 0
	}
	err := drawSinkErr(t)
	switch kind {
	case 0:
		plan.FailCall = t.Choose(nw + 1)
		plan.Partial = []int{0, 1 << 20, 1, 3, 100}[t.Choose(5)]
		plan.Err = err
	case 1:
		plan.FlushFail = t.Choose(nf)
		plan.FlushErr = err
	case 2:
		plan.SyncFail = t.Choose(ns)
		plan.SyncErr = syncErr(err)
	}
	plan.Recover = t.Chance(1, 3)
	c08Run(t, ops, plan)
}

// c08Short: the sink accepts only a part of some writes without returning an
// error.  The rest is offered again or the failure is reported; nothing is
// silently lost.
func c08Short(t *T) {
	ops := c08Prog(t)
	ops = append(ops, Op{Kind: OpClose})
	dry := &Drv{T: t, Name: "dry", Strict: true}
	dry.RunAll(ops)
	plan := dst.NoSinkFault()
	plan.Iface = t.Choose(4)
	plan.ShortEvery = t.Range(1, 6)
	plan.Seed = t.Seed()
	d := &Drv{T: t, Name: "w", NewSinkPlan: func(int) dst.SinkPlan { return plan }}
	failed := -1
	for i, op := range ops {
		err := d.Do(op)
		if failed >= 0 && (op.Kind == OpFlush || op.Kind == OpClose || op.Kind == OpWrite && len(op.Data) > 0) {
			t.Check(err != nil, "failure-forgotten", "step %d %v succeeded after step %d had failed", i, op, failed)
		}
		if err != nil && failed < 0 {
			failed = i
		}
	}
	full, got := dry.Use().Sink.Buf, d.Use().Sink.Buf
	if failed < 0 {
		t.Check(string(got) == string(full), "short-write-lost", "no call failed, but the sink, which accepted some writes partly, holds %s", diff(full, got))
	} else {
		t.Check(isPrefix(got, full), "accepted-bytes-differ", "accepted bytes are no prefix of the fault-free output: %s", diff(full, got))
	}
	if len(full) > 1 {
		t.Nontrivial()
	}
	t.State("short", d.Use().Cfg.Format, plan.Iface, plan.ShortEvery, failed >= 0)
}

// c08Closed: after Close every call reports that the compressor is closed, and
// nothing more reaches the sink.
func c08Closed(t *T) {
	ops := GenProgram(t, ProgOpts{MaxData: 3000, MaxStreams: 2, MaxUses: 1, FlushRate: 3})
	d := &Drv{T: t, Name: "w", Strict: true, NewSinkPlan: func(int) dst.SinkPlan { return drawBenignSink(t) }}
	d.RunAll(ops)
	if !d.Use().Closed {
		t.Check(d.FW.Close() == nil, "close-failed", "Close failed")
	}
	n := len(d.Use().Sink.Calls)
	for i := 0; i < 4; i++ {
		var err error
		switch t.Choose(3) {
		case 0:
			var k int
			k, err = d.FW.Write(make([]byte, t.Choose(3)*700))
			t.Check(k == 0, "closed-accepts", "Write after Close accepted %d bytes", k)
		case 1:
			err = d.FW.Flush([]flate.FlushType{flate.BlockFlush, flate.PartialFlush, flate.SyncFlush, flate.FullFlush, flate.FinishFlush}[t.Choose(5)])
		case 2:
			err = d.FW.Close()
		}
		t.Check(errors.Is(err, fs.ErrClosed), "closed-not-reported", "call after Close returned %s", errStr(err))
	}
	t.Check(len(d.Use().Sink.Calls) == n, "write-after-close", "%d calls reached the sink after Close", len(d.Use().Sink.Calls)-n)
	t.Nontrivial()
}

// ---------------------------------------------------------------------- C09

// recoverable decodes an image and compares it with what had been written:
// at least need bytes, at most all of them.
func recoverable(t *T, u *Use, img []byte, all []byte, need int, complete bool, what string) {
	ro := u.RefOpts()
	ro.Strict = false
	res := ref.Parse(img, ro)
	if complete {
		t.Check(res.Err == nil, "incomplete-after-finish", "%s, %v: %d bytes do not end with a complete stream: %v", what, u.Cfg, len(img), res.Err)
	} else {
		t.Check(res.Err == nil || res.Err.Kind == ref.Truncated, "invalid-output", "%s, %v: image of %d bytes: %v", what, u.Cfg, len(img), res.Err)
	}
	t.Check(len(res.Out) >= need, "flushed-data-lost", "%s, %v: only %d of %d flushed bytes can be decoded from the %d bytes in the sink", what, u.Cfg, len(res.Out), need, len(img))
	t.Check(isPrefix(res.Out, all), "content-differs", "%s, %v: %s", what, u.Cfg, diff(all, res.Out))
}

func c09Prog(t *T) []Op {
	return GenProgram(t, ProgOpts{MaxData: 15000, MaxStreams: 3, MaxUses: 1, Headers: true, FlushRate: 2, FlushKinds: []flate.FlushType{flate.SyncFlush, flate.FullFlush, flate.PartialFlush, flate.SyncFlush, flate.FullFlush, flate.PartialFlush, flate.BlockFlush}})
}

func c09After(t *T, lastFlushed *int, readers bool) func(d *Drv, i int, op Op, err error) {
	checks := 0
	return func(d *Drv, i int, op Op, err error) {
		if err != nil || (op.Kind != OpFlush && op.Kind != OpClose) || (op.Kind == OpFlush && op.Flush == flate.BlockFlush) {
			return
		}
		u := d.Use()
		s := u.Sink
		all := u.Want()
		*lastFlushed = len(all)
		fin := op.Kind == OpClose || op.Flush == flate.FinishFlush
		checks++
		if checks <= 12 || fin {
			recoverable(t, u, s.Buf, all, len(all), fin, fmt.Sprintf("after step %d %v", i, op))
			if readers && checks <= 3 {
				rc := ReaderFor(t, u.Cfg)
				dec := Decode(t, "img", append([]byte(nil), s.Buf...), rc, dst.SourcePlan{ErrAt: -1}, SimpleReads)
				t.Check(string(dec.Out) == string(all), "flushed-data-lost", "after step %d %v, %v: the decompressor recovers %s (error %v)", i, op, u.Cfg, diff(all, dec.Out), dec.Err)
			}
		}
		if len(all) > 0 {
			t.Nontrivial()
		}
		// sink methods invoked after the last byte
		lastW, lastF, lastS := -1, -1, -1
		for k, c := range s.Calls {
			switch c.Op {
			case 'w':
				if c.N > 0 {
					lastW = k
				}
			case 'f':
				lastF = k
			case 's':
				lastS = k
			}
		}
		if lastW >= 0 {
			if s.Plan.Iface&1 != 0 {
				t.Check(lastF > lastW, "sink-not-flushed", "after step %d %v the sink's Flush was not called after the last byte", i, op)
			}
			if s.Plan.Iface&2 != 0 {
				t.Check(lastS > lastW, "sink-not-synced", "after step %d %v the sink's Sync was not called after the last byte", i, op)
				if s.Plan.Iface == 3 {
					t.Check(lastS > lastF, "sync-before-flush", "after step %d %v the sink was synced before it was flushed", i, op)
				}
			}
		}
		if op.Kind == OpFlush && (op.Flush == flate.SyncFlush || op.Flush == flate.FullFlush) && u.Cur != nil {
			n := len(s.Buf)
			t.Check(n >= 4 && string(s.Buf[n-4:]) == "\x00\x00\xff\xff", "no-sync-marker", "after step %d %v the output ends with %x, not with an empty stored block", i, op, s.Buf[max(0, n-4):])
		}
		t.State(op.Kind, op.Flush, u.Cfg.Format, u.Cfg.Strategy, u.Cfg.EffLevel() == 0, s.Plan.Iface)
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func c09Flush(t *T) {
	ops := c09Prog(t)
	last := 0
	d := &Drv{T: t, Name: "w", Strict: true, NewSinkPlan: func(int) dst.SinkPlan { return drawBenignSink(t) }}
	d.After = c09After(t, &last, true)
	d.RunAll(ops)
}

// powerLoss ends the simulated process.
type powerLoss struct{}

// c09Crash: the machine stops at an arbitrary sink call; only durable bytes
// (and an arbitrary, possibly torn, part of the rest) survive.
func c09Crash(t *T) {
	ops := c09Prog(t)
	plan := dst.NoSinkFault()
	plan.Iface = 2 + t.Choose(2)
	at := 1 + t.Size(60)
	calls := 0
	last, lastDurable := 0, 0
	d := &Drv{T: t, Name: "w", Strict: true, NewSinkPlan: func(int) dst.SinkPlan { return plan }}
	d.OnSink = func(s *dst.Sink) {
		s.OnCall = func(op byte) {
			calls++
			if calls == at {
				panic(powerLoss{})
			}
		}
	}
	after := c09After(t, &last, false)
	d.After = func(d *Drv, i int, op Op, err error) {
		after(d, i, op, err)
		lastDurable = d.Use().Sink.Durable
	}
	_ = lastDurable
	written := []byte{}
	crashed := func() (c bool) {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(powerLoss); !ok {
					panic(v)
				}
				c = true
			}
		}()
		for _, op := range ops {
			if op.Kind == OpWrite {
				written = append(written, op.Data...)
			}
			d.Do(op)
		}
		return false
	}()
	if !crashed {
		t.Probe("finished-before-crash")
	} else {
		t.Fault("crash")
	}
	u := d.Use()
	s := u.Sink
	// surviving image: durable bytes, plus an arbitrary part of the rest
	img := append([]byte(nil), s.Buf[:s.Durable]...)
	rest := s.Buf[s.Durable:]
	if len(rest) > 0 && t.Chance(1, 2) {
		n := t.Range(0, len(rest))
		img = append(img, rest[:n]...)
		t.Fault("torn-tail")
	}
	recoverable(t, u, img, written, last, false, fmt.Sprintf("crash at sink call %d", at))
	if len(img) > 0 {
		rc := ReaderFor(t, u.Cfg)
		dec := Decode(t, "img", img, rc, t.DrawSource(), DrawReads(t))
		t.Check(len(dec.Out) >= last && isPrefix(dec.Out, written), "flushed-data-lost", "crash at sink call %d, %v: the decompressor recovers %d bytes of which %d were flushed: %s (error %v)", at, u.Cfg, len(dec.Out), last, diff(written, dec.Out), dec.Err)
	}
	if last > 0 {
		t.Nontrivial()
	}
}

// c09Fault: flushes on a sink that later fails keep their promise.
func c09Fault(t *T) {
	ops := c09Prog(t)
	plan := dst.NoSinkFault()
	plan.Iface = t.Choose(4)
	plan.FailAt = t.Size(6000)
	plan.Err = drawSinkErr(t)
	last := 0
	d := &Drv{T: t, Name: "w", NewSinkPlan: func(int) dst.SinkPlan { return plan }}
	d.After = c09After(t, &last, false)
	written := []byte{}
	for _, op := range ops {
		if op.Kind == OpWrite {
			written = append(written, op.Data...)
		}
		if err := d.Do(op); err != nil {
			break
		}
	}
	recoverable(t, d.Use(), d.Use().Sink.Buf, written, last, false, "after a sink failure")
}

// ---------------------------------------------------------------------- C10

func c10Full(t *T) {
	ops := GenProgram(t, ProgOpts{MaxData: 40000, MaxStreams: 3, MaxUses: 2, FlushRate: 2, FlushKinds: []flate.FlushType{flate.FullFlush, flate.FullFlush, flate.FullFlush, flate.SyncFlush, flate.PartialFlush, flate.BlockFlush}})
	d := &Drv{T: t, Name: "w", Strict: true}
	d.RunAll(ops)
	for i, u := range d.Uses {
		for k, ms := range u.Streams {
			for j, off := range ms.FullAt {
				if j >= 8 && j < len(ms.FullAt)-4 {
					continue
				}
				want := ms.Data[ms.FullData[j]:]
				st, err := ref.InflateRaw(u.Sink.Buf, int64(off)*8, ref.Options{Format: ref.Raw, WindowBits: u.Cfg.EffWBits()})
				t.Check(err == nil, "not-a-restart-point", "use %d %v stream %d: decoding from full flush %d at byte %d: %v", i, u.Cfg, k, j, off, err)
				t.Check(st.MaxReach == 0, "match-across-full-flush", "use %d %v stream %d: a match after full flush %d reaches %d bytes before it", i, u.Cfg, k, j, st.MaxReach)
				t.Check(string(st.Out) == string(want), "content-differs", "use %d %v stream %d: from full flush %d at byte %d: %s", i, u.Cfg, k, j, off, diff(want, st.Out))
				if len(want) > 0 && ms.FullData[j] > 0 {
					t.Nontrivial()
				}
				if j < 2 {
					// the package's own decompressor from the same position
					end := st.DeflateEnd
					dec := Decode(t, "restart", u.Sink.Buf[off:end], RCfg{Format: flate.RawFormat, WBits: u.Cfg.WBits, MLevel: 1}, dst.SourcePlan{ErrAt: -1}, SimpleReads)
					t.Check(eofClean(dec.Err) && string(dec.Out) == string(want), "restart-differs", "use %d %v stream %d: the decompressor started at full flush %d gives %s, error %v", i, u.Cfg, k, j, diff(want, dec.Out), dec.Err)
				}
				t.State(u.Cfg.Format, u.Cfg.Strategy, u.Cfg.Dict != nil, j, int(u.Cfg.WBits))
			}
		}
	}
}
