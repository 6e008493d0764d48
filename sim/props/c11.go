package props

import (
	"errors"
	"fmt"
	"time"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/vsync"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C11", Title: "Reset leaves no trace of the past",
		Scenarios: []dst.Named{{"writer", 5, c11Writer}, {"reader", 6, c11Reader}, {"writer-shared", 1, c11Shared}},
		Long:      []dst.Named{{"long-resets", 2, longResets}},
		Quick:     80000, Thorough: 3200000,
		Rule: "a run counts when an object with a past (one to four earlier uses, each ended by success, fault, close or in the middle) was reset and its later behaviour - output, results, errors, events - was compared with that of a new object given the same accumulated options; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

// errKey renders an error without lifetime totals.
func errKey(err error) string {
	var c flate.CorruptInputError
	if errors.As(err, &c) {
		return fmt.Sprintf("corrupt at %d: %s", c.OffsetStream, c.Problem)
	}
	return errStr(err)
}

// randomOps draws writer steps: anything allowed in any order.
func randomOps(t *T, n, maxData int) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		switch t.Weighted(8, 4, 2, 1, 1) {
		case 0:
			ops = append(ops, Op{Kind: OpWrite, Data: t.Data(maxData)})
		case 1:
			ops = append(ops, Op{Kind: OpFlush, Flush: allFlushes[t.Choose(len(allFlushes))]})
		case 2:
			ops = append(ops, Op{Kind: OpFlush, Flush: flate.FinishFlush})
		case 3:
			ops = append(ops, Op{Kind: OpHeader, Header: DrawHeader(t)})
		case 4:
			ops = append(ops, Op{Kind: OpHeader, Header: flate.Header{FileName: "no/good", Comment: "must not stick", OSType: flate.OSTypeVMS, DataType: flate.BinaryData}})
		}
	}
	return ops
}

// apply performs one step on a bare writer.
func apply(fw *flate.Writer, op Op) (int, error) {
	switch op.Kind {
	case OpWrite:
		return fw.Write(op.Data)
	case OpFlush:
		return 0, fw.Flush(op.Flush)
	case OpHeader:
		return 0, fw.SetHeader(CloneHeader(op.Header))
	case OpClose:
		return 0, fw.Close()
	}
	return 0, nil
}

// tryReset resets a compressor; false when it refuses because a stream is open.
func tryReset(t *T, fw *flate.Writer, k *dst.Sink, opts []flate.Option) (ok bool) {
	defer func() {
		if v := recover(); v != nil {
			if vsync.IsAbort(v) {
				panic(v)
			}
			t.Probe("reset-refused-mid-stream")
			ok = false
		}
	}()
	fw.Reset(k.W(), opts...)
	return true
}

func faultPlan(t *T, num, den int) dst.SinkPlan {
	p := drawBenignSink(t)
	if !t.Chance(num, den) {
		return p
	}
	p.Err = drawSinkErr(t)
	switch t.Weighted(4, 1, 1) {
	case 0:
		p.FailAt = t.Size(6000)
	case 1:
		p.Iface |= 1
		p.FlushFail, p.FlushErr = t.Choose(4), p.Err
	case 2:
		p.Iface |= 2
		p.SyncFail, p.SyncErr = t.Choose(4), syncErr(p.Err)
	}
	p.Recover = t.Chance(1, 2)
	return p
}

// staleTracer is a replaced tracer and what it had received until then.
type staleTracer struct {
	r *recorder
	n int
}

func c11Writer(t *T) {
	cfg := DrawCfg(t, CfgLimits{})
	all := cfg.Opts()
	ra := &recorder{t: t}
	old := t.NewSink("h0", faultPlan(t, 1, 2))
	fw := flate.NewWriter(old.W(), append(append([]flate.Option{}, all...), flate.WithTracers(ra))...)
	var explicit *flate.Header
	type past struct {
		k     *dst.Sink
		bytes int
		calls int
	}
	var pasts []past
	uses := t.Range(1, 4)
	kinds := ""
	var stale []staleTracer
	var final *dst.Sink
	for u := 0; u < uses; u++ {
		ops := randomOps(t, t.Range(0, 6), 6000)
		var err error
		for _, op := range ops {
			_, e := apply(fw, op)
			if op.Kind == OpHeader {
				if e == nil {
					h := CloneHeader(op.Header)
					explicit = &h
				}
				continue
			}
			if e != nil {
				err = e
				if t.Chance(1, 2) {
					break
				}
			}
		}
		end := t.Weighted(3, 2, 2)
		switch end {
		case 0:
			if e := fw.Close(); e != nil {
				err = e
			}
			if t.Chance(1, 4) {
				_, _ = fw.Write([]byte("after close"))
			}
		case 1:
			if e := fw.Flush(flate.FinishFlush); e != nil {
				err = e
			}
		}
		kinds += fmt.Sprintf("%d%v ", end, err != nil)
		if err != nil {
			t.Probe("reset-after-error")
		}
		ncfg, opts := changeCfg(t, cfg, CfgLimits{})
		var replaced *recorder
		if t.Chance(1, 5) {
			// another tracer takes over
			replaced, ra = ra, &recorder{t: t}
			opts = append(opts, flate.WithTracers(ra))
		}
		plan := faultPlan(t, 1, 2)
		if u+1 == uses {
			plan = faultPlan(t, 1, 5)
		}
		k := t.NewSink(fmt.Sprintf("h%d", u+1), plan)
		if !tryReset(t, fw, k, opts) {
			t.Check(end == 2 && err == nil, "reset-refused", "Reset refused although the stream was finished or had failed (end %d, error %v)", end, err)
			_ = fw.Close()
			t.Check(tryReset(t, fw, k, opts), "reset-refused", "Reset refused after Close")
		}
		if replaced != nil {
			stale = append(stale, staleTracer{replaced, len(replaced.ev)})
		}
		pasts = append(pasts, past{old, len(old.Buf), len(old.Calls)})
		cfg, all = ncfg, append(all, opts...)
		old = k
		final = k
	}
	// the twin: new, same options, same header, same sink behaviour
	mark := len(ra.ev)
	rb := &recorder{t: t}
	kb := t.NewSink("fresh", final.Plan)
	fb := flate.NewWriter(kb.W(), append(append([]flate.Option{}, all...), flate.WithTracers(rb))...)
	if explicit != nil {
		e := fb.SetHeader(CloneHeader(*explicit))
		t.Check(e == nil, "header-refused", "the header in force was refused by a new compressor: %s", errStr(e))
	}
	gets := func(w *flate.Writer) string {
		return fmt.Sprint(w.Format(), w.Method(), w.Strategy(), w.CompressLevel(), w.MemoryLevel(), w.WindowBits(), w.Dict())
	}
	t.Check(gets(fw) == gets(fb), "options-differ", "after Reset the options are %s, a new compressor has %s", clip(gets(fw), 200), clip(gets(fb), 200))
	ops := append(randomOps(t, t.Range(1, 8), 12000), Op{Kind: OpClose}, Op{Kind: OpClose})
	for i, op := range ops {
		na, ea := apply(fw, op)
		nb, eb := apply(fb, op)
		t.Check(na == nb && errKey(ea) == errKey(eb), "result-differs", "%v after [%s]: step %d %v returned %d, %s; a new compressor returns %d, %s", cfg, kinds, i, op, na, errStr(ea), nb, errStr(eb))
		t.Check(len(final.Buf) >= len(kb.Buf) && len(final.Buf) <= len(kb.Buf), "output-differs", "%v after [%s]: %d bytes emitted after step %d %v; a new compressor has emitted %d", cfg, kinds, len(final.Buf), i, op, len(kb.Buf))
	}
	t.Check(string(final.Buf) == string(kb.Buf), "output-differs", "%v after [%s]: output differs from that of a new compressor: %s", cfg, kinds, diff(kb.Buf, final.Buf))
	if d := sameEvents(ra.ev[mark:], rb.ev); d != "" {
		t.Fail("events-differ", "%v after [%s]: %s", cfg, kinds, d)
	}
	for i, st := range stale {
		t.Check(len(st.r.ev) == st.n, "old-tracer-used", "tracer %d received %d events after it was replaced", i, len(st.r.ev)-st.n)
	}
	for i, p := range pasts {
		t.Check(len(p.k.Buf) == p.bytes && len(p.k.Calls) == p.calls, "old-sink-used", "sink %d was used after Reset", i)
	}
	t.Nontrivial()
	t.State("writer", cfg.Format, int(cfg.Level), cfg.Strategy, kinds)
}

// c11Shared: the reset compressor is used by several tasks; what it emits in
// each use is complete and valid (checked against the linearised history).
func c11Shared(t *T) {
	s := drawShared(t, true)
	s.run()
	s.check()
}

// inputFor draws an input that a reader configured as rc can decode.
func inputFor(t *T, rc RCfg) []byte {
	cfg := DrawCfg(t, CfgLimits{NoDict: true})
	cfg.Dict = rc.Dict
	if cfg.MLevel > 4 {
		cfg.MLevel = 4
	}
	if cfg.EffWBits() > rc.EffWBits() {
		cfg.WBits = flate.WindowBits(rc.EffWBits())
	}
	switch rc.Format {
	case flate.RawFormat, flate.ZlibFormat, flate.GZIPFormat:
		cfg.Format = rc.Format
	default:
		if cfg.Format == flate.RawFormat {
			cfg.Format = flate.GZIPFormat
		}
	}
	d := &Drv{T: t, Name: "mk", Strict: true}
	d.Do(Op{Kind: OpReset, Cfg: cfg, Opts: cfg.Opts()})
	for _, op := range append(randomOps(t, t.Range(1, 6), 12000), Op{Kind: OpClose}) {
		if op.Kind == OpHeader {
			_ = d.FW.SetHeader(op.Header)
			continue
		}
		d.Do(op)
	}
	return d.Use().Sink.Buf
}

// damage makes an input what real inputs sometimes are.
func damage(t *T, data []byte) []byte {
	switch t.Weighted(5, 1, 1, 1) {
	case 1:
		if len(data) > 0 {
			return append([]byte(nil), data[:t.Choose(len(data))]...)
		}
	case 2:
		if len(data) > 0 {
			return mutate(t, data, nil)
		}
	case 3:
		return t.Data(400)
	}
	return data
}

func c11Reader(t *T) {
	rc := RCfg{MLevel: drawMLevel(t), WBits: drawWBits(t), Dict: drawDict(t)}
	rc.Format = []flate.Format{flate.DefaultFormat, flate.GZIPFormat, flate.ZlibFormat, flate.RawFormat}[t.Choose(4)]
	all := rc.Opts()
	ra := &recorder{t: t}
	drawSrc := func(name string, data []byte, faults bool) *dst.Source {
		sp := t.DrawSource()
		if faults && t.Chance(1, 4) {
			sp.ErrAt = t.Range(0, len(data))
			sp.Err = drawSrcErr(t)
			sp.ErrWithData = t.Chance(1, 2)
		}
		return t.NewSource(name, data, sp)
	}
	src := drawSrc("h0", damage(t, inputFor(t, rc)), true)
	fr := flate.NewReader(src, append(append([]flate.Option{}, all...), flate.WithTracers(ra))...)
	uses := t.Range(1, 4)
	kinds := ""
	var olds []*dst.Source
	var stale []staleTracer
	for u := 0; u < uses; u++ {
		it := NewReads(DrawReads(t))
		k := t.Size(40)
		ended := false
		for j := 0; j < k; j++ {
			if _, err := fr.Read(it.Next()); err != nil {
				ended = true
				if j > 2 && t.Chance(1, 2) {
					break
				}
			}
		}
		if t.Chance(1, 2) {
			vsync.Sleep(time.Duration(1+t.Choose(3000)) * time.Millisecond)
		}
		closed := t.Chance(1, 3)
		if closed {
			t.Check(fr.Close() == nil, "close-error", "Close failed")
		}
		kinds += fmt.Sprintf("%v/%v/%d ", ended, closed, min(k, 3))
		var opts []flate.Option
		if t.Chance(1, 2) {
			rc.MLevel = drawMLevel(t)
			opts = append(opts, flate.WithMemoryLevel(rc.MLevel))
		}
		if t.Chance(1, 2) {
			rc.WBits = drawWBits(t)
			opts = append(opts, flate.WithWindowBits(rc.WBits))
		}
		if t.Chance(1, 2) {
			rc.Dict = drawDict(t)
			opts = append(opts, flate.WithDictionary(rc.Dict))
		}
		if t.Chance(1, 2) {
			rc.Format = []flate.Format{flate.DefaultFormat, flate.GZIPFormat, flate.ZlibFormat, flate.RawFormat}[t.Choose(4)]
			opts = append(opts, flate.WithFormat(rc.Format))
		}
		var replaced *recorder
		if t.Chance(1, 5) {
			replaced, ra = ra, &recorder{t: t}
			opts = append(opts, flate.WithTracers(ra))
		}
		all = append(all, opts...)
		olds = append(olds, src)
		src = drawSrc(fmt.Sprintf("h%d", u+1), damage(t, inputFor(t, rc)), true)
		fr.Reset(src, opts...)
		if replaced != nil {
			stale = append(stale, staleTracer{replaced, len(replaced.ev)})
		}
		for _, o := range olds {
			o.Closed = true
		}
	}
	mark := len(ra.ev)
	rb := &recorder{t: t}
	sb := t.NewSource("fresh", src.Data, src.Plan)
	fb := flate.NewReader(sb, append(append([]flate.Option{}, all...), flate.WithTracers(rb))...)
	gets := func(r *flate.Reader) string {
		return fmt.Sprint(r.Format(), r.MemoryLevel(), r.WindowBits(), r.Dict())
	}
	t.Check(gets(fr) == gets(fb), "options-differ", "after Reset the options are %s, a new decompressor has %s", clip(gets(fr), 200), clip(gets(fb), 200))
	rp := DrawReads(t)
	oa, ea := ReadAll(t, fr, rp, 64<<20)
	ob, eb := ReadAll(t, fb, rp, 64<<20)
	t.Check(string(oa) == string(ob), "output-differs", "%v after [%s]: output after Reset differs from that of a new decompressor: %s", rc, kinds, diff(ob, oa))
	t.Check(errKey(ea) == errKey(eb), "result-differs", "%v after [%s]: ended with %s, a new decompressor with %s", rc, kinds, errStr(ea), errStr(eb))
	for i := 0; i < 2; i++ {
		var b [16]byte
		na, ea2 := fr.Read(b[:])
		t.Check(na == 0 && errKey(ea2) == errKey(eb), "result-differs", "%v after [%s]: a further Read returned %d, %s", rc, kinds, na, errStr(ea2))
	}
	if d := sameEvents(ra.ev[mark:], rb.ev); d != "" {
		t.Fail("events-differ", "%v after [%s]: %s", rc, kinds, d)
	}
	_ = fr.Close()
	_ = fb.Close()
	closeCheck(t, "reset")
	for i, st := range stale {
		t.Check(len(st.r.ev) == st.n, "old-tracer-used", "tracer %d received %d events after it was replaced", i, len(st.r.ev)-st.n)
	}
	for i, o := range olds {
		t.Check(o.AfterClose == 0, "source-read-after-reset", "source %d was read %d times after Reset had returned", i, o.AfterClose)
	}
	t.Nontrivial()
	t.State("reader", rc.Format, int(rc.MLevel), rc.EffWBits(), kinds, errKey(ea) == "EOF")
}
