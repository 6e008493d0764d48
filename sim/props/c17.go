package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"time"

	"github.com/chronos-tachyon/flate"
	"github.com/rs/zerolog"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vsync"
)

func init() {
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	dst.Register(&dst.Check{
		ID: "C17", Title: "Trace events tell the truth, in order, for every stream",
		Scenarios: []dst.Named{{"program", 10, c17Program}, {"large", 1, c17Large}, {"foreign", 6, c17Foreign}, {"reader-fault", 6, c17ReaderFault}, {"writer-fault", 6, c17WriterFault}, {"stopped", 4, c17Stopped}, {"shared-writer", 4, c17Shared}},
		Long:      []dst.Named{{"long-writer", 1, func(t *T) { longWriter(t, true, flate.GZIPFormat) }}, {"long-reader", 1, func(t *T) { longReader(t, false, flate.ZlibFormat) }}, {"long-members", 1, longMembers}, {"long-flushes", 1, longFlushes}},
		Quick:     80000, Thorough: 3200000,
		Rule: "a run counts when every event of at least one stream was compared field by field with the reference parser's view of the bytes; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

// xev is an event the bytes of a stream call for.
type xev struct {
	typ flate.EventType
	si  int
	st  *ref.Stream
	b   *ref.Block
}

// expected lists the events the parsed bytes call for, in order.
func expected(res *ref.Result) []xev {
	var out []xev
	for i, st := range res.Streams {
		add := func(typ flate.EventType, b *ref.Block) { out = append(out, xev{typ, i, st, b}) }
		add(flate.StreamBeginEvent, nil)
		if st.HeaderDone {
			add(flate.StreamHeaderEvent, nil)
		}
		for _, b := range st.Blocks {
			add(flate.BlockBeginEvent, b)
			if b.Type == 1 || b.Type == 2 && b.LL != nil {
				add(flate.BlockTreesEvent, b)
			}
			if b.Done {
				add(flate.BlockEndEvent, b)
			}
		}
		if st.BlocksDone {
			add(flate.StreamEndEvent, nil)
		}
		if st.Complete {
			add(flate.StreamCloseEvent, nil)
		}
	}
	return out
}

var wireType = map[int]flate.BlockType{0: flate.StoredBlock, 1: flate.StaticBlock, 2: flate.DynamicBlock, 3: flate.InvalidBlock}

var wireFormat = map[ref.Format]flate.Format{ref.Raw: flate.RawFormat, ref.Zlib: flate.ZlibFormat, ref.Gzip: flate.GZIPFormat}

func sizesDiffer(what string, want []byte, got flate.SizeList) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		var w, g byte
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("%s size of symbol %d is %d, the block uses %d", what, i, g, w)
		}
	}
	return ""
}

// totals are the lifetime counters before a sequence of streams.
type totals struct {
	in, out uint64
	streams uint
}

// eventMismatch compares one event with what the bytes call for.
func eventMismatch(e *flate.Event, x xev, base totals, writer bool) string {
	if e.Type != x.typ {
		return fmt.Sprintf("is %v, expected %v", e.Type, x.typ)
	}
	want := wireFormat[x.st.Format]
	if e.Format != want && !(!writer && e.Type == flate.StreamBeginEvent && e.Format == flate.DefaultFormat) {
		return fmt.Sprintf("has format %v, the stream is %v", e.Format, want)
	}
	if e.NumStreams != base.streams+uint(x.si)+1 {
		return fmt.Sprintf("has stream number %d, expected %d", e.NumStreams, base.streams+uint(x.si)+1)
	}
	isBlock := x.b != nil
	if (e.Block != nil) != isBlock || (e.Header != nil) != (x.typ == flate.StreamHeaderEvent) || (e.Trees != nil) != (x.typ == flate.BlockTreesEvent) || (e.Footer != nil) != (x.typ == flate.StreamEndEvent) {
		return "has the wrong set of details"
	}
	st, b := x.st, x.b
	if isBlock && (e.Block.Type != wireType[b.Type] || e.Block.IsFinal != b.Final) {
		return fmt.Sprintf("claims a %v block (final %v), on the wire is a %v block (final %v)", e.Block.Type, e.Block.IsFinal, wireType[b.Type], b.Final)
	}
	switch x.typ {
	case flate.StreamHeaderEvent:
		if st.Format == ref.Gzip {
			h := wireHeader(st)
			if writer {
				h.WindowBits, h.CompressLevel = e.Header.WindowBits, e.Header.CompressLevel
			}
			if d := reportedMismatch(&h, e.Header, writer); d != "" {
				return "with header " + d
			}
		}
		if st.Format == ref.Zlib && int(e.Header.WindowBits) != st.WindowBits {
			return fmt.Sprintf("claims window bits %d, announced are %d", e.Header.WindowBits, st.WindowBits)
		}
	case flate.BlockTreesEvent:
		tr := e.Trees
		if b.Type == 2 && (int(tr.CodeCount) != b.NX || int(tr.LiteralLengthCount) != b.NLL || int(tr.DistanceCount) != b.ND) {
			return fmt.Sprintf("claims counts %d/%d/%d, on the wire are %d/%d/%d", tr.CodeCount, tr.LiteralLengthCount, tr.DistanceCount, b.NX, b.NLL, b.ND)
		}
		if d := sizesDiffer("literal/length", b.LL, tr.LiteralLengthSizes); d != "" {
			return d
		}
		if d := sizesDiffer("distance", b.D, tr.DistanceSizes); d != "" {
			return d
		}
		if d := sizesDiffer("code length", b.X, tr.CodeSizes); b.Type == 2 && d != "" {
			return d
		}
	case flate.StreamEndEvent:
		if uint32(e.Footer.Adler32) != st.Adler || uint32(e.Footer.CRC32) != st.CRC {
			return fmt.Sprintf("claims checksums %08x %08x, the content has %08x %08x", uint32(e.Footer.Adler32), uint32(e.Footer.CRC32), st.Adler, st.CRC)
		}
	}
	// counters: z is the compressed side, d the data side
	z, d := e.InputBytesStream, e.OutputBytesStream
	zt, dt := e.InputBytesTotal, e.OutputBytesTotal
	if writer {
		z, d, zt, dt = d, z, dt, zt
	}
	bits := func(n int64) uint64 { return uint64(n+7)/8 - uint64(st.Start) }
	zlo, zhi := uint64(0), uint64(0)
	dlo, dhi := uint64(0), uint64(0)
	switch x.typ {
	case flate.StreamHeaderEvent:
		zlo = uint64(st.DeflateStart - st.Start)
		zhi = zlo
	case flate.StreamEndEvent:
		zlo, dlo = uint64(st.DeflateEnd-st.Start), uint64(len(st.Out))
		zhi, dhi = zlo, dlo
	case flate.StreamCloseEvent:
		zlo, dlo = uint64(st.End-st.Start), uint64(len(st.Out))
		zhi, dhi = zlo, dlo
	case flate.BlockBeginEvent:
		zlo, zhi = bits(b.StartBit), bits(b.StartBit+3)
		dlo, dhi = uint64(b.Out0), uint64(b.Out0)
	case flate.BlockTreesEvent:
		zlo, zhi = bits(b.StartBit+3), bits(b.EndBit)
		dlo, dhi = uint64(b.Out0), uint64(b.Out0)
	case flate.BlockEndEvent:
		zlo, zhi = bits(b.EndBit), bits(b.EndBit)
		dlo, dhi = uint64(b.Out1), uint64(b.Out1)
	}
	if isBlock {
		if writer {
			// up to a machine word of bits is still on its way out, and all
			// data of the block (and perhaps more) has been taken in
			if zlo > 8 {
				zlo -= 8
			} else {
				zlo = 0
			}
			dhi = uint64(len(st.Out))
			if x.typ != flate.BlockEndEvent {
				dlo = uint64(b.Out0)
			}
		} else {
			// some bits may have been fetched in advance, and some data may
			// not have been handed over yet
			zhi += 8
			dlo = 0
		}
	}
	if z < zlo || z > zhi {
		return fmt.Sprintf("(%v) counts %d compressed bytes of the stream, expected %d..%d", x.typ, z, zlo, zhi)
	}
	if d < dlo || d > dhi {
		return fmt.Sprintf("(%v) counts %d uncompressed bytes of the stream, expected %d..%d", x.typ, d, dlo, dhi)
	}
	bz, bd := base.in, base.out
	if writer {
		bz, bd = base.out, base.in
	}
	bz += uint64(st.Start)
	if zt != bz+z {
		return fmt.Sprintf("(%v) counts %d compressed bytes in total, expected %d", x.typ, zt, bz+z)
	}
	return okTotal(x, dt, d, bd)
}

func okTotal(x xev, dt, d, bd uint64) string {
	if dt < d+bd {
		return fmt.Sprintf("(%v) counts %d uncompressed bytes in total, less than the %d of the stream and the %d before", x.typ, dt, d, bd)
	}
	return ""
}

// checkEvents compares events with what the bytes call for; with exact, all of
// them must have been reported.
func checkEvents(t *T, what string, ev []rec, want []xev, base totals, writer, exact bool) {
	for i := range ev {
		if i >= len(want) {
			t.Fail("event-extra", "%s: event %d (%s) is not called for; %d events are", what, i, clip(brief(&ev[i].Event), 200), len(want))
		}
		if d := eventMismatch(&ev[i].Event, want[i], base, writer); d != "" {
			t.Fail("event-wrong", "%s: event %d of stream %d %s", what, i, want[i].si, d)
		}
		if was, now := brief(&ev[i].Event), brief(&ev[i].live); was != now {
			t.Fail("event-changed", "%s: event %d was handed out as %s and reads %s now", what, i, clip(was, 300), clip(now, 300))
		}
		if i > 0 {
			a, b := &ev[i-1].Event, &ev[i].Event
			t.Check(b.InputBytesTotal >= a.InputBytesTotal && b.OutputBytesTotal >= a.OutputBytesTotal, "event-wrong", "%s: totals went down at event %d", what, i)
		}
		// the totals of a stream grow with the counters of the stream
		if i > 0 && want[i].si == want[i-1].si {
			a, b := &ev[i-1].Event, &ev[i].Event
			t.Check(b.InputBytesTotal-a.InputBytesTotal == b.InputBytesStream-a.InputBytesStream && b.OutputBytesTotal-a.OutputBytesTotal == b.OutputBytesStream-a.OutputBytesStream, "event-wrong", "%s: totals and counters of the stream disagree at event %d", what, i)
		}
	}
	if exact {
		t.Check(len(ev) == len(want), "event-missing", "%s: %d events, %d are called for; missing next is %v", what, len(ev), len(want), next(want, len(ev)))
	}
	t.Cov.Checks += uint64(len(ev))
}

func next(want []xev, i int) string {
	if i < len(want) {
		return fmt.Sprintf("%v of stream %d", want[i].typ, want[i].si)
	}
	return "nothing"
}

// jsonLines checks the output of the logging tracer.
func jsonLines(t *T, what string, b []byte, n int) {
	lines := bytes.Split(bytes.TrimRight(b, "\n"), []byte("\n"))
	if len(b) == 0 {
		lines = nil
	}
	t.Check(len(lines) == n, "log-count", "%s: the logging tracer wrote %d lines for %d events", what, len(lines), n)
	for _, l := range lines {
		t.Check(json.Valid(l), "log-invalid", "%s: the logging tracer wrote invalid JSON: %s", what, clip(string(l), 200))
	}
}

// readEvents decodes an input with several tracers and checks each.
func readEvents(t *T, what string, data []byte, rc RCfg, sp dst.SourcePlan, want []xev, exact bool) *recorder {
	r1, r2 := &recorder{t: t}, &recorder{t: t}
	trs := []flate.Tracer{r1}
	var log bytes.Buffer
	logged := t.Chance(1, 8)
	if logged {
		trs = append(trs, flate.Log(zerolog.New(&log)))
	}
	two := t.Chance(1, 3)
	if two {
		trs = append(trs, r2)
	}
	src := t.NewSource("src", data, sp)
	fr := flate.NewReader(src, append(rc.Opts(), flate.WithTracers(trs...))...)
	need, base := 0, 0
	_, err := readAllThen(t, fr, DrawReads(t), 64<<20, func(total int, err error) {
		// what describes a byte was reported before the byte was delivered
		for i := need; i < len(want); i++ {
			x := want[i]
			if x.b != nil && x.typ != flate.BlockEndEvent && base+x.b.Out0 < total {
				need = i + 1
			}
			if x.b != nil && base+x.b.Out0 >= total {
				break
			}
			if x.typ == flate.StreamEndEvent {
				if base+len(x.st.Out) >= total {
					break
				}
				// looked at again only from the next stream on
				base += len(x.st.Out)
				need = i + 1
			}
		}
		if len(r1.ev) < need {
			t.Fail("event-late", "%s: %d bytes were delivered when only %d events had been reported; the %v event of stream %d describes them", what, total, len(r1.ev), want[need-1].typ, want[need-1].si)
		}
		if err == io.EOF && exact && len(r1.ev) < len(want) {
			t.Fail("event-late", "%s: the end of file was reported when only %d of %d events had been", what, len(r1.ev), len(want))
		}
		t.Cov.Checks++
	})
	t.Log("events %d %v", len(r1.ev), err)
	_ = fr.Close()
	checkEvents(t, what, r1.ev, want, totals{}, false, exact)
	if two {
		if d := sameEvents(r2.ev, r1.ev); d != "" {
			t.Fail("tracers-differ", "%s: second tracer: %s", what, d)
		}
	}
	if logged {
		jsonLines(t, what, log.Bytes(), len(r1.ev))
	}
	return r1
}

// outline is what both directions must agree on.
func outline(ev []rec) []string {
	var out []string
	for i := range ev {
		e := ev[i].Event
		s := fmt.Sprint(e.Type)
		if e.Block != nil {
			s += fmt.Sprint(" ", e.Block.Type, e.Block.IsFinal)
		}
		if e.Trees != nil {
			s += fmt.Sprint(" ", e.Trees.CodeCount, e.Trees.LiteralLengthCount, e.Trees.DistanceCount, e.Trees.CodeSizes, e.Trees.LiteralLengthSizes, e.Trees.DistanceSizes)
		}
		if e.Footer != nil {
			s += fmt.Sprint(" ", e.Footer.Adler32, e.Footer.CRC32)
		}
		if e.Type == flate.StreamEndEvent || e.Type == flate.StreamCloseEvent {
			s += fmt.Sprint(" ", e.InputBytesStream+e.OutputBytesStream)
		}
		out = append(out, s)
	}
	return out
}

func c17Program(t *T) {
	c17Run(t, GenProgram(t, ProgOpts{MaxData: 12000, MaxStreams: 3, MaxUses: 3, Headers: true, FlushRate: 3}))
}

// c17Large: blocks longer than every internal buffer, from both sources.
func c17Large(t *T) {
	if t.Chance(1, 2) {
		c17Run(t, largeOps(t))
		return
	}
	c17Input(t, largeInput(t))
}

func c17Run(t *T, ops []Op) {
	cur := &recorder{t: t}
	second := &recorder{t: t}
	var log bytes.Buffer
	logged := t.Chance(1, 8)
	trs := []flate.Tracer{cur, second}
	if logged {
		trs = append(trs, flate.Log(zerolog.New(&log)))
	}
	recs := []*recorder{cur}
	marks := []int{0}
	// tracers may be exchanged at a reset
	for i := range ops {
		if i > 0 && ops[i].Kind == OpReset && !logged && t.Chance(1, 3) {
			n := &recorder{t: t}
			ops[i].Opts = append(ops[i].Opts, flate.WithTracers(n))
			recs = append(recs, n)
			marks = append(marks, i)
		}
	}
	d := &Drv{T: t, Name: "fw", Strict: true, ExtraOpts: []flate.Option{flate.WithTracers(trs...)}}
	type seg struct{ r, from, to int }
	var segs []seg
	ri := 0
	d.After = func(d *Drv, i int, op Op, err error) {
		if op.Kind == OpReset {
			if len(segs) > 0 {
				segs[len(segs)-1].to = len(recs[ri].ev)
			}
			for ri+1 < len(recs) && marks[ri+1] <= i {
				ri++
			}
			segs = append(segs, seg{r: ri, from: len(recs[ri].ev)})
		}
	}
	d.RunAll(ops)
	segs[len(segs)-1].to = len(recs[ri].ev)
	var base totals
	for k, u := range d.Uses {
		res, _ := parseUse(t, u)
		s := segs[k]
		ev := recs[s.r].ev[s.from:s.to]
		want := expected(res)
		checkEvents(t, fmt.Sprintf("%v use %d, compressing", u.Cfg, k), ev, want, base, true, true)
		for _, st := range res.Streams {
			base.in += uint64(len(st.Out))
			base.streams++
		}
		base.out += uint64(len(u.Sink.Buf))
		rc := ReaderFor(t, u.Cfg)
		rr := readEvents(t, fmt.Sprintf("%v, decompressing", rc), u.Sink.Buf, rc, t.DrawSource(), want, true)
		a, b := outline(ev), outline(rr.ev)
		for i := range a {
			t.Check(i < len(b) && a[i] == b[i], "sides-differ", "%v: event %d when compressing is %s, when decompressing something else", u.Cfg, i, clip(a[i], 200))
		}
		for _, x := range want {
			if x.b != nil {
				t.State(x.b.Type, x.b.Final, x.b.NX, len(x.b.Tokens) > 1, u.Cfg.RefFormat(), int(u.Cfg.EffLevel()))
			}
		}
		if len(want) > 0 {
			t.Nontrivial()
		}
	}
	n := 0
	for _, s := range segs {
		n += s.to - s.from
	}
	all := 0
	for _, r := range recs {
		all += len(r.ev)
	}
	t.Check(n == all, "event-extra", "%d events were sent to tracers that had been replaced", all-n)
	if d := sameEvents(second.ev, recs[0].ev); d != "" {
		t.Fail("tracers-differ", "second tracer: %s", d)
	}
	if logged {
		jsonLines(t, "compressing", log.Bytes(), len(recs[0].ev))
	}
}

func c17Foreign(t *T) { c17Input(t, genInput(t, InputOpts{MaxOut: 12000, MaxStreams: 4})) }

func c17Input(t *T, in Input) {
	ro := in.RC.RefOpts()
	ro.Strict = true
	in.Want = ref.Parse(in.Data, ro)
	valid(t, in)
	readEvents(t, fmt.Sprint(in.RC), in.Data, in.RC, t.DrawSource(), expected(in.Want), true)
	t.Nontrivial()
	rstate(t, in, "events")
}

func c17ReaderFault(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 12000, MaxStreams: 3})
	if in.Want.Err != nil || len(in.Data) == 0 {
		return
	}
	sp := t.DrawSource()
	data := in.Data
	exact := true
	what := ""
	cut := t.Choose(len(data))
	switch t.Choose(3) {
	case 0:
		data = append([]byte(nil), data[:cut]...)
		what = fmt.Sprintf("%v, cut at %d of %d", in.RC, cut, len(in.Data))
		t.Cov.Faults["truncation"]++
	case 1:
		sp.ErrAt, sp.Err, sp.ErrWithData = cut, drawSrcErr(t), t.Chance(1, 2)
		what = fmt.Sprintf("%v, source error at %d of %d", in.RC, cut, len(in.Data))
	case 2:
		data = mutate(t, data, nil)
		exact = false
		what = fmt.Sprintf("%v, corrupted", in.RC)
	}
	end := len(data)
	if sp.ErrAt >= 0 && sp.ErrAt < end {
		end = sp.ErrAt
	}
	res := ref.Parse(data[:end], in.RC.RefOpts())
	if res.Err != nil && res.Err.Kind == ref.Corrupt {
		exact = false
	}
	readEvents(t, what, data, in.RC, sp, expected(res), exact)
	t.Nontrivial()
	rstate(t, in, clip(what, 20))
}

func c17WriterFault(t *T) {
	ops := GenProgram(t, ProgOpts{MaxData: 12000, MaxStreams: 4, MaxUses: 1, Headers: true, FlushRate: 3})
	run := func(name string, plan dst.SinkPlan) (*recorder, *Drv) {
		r := &recorder{t: t}
		d := &Drv{T: t, Name: name, NewSinkPlan: func(int) dst.SinkPlan { return plan }, ExtraOpts: []flate.Option{flate.WithTracers(r)}}
		d.OnSink = func(s *dst.Sink) { r.pos = func() int { return len(s.Buf) } }
		for _, op := range ops {
			if op.Kind == OpReset {
				op.Opts = op.Cfg.Opts()
			}
			d.Do(op)
		}
		return r, d
	}
	good, gd := run("good", dst.NoSinkFault())
	res, _ := parseUse(t, gd.Use())
	want := expected(res)
	checkEvents(t, fmt.Sprint(gd.Use().Cfg), good.ev, want, totals{}, true, true)
	plan := faultPlan(t, 1, 1)
	if plan.FailAt >= 0 && t.Chance(2, 3) {
		plan.FailAt = t.Range(0, len(gd.Use().Sink.Buf))
	}
	bad, bd := run("bad", plan)
	checkEvents(t, fmt.Sprintf("%v with a failing sink", bd.Use().Cfg), bad.ev, want, totals{}, true, false)
	// a closed stream must have reached the sink
	for i := range bad.ev {
		if bad.ev[i].Type == flate.StreamCloseEvent {
			t.Check(bad.ev[i].at >= want[i].st.End, "event-premature", "stream %d was reported closed when the sink had accepted %d of its %d bytes", want[i].si, bad.ev[i].at, want[i].st.End)
		}
	}
	t.Nontrivial()
	t.State("wf", gd.Use().Cfg.RefFormat(), gd.Use().Cfg.EffLevel(), len(bad.ev) < len(good.ev))
}

// c17Stopped: readers, getters and a close at any moment; what was reported is
// a prefix, and nothing is reported afterwards.
func c17Stopped(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 12000, MaxStreams: 3})
	if in.Want.Err != nil {
		return
	}
	want := expected(in.Want)
	r := &recorder{t: t}
	src := t.NewSource("src", in.Data, t.DrawSource())
	fr := flate.NewReader(src, append(in.RC.Opts(), flate.WithTracers(r))...)
	n := t.Range(1, 3)
	var fns []func()
	for i := 0; i < n; i++ {
		it := NewReads(DrawReads(t))
		k := 1 + t.Size(60)
		fns = append(fns, func() {
			for j := 0; j < k; j++ {
				if _, err := fr.Read(it.Next()); err != nil {
					return
				}
			}
		})
	}
	wait := time.Duration(t.Size(4000)) * time.Millisecond
	stop := t.Choose(3)
	fns = append(fns, func() {
		vsync.Sleep(wait)
		switch stop {
		case 0:
			_ = fr.Close()
		case 1:
			fr.Format()
		}
	})
	together(fns...)
	mark := 0
	switch {
	case t.Chance(1, 3):
		fr.Reset(t.NewSource("empty", nil, dst.SourcePlan{ErrAt: -1}))
		mark = len(r.ev)
	default:
		_ = fr.Close()
		mark = len(r.ev)
	}
	vsync.Sleep(time.Hour)
	t.Check(len(r.ev) == mark, "event-late", "%d events were reported after Close or Reset had returned", len(r.ev)-mark)
	checkEvents(t, fmt.Sprintf("%v, stopped", in.RC), r.ev, want, totals{}, false, false)
	t.Nontrivial()
	rstate(t, in, fmt.Sprint("stopped", stop))
}

// c17Shared: several tasks use one compressor; its events still describe the
// emitted bytes.
func c17Shared(t *T) {
	cfg := DrawCfg(t, CfgLimits{})
	if cfg.MLevel > 3 {
		cfg.MLevel = 3
	}
	r := &recorder{t: t}
	k := t.NewSink("sink", drawBenignSink(t))
	fw := flate.NewWriter(k.W(), append(cfg.Opts(), flate.WithTracers(r))...)
	n := t.Range(2, 4)
	var fns []func()
	for i := 0; i < n; i++ {
		ops := randomOps(t, t.Range(1, 4), 3000)
		fns = append(fns, func() {
			for _, op := range ops {
				_, _ = apply(fw, op)
			}
		})
	}
	together(fns...)
	t.Check(fw.Close() == nil, "unexpected-error", "Close failed without any fault")
	res := ref.Parse(k.Buf, (&Use{Cfg: cfg}).RefOpts())
	t.Check(res.Err == nil, "invalid-output", "%v: %v", cfg, res.Err)
	checkEvents(t, fmt.Sprintf("%v, shared by %d tasks", cfg, n), r.ev, expected(res), totals{}, true, true)
	t.Nontrivial()
	t.State("shared", n, cfg.RefFormat(), cfg.EffLevel(), len(res.Streams))
}
