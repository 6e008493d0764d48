package props

import (
	"bytes"
	stdflate "compress/flate"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"fmt"
	"io"
	"sort"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vsync"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C22", Title: "What has arrived is delivered",
		Scenarios: []dst.Named{{"flush-points", 6, c22Writer}, {"foreign", 3, c22Foreign}, {"conversation", 4, c22Conversation}},
		Long:      []dst.Named{{"long-conversation", 2, longConversation}, {"long-conversation-2", 1, longConversation}},
		Quick:     90000, Thorough: 2400000,
		Rule: "a run counts when a source stopped delivering at least once right after a flush or an end of stream, with the content before it checked to be delivered while it was silent, or when two tasks exchanged at least two messages, each sent only after the previous one had been received; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: append(append([]string{}, assume...), "a source that has nothing to deliver blocks in Read, as network connections do"),
	})
	dst.Register(&dst.Check{
		ID: "C23", Title: "Buffering is bounded on both sides",
		Scenarios: []dst.Named{{"reader", 3, c23Reader}, {"writer", 2, c23Writer}},
		Long:      []dst.Named{{"long-reader", 1, func(t *T) { longReader(t, true, flate.ZlibFormat) }}, {"long-writer", 1, func(t *T) { longWriter(t, false, flate.ZlibFormat) }}},
		Quick:     40000, Thorough: 1600000,
		Rule: "a run counts when, with the consumer paused and everything else at rest, the source's position was compared with the bound at least once before the end of the input, or when a compressor's output lag was compared with its bound after at least one write larger than nothing; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

// stallPoint is a position in compressed input at which the source falls
// silent, and the content that has to be delivered by then.
type stallPoint struct{ pos, want int }

// pickPoints orders, merges and thins out stall points.
func pickPoints(t *T, all []stallPoint, size int) []stallPoint {
	sort.SliceStable(all, func(i, j int) bool { return all[i].pos < all[j].pos })
	var out []stallPoint
	rng := dst.NewRNG(t.Seed())
	keep := t.Range(1, 4) // of 4
	max := 40
	for _, p := range all {
		if p.pos <= 0 || p.pos > size {
			continue
		}
		if len(out) > 0 && out[len(out)-1].pos == p.pos {
			if p.want > out[len(out)-1].want {
				out[len(out)-1].want = p.want
			}
			continue
		}
		if rng.N(4) < keep && len(out) < max {
			out = append(out, p)
		}
	}
	return out
}

// promptly decompresses data from a source that falls silent at each point and
// checks that everything described before the point is delivered meanwhile.
func promptly(t *T, data, want []byte, points []stallPoint, rc RCfg) {
	sp := t.DrawSource()
	src := t.NewSource("stall", data, sp)
	for _, p := range points {
		src.Stalls = append(src.Stalls, p.pos)
	}
	fr := flate.NewReader(src, rc.Opts()...)
	plan := DrawReads(t)
	if len(want) > 20000 && plan.Mode == 1 {
		plan = ReadPlan{Mode: 3, K: 700, Seed: plan.Seed}
	}
	// several consumers would be served too, but their shares cannot be
	// ordered, so the second one only counts
	got := 0
	var out []byte
	var end error
	done := vsync.NewNotify("consumer")
	finished := false
	vsync.GoNamed("consumer", func() {
		it := NewReads(plan)
		for idle := 0; ; {
			p := it.Next()
			n, err := fr.Read(p)
			if n < 0 || n > len(p) {
				t.Fail("bad-count", "Read(%d) returned %d", len(p), n)
			}
			out = append(out, p[:n]...)
			got += n
			if err != nil {
				end = err
				break
			}
			if n > 0 || len(p) == 0 {
				idle = 0
			} else if idle++; idle > 1000 {
				t.Fail("no-progress", "Read returned 0, nil 1000 times in a row")
			}
			if got > len(want) {
				t.Fail("too-much-output", "%d bytes delivered of %d", got, len(want))
			}
		}
		finished = true
		done.Wake()
	})
	for i, p := range points {
		vsync.Quiesce()
		t.Check(got >= p.want, "not-delivered", "the source handed out the first %d of %d bytes and fell silent (point %d of %d): they describe %d bytes of content, of which the reader delivers only %d (finished %v, error %v)", p.pos, len(data), i+1, len(points), p.want, got, finished, end)
		t.Check(!finished, "early-end", "the reader reported %v after %d bytes although the source (silent at %d of %d) has not ended", end, got, p.pos, len(data))
		t.Check(bytes.Equal(out, want[:got]), "content-differs", "before the stall at %d: %s", p.pos, diff(want[:got], out))
		t.State("stall", len(points), p.want == len(want), got == p.want)
		src.Release()
	}
	for !finished {
		done.Wait()
	}
	t.Check(end == io.EOF && bytes.Equal(out, want), "content-differs", "after all stalls: error %v, %s", end, diff(want, out))
	if err := fr.Close(); err != nil {
		t.Fail("unexpected-error", "Close: %v", err)
	}
	if len(points) > 0 {
		t.Nontrivial()
	}
}

// c22Writer: the compressor's flushes reach the other side.
func c22Writer(t *T) {
	kinds := []flate.FlushType{flate.SyncFlush, flate.FullFlush, flate.PartialFlush, flate.SyncFlush, flate.BlockFlush}
	o := ProgOpts{MaxData: 6000, MaxStreams: 3, MaxUses: 1, Headers: true, FlushRate: 1 + t.Choose(4), FlushKinds: kinds}
	if t.Chance(1, 8) {
		o.MaxData = 100000
	}
	ops := GenProgram(t, o)
	var points []stallPoint
	d := &Drv{T: t, Name: "fw", Strict: true}
	total := 0
	d.After = func(d *Drv, i int, op Op, err error) {
		switch op.Kind {
		case OpWrite:
			total += len(op.Data)
		case OpFlush:
			if op.Flush != flate.BlockFlush {
				points = append(points, stallPoint{len(d.Use().Sink.Buf), total})
			}
		case OpClose:
			points = append(points, stallPoint{len(d.Use().Sink.Buf), total})
		}
	}
	d.NewSinkPlan = func(int) dst.SinkPlan { return drawBenignSink(t) }
	d.RunAll(ops)
	u := d.Use()
	rc := ReaderFor(t, u.Cfg)
	pts := pickPoints(t, points, len(u.Sink.Buf))
	t.Describe("%v, %d flush points, %d bytes", u.Cfg, len(pts), total)
	promptly(t, u.Sink.Buf, u.Want(), pts, rc)
}

// refPoints are the ends of stored blocks and of streams.
func refPoints(res *ref.Result) []stallPoint {
	var out []stallPoint
	before := 0
	for _, st := range res.Streams {
		for _, b := range st.Blocks {
			if b.Type == 0 {
				out = append(out, stallPoint{int(b.EndBit / 8), before + b.Out1})
			}
		}
		before += len(st.Out)
		if st.End > 0 {
			out = append(out, stallPoint{st.End, before})
		}
	}
	return out
}

// c22Foreign: streams of other producers: generated from the RFCs, stalled
// after stored blocks and after streams; and Go's own compressors with Flush.
func c22Foreign(t *T) {
	if t.Chance(1, 2) {
		in := genInput(t, InputOpts{MaxOut: 20000, MaxStreams: 3})
		ro := in.RC.RefOpts()
		ro.Strict = true
		ro.NoTokens = true
		res := ref.Parse(in.Data, ro)
		if res.Err != nil {
			t.Fail("harness", "generated input is not valid: %v", res.Err)
		}
		promptly(t, in.Data, res.Out, pickPoints(t, refPoints(res), len(in.Data)), in.RC)
		return
	}
	level := t.Range(-2, 9)
	var buf bytes.Buffer
	var want []byte
	var points []stallPoint
	rc := RCfg{MLevel: drawMLevel(t)}
	f := t.Choose(3)
	auto := t.Chance(1, 3) && f != 2
	streams := t.Range(1, 3)
	rng := dst.NewRNG(t.Seed())
	for s := 0; s < streams; s++ {
		var w interface {
			io.WriteCloser
			Flush() error
		}
		switch f {
		case 0:
			w, _ = stdgzip.NewWriterLevel(&buf, level)
			rc.Format = flate.GZIPFormat
		case 1:
			w, _ = stdzlib.NewWriterLevel(&buf, level)
			rc.Format = flate.ZlibFormat
		case 2:
			w, _ = stdflate.NewWriter(&buf, level)
			rc.Format = flate.RawFormat
		}
		for n := rng.N(6); n > 0; n-- {
			p := dst.GenData(rng.N(dst.DataKinds), rng.N(1+rng.N(9000)), rng.Uint64())
			_, _ = w.Write(p)
			want = append(want, p...)
			if rng.N(2) == 0 {
				_ = w.Flush()
				points = append(points, stallPoint{buf.Len(), len(want)})
			}
		}
		_ = w.Close()
		points = append(points, stallPoint{buf.Len(), len(want)})
	}
	if auto {
		rc.Format = flate.DefaultFormat
	}
	t.Log("foreign input %d bytes %s", buf.Len(), rc.String())
	promptly(t, buf.Bytes(), want, pickPoints(t, points, buf.Len()), rc)
}

// c22Conversation: two parties talk over a pair of compressed connections,
// each message sent only after the previous one has arrived.
func c22Conversation(t *T) {
	rounds := t.Range(2, 12)
	kinds := []flate.FlushType{flate.SyncFlush, flate.PartialFlush, flate.FullFlush, flate.FinishFlush}
	type side struct {
		cfg  Cfg
		rc   RCfg
		pipe *dst.Pipe
		fw   *flate.Writer
		fr   *flate.Reader
	}
	mk := func(name string) *side {
		s := &side{}
		s.cfg = DrawCfg(t, CfgLimits{})
		s.rc = ReaderFor(t, s.cfg)
		s.pipe = t.NewPipe(1 + t.Size(70000))
		if t.Chance(1, 2) {
			s.pipe.MaxRead = 1 + t.Size(300)
		}
		s.fw = flate.NewWriter(s.pipe, s.cfg.Opts()...)
		s.fr = flate.NewReader(s.pipe, s.rc.Opts()...)
		return s
	}
	ab, ba := mk("ab"), mk("ba")
	msgs := make([][]byte, 2*rounds)
	fl := make([]flate.FlushType, 2*rounds)
	rng := dst.NewRNG(t.Seed())
	big := t.Chance(1, 6)
	for i := range msgs {
		n := 1 + rng.N(1+rng.N(900))
		if big {
			n = 1 + rng.N(20000)
		}
		msgs[i] = dst.GenData(rng.N(dst.DataKinds), n, rng.Uint64())
		fl[i] = kinds[rng.N(len(kinds))]
	}
	send := func(s *side, i int) {
		m := msgs[i]
		for len(m) > 0 {
			k := 1 + rng.N(len(m))
			if _, err := s.fw.Write(m[:k]); err != nil {
				t.Fail("unexpected-error", "message %d: Write: %v", i, err)
			}
			m = m[k:]
		}
		if err := s.fw.Flush(fl[i]); err != nil {
			t.Fail("unexpected-error", "message %d: Flush: %v", i, err)
		}
	}
	heard := 0
	waiting := [2]int{-1, -1}
	recv := func(who int, s *side, i int) {
		waiting[who] = i
		p := make([]byte, len(msgs[i]))
		n := 0
		for n < len(p) {
			k, err := s.fr.Read(p[n:])
			n += k
			if err != nil {
				t.Fail("unexpected-error", "message %d: %d of %d bytes, then %v", i, n, len(p), err)
			}
		}
		if !bytes.Equal(p, msgs[i]) {
			t.Fail("content-differs", "message %d: %s", i, diff(msgs[i], p))
		}
		waiting[who] = -1
		heard++
	}
	finish := func(s *side) {
		if err := s.fw.Close(); err != nil {
			t.Fail("unexpected-error", "Close: %v", err)
		}
		s.pipe.CloseWrite()
	}
	drain := func(s *side) {
		var b [64]byte
		for k := 0; ; k++ {
			n, err := s.fr.Read(b[:])
			if n > 0 {
				t.Fail("too-much-output", "%d bytes after the last message", n)
			}
			if err == io.EOF {
				return
			}
			if err != nil {
				t.Fail("unexpected-error", "after the last message: %v", err)
			}
			if k > 1000 {
				t.Fail("no-progress", "Read returned 0, nil 1000 times in a row")
			}
		}
	}
	ended := 0
	vsync.GoNamed("client", func() {
		for r := 0; r < rounds; r++ {
			send(ab, 2*r)
			recv(0, ba, 2*r+1)
		}
		finish(ab)
		drain(ba)
		ended++
	})
	vsync.GoNamed("server", func() {
		for r := 0; r < rounds; r++ {
			recv(1, ab, 2*r)
			send(ba, 2*r+1)
		}
		drain(ab)
		finish(ba)
		ended++
	})
	vsync.Quiesce()
	t.Check(ended == 2, "not-delivered", "the conversation came to a halt after %d of %d messages (client waits for %d, server for %d; message was flushed with %v)", heard, len(msgs), waiting[0], waiting[1], fl[maxInt(waiting[0], waiting[1], 0)])
	t.State("talk", rounds, big)
	t.Describe("conversation of %d messages, %v / %v", heard, ab.cfg, ba.cfg)
	t.Nontrivial()
}

func maxInt(v ...int) int {
	m := v[0]
	for _, x := range v {
		if x > m {
			m = x
		}
	}
	return m
}

// -------------------------------------------------------------------- C23

// c23Reader: a consumer that stops reading holds the source back.
func c23Reader(t *T) {
	var in Input
	switch t.Weighted(2, 2, 1) {
	case 0:
		in = writerInput(t, InputOpts{MaxOut: 60000, MaxStreams: 4})
	case 1:
		in = genInput(t, InputOpts{MaxOut: 60000, MaxStreams: 4})
	default:
		in = largeInput(t)
	}
	in.RC.MLevel = flate.MemoryLevel(1 + t.Weighted(8, 3, 1))
	ro := in.RC.RefOpts()
	ro.NoTokens, ro.Positions = true, true
	res := ref.Parse(in.Data, ro)
	if res.Err != nil {
		t.Fail("harness", "the reference rejects the input: %v", res.Err)
	}
	var ends []int64
	for _, st := range res.Streams {
		ends = append(ends, st.Ends...)
	}
	if len(ends) != len(res.Out) {
		t.Fail("harness", "%d positions for %d bytes", len(ends), len(res.Out))
	}
	src := t.NewSource("bp", in.Data, t.DrawSource())
	var fr *flate.Reader
	if t.Chance(1, 5) {
		// a decompressor that went through other streams, perhaps many
		old := genInput(t, InputOpts{MaxOut: 3000, MaxStreams: 4})
		data := old.Data
		if times := t.Choose(12); old.RC.Format != flate.RawFormat && times > 1 {
			data = bytes.Repeat(data, times)
		}
		fr = flate.NewReader(t.NewSource("prev", data, t.DrawSource()), old.RC.Opts()...)
		some := make([]byte, 700)
		for k := t.Choose(300); k >= 0; k-- {
			if n, err := fr.Read(some); n == 0 && err != nil {
				break
			}
		}
		if t.Choose(2) == 0 {
			_ = fr.Close()
		}
		fr.Reset(src, in.RC.Opts()...)
	} else if t.Chance(1, 3) {
		// a decompressor that had other buffers before
		prev := in.RC
		prev.MLevel = drawMLevel(t)
		fr = flate.NewReader(t.NewSource("prev", in.Data, t.DrawSource()), prev.Opts()...)
		var few [64]byte
		for k := t.Choose(3); k > 0; k-- {
			_, _ = fr.Read(few[:])
		}
		fr.Reset(src, flate.WithMemoryLevel(in.RC.MLevel))
	} else {
		fr = flate.NewReader(src, in.RC.Opts()...)
	}
	b := 1 << (uint(in.RC.MLevel) + 6)
	slackOut, slackIn := 4*b+1024, 2*b+1024
	plan := DrawReads(t)
	if plan.Mode == 1 || plan.Mode == 0 {
		plan = ReadPlan{Mode: 3, K: 1 + t.Size(3000), Seed: t.Seed()}
	}
	it := NewReads(plan)
	rng := dst.NewRNG(t.Seed())
	pause := t.Range(1, 12)
	got, checked := 0, 0
	var end error
	for idle := 0; end == nil; {
		p := it.Next()
		n, err := fr.Read(p)
		if n < 0 || n > len(p) || got+n > len(res.Out) || !bytes.Equal(p[:n], res.Out[got:got+n]) {
			t.Fail("content-differs", "after %d bytes: read of %d bytes differs", got, n)
		}
		got += n
		end = err
		if n > 0 || len(p) == 0 {
			idle = 0
		} else if idle++; idle > 1000 && err == nil {
			t.Fail("no-progress", "Read returned 0, nil 1000 times in a row")
		}
		if end == nil && checked < 60 && rng.N(pause) == 0 {
			vsync.Quiesce()
			if k := got + slackOut; k < len(ends) {
				limit := int((ends[k]+7)/8) + slackIn
				if limit < len(in.Data) {
					checked++
				}
				t.Check(src.Pos() <= limit, "source-overrun", "with %d bytes of content delivered and the consumer paused, the reader (memory level %d) has taken %d bytes from the source; content byte %d needs only %d", got, in.RC.MLevel, src.Pos(), k, limit-slackIn)
			}
		}
	}
	t.Check(end == io.EOF && got == len(res.Out), "content-differs", "ended with %v after %d of %d bytes", end, got, len(res.Out))
	t.State("pauses", checked, in.RC.MLevel)
	if checked > 0 {
		t.Nontrivial()
	}
}

// c23Writer: incompressible content leaves the compressor again soon.
func c23Writer(t *T) {
	cfg := DrawCfg(t, CfgLimits{})
	cfg.MLevel = flate.MemoryLevel(1 + t.Weighted(8, 3, 1))
	sink := t.NewSink("lag", drawBenignSink(t))
	var fw *flate.Writer
	if t.Chance(1, 3) {
		prev := cfg
		prev.MLevel = drawMLevel(t)
		fw = flate.NewWriter(t.NewSink("prev", drawBenignSink(t)).W(), prev.Opts()...)
		_, _ = fw.Write(t.Data(2000))
		_ = fw.Close()
		fw.Reset(sink.W(), flate.WithMemoryLevel(cfg.MLevel))
	} else {
		fw = flate.NewWriter(sink.W(), cfg.Opts()...)
	}
	bound := 3*(1<<(uint(cfg.MLevel)+8)) + 1024
	data := dst.GenData(3, 4*bound+t.Size(60000), t.Seed())
	rng := dst.NewRNG(t.Seed())
	maxPiece := 1 + t.Size(5000)
	flushes := t.Chance(1, 2)
	lagMax := 0
	opt := ref.Options{Format: cfg.RefFormat(), Dict: cfg.Dict, NoTokens: true}
	next := 0
	for at := 0; at < len(data); {
		k := 1 + rng.N(maxPiece)
		if k > len(data)-at {
			k = len(data) - at
		}
		if _, err := fw.Write(data[at : at+k]); err != nil {
			t.Fail("unexpected-error", "Write: %v", err)
		}
		at += k
		if flushes && rng.N(20) == 0 {
			if err := fw.Flush([]flate.FlushType{flate.BlockFlush, flate.PartialFlush, flate.FinishFlush}[rng.N(3)]); err != nil {
				t.Fail("unexpected-error", "Flush: %v", err)
			}
		}
		if at >= next {
			next = at + bound/3
			res := ref.Parse(sink.Buf, opt)
			lag := at - len(res.Out)
			if lag > lagMax {
				lagMax = lag
			}
			t.Check(lag <= bound, "output-lag", "%d bytes of incompressible content written, but what reached the sink (%d bytes) holds only %d of them: %d are retained, more than memory level %d accounts for", at, len(sink.Buf), len(res.Out), lag, cfg.MLevel)
		}
	}
	if err := fw.Close(); err != nil {
		t.Fail("unexpected-error", "Close: %v", err)
	}
	t.State("lag", fmt.Sprint(lagMax*8/bound), cfg.MLevel)
	t.Describe("lag %d of at most %d, %v", lagMax, bound, cfg)
	t.Nontrivial()
}
