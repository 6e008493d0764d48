package props

import (
	"fmt"
	"hash/adler32"
	"io"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vsync"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C01", Title: "Compression followed by decompression is lossless",
		Scenarios: []dst.Named{{"program", 9, c01Program}, {"pipe", 5, c01Pipe}, {"large", 1, c01Large}},
		Quick:     36000, Thorough: 960000,
		Rule: "a run counts when at least one byte was written and both decoders were compared with the model; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C02", Title: "Everything emitted conforms to RFC 1950/1951/1952",
		Scenarios: []dst.Named{{"program", 9, c02Program}, {"after-fault", 4, c02AfterFault}, {"large", 1, c02Large}},
		Long:      []dst.Named{{"long-gzip", 2, func(t *T) { longWriter(t, false, flate.GZIPFormat) }}, {"long-write-zlib", 1, func(t *T) { longWriter(t, true, flate.ZlibFormat) }}, {"long-flushes", 2, longFlushes}},
		Quick:     50000, Thorough: 1600000,
		Rule: "a run counts when the strict reference parser walked a non-empty output; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C18", Title: "Configuration is honoured on the wire, stream by stream",
		Scenarios: []dst.Named{{"program", 8, c18Program}, {"reader", 2, c18Reader}, {"large", 1, c18Large}},
		Quick:     48000, Thorough: 1280000,
		Rule: "a run counts when block types and tokens of a non-empty output were checked against the configuration in force; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

// together runs the functions as concurrent tasks and waits for them.
func together(fns ...func()) {
	var wg vsync.WaitGroup
	wg.Add(len(fns))
	for i, f := range fns {
		f := f
		vsync.GoNamed(fmt.Sprintf("task%d", i), func() {
			defer wg.Done()
			f()
		})
	}
	wg.Wait()
}

// parseUse decodes what one use emitted, strictly, and matches it with the
// model.
func parseUse(t *T, u *Use) (*ref.Result, []*MStream) {
	res := ref.Parse(u.Sink.Buf, u.RefOpts())
	t.Check(res.Err == nil, "invalid-output", "%v: output of %d bytes is not a valid sequence of %v streams: %v", u.Cfg, len(u.Sink.Buf), u.Cfg.RefFormat(), res.Err)
	ms := MatchStreams(t, u, res)
	return res, ms
}

func stateOf(t *T, u *Use) {
	t.State(u.Cfg.Format, u.Cfg.Strategy, int(u.Cfg.Level), int(u.Cfg.MLevel), int(u.Cfg.WBits), u.Cfg.Dict != nil, len(u.Streams))
}

func largeOps(t *T) []Op {
	cfg := Cfg{Format: drawFormat(t, CfgLimits{}), Strategy: strategies[t.Choose(4)], Level: drawLevel(t), MLevel: flate.MemoryLevel(t.Range(7, 9)), WBits: drawWBits(t)}
	ops := []Op{{Kind: OpReset, Cfg: cfg, Opts: cfg.Opts()}}
	kind := t.Choose(dst.DataKinds)
	if t.Chance(1, 2) {
		kind = 3
	}
	n := t.Range(60000, 300000)
	data := dst.GenData(kind, n, t.Seed())
	at := 0
	for at < n {
		k := n - at
		if t.Chance(1, 2) {
			k = t.Range(1, n-at)
		}
		ops = append(ops, Op{Kind: OpWrite, Data: data[at : at+k]})
		at += k
		if t.Chance(1, 4) {
			ops = append(ops, Op{Kind: OpFlush, Flush: allFlushes[t.Choose(4)]})
		}
		if len(ops) > 30 {
			ops = append(ops, Op{Kind: OpWrite, Data: data[at:]})
			break
		}
	}
	return append(ops, Op{Kind: OpClose})
}

// ---------------------------------------------------------------------- C01

func c01Check(t *T, d *Drv) {
	for i, u := range d.Uses {
		want := u.Want()
		ro := u.RefOpts()
		ro.Strict = false
		res := ref.Parse(u.Sink.Buf, ro)
		t.Check(res.Err == nil, "reference-rejects", "use %d %v: reference decoder: %v", i, u.Cfg, res.Err)
		t.Check(string(res.Out) == string(want), "content-differs", "use %d %v: reference decoder gives %s", i, u.Cfg, diff(want, res.Out))
		rc := ReaderFor(t, u.Cfg)
		dec := Decode(t, fmt.Sprintf("src%d", i), u.Sink.Buf, rc, t.DrawSource(), DrawReads(t))
		t.Check(string(dec.Out) == string(want), "content-differs", "use %d %v, reader %v: %s (error %v)", i, u.Cfg, rc, diff(want, dec.Out), dec.Err)
		t.Check(eofClean(dec.Err), "unclean-end", "use %d %v, reader %v: after all %d bytes the reader reports %s", i, u.Cfg, rc, len(want), errStr(dec.Err))
		if len(want) > 0 {
			t.Nontrivial()
		}
		stateOf(t, u)
	}
}

func c01Program(t *T) {
	ops := GenProgram(t, ProgOpts{MaxData: 40000, MaxStreams: 3, MaxUses: 3, Headers: true, FlushRate: 4})
	d := &Drv{T: t, Name: "w", Strict: true, NewSinkPlan: func(int) dst.SinkPlan { return drawBenignSink(t) }}
	d.RunAll(ops)
	c01Check(t, d)
}

func c01Large(t *T) {
	d := &Drv{T: t, Name: "w", Strict: true}
	d.RunAll(largeOps(t))
	c01Check(t, d)
}

func c01Pipe(t *T) {
	ops := GenProgram(t, ProgOpts{MaxData: 12000, MaxStreams: 3, MaxUses: 1, Headers: true, FlushRate: 4})
	pipe := t.NewPipe(1 + t.Size(6000))
	if t.Chance(1, 3) {
		pipe.MaxRead = 1 + t.Size(500)
	}
	rc := ReaderFor(t, ops[0].Cfg)
	plan := DrawReads(t)
	d := &Drv{T: t, Name: "w", Strict: true, NewSinkPlan: func(int) dst.SinkPlan { return drawBenignSink(t) }, OnSink: func(s *dst.Sink) { s.Tee = pipe }}
	var out []byte
	var err error
	together(func() {
		d.RunAll(ops)
		pipe.CloseWrite()
	}, func() {
		fr := flate.NewReader(pipe, rc.Opts()...)
		out, err = ReadAll(t, fr, plan, 64<<20)
	})
	want := d.Use().Want()
	t.Check(string(out) == string(want), "content-differs", "over a pipe, %v, reader %v: %s (error %v)", d.Use().Cfg, rc, diff(want, out), err)
	t.Check(eofClean(err), "unclean-end", "over a pipe, %v: reader ends with %s", d.Use().Cfg, errStr(err))
	if len(want) > 0 {
		t.Nontrivial()
	}
}

// ---------------------------------------------------------------------- C02

func c02Check(t *T, d *Drv, uses []*Use) {
	for i, u := range uses {
		res, _ := parseUse(t, u)
		for k, st := range res.Streams {
			if st.Format == ref.Zlib {
				if st.HasDict {
					t.Check(u.Cfg.Dict != nil && st.DictID == adler32.Checksum(u.Cfg.Dict), "dictionary-id", "use %d stream %d announces dictionary %08x", i, k, st.DictID)
				}
				t.Check(st.MaxDist <= 1<<uint(st.WindowBits), "window-exceeded", "use %d stream %d announces a %d-bit window and uses distance %d", i, k, st.WindowBits, st.MaxDist)
			}
			for bi, b := range st.Blocks {
				t.Check(b.Final == (bi == len(st.Blocks)-1), "final-block", "use %d stream %d: block %d of %d has final=%v", i, k, bi, len(st.Blocks), b.Final)
				t.State("block", b.Type, b.Final, u.Cfg.Strategy, u.Cfg.Level == 0)
			}
		}
		if len(res.Out) > 0 {
			t.Nontrivial()
		}
		stateOf(t, u)
	}
}

// sinkFrozen arranges that no byte reaches a sink after the next one is in use.
func frozenSinks(t *T, d *Drv) func() {
	lens := map[*dst.Sink]int{}
	d.After = func(d *Drv, i int, op Op, err error) {
		if op.Kind == OpReset && len(d.Uses) > 1 {
			s := d.Uses[len(d.Uses)-2].Sink
			lens[s] = len(s.Calls)
		}
	}
	return func() {
		for s, n := range lens {
			t.Check(len(s.Calls) == n, "stale-sink", "%d calls reached sink %s after the compressor was reset to another", len(s.Calls)-n, s.Name)
		}
	}
}

func c02Program(t *T) {
	ops := GenProgram(t, ProgOpts{MaxData: 40000, MaxStreams: 4, MaxUses: 3, Headers: true, FlushRate: 3})
	d := &Drv{T: t, Name: "w", Strict: true, NewSinkPlan: func(int) dst.SinkPlan { return drawBenignSink(t) }}
	check := frozenSinks(t, d)
	d.RunAll(ops)
	check()
	c02Check(t, d, d.Uses)
}

func c02Large(t *T) {
	d := &Drv{T: t, Name: "w", Strict: true}
	d.RunAll(largeOps(t))
	c02Check(t, d, d.Uses)
}

// c02AfterFault: the first use meets a failing sink; after a reset everything
// emitted must be valid again.
func c02AfterFault(t *T) {
	lim := CfgLimits{}
	ops := GenProgram(t, ProgOpts{MaxData: 20000, MaxStreams: 2, MaxUses: 1, Lim: lim, Headers: true, FlushRate: 3})
	plan := dst.NoSinkFault()
	plan.FailAt = t.Size(8000)
	plan.Err = &dst.InjectedError{Name: "disk"}
	plan.Iface = t.Choose(4)
	if plan.Iface > 0 && t.Chance(1, 3) {
		plan.FailAt = -1
		if plan.Iface != 2 {
			plan.FlushFail = t.Choose(3)
			plan.FlushErr = plan.Err
		} else {
			plan.SyncFail = t.Choose(3)
			plan.SyncErr = plan.Err
		}
	}
	d := &Drv{T: t, Name: "w"}
	d.NewSinkPlan = func(use int) dst.SinkPlan {
		if use == 0 {
			return plan
		}
		return dst.NoSinkFault()
	}
	for _, op := range ops {
		if err := d.Do(op); err != nil {
			break
		}
	}
	if !d.Use().Closed {
		_ = d.FW.Close()
	}
	d.Strict = true
	cfg, opts := changeCfg(t, ops[0].Cfg, lim)
	ops2 := GenProgram(t, ProgOpts{MaxData: 20000, MaxStreams: 2, MaxUses: 1, Headers: true, FlushRate: 3})
	ops2[0] = Op{Kind: OpReset, Cfg: cfg, Opts: opts}
	d.RunAll(ops2)
	c02Check(t, d, d.Uses[1:])
}

// ---------------------------------------------------------------------- C18

func c18Check(t *T, d *Drv) {
	for i, u := range d.Uses {
		res, _ := parseUse(t, u)
		c := u.Cfg
		for k, st := range res.Streams {
			if st.Format == ref.Zlib {
				t.Check(st.WindowBits == c.EffWBits(), "announced-window", "use %d stream %d: %v announced as %d bits", i, k, c, st.WindowBits)
				t.Check(st.HasDict == (c.Dict != nil), "announced-dictionary", "use %d stream %d: %v, FDICT=%v", i, k, c, st.HasDict)
			}
			// the level hint in the header (the fixed strategy may count as fast)
			fast := c.EffLevel() < 2 || c.Strategy == flate.HuffmanOnlyStrategy || c.Strategy == flate.HuffmanRLEStrategy
			if c.Strategy != flate.FixedStrategy {
				want := 3
				switch {
				case fast:
					want = 0
				case c.EffLevel() < 6:
					want = 1
				case c.EffLevel() == 6:
					want = 2
				}
				if st.Format == ref.Zlib {
					t.Check(st.FLevel == want, "level-hint", "use %d stream %d: %v announces FLEVEL %d, want %d", i, k, c, st.FLevel, want)
				}
				want = 0
				if fast {
					want = 4
				} else if c.EffLevel() == 9 {
					want = 2
				}
				if st.Format == ref.Gzip {
					t.Check(int(st.XFL) == want, "level-hint", "use %d stream %d: %v announces XFL %d, want %d", i, k, c, st.XFL, want)
				}
			}
			limit := 1 << uint(c.EffWBits())
			t.Check(st.MaxDist <= limit, "window-exceeded", "use %d stream %d: %v, a match reaches back %d", i, k, c, st.MaxDist)
			if c.Dict == nil {
				t.Check(st.MaxReach == 0, "reach-before-start", "use %d stream %d: %v, a match reaches %d bytes before the start of the stream", i, k, c, st.MaxReach)
			}
			for bi, b := range st.Blocks {
				if c.EffLevel() == 0 {
					ok := b.Type == 0 || (b.Type == 1 && b.Out1 == b.Out0)
					t.Check(ok, "level0-compressed", "use %d stream %d block %d: level 0 emitted a block of type %d with %d bytes", i, k, bi, b.Type, b.Out1-b.Out0)
				}
				if c.Strategy == flate.FixedStrategy {
					t.Check(b.Type != 2, "fixed-emits-dynamic", "use %d stream %d block %d: fixed strategy emitted dynamic code tables", i, k, bi)
				}
				for _, tk := range b.Tokens {
					if tk.Dist == 0 {
						continue
					}
					switch c.Strategy {
					case flate.HuffmanOnlyStrategy:
						t.Fail("huffman-only-match", "use %d stream %d block %d: huffman-only emitted a match of %d at distance %d", i, k, bi, tk.Len, tk.Dist)
					case flate.HuffmanRLEStrategy:
						t.Check(tk.Dist == 1, "rle-distance", "use %d stream %d block %d: run-length emitted a match of %d at distance %d", i, k, bi, tk.Len, tk.Dist)
					}
				}
				t.State("block", b.Type, c.Strategy, c.EffLevel(), c.Format)
			}
			if len(st.Out) > 0 {
				t.Nontrivial()
			}
			if st.MaxReach > 0 {
				t.Probe("match-into-dictionary")
			}
			if st.MaxDist > limit-64 {
				t.Probe("match-near-window-limit")
			}
		}
		stateOf(t, u)
	}
}

func c18Program(t *T) {
	ops := GenProgram(t, ProgOpts{MaxData: 50000, MaxStreams: 3, MaxUses: 4, FlushRate: 4})
	d := &Drv{T: t, Name: "w", Strict: true}
	var trs []flate.Tracer
	if t.Chance(1, 2) {
		trs = drawTracers(t)
		d.ExtraOpts = []flate.Option{flate.WithTracers(trs...)}
	}
	resets := 0
	changes := map[int][]flate.Tracer{}
	for i := range ops {
		if ops[i].Kind == OpReset {
			if resets++; resets > 1 && t.Chance(1, 4) {
				changes[i] = drawTracers(t)
				ops[i].Opts = append(append([]flate.Option{}, ops[i].Opts...), flate.WithTracers(changes[i]...))
			}
		}
	}
	d.After = func(d *Drv, i int, op Op, err error) {
		if op.Kind != OpReset {
			return
		}
		if nt, ok := changes[i]; ok {
			trs = nt
		}
		checkWriterAccessors(t, d.FW, d.Use().Cfg, trs, d.Use().Sink.W(), op.String())
	}
	d.RunAll(ops)
	c18Check(t, d)
}

// mark is a tracer that can be told from others.
type mark struct{ n int }

func (*mark) OnEvent(flate.Event) {}

func drawTracers(t *T) []flate.Tracer {
	trs := make([]flate.Tracer, t.Choose(4))
	for i := range trs {
		trs[i] = &mark{i}
	}
	return trs
}

func checkTracers(t *T, got, want []flate.Tracer, when string) {
	t.Check(len(got) == len(want), "accessor", "after %s Tracers() returns %d tracers, configured were %d", when, len(got), len(want))
	for i := range want {
		t.Check(got[i] == want[i], "accessor", "after %s Tracers()[%d] is not the configured one", when, i)
	}
}

func checkWriterAccessors(t *T, fw *flate.Writer, c Cfg, trs []flate.Tracer, w io.Writer, when string) {
	f := c.Format
	if f == flate.DefaultFormat {
		f = flate.ZlibFormat
	}
	m := c.MLevel
	if m == flate.DefaultMemory {
		m = flate.FastestMemory
	}
	t.Check(fw.Format() == f && fw.Strategy() == c.Strategy && int(fw.CompressLevel()) == c.EffLevel() && int(fw.WindowBits()) == c.EffWBits() && string(fw.Dict()) == string(c.Dict) && fw.MemoryLevel() == m && fw.Method() == flate.DeflateMethod,
		"accessor", "after %s the accessors say %v %v %v %v %v %v dict=%d; want %v", when, fw.Format(), fw.Method(), fw.Strategy(), fw.CompressLevel(), fw.MemoryLevel(), fw.WindowBits(), len(fw.Dict()), c)
	checkTracers(t, fw.Tracers(), trs, when)
	t.Check(fw.UnderlyingWriter() == w, "accessor", "after %s UnderlyingWriter() is not the configured writer", when)
}

// c18Reader: the accessors of a decompressor report what was configured last,
// whatever it has been doing since.
func c18Reader(t *T) {
	rc := RCfg{MLevel: drawMLevel(t), WBits: drawWBits(t), Dict: drawDict(t)}
	formats := []flate.Format{flate.DefaultFormat, flate.GZIPFormat, flate.ZlibFormat, flate.RawFormat}
	rc.Format = formats[t.Choose(4)]
	trs := drawTracers(t)
	var src *dst.Source
	var fr *flate.Reader
	check := func(when string) {
		m := rc.MLevel
		if m == flate.DefaultMemory {
			m = flate.FastestMemory
		}
		t.Check(fr.Format() == rc.Format && fr.MemoryLevel() == m && int(fr.WindowBits()) == rc.EffWBits() && string(fr.Dict()) == string(rc.Dict),
			"accessor", "after %s the accessors say %v %v %v dict=%d; want %v", when, fr.Format(), fr.MemoryLevel(), fr.WindowBits(), len(fr.Dict()), rc)
		checkTracers(t, fr.Tracers(), trs, when)
		t.Check(fr.UnderlyingReader() == io.Reader(src), "accessor", "after %s UnderlyingReader() is not the configured reader", when)
	}
	for u := t.Range(1, 4); u > 0; u-- {
		var opts []flate.Option
		if fr != nil {
			if t.Chance(1, 3) {
				rc.MLevel = drawMLevel(t)
				opts = append(opts, flate.WithMemoryLevel(rc.MLevel))
			}
			if t.Chance(1, 3) {
				rc.WBits = drawWBits(t)
				opts = append(opts, flate.WithWindowBits(rc.WBits))
			}
			if t.Chance(1, 3) {
				rc.Dict = drawDict(t)
				opts = append(opts, flate.WithDictionary(rc.Dict))
			}
			if t.Chance(1, 3) {
				rc.Format = formats[t.Choose(4)]
				opts = append(opts, flate.WithFormat(rc.Format))
			}
			if t.Chance(1, 3) {
				trs = drawTracers(t)
				opts = append(opts, flate.WithTracers(trs...))
			}
			// options that are none of a decompressor's business
			if t.Chance(1, 3) {
				c := DrawCfg(t, CfgLimits{})
				opts = append(opts, flate.WithCompressLevel(c.Level), flate.WithStrategy(c.Strategy))
			}
		}
		src = t.NewSource("acc", damage(t, inputFor(t, rc)), t.DrawSource())
		if fr == nil {
			fr = flate.NewReader(src, append(rc.Opts(), flate.WithTracers(trs...))...)
			check("NewReader")
		} else {
			fr.Reset(src, opts...)
			check("Reset")
		}
		it := NewReads(DrawReads(t))
		for k := t.Size(30); k > 0; k-- {
			if _, err := fr.Read(it.Next()); err != nil && t.Chance(1, 2) {
				break
			}
		}
		check("reading")
		if t.Chance(1, 3) {
			_ = fr.Close()
			check("Close")
		}
	}
	_ = fr.Close()
	t.Nontrivial()
	t.State("accessors", rc.Format, int(rc.MLevel), rc.EffWBits(), len(trs))
}

func c18Large(t *T) {
	d := &Drv{T: t, Name: "w", Strict: true}
	d.RunAll(largeOps(t))
	c18Check(t, d)
}
