package props

import (
	"fmt"
	"time"
	"unsafe"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vsync"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C15", Title: "No data race in any concurrent use the API allows",
		Scenarios: []dst.Named{{"writer", 5, c15Writer}, {"readers", 4, c15Readers}, {"close", 3, c15Close}, {"separate", 4, c15Separate}, {"endless", 1, c14Endless}, {"before-first-read", 1, c14Before}, {"spies", 4, c15Spies}},
		Quick:     20000, Thorough: 360000,
		Cold: 64, RaceBuild: true,
		Lim:  dst.Limits{MaxSteps: 200_000_000, MaxYield: 3_000_000},
		Rule: "a run counts when at least two tasks were inside the library at the same time under the happens-before monitor; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib,
		Assume: append(append([]string{}, assume[:2]...), "conflicting accesses are recognised by the vector-clock monitor of the Go race detector, told of the simulated synchronisation only; the simulator itself adds no ordering"),
	})
}

// watch is a tracer that keeps what it was handed; others look at it later.
type watch struct {
	headers []*flate.Header
	blocks  []*flate.BlockEvent
	trees   []*flate.TreesEvent
	foots   []*flate.FooterEvent
	sync    bool
	tok     [1]byte
}

func memOf[X any](p *X) []byte { return unsafe.Slice((*byte)(unsafe.Pointer(p)), unsafe.Sizeof(*p)) }

func (w *watch) OnEvent(e flate.Event) {
	if !w.sync {
		vsync.Yield("tracer")
		return
	}
	vsync.Point(unsafe.Pointer(&w.tok))
	if e.Header != nil {
		w.headers = append(w.headers, e.Header)
	}
	if e.Block != nil {
		w.blocks = append(w.blocks, e.Block)
	}
	if e.Trees != nil {
		w.trees = append(w.trees, e.Trees)
	}
	if e.Footer != nil {
		w.foots = append(w.foots, e.Footer)
	}
	vsync.PointEnd(unsafe.Pointer(&w.tok))
}

// look reads everything that was handed out so far.
func (w *watch) look() {
	if !w.sync {
		return
	}
	vsync.Point(unsafe.Pointer(&w.tok))
	for _, h := range w.headers {
		vsync.RaceRead(memOf(h))
		for i := range h.ExtraData.Records {
			vsync.RaceRead(memOf(&h.ExtraData.Records[i]))
			vsync.RaceRead(h.ExtraData.Records[i].Bytes)
		}
	}
	for _, b := range w.blocks {
		vsync.RaceRead(memOf(b))
	}
	for _, x := range w.trees {
		vsync.RaceRead(memOf(x))
		vsync.RaceRead(bytesOf(x.CodeSizes))
		vsync.RaceRead(bytesOf(x.LiteralLengthSizes))
		vsync.RaceRead(bytesOf(x.DistanceSizes))
	}
	for _, f := range w.foots {
		vsync.RaceRead(memOf(f))
	}
}

func bytesOf(s flate.SizeList) []byte {
	if len(s) == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(&s[0])), len(s)*int(unsafe.Sizeof(s[0])))
}

func c15Writer(t *T) {
	s := drawShared(t, t.Chance(2, 3))
	s.watch = &watch{sync: t.Chance(1, 3)}
	if t.Chance(1, 4) {
		plan := dst.NoSinkFault()
		plan.Iface = t.Choose(4)
		plan.FailAt = t.Size(4000)
		plan.Err = drawSinkErr(t)
		s.sinkPlan = func() dst.SinkPlan { return plan }
	}
	s.run()
	s.watch.look()
	t.Nontrivial()
	t.State("writer", s.cfg.Format, int(s.cfg.Level), len(s.plans), s.watch.sync)
}

func c15Readers(t *T) {
	r, _, _ := runReaders(t)
	if t.Chance(1, 2) {
		_ = r.fr.Close()
	}
	t.Nontrivial()
}

func c15Close(t *T) {
	in, content, _ := c13Input(t)
	w := &watch{sync: t.Chance(1, 3)}
	n := t.Range(1, 3)
	m := t.Range(1, 2)
	r := &rdr{t: t, rc: in.RC, hist: newHistory(n + m + 1)}
	src := t.NewSource("src", in.Data, t.DrawSource())
	r.fr = flate.NewReader(src, append(in.RC.Opts(), flate.WithTracers(w))...)
	rounds := t.Range(1, 3)
	for round := 0; round < rounds; round++ {
		var fns []func()
		stops := drawStops(t, n)
		for i := 0; i < n; i++ {
			i, plan, extra := i, c13Plan(t, len(content)), t.Choose(3)
			fns = append(fns, func() { r.reader(i, plan, extra, stops[i]) })
		}
		for k := 0; k < m; k++ {
			k, d, y := k, time.Duration(t.Size(4000))*time.Millisecond, t.Size(60)
			fns = append(fns, func() {
				vsync.Sleep(d)
				for i := 0; i < y; i++ {
					vsync.Yield("closer")
				}
				r.close(n + k)
			})
		}
		fns = append(fns, func() {
			for i := 0; i < 4; i++ {
				r.getters(1)
				w.look()
			}
		})
		together(fns...)
		w.look()
		if round+1 < rounds {
			in, content, _ = c13Input(t)
			src = t.NewSource("src", in.Data, t.DrawSource())
			together(func() {
				y := t.Choose(30)
				for i := 0; i < y; i++ {
					vsync.Yield("resetter")
				}
				r.fr.Reset(src, in.RC.Opts()...)
			}, func() {
				fr := r.fr
				for i := 0; i < 3; i++ {
					_ = fmt.Sprint(fr.Format(), fr.MemoryLevel(), fr.WindowBits(), len(fr.Tracers()), fr.UnderlyingReader() != nil)
					d := fr.Dict()
					for j := range d {
						d[j] ^= 0xff
					}
					vsync.RaceWrite(d)
					vsync.Yield("getter")
				}
			})
		}
	}
	t.Nontrivial()
	t.State("close", n, m, in.RC.Format, w.sync)
}

// c15Separate: separate objects in separate tasks share nothing but what the
// caller may share for reading: dictionaries, headers, options and content.
func c15Separate(t *T) {
	n := t.Range(2, 4)
	cfg := DrawCfg(t, CfgLimits{})
	if cfg.MLevel > 4 {
		cfg.MLevel = 4
	}
	opts := cfg.Opts()
	hdr := DrawHeader(t)
	contents := make([][]byte, n)
	rcs := make([]RCfg, n)
	plans := make([]ReadPlan, n)
	flush := make([]int, n)
	own := make([]Cfg, n)
	share := t.Chance(1, 2)
	for i := range contents {
		contents[i] = dst.GenData(t.Choose(dst.DataKinds), t.Size(20000), t.Seed())
		own[i] = cfg
		if !share {
			own[i] = DrawCfg(t, CfgLimits{})
			if own[i].MLevel > 4 {
				own[i].MLevel = 4
			}
			own[i].Dict = cfg.Dict
		}
		rcs[i] = ReaderFor(t, own[i])
		if rcs[i].MLevel > 4 {
			rcs[i].MLevel = 4
		}
		plans[i] = c13Plan(t, len(contents[i]))
		flush[i] = t.Choose(5)
	}
	var fns []func()
	for i := 0; i < n; i++ {
		i := i
		fns = append(fns, func() {
			k := t.NewSink(fmt.Sprintf("k%d", i), dst.NoSinkFault())
			o := opts
			if !share {
				o = own[i].Opts()
			}
			fw := flate.NewWriter(k.W(), o...)
			t.Check(fw.SetHeader(hdr) == nil, "header-refused", "a representable header was refused")
			p := contents[i]
			half := len(p) / 2
			for _, part := range [][]byte{p[:half], p[half:]} {
				_, err := fw.Write(part)
				t.Check(err == nil, "unexpected-error", "Write: %s", errStr(err))
				if flush[i] > 0 {
					err = fw.Flush(flate.FlushType(flush[i]))
					t.Check(err == nil, "unexpected-error", "Flush(%v): %s", flate.FlushType(flush[i]), errStr(err))
				}
			}
			err := fw.Close()
			t.Check(err == nil, "unexpected-error", "Close: %s", errStr(err))
			res := ref.Parse(k.Buf, ref.Options{Format: own[i].RefFormat(), Dict: own[i].Dict, WindowBits: own[i].EffWBits(), Strict: true})
			t.Check(res.Err == nil && string(res.Out) == string(p), "content-differs", "%v: one of %d separate compressors emitted %s (%v)", own[i], n, diff(p, res.Out), res.Err)
			dec := Decode(t, fmt.Sprintf("d%d", i), k.Buf, rcs[i], dst.SourcePlan{ErrAt: -1}, plans[i])
			t.Check(eofClean(dec.Err) && string(dec.Out) == string(p), "content-differs", "%v: one of %d separate decompressors delivered %s, %s", rcs[i], n, diff(p, dec.Out), errStr(dec.Err))
		})
	}
	together(fns...)
	t.Nontrivial()
	t.State("separate", n, cfg.Format, int(cfg.Level), share)
}

// c15Spies: one task drives an object through uses, resets with other options
// and closes; every other task makes one kind of call only and synchronises
// with nobody else in between, so that no lock taken on the side orders that
// call with the driver's.
func c15Spies(t *T) {
	rounds := t.Range(2, 4)
	spies := t.Range(2, 6)
	same := t.Choose(2) == 0
	first := t.Seed()
	var calls []func()
	var driver func()
	if t.Choose(2) == 0 {
		var cfgs []Cfg
		for i := 0; i < rounds; i++ {
			c := DrawCfg(t, CfgLimits{})
			if c.MLevel > 3 {
				c.MLevel = 3
			}
			cfgs = append(cfgs, c)
		}
		hdr := DrawHeader(t)
		k := t.NewSink("k0", dst.NoSinkFault())
		fw := flate.NewWriter(k.W(), append(cfgs[0].Opts(), flate.WithTracers(&watch{}))...)
		calls = []func(){
			func() { _ = fw.Format() },
			func() { _ = fw.Method() },
			func() { _ = fw.Strategy() },
			func() { _ = fw.CompressLevel() },
			func() { _ = fw.MemoryLevel() },
			func() { _ = fw.WindowBits() },
			func() { d := fw.Dict(); vsync.RaceWrite(d) },
			func() { _ = len(fw.Tracers()) },
			func() { _ = fw.UnderlyingWriter() },
			func() { _ = fw.SetHeader(hdr) },
			func() { _, _ = fw.Write(nil) },
		}
		flushes := make([]int, rounds)
		contents := make([][]byte, rounds)
		for i := range flushes {
			flushes[i] = t.Choose(5)
			contents[i] = dst.GenData(t.Choose(dst.DataKinds), t.Size(3000), t.Seed())
		}
		driver = func() {
			for i := range cfgs {
				if i > 0 {
					k := t.NewSink(fmt.Sprintf("k%d", i), dst.NoSinkFault())
					fw.Reset(k.W(), append(cfgs[i].Opts(), flate.WithTracers(&watch{}, &watch{}))...)
				}
				_, err := fw.Write(contents[i])
				t.Check(err == nil, "unexpected-error", "Write: %s", errStr(err))
				if flushes[i] > 0 {
					err = fw.Flush(flate.FlushType(flushes[i]))
					t.Check(err == nil, "unexpected-error", "Flush: %s", errStr(err))
				}
				err = fw.Close()
				t.Check(err == nil, "unexpected-error", "Close: %s", errStr(err))
			}
		}
	} else {
		var ins []Input
		var srcs []*dst.Source
		for i := 0; i < rounds; i++ {
			in, _, _ := c13Input(t)
			if in.RC.MLevel > 3 {
				in.RC.MLevel = 3
			}
			ins = append(ins, in)

			srcs = append(srcs, t.NewSource(fmt.Sprintf("src%d", i), in.Data, t.DrawSource()))
		}
		early := t.Choose(3)
		fr := flate.NewReader(srcs[0], append(ins[0].RC.Opts(), flate.WithTracers(&watch{}))...)
		calls = []func(){
			func() { _ = fr.Format() },
			func() { _ = fr.MemoryLevel() },
			func() { _ = fr.WindowBits() },
			func() { d := fr.Dict(); vsync.RaceWrite(d) },
			func() { _ = len(fr.Tracers()) },
			func() { _ = fr.UnderlyingReader() },
		}
		driver = func() {
			buf := make([]byte, 512)
			for i := range ins {
				if i > 0 {
					fr.Reset(srcs[i], append(ins[i].RC.Opts(), flate.WithTracers(&watch{}, &watch{}))...)
				}
				for n := 0; ; n++ {
					if early == 1 && n == 2 {
						break
					}
					if _, err := fr.Read(buf); err != nil {
						break
					}
				}
				if early != 2 {
					_ = fr.Close()
				}
			}
			_ = fr.Close()
		}
	}
	fns := []func(){driver}
	for i := 0; i < spies; i++ {
		pick := int(first % uint64(len(calls)))
		if !same {
			pick = t.Choose(len(calls))
		}
		call, times, pause := calls[pick], t.Range(1, 6), t.Size(60)
		fns = append(fns, func() {
			for j := 0; j < times; j++ {
				for y := 0; y < pause; y++ {
					vsync.Yield("spy")
				}
				call()
			}
		})
	}
	together(fns...)
	t.Nontrivial()
	t.State("spies", rounds, spies, same, len(calls))
}
