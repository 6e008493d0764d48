package props

import (
	"errors"
	"fmt"
	"io"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vsync"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C03", Title: "The decompressor accepts every valid stream and decodes it exactly",
		Scenarios: []dst.Named{{"generated", 6, c03Generated}, {"mixed", 3, c03Mixed}, {"boundary", 3, c03Boundary}, {"large", 1, c03Large}},
		Long:      []dst.Named{{"long-gzip", 2, func(t *T) { longReader(t, false, flate.GZIPFormat) }}, {"long-dense-zlib", 1, func(t *T) { longReader(t, true, flate.ZlibFormat) }}, {"long-members", 2, longMembers}},
		Quick:     70000, Thorough: 2000000,
		Rule: "a run counts when a valid input with non-empty content was decoded and compared with the generator and the reference decoder; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C04", Title: "Decompression does not depend on timing, fragmentation or buffer sizes",
		Scenarios: []dst.Named{{"twins", 1, c04Twins}},
		Quick:     120000, Thorough: 4800000,
		Rule: "a run counts when at least two decodings of the same non-empty input under different fragmentation and schedules were compared; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C05", Title: "Corrupted checksummed streams never pass as good data",
		Scenarios: []dst.Named{{"mutate", 5, c05Mutate}, {"trailer", 2, c05Trailer}, {"header", 1, c05Header}, {"flawed", 3, c05Flawed}},
		Long:      []dst.Named{{"long-size", 2, func(t *T) { longFlawed(t, false, flate.GZIPFormat, "size", 0) }}, {"long-checksum", 1, func(t *T) { longFlawed(t, true, flate.ZlibFormat, "checksum", t.Choose(2)) }}},
		Quick:     250000, Thorough: 10000000,
		Rule: "a run counts when the altered input differs from the original and the outcome was compared with the reference decoder; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C06", Title: "A stream cut short is always reported, after its intact prefix",
		Scenarios: []dst.Named{{"cut", 4, c06Cut}, {"cut-everywhere", 1, c06Everywhere}},
		Long:      []dst.Named{{"long-cut", 2, func(t *T) { longFlawed(t, true, flate.GZIPFormat, "cut", t.Choose(2)) }}},
		Quick:     90000, Thorough: 3600000,
		Rule: "a run counts when a cut strictly inside a stream was decoded and compared with the reference decoder; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C07", Title: "Source errors surface unchanged, in order, and stick",
		Scenarios: []dst.Named{{"error", 4, c07Error}, {"error-at-end", 1, c07AtEnd}},
		Quick:     200000, Thorough: 8000000,
		Rule: "a run counts when the injected source error fired and what the caller saw was compared; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C20", Title: "No input can crash, hang or bloat the decompressor",
		Scenarios: []dst.Named{{"hostile", 4, c20Hostile}, {"mutated", 4, c20Mutated}, {"crafted", 3, c20Crafted}, {"flawed", 3, c20Flawed}},
		Long:      []dst.Named{{"long-empty-fixed", 2, func(t *T) { longEmpties(t, 0) }}, {"long-empty-stored", 1, func(t *T) { longEmpties(t, 1) }}, {"long-empty-mixed", 1, func(t *T) { longEmpties(t, 2) }}, {"long-empty-streams", 2, func(t *T) { longEmpties(t, 3) }}},
		Quick:     500000, Thorough: 12000000,
		Lim:  dst.Limits{MaxSteps: 120_000_000},
		Rule: "a run counts when the input was non-empty and work, outcome and delivered bytes were checked; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

func rstate(t *T, in Input, outcome string) {
	t.State(in.RC.Format, int(in.RC.MLevel), int(in.RC.WBits), in.RC.Dict != nil, in.Kind, len(in.Want.Streams), outcome)
}

// noAuto narrows an automatic reader to the format of the only kind of stream.
func tooLong(n int) int { return n + 1<<16 }

// valid asserts that the generated input is what it claims to be (harness
// self-check against the independent decoder).
func valid(t *T, in Input) {
	if in.Kind == "generated" {
		t.Check(in.Want.Err == nil, "harness", "generated input is invalid: %v", in.Want.Err)
	} else if in.Want.Err != nil {
		// what the compressor emitted is itself invalid: decided by C02
		t.Probe("skipped-invalid-writer-output")
	}
}

// ---------------------------------------------------------------------- C03

func c03Run(t *T, in Input) {
	valid(t, in)
	if in.Want.Err != nil {
		return
	}
	dec := Decode(t, "src", in.Data, in.RC, t.DrawSource(), DrawReads(t))
	t.Check(eofClean(dec.Err), "valid-rejected", "%v: valid input of %d bytes (%d streams, content %d bytes) ends with %s after %d bytes", in.RC, len(in.Data), len(in.Want.Streams), len(in.Want.Out), errStr(dec.Err), len(dec.Out))
	t.Check(string(dec.Out) == string(in.Want.Out), "content-differs", "%v: %s", in.RC, diff(in.Want.Out, dec.Out))
	if len(in.Want.Out) > 0 {
		t.Nontrivial()
	}
	rstate(t, in, "eof")
	for _, st := range in.Want.Streams {
		for _, b := range st.Blocks {
			t.State("b", b.Type, b.Final, b.PadNonZero, len(b.D), b.NX)
		}
	}
}

func c03Generated(t *T) {
	in := genInput(t, InputOpts{MaxOut: 30000, MaxStreams: 4})
	ro := in.RC.RefOpts()
	ro.Strict = true
	in.Want = ref.Parse(in.Data, ro)
	c03Run(t, in)
}

func c03Large(t *T) {
	in := largeInput(t)
	ro := in.RC.RefOpts()
	ro.Strict = true
	in.Want = ref.Parse(in.Data, ro)
	c03Run(t, in)
}

func c03Mixed(t *T) { c03Run(t, DrawInput(t, InputOpts{MaxOut: 60000, MaxStreams: 4})) }

// c03Boundary: many small streams, so that headers and trailers fall on every
// position relative to the reader's internal buffers.
func c03Boundary(t *T) {
	rc := RCfg{MLevel: flate.MemoryLevel(t.Range(1, 3)), WBits: drawWBits(t), Format: flate.DefaultFormat}
	if t.Chance(1, 4) {
		rc.Dict = drawDict(t)
	}
	r := dst.NewRNG(t.Seed())
	n := t.Range(2, 40)
	fs := []ref.Format{ref.Gzip, ref.Zlib, ref.Raw}
	one := t.Chance(1, 4)
	f := fs[t.Choose(3)]
	max := 1 + t.Size(400)
	var data []byte
	for i := 0; i < n; i++ {
		if !one {
			f = fs[r.N(3)]
		}
		for {
			g := genStream(r, f, rc.EffWBits(), rc.Dict, r.N(max+1))
			if f == ref.Raw && looksFramed(g.Bytes) {
				continue
			}
			data = append(data, g.Bytes...)
			break
		}
	}
	ro := rc.RefOpts()
	ro.Strict = true
	c03Run(t, Input{Data: data, RC: rc, Kind: "generated", Want: ref.Parse(data, ro)})
}

// ---------------------------------------------------------------------- C04

func c04Twins(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 20000, MaxStreams: 3})
	data := in.Data
	sp := dst.SourcePlan{ErrAt: -1}
	switch t.Weighted(4, 3, 2, 2, 1) {
	case 1:
		data = mutate(t, data, nil)
	case 2:
		if len(data) > 0 {
			data = data[:t.Range(0, len(data)-1)]
		}
	case 3:
		sp.ErrAt = t.Range(0, len(data))
		sp.Err = &dst.InjectedError{Name: "src"}
	case 4:
		data = dst.GenData(3, t.Size(300), t.Seed())
	}
	n := 2 + t.Choose(2)
	var first Decoded
	var firstRP ReadPlan
	var firstSP dst.SourcePlan
	for i := 0; i < n; i++ {
		p := t.DrawSource()
		p.ErrAt, p.Err = sp.ErrAt, sp.Err
		if sp.ErrAt >= 0 {
			p.ErrWithData = t.Chance(1, 2)
		}
		rp := DrawReads(t)
		rc := in.RC
		dec := Decode(t, fmt.Sprintf("s%d", i), data, rc, p, rp)
		_ = dec.FR.Close()
		if i == 0 {
			first, firstRP, firstSP = dec, rp, p
			continue
		}
		t.Check(string(first.Out) == string(dec.Out), "bytes-depend-on-timing", "%v, input %d bytes: %s\nfirst: %v reads %+v error %v\nsecond: %v reads %+v error %v", rc, len(data), diff(first.Out, dec.Out), firstSP, firstRP, first.Err, p, rp, dec.Err)
		t.Check(errStr(first.Err) == errStr(dec.Err), "error-depends-on-timing", "%v, input %d bytes, %d bytes delivered: first %s, second %s\nfirst: %v reads %+v\nsecond: %v reads %+v", rc, len(data), len(dec.Out), errStr(first.Err), errStr(dec.Err), firstSP, firstRP, p, rp)
	}
	if len(data) > 0 {
		t.Nontrivial()
	}
	rstate(t, in, fmt.Sprintf("%T", first.Err))
}

// ---------------------------------------------------------------------- C05

// mutate alters bytes; lo and hi restrict the region when non-nil.
func mutate(t *T, data []byte, region []int) []byte {
	lo, hi := 0, len(data)
	if region != nil {
		lo, hi = region[0], region[1]
	}
	out := append([]byte(nil), data...)
	if hi <= lo {
		return append(out, byte(t.Choose(256)))
	}
	k := 1 + t.Weighted(6, 2, 1)
	for i := 0; i < k; i++ {
		if hi > len(out) {
			hi = len(out)
		}
		if hi <= lo {
			break
		}
		at := t.Range(lo, hi-1)
		switch t.Weighted(5, 3, 2, 2, 2, 1, 1) {
		case 0:
			out[at] ^= 1 << uint(t.Choose(8))
		case 1:
			out[at] = byte(t.Choose(256))
		case 2: // drop
			n := 1 + t.Size(20)
			if at+n > len(out) {
				n = len(out) - at
			}
			out = append(out[:at:at], out[at+n:]...)
		case 3: // duplicate
			n := 1 + t.Size(20)
			if at+n > len(out) {
				n = len(out) - at
			}
			dup := append([]byte(nil), out[at:at+n]...)
			out = append(out[:at:at], append(dup, out[at:]...)...)
		case 4: // insert
			ins := dst.GenData(3, 1+t.Size(10), t.Seed())
			out = append(out[:at:at], append(ins, out[at:]...)...)
		case 5: // swap
			b := t.Range(lo, hi-1)
			out[at], out[b] = out[b], out[at]
		case 6: // burst
			n := 1 + t.Size(64)
			r := dst.NewRNG(t.Seed())
			for j := at; j < at+n && j < len(out); j++ {
				out[j] = byte(r.N(256))
			}
		}
		t.Cov.Faults["input-mutation"]++
	}
	return out
}

func isPrefix(p, full []byte) bool { return len(p) <= len(full) && string(p) == string(full[:len(p)]) }

// judge compares an outcome with the lenient reference decoding.
func judge(t *T, what string, data []byte, rc RCfg, dec Decoded) *ref.Result {
	want := ref.Parse(data, rc.RefOpts())
	if eofClean(dec.Err) {
		if want.Err != nil {
			t.Fail("bad-data-accepted", "%s, %v: decompression of %d bytes ends cleanly after %d bytes, but the input is invalid: %v", what, rc, len(data), len(dec.Out), want.Err)
		}
		t.Check(string(dec.Out) == string(want.Out), "content-differs", "%s, %v: clean end but %s", what, rc, diff(want.Out, dec.Out))
	} else {
		t.Check(isPrefix(dec.Out, want.Out), "junk-before-error", "%s, %v: delivered bytes are no prefix of what the blocks describe: %s; error %v; reference %v", what, rc, diff(want.Out, dec.Out), dec.Err, want.Err)
		t.Check(dec.Err != nil && !errors.Is(dec.Err, io.EOF) || eofTrunc(dec.Err), "clean-end-for-bad-data", "%s: error %s", what, errStr(dec.Err))
	}
	t.State(what, rc.Format, want.Err != nil, fmt.Sprintf("%T", dec.Err))
	return want
}

func c05Run(t *T, in Input, data []byte, what string) {
	if string(data) == string(in.Data) {
		return
	}
	dec := Decode(t, "src", data, in.RC, t.DrawSource(), DrawReads(t))
	want := judge(t, what, data, in.RC, dec)
	if want.Err == nil {
		t.Probe("mutation-still-valid")
		// valid and different: it must be accepted unless it uses an
		// incomplete code, which a decoder may refuse
		strict := in.RC.RefOpts()
		strict.Strict = true
		if ref.Parse(data, strict).Err == nil {
			t.Check(eofClean(dec.Err), "valid-rejected", "%s, %v: altered input is still valid but ends with %s", what, in.RC, errStr(dec.Err))
		}
	}
	// the error is sticky
	if dec.Err != nil {
		var b [16]byte
		n, err := dec.FR.Read(b[:])
		t.Check(n == 0 && err == dec.Err, "error-not-sticky", "after %s another Read returns %d, %s", errStr(dec.Err), n, errStr(err))
	}
	t.Nontrivial()
}

func c05Mutate(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 12000, MaxStreams: 3, Checked: true})
	if in.Want.Err != nil {
		return
	}
	c05Run(t, in, mutate(t, in.Data, nil), "mutated")
}

func c05Trailer(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 6000, MaxStreams: 3, Checked: true})
	if in.Want.Err != nil || len(in.Want.Streams) == 0 {
		return
	}
	st := in.Want.Streams[t.Choose(len(in.Want.Streams))]
	c05Run(t, in, mutate(t, in.Data, []int{st.DeflateEnd - 1, st.End}), "trailer")
}

func c05Header(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 3000, MaxStreams: 3, Checked: true})
	if in.Want.Err != nil || len(in.Want.Streams) == 0 {
		return
	}
	st := in.Want.Streams[t.Choose(len(in.Want.Streams))]
	c05Run(t, in, mutate(t, in.Data, []int{st.Start, st.DeflateStart + 1}), "header")
}

// c05Flawed: input in which one rule of the formats is broken and everything
// else, checksums included, is as it should be.
func c05Flawed(t *T) {
	data, rc, flaw := drawBroken(t)
	dec := Decode(t, "src", data, rc, t.DrawSource(), DrawReads(t))
	want := judge(t, flaw, data, rc, dec)
	if want.Err == nil {
		t.Probe("flaw-harmless-" + flaw)
		strict := rc.RefOpts()
		strict.Strict = true
		if ref.Parse(data, strict).Err == nil {
			t.Check(eofClean(dec.Err), "valid-rejected", "%s, %v: the input is valid but ends with %s", flaw, rc, errStr(dec.Err))
		}
	}
	if dec.Err != nil {
		var b [16]byte
		n, err := dec.FR.Read(b[:])
		t.Check(n == 0 && err == dec.Err, "error-not-sticky", "after %s another Read returns %d, %s", errStr(dec.Err), n, errStr(err))
	}
	t.Nontrivial()
}

// ---------------------------------------------------------------------- C06

func c06Check(t *T, in Input, cut int, sp dst.SourcePlan, rp ReadPlan) {
	data := in.Data[:cut]
	want := ref.Parse(data, in.RC.RefOpts())
	if want.Err != nil && want.Err.Kind != ref.Truncated {
		return // automatic detection of the stump takes it for something else
	}
	inside := true
	for _, st := range in.Want.Streams {
		if cut == st.End || cut == 0 {
			inside = false
		}
	}
	t.Cov.Faults["truncation"]++
	dec := Decode(t, "src", data, in.RC, sp, rp)
	if inside {
		t.Check(eofTrunc(dec.Err), "truncation-unreported", "%v: input cut to %d of %d bytes (inside a stream): %d bytes delivered, then %s; reference: %v", in.RC, cut, len(in.Data), len(dec.Out), errStr(dec.Err), want.Err)
		t.Nontrivial()
	} else {
		t.Check(eofClean(dec.Err), "boundary-cut", "%v: input cut to %d of %d bytes (between streams) ends with %s", in.RC, cut, len(in.Data), errStr(dec.Err))
	}
	t.Check(string(dec.Out) == string(want.Out), "prefix-differs", "%v: input cut to %d of %d bytes: what the bytes describe is delivered as %s", in.RC, cut, len(in.Data), diff(want.Out, dec.Out))
	rstate(t, in, fmt.Sprint(inside))
}

func c06Cut(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 30000, MaxStreams: 3})
	if in.Want.Err != nil || len(in.Data) == 0 {
		return
	}
	cut := 0
	switch t.Weighted(4, 2, 1, 1) {
	case 0:
		cut = t.Range(0, len(in.Data)-1)
	case 1, 2: // around structural boundaries
		st := in.Want.Streams[t.Choose(len(in.Want.Streams))]
		pts := []int{st.Start, st.DeflateStart, st.DeflateEnd, st.End}
		for _, b := range st.Blocks {
			pts = append(pts, int(b.StartBit>>3), int(b.EndBit>>3))
		}
		cut = pts[t.Choose(len(pts))] + t.Range(-3, 3)
	case 3:
		cut = len(in.Data) - 1 - t.Choose(10)
	}
	if cut < 0 {
		cut = 0
	}
	if cut > len(in.Data) {
		cut = len(in.Data)
	}
	c06Check(t, in, cut, t.DrawSource(), DrawReads(t))
}

func c06Everywhere(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 200, MaxStreams: 3, NoDict: true})
	if in.Want.Err != nil {
		return
	}
	sp, rp := t.DrawSource(), DrawReads(t)
	step := 1 + len(in.Data)/150
	for cut := t.Choose(step); cut <= len(in.Data); cut += step {
		c06Check(t, in, cut, sp, rp)
	}
}

// ---------------------------------------------------------------------- C07

func drawSrcErr(t *T) error { return t.DrawError(false) }

func c07Run(t *T, in Input, at int) {
	if in.Want.Err != nil {
		return
	}
	sp := t.DrawSource()
	sp.ErrAt = at
	sp.Err = drawSrcErr(t)
	sp.ErrWithData = t.Chance(1, 2)
	sp.Continue = t.Chance(1, 3)
	want := ref.Parse(in.Data[:at], in.RC.RefOpts())
	if want.Err != nil && want.Err.Kind != ref.Truncated {
		return
	}
	dec := Decode(t, "src", in.Data, in.RC, sp, DrawReads(t))
	t.Check(dec.Src.Ended, "source-not-drained", "%v: the source would fail at %d, but the reader stopped before with %s", in.RC, at, errStr(dec.Err))
	t.Check(dec.Err == sp.Err, "error-replaced", "%v: the source failed at byte %d of %d with %q, the caller got %s after %d bytes", in.RC, at, len(in.Data), sp.Err, errStr(dec.Err), len(dec.Out))
	t.Check(string(dec.Out) == string(want.Out), "data-before-error", "%v: source failed at byte %d of %d: data described before is delivered as %s", in.RC, at, len(in.Data), diff(want.Out, dec.Out))
	for i := 0; i < 1+t.Choose(3); i++ {
		var b [64]byte
		n, err := dec.FR.Read(b[:1+t.Choose(64)])
		t.Check(n == 0 && err == sp.Err, "error-not-sticky", "later Read returned %d, %s", n, errStr(err))
	}
	vsync.Sleep(1 << 40)
	t.Check(dec.Src.AfterEnd == 0, "source-read-after-error", "the source was read %d more times after it failed", dec.Src.AfterEnd)
	t.Nontrivial()
	rstate(t, in, fmt.Sprintf("%T", sp.Err))
}

func c07Error(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 20000, MaxStreams: 3})
	at := t.Range(0, len(in.Data))
	if t.Chance(1, 3) && len(in.Want.Streams) > 0 {
		st := in.Want.Streams[t.Choose(len(in.Want.Streams))]
		pts := []int{st.Start, st.DeflateStart, st.DeflateEnd, st.End}
		at = pts[t.Choose(len(pts))] + t.Range(-2, 2)
		if at < 0 {
			at = 0
		}
		if at > len(in.Data) {
			at = len(in.Data)
		}
	}
	c07Run(t, in, at)
}

func c07AtEnd(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 20000, MaxStreams: 3})
	c07Run(t, in, len(in.Data))
}

// ---------------------------------------------------------------------- C20

func c20Check(t *T, what string, data []byte, rc RCfg) {
	sp, rp := t.DrawSource(), DrawReads(t)
	if len(data) > 20000 && sp.Mode == 1 {
		sp.Mode = 0
	}
	s0 := vsync.Steps()
	dec := Decode(t, "src", data, rc, sp, rp)
	_ = dec.FR.Close()
	steps := vsync.Steps() - s0
	want := judge(t, what, data, rc, dec)
	bound := uint64(400_000) + 600*uint64(len(data)+len(want.Out)) + 40_000*uint64(len(want.Streams)) + 6_000*uint64(blocksOf(want))
	t.Check(steps <= bound, "work-not-bounded", "%s, %v: %d steps for %d bytes of input and %d bytes of output (bound %d)", what, rc, steps, len(data), len(want.Out), bound)
	if len(data) > 0 {
		t.Nontrivial()
	}
}

func blocksOf(r *ref.Result) int {
	n := 0
	for _, s := range r.Streams {
		n += len(s.Blocks) + 1
	}
	return n
}

func drawRC(t *T) RCfg {
	rc := RCfg{MLevel: drawMLevel(t), WBits: drawWBits(t)}
	rc.Format = []flate.Format{flate.DefaultFormat, flate.RawFormat, flate.ZlibFormat, flate.GZIPFormat}[t.Choose(4)]
	if t.Chance(1, 4) {
		rc.Dict = drawDict(t)
	}
	return rc
}

func c20Hostile(t *T) {
	rc := drawRC(t)
	r := dst.NewRNG(t.Seed())
	n := t.Size(6000)
	data := dst.GenData(t.Choose(dst.DataKinds), n, r.Uint64())
	switch t.Choose(5) {
	case 1: // plausible gzip start
		h := []byte{0x1f, 0x8b, 8, byte(r.N(32)), 0, 0, 0, 0, 0, 3}
		data = append(h, data...)
	case 2: // plausible zlib start
		data = append([]byte{0x78, 0x9c}, data...)
	case 3: // a dynamic block with random code lengths
		w := &bitw{}
		w.put(uint64(r.N(2)), 1)
		w.put(2, 2)
		w.put(uint64(r.N(32)), 5)
		w.put(uint64(r.N(32)), 5)
		k := r.N(16)
		w.put(uint64(k), 4)
		for i := 0; i < k+4; i++ {
			w.put(uint64(r.N(8)), 3)
		}
		for i := 0; i < r.N(200); i++ {
			w.put(r.Uint64()&0xff, 8)
		}
		w.align(0)
		data = append(w.b, data...)
	case 4:
		data = append([]byte{0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 0, 3, byte(r.N(40)), byte(r.N(2))}, data...)
	}
	c20Check(t, "hostile", data, rc)
}

func c20Mutated(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 8000, MaxStreams: 3})
	data := mutate(t, in.Data, nil)
	rc := in.RC
	if t.Chance(1, 4) {
		rc = drawRC(t)
	}
	c20Check(t, "mutated", data, rc)
}

func c20Flawed(t *T) {
	data, rc, flaw := drawBroken(t)
	c20Check(t, flaw, data, rc)
}

// c20Crafted: structurally malicious streams.
func c20Crafted(t *T) {
	rc := drawRC(t)
	r := dst.NewRNG(t.Seed())
	w := &bitw{}
	raw := func() {
		ll, dd := make([]byte, 288), make([]byte, 32)
		for i := range ll {
			switch {
			case i < 144:
				ll[i] = 8
			case i < 256:
				ll[i] = 9
			case i < 280:
				ll[i] = 7
			default:
				ll[i] = 8
			}
		}
		for i := range dd {
			dd[i] = 5
		}
		cl, cd := canon(ll), canon(dd)
		lit := func(n int) {
			for i := 0; i < n; i++ {
				c := r.N(256)
				w.put(cl[c], uint(ll[c]))
			}
		}
		switch r.N(9) {
		case 0: // match before the start
			w.put(1, 1)
			w.put(1, 2)
			lit(r.N(5))
			w.put(cl[257+r.N(28)], uint(ll[257]))
			w.put(cd[10+r.N(20)], 5)
			w.put(r.Uint64()&0x1fff, 13)
			w.put(cl[256], 7)
		case 1: // symbols 286, 287
			w.put(1, 1)
			w.put(1, 2)
			lit(r.N(50))
			w.put(cl[286+r.N(2)], 8)
			w.put(r.Uint64()&0xffff, 16)
		case 2: // distance codes 30, 31
			w.put(1, 1)
			w.put(1, 2)
			lit(r.N(50) + 1)
			w.put(cl[257], 7)
			w.put(cd[30+r.N(2)], 5)
			w.put(r.Uint64()&0xffff, 16)
		case 3: // reserved block type
			w.put(uint64(r.N(2)), 1)
			w.put(3, 2)
			w.put(r.Uint64()&0xffffff, 24)
		case 4: // stored length complement wrong
			w.put(1, 1)
			w.put(0, 2)
			w.align(0)
			w.put(r.Uint64()&0xffffffff, 32)
			w.bytes(dst.GenData(3, r.N(300), r.Uint64()))
		case 5: // very many empty blocks
			n := r.Range(100, 3000)
			for i := 0; i < n; i++ {
				w.put(0, 1)
				if r.N(2) == 0 {
					w.put(1, 2)
					w.put(0, 7)
				} else {
					w.put(0, 2)
					w.align(r.Uint64())
					w.bytes([]byte{0, 0, 0xff, 0xff})
				}
			}
			w.put(1, 1)
			w.put(1, 2)
			w.put(0, 7)
			w.align(0)
		case 6: // expansion: maximal matches
			w.put(1, 1)
			w.put(1, 2)
			lit(1)
			n := r.Range(1, 1500)
			for i := 0; i < n; i++ {
				w.put(cl[285], uint(ll[285]))
				w.put(cd[0], 5)
			}
			w.put(cl[256], 7)
			w.align(0)
		case 7: // degenerate dynamic trees
			w.put(1, 1)
			w.put(2, 2)
			lens := make([]byte, 286)
			dls := make([]byte, 30)
			switch r.N(5) {
			case 0:
				lens[256] = 1
			case 1:
				lens[256] = byte(1 + r.N(15))
				lens[r.N(256)] = byte(1 + r.N(15))
			case 2: // no end-of-block code
				lens[65], lens[66] = 1, 1
			case 3: // over-subscribed
				for i := 0; i < 10+r.N(100); i++ {
					lens[r.N(286)] = byte(1 + r.N(5))
				}
			case 4: // incomplete
				lens[256], lens[65] = 2, 2
				lens[285] = 3
			}
			dls[r.N(30)] = byte(r.N(16))
			if r.N(2) == 0 {
				dls[r.N(30)] = byte(r.N(16))
			}
			emitTrees(r, w, lens, dls)
			for i := 0; i < r.N(100); i++ {
				w.put(r.Uint64()&0xff, 8)
			}
		case 8: // valid block followed by junk
			ds := genDeflate(r, w, 32768, nil, r.N(1000))
			_ = ds
			w.align(r.Uint64())
			w.bytes(dst.GenData(3, r.N(100), r.Uint64()))
		}
	}
	switch rc.Format {
	case flate.GZIPFormat:
		w.bytes([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3})
	case flate.ZlibFormat:
		w.bytes([]byte{8, 0x1d})
	}
	if rc.Format != flate.RawFormat && r.N(3) == 0 {
		// extra-field and string trouble
		w.b = nil
		x := dst.GenData(3, r.N(30), r.Uint64())
		if r.N(2) == 0 && len(x) >= 4 {
			x[2], x[3] = byte(r.N(64)), 0
		}
		w.bytes([]byte{0x1f, 0x8b, 8, byte(4 | r.N(2)<<3 | r.N(2)<<4), 0, 0, 0, 0, 0, 3, byte(len(x)), 0})
		w.bytes(x)
		w.bytes(dst.GenData(r.N(4), r.N(600), r.Uint64()))
		if r.N(2) == 0 {
			w.bytes([]byte{0})
		}
	}
	for k := r.Range(1, 2); k > 0; k-- {
		raw()
	}
	w.align(r.Uint64())
	if r.N(3) == 0 {
		w.bytes(dst.GenData(3, r.N(40), r.Uint64()))
	}
	c20Check(t, "crafted", w.b, rc)
}
