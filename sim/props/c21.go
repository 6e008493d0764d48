package props

import (
	"bytes"
	"fmt"
	"time"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vsync"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C21", Title: "Caller-owned memory stays the caller's",
		Scenarios: []dst.Named{{"writer", 5, c21Writer}, {"reader", 5, c21Reader}, {"side-by-side", 4, c21Side}},
		Quick:     80000, Thorough: 3200000,
		Rule: "a run counts when an object whose caller overwrote every buffer, dictionary, header, accessor result and event value right after the call was compared with an undisturbed twin, or several objects sharing pools and tables were compared with what each does alone; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

// vandal is a tracer that overwrites everything it was handed (after copying
// it), except what it keeps unharmed for a later comparison.
type vandal struct {
	r     recorder
	every int // spare one event in every
	n     int
}

func scrub(b []byte) {
	for i := range b {
		b[i] = 0xEE
	}
}

func (v *vandal) OnEvent(e flate.Event) {
	v.r.OnEvent(e)
	v.n++
	if v.every > 0 && v.n%v.every == 0 {
		return
	}
	v.r.ev[len(v.r.ev)-1].live = copyEvent(v.r.ev[len(v.r.ev)-1].Event)
	if h := e.Header; h != nil {
		for i := range h.ExtraData.Records {
			scrub(h.ExtraData.Records[i].Bytes)
			h.ExtraData.Records[i].ID = [2]byte{0xEE, 0xEE}
		}
		h.FileName, h.Comment, h.OSType, h.DataType = "vandalised", "vandalised", 3, 2
	}
	if e.Block != nil {
		*e.Block = flate.BlockEvent{Type: 3, IsFinal: true}
	}
	if x := e.Trees; x != nil {
		scrub(x.CodeSizes)
		scrub(x.LiteralLengthSizes)
		scrub(x.DistanceSizes)
		x.CodeCount, x.LiteralLengthCount, x.DistanceCount = 1, 1, 1
	}
	if e.Footer != nil {
		*e.Footer = flate.FooterEvent{Adler32: 1, CRC32: 1}
	}
}

// buf is a caller buffer inside a larger one with canaries around it.
type guard struct {
	whole []byte
	lo    int
	n     int
}

const canary = 0xC3

func newGuard(t *T, content []byte, n int) *guard {
	lo := t.Choose(4) * 5
	slack := t.Choose(4) * 7
	g := &guard{whole: make([]byte, lo+n+slack), lo: lo, n: n}
	for i := range g.whole {
		g.whole[i] = canary
	}
	copy(g.whole[lo:lo+n], content)
	return g
}

// slice has the slack as spare capacity.
func (g *guard) slice() []byte { return g.whole[g.lo : g.lo+g.n] }

// intact reports whether nothing outside [lo, lo+used) was touched.
func (g *guard) intact(used int) bool {
	for i, c := range g.whole {
		if (i < g.lo || i >= g.lo+used) && c != canary {
			return false
		}
	}
	return true
}

// vandalOpts are the options of a configuration, with everything handed over
// overwritten right afterwards.
func vandalOpts(format flate.Format, rest []flate.Option, dict []byte) []flate.Option {
	opts := append([]flate.Option{flate.WithFormat(format)}, rest...)
	d := append([]byte(nil), dict...)
	if dict == nil {
		d = nil
	}
	opts = append(opts, flate.WithDictionary(d))
	scrub(d)
	return opts
}

// tablesIntact decodes a tiny stream with fixed codes and compares what is
// reported about them.
func tablesIntact(t *T) {
	r := &recorder{t: t}
	dec := Decode(t, "probe", []byte{0x4b, 0x04, 0x00}, RCfg{Format: flate.RawFormat, MLevel: 1}, dst.SourcePlan{ErrAt: -1}, SimpleReads, flate.WithTracers(r))
	t.Check(eofClean(dec.Err) && string(dec.Out) == "a", "tables-changed", "a new decompressor reads %q, %s from a tiny stream with fixed codes", dec.Out, errStr(dec.Err))
	_ = dec.FR.Close()
	res := ref.Parse([]byte{0x4b, 0x04, 0x00}, ref.Options{Format: ref.Raw})
	checkEvents(t, "after overwriting event values: a new decompressor", r.ev, expected(res), totals{}, false, true)
}

// wrun performs ops on a compressor; with spoil, the caller overwrites
// everything it handed over or was given.
func wrun(t *T, name string, ops []Op, spoil bool) (k *dst.Sink, r *recorder, results string) {
	var all []*dst.Sink
	v := &vandal{every: 3}
	v.r.t = t
	r = &v.r
	var tr flate.Tracer = v
	if !spoil {
		r = &recorder{t: t}
		tr = r
	}
	var fw *flate.Writer
	out := &bytes.Buffer{}
	var dicts [][]byte
	var got [][]byte
	for i, op := range ops {
		var err error
		n := 0
		switch op.Kind {
		case OpReset:
			k := t.NewSink(fmt.Sprintf("%s%d", name, i), dst.NoSinkFault())
			all = append(all, k)
			c := op.Cfg
			rest := []flate.Option{flate.WithStrategy(c.Strategy), flate.WithCompressLevel(c.Level), flate.WithMemoryLevel(c.MLevel), flate.WithWindowBits(c.WBits)}
			var opts []flate.Option
			trs := []flate.Tracer{tr}
			if spoil {
				opts = append(vandalOpts(c.Format, rest, c.Dict), flate.WithTracers(trs...))
				trs[0] = flate.NoOpTracer{}
			} else {
				opts = append(c.Opts(), flate.WithTracers(trs...))
			}
			if fw == nil {
				fw = flate.NewWriter(k.W(), opts...)
			} else {
				fw.Reset(k.W(), opts...)
			}
		case OpWrite:
			if !spoil {
				n, err = fw.Write(append([]byte(nil), op.Data...))
				break
			}
			g := newGuard(t, op.Data, len(op.Data))
			n, err = fw.Write(g.slice())
			t.Check(g.intact(len(op.Data)) && bytes.Equal(g.slice(), op.Data), "buffer-modified", "Write(%d) modified the caller's buffer", len(op.Data))
			scrub(g.whole)
		case OpHeader:
			h := CloneHeader(op.Header)
			err = fw.SetHeader(h)
			t.Check(headerString(&h) == headerString(&op.Header), "header-modified", "SetHeader modified the caller's header: %s", clip(headerString(&h), 200))
			if spoil {
				for i := range h.ExtraData.Records {
					scrub(h.ExtraData.Records[i].Bytes)
					h.ExtraData.Records[i].ID = [2]byte{0xEE, 0xEE}
				}
			}
		case OpQuery:
			d := fw.Dict()
			got = append(got, append([]byte(nil), d...))
			dicts = append(dicts, d)
			trs := fw.Tracers()
			if spoil {
				if len(dicts)%2 == 0 {
					scrub(d)
					got[len(got)-1] = append([]byte(nil), d...)
				}
				for i := range trs {
					trs[i] = flate.NoOpTracer{}
				}
			}
		default:
			n, err = apply(fw, op)
		}
		fmt.Fprintf(out, "%d:%d %s ", i, n, errKey(err))
	}
	for i := range dicts {
		t.Check(bytes.Equal(dicts[i], got[i]), "value-changed", "the dictionary returned by query %d changed afterwards", i)
	}
	if d := r.changed(); d != "" {
		t.Fail("value-changed", "compressing: %s", d)
	}
	k = &dst.Sink{}
	for _, s := range all {
		k.Buf = append(k.Buf, s.Buf...)
		fmt.Fprintf(out, "[%d]", len(s.Buf))
	}
	return k, r, out.String()
}

// queries sprinkles accessor calls over a program.
func queries(t *T, ops []Op) []Op {
	var out []Op
	for i, op := range ops {
		out = append(out, op)
		if i == 0 || t.Chance(1, 6) {
			out = append(out, Op{Kind: OpQuery})
		}
	}
	return out
}

func c21Writer(t *T) {
	ops := queries(t, GenProgram(t, ProgOpts{MaxData: 8000, MaxStreams: 3, MaxUses: 3, Headers: true, FlushRate: 3}))
	ka, ra, sa := wrun(t, "plain", ops, false)
	kb, rb, sb := wrun(t, "spoilt", ops, true)
	t.Check(sa == sb, "result-differs", "results with a caller that overwrites its memory differ: %s instead of %s", clip(sb, 400), clip(sa, 400))
	t.Check(bytes.Equal(ka.Buf, kb.Buf), "output-differs", "output with a caller that overwrites its memory differs: %s", diff(ka.Buf, kb.Buf))
	if d := sameEvents(rb.ev, ra.ev); d != "" {
		t.Fail("events-differ", "with a caller that overwrites its memory: %s", d)
	}
	tablesIntact(t)
	if len(ka.Buf) > 0 {
		t.Nontrivial()
	}
	t.State("writer", len(ops), len(ra.ev))
}

// rrun decompresses data; with spoil, the caller overwrites everything it
// handed over or was given.
func rrun(t *T, name string, in Input, sp dst.SourcePlan, rp ReadPlan, spoil bool, stopAt int) (out []byte, r *recorder, results string) {
	v := &vandal{every: 3}
	v.r.t = t
	r = &v.r
	var tr flate.Tracer = v
	if !spoil {
		r = &recorder{t: t}
		tr = r
	}
	src := t.NewSource(name, in.Data, sp)
	trs := []flate.Tracer{tr}
	var opts []flate.Option
	if spoil {
		opts = vandalOpts(in.RC.Format, []flate.Option{flate.WithMemoryLevel(in.RC.MLevel), flate.WithWindowBits(in.RC.WBits)}, in.RC.Dict)
	} else {
		opts = in.RC.Opts()
	}
	opts = append(opts, flate.WithTracers(trs...))
	trs[0] = flate.NoOpTracer{}
	fr := flate.NewReader(src, opts...)
	it := NewReads(rp)
	res := &bytes.Buffer{}
	type old struct {
		g    *guard
		copy []byte
	}
	var olds []old
	for i := 0; ; i++ {
		if i == stopAt {
			_ = fr.Close()
		}
		n := len(it.Next())
		g := newGuard(t, nil, n)
		scrubTo(g.slice(), canary)
		k, err := fr.Read(g.slice())
		if k < 0 || k > n {
			t.Fail("bad-count", "Read(%d) returned %d", n, k)
		}
		t.Check(g.intact(k), "buffer-overrun", "Read(%d) returned %d but wrote outside of these bytes", n, k)
		out = append(out, g.slice()[:k]...)
		if spoil {
			scrubTo(g.slice(), byte(i))
			if i < 200 {
				olds = append(olds, old{g, append([]byte(nil), g.whole...)})
			}
			if i%5 == 0 {
				d := fr.Dict()
				t.Check(bytes.Equal(d, in.RC.Dict), "dict-changed", "Dict() does not return the dictionary that was given")
				scrub(d)
				x := fr.Tracers()
				for j := range x {
					x[j] = flate.NoOpTracer{}
				}
			}
		}
		if err != nil {
			fmt.Fprintf(res, "%s after %d", errKey(err), len(out))
			break
		}
		if i > 200000 {
			t.Fail("no-progress", "no end after %d reads", i)
		}
	}
	_ = fr.Close()
	vsync.Sleep(time.Hour)
	for i, o := range olds {
		t.Check(bytes.Equal(o.g.whole, o.copy), "buffer-modified-later", "the buffer of read %d was modified after Read had returned", i)
	}
	if d := r.changed(); d != "" {
		t.Fail("value-changed", "decompressing: %s", d)
	}
	return out, r, res.String()
}

func scrubTo(b []byte, v byte) {
	for i := range b {
		b[i] = v
	}
}

func c21Reader(t *T) {
	in := DrawInput(t, InputOpts{MaxOut: 12000, MaxStreams: 3})
	if in.Want.Err != nil {
		return
	}
	what := "intact"
	if t.Chance(1, 4) {
		in.Data = damage(t, in.Data)
		what = "damaged"
	}
	rp := DrawReads(t)
	oa, ra, sa := rrun(t, "plain", in, t.DrawSource(), rp, false, -1)
	if what == "intact" {
		t.Check(string(oa) == string(in.Want.Out), "content-differs", "%v: %s", in.RC, diff(in.Want.Out, oa))
	}
	stop := -1
	if t.Chance(1, 5) {
		stop = t.Size(20)
	}
	ob, rb, sb := rrun(t, "spoilt", in, t.DrawSource(), DrawReads(t), true, stop)
	if stop < 0 {
		t.Check(sa == sb, "result-differs", "%v: with a caller that overwrites its memory: %s instead of %s", in.RC, sb, sa)
		t.Check(bytes.Equal(oa, ob), "output-differs", "%v: with a caller that overwrites its memory: %s", in.RC, diff(oa, ob))
		// how much has been handed over at an event depends on timing
		a, b := outline(ra.ev), outline(rb.ev)
		if fmt.Sprint(a) != fmt.Sprint(b) {
			t.Fail("events-differ", "%v: with a caller that overwrites its memory the events differ", in.RC)
		}
	} else {
		t.Check(isPrefix(ob, oa), "output-differs", "%v: delivered before Close: %s", in.RC, diff(oa, ob))
	}
	tablesIntact(t)
	t.Nontrivial()
	rstate(t, in, what)
}

// c21Side: several compressors and decompressors work side by side, partly
// from the same option values; each does what it does alone.
func c21Side(t *T) {
	k := t.Range(2, 4)
	type job struct {
		ops  []Op
		in   Input
		sp   dst.SourcePlan
		rp   ReadPlan
		w    bool
		out  []byte
		res  string
		line string
	}
	var jobs []*job
	for i := 0; i < k; i++ {
		j := &job{w: t.Chance(1, 2)}
		if j.w {
			j.ops = queries(t, GenProgram(t, ProgOpts{MaxData: 5000, MaxStreams: 2, MaxUses: 2, Headers: true, FlushRate: 3}))
			if i > 0 && jobs[i-1].w && t.Chance(1, 3) {
				j.ops = append([]Op{jobs[i-1].ops[0]}, GenProgramTail(t, jobs[i-1].ops[0].Cfg)...)
			}
		} else {
			j.in = DrawInput(t, InputOpts{MaxOut: 5000, MaxStreams: 2})
			if t.Chance(1, 4) {
				j.in.Data = damage(t, j.in.Data)
			}
			j.sp, j.rp = t.DrawSource(), DrawReads(t)
		}
		jobs = append(jobs, j)
	}
	one := func(j *job, name string, spoil bool) (out []byte, res string, line string) {
		if j.w {
			s, r, res := wrun(t, name, j.ops, spoil)
			return s.Buf, res, fmt.Sprint(outline(r.ev))
		}
		o, r, res := rrun(t, name, j.in, j.sp, j.rp, spoil, -1)
		return o, res, fmt.Sprint(outline(r.ev))
	}
	// alone first
	for i, j := range jobs {
		j.out, j.res, j.line = one(j, fmt.Sprintf("alone%d", i), false)
	}
	var fns []func()
	for i, j := range jobs {
		i, j := i, j
		spoil := t.Chance(1, 2)
		fns = append(fns, func() {
			out, res, line := one(j, fmt.Sprintf("side%d", i), spoil)
			t.Check(bytes.Equal(out, j.out), "objects-interfere", "object %d gives a different output when others work at the same time: %s", i, diff(j.out, out))
			t.Check(res == j.res, "objects-interfere", "object %d gives different results when others work at the same time: %s instead of %s", i, clip(res, 300), clip(j.res, 300))
			t.Check(line == j.line, "objects-interfere", "object %d reports different events when others work at the same time", i)
		})
	}
	together(fns...)
	tablesIntact(t)
	t.Nontrivial()
	s := ""
	for _, j := range jobs {
		s += fmt.Sprint(j.w, len(j.ops), " ")
	}
	t.State("side", s)
}

// GenProgramTail draws a short program for a given configuration.
func GenProgramTail(t *T, cfg Cfg) []Op {
	return append(randomGood(t, t.Range(1, 5)), Op{Kind: OpClose})
}

func randomGood(t *T, n int) []Op {
	var ops []Op
	for _, op := range randomOps(t, n, 4000) {
		if op.Kind != OpHeader {
			ops = append(ops, op)
		}
	}
	return ops
}
