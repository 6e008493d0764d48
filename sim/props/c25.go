package props

import (
	"errors"
	"io"
	"strings"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C25", Title: "Failures are told apart and located",
		Scenarios: []dst.Named{{"damaged", 4, c25Damaged}, {"flawed", 4, c25Flawed}, {"cut-and-damaged", 2, c25Both}, {"hostile", 1, c25Hostile}, {"reused", 2, c25Reused}},
		Long: []dst.Named{{"long-first", 1, func(t *T) { longFlawed(t, true, flate.ZlibFormat, []string{"checksum", "block"}[t.Choose(2)], 0) }}, {"long-second", 1, func(t *T) {
			longFlawed(t, true, flate.GZIPFormat, []string{"size", "checksum", "block"}[t.Choose(3)], 1)
		}}, {"long-cut", 1, func(t *T) { longFlawed(t, true, flate.GZIPFormat, "cut", t.Choose(2)) }}},
		Quick: 300000, Thorough: 6000000,
		Rule:   "a run counts when the decompressor reported an error that was compared with the reference decoder's verdict in kind and place; distinct by the hash of the event log",
		Real:   []string{"flate.Reader", "huffman, buffer, crc32, adler32"},
		Stub:   []string{"io.Reader (simulated source without errors of its own)", "sync, sync/atomic, the go statement and time (simulated scheduler)", "bufferpool (poisoning pool)"},
		Assume: []string{"code sets with unused codes may be refused where they are defined, or where an unused code is met", "data that ends within bits that begin no code of the set may be called cut short or corrupt", "the place named may lie up to 8 bytes after the point at which the violation is evident"},
	})
}

// verdict the reference gives: what is wrong and where.
type c25Verdict struct {
	kind   ref.Kind
	start  int // of the stream concerned
	lo, hi int // where the problem can be said to be
}

func c25Verdicts(data []byte, o ref.Options) (vs []c25Verdict) {
	for pass := 0; pass < 3; pass++ {
		o.Strict, o.Eager = pass == 1, pass == 2
		r := ref.Parse(data, o)
		if r.Err == nil {
			continue
		}
		st := r.Streams[len(r.Streams)-1]
		v := c25Verdict{kind: r.Err.Kind, start: st.Start, lo: st.Start, hi: r.Err.Pos + 8}
		switch {
		case st.BlocksDone:
			v.lo = st.DeflateEnd
		case len(st.Blocks) > 0:
			v.lo = int(st.Blocks[len(st.Blocks)-1].StartBit >> 3)
		case st.HeaderDone:
			v.lo = st.DeflateStart
		default: // the header is read field by field
			v.hi = r.Err.Pos + 16
		}
		if r.Err.Kind == ref.Truncated {
			v.hi = len(data)
		}
		vs = append(vs, v)
	}
	return
}

// c25Check compares how a decompression failed with why it had to.
func c25Check(t *T, what string, data []byte, rc RCfg, dec Decoded, base int) {
	vs := c25Verdicts(data, rc.RefOpts())
	if eofClean(dec.Err) {
		t.Probe("clean")
		return // C05 decides whether it may
	}
	var c flate.CorruptInputError
	corrupt := errors.As(dec.Err, &c)
	t.Check(corrupt || dec.Err == io.ErrUnexpectedEOF, "unknown-error", "%s, %v: a source without errors, but %s", what, rc, errStr(dec.Err))
	t.Check(len(vs) > 0, "valid-rejected", "%s, %v: the input is valid, but %s", what, rc, errStr(dec.Err))
	if !corrupt {
		ok := false
		for _, v := range vs {
			ok = ok || v.kind == ref.Truncated
		}
		t.Check(ok, "violation-called-truncation", "%s, %v: the input violates the format near byte %d of %d, but %s", what, rc, vs[0].hi-8, len(data), errStr(dec.Err))
		t.Probe("truncated")
		t.Nontrivial()
		t.State(what, rc.Format, "eof", len(vs))
		return
	}
	ok := false
	for _, v := range vs {
		ok = ok || v.kind == ref.Corrupt
	}
	t.Check(ok, "truncation-called-violation", "%s, %v: the input is only cut short, but %s", what, rc, errStr(dec.Err))
	t.Check(strings.TrimSpace(c.Problem) != "" && strings.Contains(dec.Err.Error(), c.Problem), "no-reason", "%s: %s gives no reason", what, errStr(dec.Err))
	total, stream := int(c.OffsetTotal)-base, int(c.OffsetStream)
	t.Check(total <= dec.Src.Pos(), "offset-beyond-input", "%s, %v: %v is said to be at byte %d, but the source has handed over %d", what, rc, dec.Err, total, dec.Src.Pos())
	ok = false
	for _, v := range vs {
		if v.kind == ref.Corrupt && total-stream == v.start && total >= v.lo && total <= v.hi {
			ok = true
		}
	}
	t.Check(ok, "wrong-place", "%s, %v: %s: reported at byte %d of the input, %d of the stream; expected one of {kind stream-start from to} %v", what, rc, errStr(dec.Err), total, stream, vs)
	t.Probe("corrupt")
	t.Nontrivial()
	t.State(what, rc.Format, c.Problem[:min(len(c.Problem), 20)], len(vs), stream != total)
}

func c25Run(t *T, what string, data []byte, rc RCfg) {
	dec := Decode(t, "src", data, rc, t.DrawSource(), DrawReads(t))
	c25Check(t, what, data, rc, dec, 0)
}

func c25Input(t *T) Input {
	in := DrawInput(t, InputOpts{MaxOut: 12000, MaxStreams: 4})
	if in.Want.Err != nil {
		in.Data = nil
	}
	return in
}

func c25Region(t *T, in Input) []int {
	if len(in.Want.Streams) == 0 {
		return nil
	}
	st := in.Want.Streams[t.Choose(len(in.Want.Streams))]
	switch t.Choose(4) {
	case 0:
		return []int{st.Start, st.DeflateStart + 1}
	case 1:
		return []int{max(st.Start, st.DeflateEnd-1), st.End}
	case 2:
		return []int{st.DeflateStart, min(st.DeflateEnd, st.DeflateStart+80)}
	}
	return nil
}

func c25Damaged(t *T) {
	in := c25Input(t)
	if in.Data == nil {
		return
	}
	c25Run(t, "damaged", mutate(t, in.Data, c25Region(t, in)), in.RC)
}

func c25Flawed(t *T) {
	data, rc, flaw := drawBroken(t)
	c25Run(t, flaw, data, rc)
}

func c25Both(t *T) {
	in := c25Input(t)
	if len(in.Data) == 0 {
		return
	}
	data := mutate(t, in.Data, c25Region(t, in))
	c25Run(t, "cut", data[:t.Choose(len(data)+1)], in.RC)
}

func c25Hostile(t *T) {
	rc := drawRC(t)
	data := dst.GenData(t.Choose(dst.DataKinds), t.Size(3000), t.Seed())
	c25Run(t, "hostile", data, rc)
}

// c25Reused: offsets start anew with the stream, whatever the object read before.
func c25Reused(t *T) {
	in := c25Input(t)
	if len(in.Data) == 0 {
		return
	}
	old := in.Data
	if t.Chance(1, 2) {
		old = mutate(t, old, nil)
	}
	dec := Decode(t, "old", old, in.RC, t.DrawSource(), DrawReads(t))
	data, rc, flaw := drawBroken(t)
	src := t.NewSource("src", data, t.DrawSource())
	dec.FR.Reset(src, rc.Opts()...)
	if rc.Dict == nil {
		dec.FR.Reset(src, flate.WithDictionary(nil))
	}
	var b Decoded
	b.Out, b.Err = ReadAll(t, dec.FR, DrawReads(t), 64<<20)
	b.FR, b.Src = dec.FR, src
	// the position in the lifetime of the object goes on from where it was
	var c flate.CorruptInputError
	base := 0
	if errors.As(b.Err, &c) {
		vs := c25Verdicts(data, rc.RefOpts())
		for _, v := range vs {
			if at := v.start + int(c.OffsetStream); v.kind == ref.Corrupt && at >= v.lo && at <= v.hi {
				base = int(c.OffsetTotal) - at
			}
		}
		t.Check(base >= 0 && base <= dec.Src.Pos(), "wrong-place", "reused: %s after %d bytes of earlier input: total %d, stream %d", errStr(b.Err), dec.Src.Pos(), c.OffsetTotal, c.OffsetStream)
	}
	c25Check(t, "reused "+flaw, data, rc, b, base)
}
