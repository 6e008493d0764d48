package props

import (
	"bytes"
	"fmt"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C24", Title: "Output stays small, whatever came before",
		Scenarios: []dst.Named{{"expansion", 4, c24Expansion}, {"redundant", 6, c24Redundant}, {"large", 1, c24Large}},
		Quick:     70000, Thorough: 1600000,
		Rule: "a run counts when the size of a non-empty output was compared with its bound; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

// deflateSize is the size of the DEFLATE part of a stream.
func deflateSize(st *ref.Stream) int { return st.DeflateEnd - st.DeflateStart }

// flushCount counts the calls of a stream that may force a block or a marker.
func flushCount(ms *MStream) (all, full int) {
	for _, op := range ms.Ops {
		switch op.Kind {
		case OpFlush:
			all++
			if op.Flush == flate.FullFlush {
				full++
			}
		}
	}
	return
}

// expansionBound is what n bytes of content may become at worst.  The unit
// that the compressor works on is at least half a kibibyte, and each of them
// costs at most a block header; every flush ends a block and may add a marker.
func expansionBound(c Cfg, n, flushes int) int {
	b := n
	if c.Strategy == flate.FixedStrategy && c.EffLevel() != 0 {
		b = n + n/8 + 1 // nine bits per byte
	}
	return b + 8*(n/512+1) + 16*flushes + 16
}

func c24Check(t *T, d *Drv, uses []*Use) {
	for i, u := range uses {
		res, ms := parseUse(t, u)
		for k, st := range res.Streams {
			fl, _ := flushCount(ms[k])
			n, got := len(st.Out), deflateSize(st)
			bound := expansionBound(u.Cfg, n, fl)
			t.Check(got <= bound, "expansion", "use %d stream %d %v: %d bytes of content in %d flushed parts became %d bytes, more than %d", i, k, u.Cfg, n, fl, got, bound)
			if n > 0 {
				t.Probe(fmt.Sprintf("expansion: %d/8 of the bound", got*8/bound))
				t.Nontrivial()
			}
			t.State("size", u.Cfg.Strategy, int(u.Cfg.Level), int(u.Cfg.MLevel), got*8/bound)
		}
	}
}

func c24Expansion(t *T) {
	ops := GenProgram(t, ProgOpts{MaxData: 40000, MaxStreams: 3, MaxUses: 3, Headers: true, FlushRate: 4})
	d := &Drv{T: t, Name: "w", Strict: true, NewSinkPlan: func(int) dst.SinkPlan { return drawBenignSink(t) }}
	d.RunAll(ops)
	c24Check(t, d, d.Uses)
}

// c24Redundant: content that repeats itself within reach of the matches the
// strategy allows becomes much smaller, also in a compressor with a past.
func c24Redundant(t *T) {
	past := t.Choose(3)
	d := &Drv{T: t, Name: "w", NewSinkPlan: func(use int) dst.SinkPlan {
		if use == past {
			return drawBenignSink(t)
		}
		return faultPlan(t, 1, 3)
	}}
	cfg := DrawCfg(t, CfgLimits{})
	ops := []Op{{Kind: OpReset, Cfg: cfg, Opts: cfg.Opts()}}
	for k := past; k > 0; k-- {
		// a past: other content, other options, perhaps a failed sink
		for _, op := range append(randomOps(t, t.Range(1, 6), 12000), Op{Kind: OpClose}) {
			if op.Kind != OpHeader {
				ops = append(ops, op)
			}
		}
		ncfg, opts := changeCfg(t, cfg, CfgLimits{})
		cfg = ncfg
		ops = append(ops, Op{Kind: OpReset, Cfg: cfg, Opts: opts})
	}
	// the last use decides
	if cfg.EffLevel() == 0 {
		cfg.Level = flate.CompressLevel(t.Range(1, 9))
		last := &ops[len(ops)-1]
		last.Cfg = cfg
		last.Opts = append(append([]flate.Option{}, last.Opts...), flate.WithCompressLevel(cfg.Level))
	}
	rng := dst.NewRNG(t.Seed())
	n := t.Range(2000, 40000)
	long := t.Chance(1, 10)
	if long {
		n = t.Range(40000, 250000)
	}
	data := make([]byte, 0, n)
	div := 1 // what remains of the content, as a fraction
	kind := ""
	window := 1 << uint(cfg.EffWBits())
	limit := window / 2
	if m := 256 << uint(cfg.MLevel); cfg.MLevel != 0 && m < limit {
		limit = m // what the hash table of a small memory level can keep apart
	}
	repeated := func() int {
		k := 1 + t.Size(limit)
		if long && k < limit/4 {
			k = limit / 4
		}
		p := dst.GenData(3, k, t.Seed())
		for len(data) < n {
			data = append(data, p...)
		}
		return len(p)
	}
	perPart := 0
	switch {
	case cfg.Strategy == flate.HuffmanRLEStrategy:
		kind = "runs"
		for len(data) < n {
			c := byte(rng.Uint64())
			for k := 50 + rng.N(500); k > 0; k-- {
				data = append(data, c)
			}
		}
		div = 8
	case cfg.Strategy == flate.HuffmanOnlyStrategy:
		kind = "two symbols"
		a := byte(rng.Uint64())
		for len(data) < n {
			data = append(data, a+byte(rng.N(2)))
		}
		div = 3
	case cfg.Dict != nil && len(cfg.Dict) >= 64 && t.Chance(1, 2):
		kind = "dictionary"
		// pieces of the part of the dictionary that the window holds
		dict := cfg.Dict
		if len(dict) > limit {
			dict = dict[len(dict)-limit:]
		}
		if len(dict) > window/4 {
			n = window / 4
		} else {
			n = 2 * len(dict)
		}
		for len(data) < n {
			data = append(data, dict...)
		}
		data = data[:n]
		div = 4
	default:
		kind = "pattern"
		perPart = repeated()
		div = 24
	}
	if cfg.Strategy == flate.FixedStrategy {
		perPart += perPart / 8
	}
	at := 0
	pieces := t.Pieces(len(data))
	often := 10
	if long && t.Choose(2) == 0 {
		// single flushes, so that each of them counts
		pieces, often = nil, 3
		for left := len(data); left > 0; left -= pieces[len(pieces)-1] {
			pieces = append(pieces, min(left, 1+rng.N(40000)))
		}
	}
	for _, k := range pieces {
		ops = append(ops, Op{Kind: OpWrite, Data: data[at : at+k]})
		at += k
		if kind != "dictionary" && rng.N(often) == 0 {
			ops = append(ops, Op{Kind: OpFlush, Flush: allFlushes[rng.N(4)]})
		} else if rng.N(20) == 0 {
			ops = append(ops, Op{Kind: OpFlush, Flush: flate.FinishFlush})
		}
	}
	ops = append(ops, Op{Kind: OpClose})
	failed := false
	for _, op := range ops {
		if op.Kind == OpReset {
			failed = false
			d.Strict = len(d.Uses) == past
		}
		if !failed && d.Do(op) != nil {
			// give up on this use
			t.Probe("past-failed")
			failed = true
			_ = d.FW.Close()
		}
	}
	u := d.Use()
	res, ms := parseUse(t, u)
	for k, st := range res.Streams {
		fl, full := flushCount(ms[k])
		n := len(st.Out)
		// Each part between full flushes pays for the pattern once, but
		// not more than all of it.
		bound := n/div + 16*(full+1) + 48*(fl+1)
		at := 0
		for _, end := range append(append([]int{}, ms[k].FullData...), n) {
			part := end - at
			part += part / 8
			if p := perPart + perPart/16; p < part {
				part = p
			}
			bound += part
			at = end
		}
		got := deflateSize(st)
		if b := expansionBound(cfg, n, fl); b < bound {
			bound = b
		}
		t.Check(got <= bound, "not-compressed", "%s %v: %d bytes of content (pattern of %d bytes, %d flushes, %d of them full) became %d bytes, more than %d", kind, cfg, n, perPart, fl, full, got, bound)
		t.Probe(fmt.Sprintf("%s: %d/8 of the bound", kind, got*8/bound))
		t.State(kind, fmt.Sprint(got*16/bound), cfg.Strategy, int(cfg.MLevel))
		t.Nontrivial()
	}
}

// c24Large: the same for long content, where blocks reach their largest size.
func c24Large(t *T) {
	ops := largeOps(t)
	cfg := ops[0].Cfg
	if cfg.EffLevel() == 0 {
		cfg.Level = 6
		ops[0] = Op{Kind: OpReset, Cfg: cfg, Opts: cfg.Opts()}
	}
	div, part := 8, 0
	for i := range ops {
		if ops[i].Kind != OpWrite {
			continue
		}
		n := len(ops[i].Data)
		var data []byte
		switch cfg.Strategy {
		case flate.HuffmanOnlyStrategy:
			data, div = dst.GenData(4, n, t.Seed()), 2
		case flate.HuffmanRLEStrategy:
			data = dst.GenData(0, n, 1)
		default:
			part = 100
			if i%2 == 1 {
				data = bytes.Repeat(dst.GenData(3, part, 7), n/part+1)[:n]
			} else {
				data = dst.GenData(0, n, 1)
			}
		}
		ops[i].Data = data
	}
	d := &Drv{T: t, Name: "w", Strict: true}
	d.RunAll(ops)
	res, ms := parseUse(t, d.Use())
	for k, st := range res.Streams {
		fl, full := flushCount(ms[k])
		n := len(st.Out)
		bound := n/div + 2*part*(full+1) + 64*(fl+1) + 16*len(ops)
		got := deflateSize(st)
		t.Check(got <= bound, "not-compressed", "large %v: %d bytes of content (%d flushes, %d of them full) became %d bytes, more than %d", cfg, n, fl, full, got, bound)
		t.Probe(fmt.Sprintf("large: %d/8 of the bound", got*8/bound))
		t.Nontrivial()
	}
}
