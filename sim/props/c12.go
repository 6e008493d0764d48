package props

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vsync"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C12", Title: "Concurrent use of one compressor is atomic per call",
		Scenarios: []dst.Named{{"shared", 5, c12Shared}, {"closing", 3, c12Closing}, {"sink-fault", 3, c12Fault}},
		Quick:     240000, Thorough: 6000000,
		Rule: "a run counts when at least two tasks completed calls on one compressor and their history was checked for linearisability against the decoded output; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
}

// wstep is one planned call of one task.
type wstep struct {
	kind  byte // 'w' write, 'f' flush, 'h' header, 'H' invalid header, 'q' query, 'c' close, 'r' close then reset
	arg   int  // payload or header index
	flush flate.FlushType
	sleep time.Duration
	opts  bool // the reset repeats the options
}

// shared is a compressor used by several tasks.
type shared struct {
	t        *T
	cfg      Cfg
	fw       *flate.Writer
	payloads [][]byte
	headers  []flate.Header
	plans    [][]wstep
	sinks    []*dst.Sink
	hist     *history
	marks    map[*call][]int
	sinkPlan func() dst.SinkPlan
	events   int
	inEvent  bool
	watch    *watch // C15: an additional tracer that keeps what it is handed
	lax      bool   // errors other than the closed error are expected
}

func payload(t *T, id int) []byte {
	n := 6 + t.Size(3000)
	if t.Chance(1, 16) {
		n = 6 + t.Size(80000)
	}
	b := make([]byte, n)
	copy(b[6:], dst.GenData(t.Choose(dst.DataKinds), n-6, t.Seed()))
	b[0], b[1], b[2] = 0xF5, byte(id), byte(id>>8)
	b[3], b[4], b[5] = byte(n), byte(n>>8), byte(n>>16)
	return b
}

// drawShared plans a run.
func drawShared(t *T, closers bool) *shared {
	s := &shared{t: t, marks: map[*call][]int{}}
	s.cfg = DrawCfg(t, CfgLimits{})
	if int(s.cfg.MLevel) > 4 {
		s.cfg.MLevel = 4
	}
	s.headers = []flate.Header{{}}
	n, most := t.Range(2, 4), 6
	if t.Chance(1, 30) {
		n, most = t.Range(5, 20), 2
	}
	for i := 0; i < n; i++ {
		k := t.Range(1, most)
		var plan []wstep
		for j := 0; j < k; j++ {
			var st wstep
			w := []int{6, 3, 1, 1, 1, 0, 0}
			if closers && i == n-1 {
				w[5], w[6] = 1, 2
			}
			switch t.Weighted(w...) {
			case 0:
				st.kind = 'w'
				st.arg = len(s.payloads)
				if t.Chance(1, 12) {
					s.payloads = append(s.payloads, nil)
				} else {
					s.payloads = append(s.payloads, payload(t, st.arg))
				}
			case 1:
				st.kind = 'f'
				st.flush = []flate.FlushType{flate.SyncFlush, flate.FullFlush, flate.PartialFlush, flate.BlockFlush, flate.FinishFlush}[t.Weighted(4, 3, 3, 1, 4)]
			case 2:
				st.kind = 'h'
				st.arg = len(s.headers)
				h := DrawHeader(t)
				s.headers = append(s.headers, h)
			case 3:
				st.kind = 'H'
			case 4:
				st.kind = 'q'
			case 5:
				st.kind = 'c'
			case 6:
				st.kind = 'r'
				st.opts = t.Chance(1, 2)
			}
			if t.Chance(1, 6) {
				st.sleep = time.Duration(1+t.Choose(5)) * time.Millisecond
			}
			plan = append(plan, st)
		}
		s.plans = append(s.plans, plan)
	}
	s.hist = newHistory(n + 1)
	return s
}

func (s *shared) newSink() *dst.Sink {
	p := dst.NoSinkFault()
	if s.sinkPlan != nil {
		p = s.sinkPlan()
	} else {
		p = drawBenignSink(s.t)
	}
	k := s.t.NewSink(fmt.Sprintf("s%d", len(s.sinks)), p)
	s.sinks = append(s.sinks, k)
	return k
}

// OnEvent implements flate.Tracer: calls must not overlap.
func (s *shared) OnEvent(e flate.Event) {
	if s.inEvent {
		s.t.Fail("concurrent-tracer-call", "a tracer was called while it was still handling the previous event")
	}
	s.inEvent = true
	s.events++
	vsync.Yield("tracer")
	s.inEvent = false
}

func (s *shared) mark(c *call) {
	var m []int
	for _, k := range s.sinks {
		m = append(m, len(k.Buf))
	}
	s.marks[c] = m
}

func (s *shared) do(task int, st wstep) {
	t := s.t
	if st.sleep > 0 {
		vsync.Sleep(st.sleep)
	} else {
		vsync.Yield("step")
	}
	switch st.kind {
	case 'w':
		p := s.payloads[st.arg]
		buf := append(make([]byte, 0, len(p)), p...)
		c := s.hist.begin(task, 'w')
		c.arg = st.arg
		c.n, c.err = s.fw.Write(buf)
		s.hist.end(c)
		for i := range buf {
			buf[i] = 0xEE
		}
		vsync.RaceWrite(buf)
		if c.err == nil {
			t.Check(c.n == len(p), "short-write", "Write(%d) returned %d, nil", len(p), c.n)
		}
		t.Log("w%d %d -> %v", st.arg, len(p), c.err)
	case 'f':
		c := s.hist.begin(task, 'f')
		c.arg = int(st.flush)
		c.err = s.fw.Flush(st.flush)
		s.mark(c)
		s.hist.end(c)
		t.Log("flush %v -> %v", st.flush, c.err)
	case 'h':
		h := CloneHeader(s.headers[st.arg])
		c := s.hist.begin(task, 'h')
		c.arg = st.arg
		c.err = s.fw.SetHeader(h)
		s.hist.end(c)
		t.Check(c.err == nil, "header-refused", "a representable header was refused: %s", errStr(c.err))
		// the value handed over is the caller's again
		for i := range h.ExtraData.Records {
			rec := &h.ExtraData.Records[i]
			for j := range rec.Bytes {
				rec.Bytes[j] ^= 0xA5
			}
			vsync.RaceWrite(rec.Bytes)
			rec.ID[0] ^= 0x55
			vsync.RaceWrite(memOf(rec))
		}
	case 'H':
		err := s.fw.SetHeader(flate.Header{FileName: "a/b"})
		t.Check(err != nil, "header-accepted", "a header with a path separator in its file name was accepted")
	case 'q':
		fw := s.fw
		c := s.cfg
		want := fmt.Sprint(c.Format, c.Strategy, c.Level, c.MLevel, c.WBits)
		if want0 := s.defaults(); want0 != "" {
			want = want0
		}
		got := fmt.Sprint(fw.Format(), fw.Strategy(), fw.CompressLevel(), fw.MemoryLevel(), fw.WindowBits())
		t.Check(got == want, "getter-differs", "getters report %s, configured %s", got, want)
		_ = fw.Method()
		d := fw.Dict()
		t.Check(bytes.Equal(d, c.Dict), "getter-differs", "Dict() differs from the configured dictionary")
		for i := range d {
			d[i] ^= 0xff
		}
		vsync.RaceWrite(d)
		tr := fw.Tracers()
		want1 := 1
		if s.watch != nil {
			want1 = 2
			s.watch.look()
		}
		t.Check(len(tr) == want1, "getter-differs", "Tracers() returned %d tracers", len(tr))
		for i := range tr {
			tr[i] = nil
			vsync.RaceWrite(memOf(&tr[i]))
		}
		uw := fw.UnderlyingWriter()
		ok := false
		for _, k := range s.sinks {
			if uw == k.W() {
				ok = true
			}
		}
		t.Check(ok, "getter-differs", "UnderlyingWriter() is none of the sinks")
	case 'c', 'r':
		c := s.hist.begin(task, 'c')
		c.err = s.fw.Close()
		s.mark(c)
		s.hist.end(c)
		t.Log("close -> %v", c.err)
		if st.kind == 'r' && task >= 0 {
			k := s.newSink()
			c := s.hist.begin(task, 'r')
			if st.opts {
				s.fw.Reset(k.W(), s.cfg.Opts()...)
			} else {
				s.fw.Reset(k.W())
			}
			s.hist.end(c)
			t.Log("reset")
		}
	}
}

// defaults maps unset options to what the getters report for them, asked of a
// compressor nobody else uses.
func (s *shared) defaults() string {
	fw := flate.NewWriter(dst.Discard{}, s.cfg.Opts()...)
	return fmt.Sprint(fw.Format(), fw.Strategy(), fw.CompressLevel(), fw.MemoryLevel(), fw.WindowBits())
}

func (s *shared) run() {
	t := s.t
	k := s.newSink()
	tracers := []flate.Tracer{s}
	if s.watch != nil {
		tracers = append(tracers, s.watch)
	}
	s.fw = flate.NewWriter(k.W(), append(s.cfg.Opts(), flate.WithTracers(tracers...))...)
	var fns []func()
	for i := range s.plans {
		i := i
		fns = append(fns, func() {
			for _, st := range s.plans[i] {
				s.do(i, st)
			}
		})
	}
	together(fns...)
	// the last word
	s.do(len(s.plans), wstep{kind: 'c'})
	t.Describe("%d tasks", len(s.plans))
}

// ostream is one observed stream.
type ostream struct {
	use, first, n int
	cands         uint64
}

// observe splits decoded output into whole payloads.
func (s *shared) split(out []byte, what string) []int {
	var ids []int
	for at := 0; at < len(out); {
		rest := out[at:]
		ok := false
		if len(rest) >= 6 && rest[0] == 0xF5 {
			id := int(rest[1]) | int(rest[2])<<8
			if id < len(s.payloads) && len(s.payloads[id]) > 0 && bytes.HasPrefix(rest, s.payloads[id]) {
				ids = append(ids, id)
				at += len(s.payloads[id])
				ok = true
			}
		}
		if !ok {
			s.t.Fail("torn-write", "%s: at offset %d of %d the output is not a whole write payload", what, at, len(out))
		}
	}
	return ids
}

func (s *shared) describe() string {
	var sb strings.Builder
	for i, ops := range s.hist.tasks {
		for _, c := range ops {
			fmt.Fprintf(&sb, " [%d %c%d %d..%d %v]", i, c.kind, c.arg, c.inv, c.ret, c.err)
		}
	}
	return sb.String()
}

// check verifies the history against the output.
func (s *shared) check() {
	t := s.t
	var order []int
	var streams []ostream
	useBase := make([]int, len(s.sinks)+1)
	ends := make([][]int, len(s.sinks)) // cumulative content per use after each write
	for ui, k := range s.sinks {
		useBase[ui] = len(order)
		res := ref.Parse(k.Buf, ref.Options{Format: s.cfg.RefFormat(), Dict: s.cfg.Dict, WindowBits: s.cfg.EffWBits(), Strict: true})
		t.Check(res.Err == nil || (len(k.Buf) == 0), "invalid-output", "%v: output %d of %d bytes is not valid: %v", s.cfg, ui, len(k.Buf), res.Err)
		cum := 0
		for i, st := range res.Streams {
			ids := s.split(st.Out, fmt.Sprintf("output %d stream %d", ui, i))
			o := ostream{use: ui, first: len(order), n: len(ids), cands: ^uint64(0)}
			if s.cfg.RefFormat() == ref.Gzip {
				o.cands = 0
				for h := range s.headers {
					if rawHeaderMismatch(s.headers[h], st) == "" {
						o.cands |= 1 << uint(h)
					}
				}
				t.Check(o.cands != 0, "header-torn", "output %d stream %d: its header (name %q, comment %q) is none of the %d headers that were set", ui, i, st.Name, st.Comment, len(s.headers))
			}
			streams = append(streams, o)
			order = append(order, ids...)
			for _, id := range ids {
				cum += len(s.payloads[id])
				ends[ui] = append(ends[ui], cum)
			}
		}
	}
	useBase[len(s.sinks)] = len(order)
	// each successful write exactly once, failed ones not at all
	count := map[int]int{}
	for _, id := range order {
		count[id]++
	}
	for _, ops := range s.hist.tasks {
		for _, c := range ops {
			if c.err != nil {
				t.Check(errors.Is(c.err, fs.ErrClosed), "unexpected-error", "call %c%d failed without any fault: %s", c.kind, c.arg, errStr(c.err))
			}
			if c.kind == 'w' && len(s.payloads[c.arg]) > 0 {
				want := 1
				if c.err != nil {
					want = 0
				}
				t.Check(count[c.arg] == want, "write-count", "write %d (%d bytes) returned %v but its payload occurs %d times in the output", c.arg, len(s.payloads[c.arg]), c.err, count[c.arg])
			}
		}
	}
	// what could be decoded when a flush returned
	type mk struct{ use, n int }
	cache := map[mk]int{}
	decodable := func(use, n int) int {
		if v, ok := cache[mk{use, n}]; ok {
			return v
		}
		k := s.sinks[use]
		res := ref.Parse(k.Buf[:n], ref.Options{Format: s.cfg.RefFormat(), Dict: s.cfg.Dict, WindowBits: s.cfg.EffWBits()})
		v := 0
		for _, e := range ends[use] {
			if e <= len(res.Out) {
				v++
			}
		}
		v += useBase[use]
		cache[mk{use, n}] = v
		return v
	}
	type state struct {
		nw, stream, use   int
		in, closed, hdrOK bool
		cur               int
	}
	covered := func(st state, c *call) bool {
		m := s.marks[c]
		return st.use < len(m) && st.nw <= decodable(st.use, m[st.use])
	}
	finish := func(st state) []state {
		if st.in {
			o := streams[st.stream]
			if st.nw != o.first+o.n || !st.hdrOK {
				return nil
			}
			st.in = false
			st.stream++
			return []state{st}
		}
		out := []state{st}
		if st.stream < len(streams) {
			if o := streams[st.stream]; o.n == 0 && o.use == st.use && o.cands&(1<<uint(st.cur)) != 0 {
				st.stream++
				out = append([]state{st}, out...)
			}
		}
		return out
	}
	step := func(st state, c *call) []state {
		if c.err != nil { // only the closed error is left
			if st.closed {
				return []state{st}
			}
			return nil
		}
		switch c.kind {
		case 'w':
			if st.closed {
				return nil
			}
			if len(s.payloads[c.arg]) == 0 {
				return []state{st}
			}
			if st.nw >= len(order) || order[st.nw] != c.arg || st.stream >= len(streams) {
				return nil
			}
			o := streams[st.stream]
			if !st.in {
				if o.use != st.use || o.first != st.nw || o.n == 0 {
					return nil
				}
				st.in = true
				st.hdrOK = o.cands&(1<<uint(st.cur)) != 0
			} else if st.nw >= o.first+o.n {
				return nil
			}
			st.nw++
			return []state{st}
		case 'f':
			if st.closed {
				return nil
			}
			ft := flate.FlushType(c.arg)
			if ft != flate.BlockFlush && !covered(st, c) {
				return nil
			}
			if ft == flate.FinishFlush {
				return finish(st)
			}
			return []state{st}
		case 'c':
			if st.closed || !covered(st, c) {
				return nil
			}
			var out []state
			for _, n := range finish(st) {
				n.closed = true
				out = append(out, n)
			}
			return out
		case 'h':
			st.cur = c.arg
			if st.in && streams[st.stream].cands&(1<<uint(c.arg)) != 0 {
				st.hdrOK = true
			}
			return []state{st}
		case 'r':
			if !st.closed {
				return nil
			}
			st.closed = false
			st.use++
			return []state{st}
		}
		return nil
	}
	ok, deepest, complete := linearize(s.hist.tasks, state{}, step, func(st state) bool {
		return st.closed && st.nw == len(order) && st.stream == len(streams)
	}, 200000)
	if !complete {
		t.Probe("linearisation-cut-off")
		return
	}
	t.Check(ok, "not-linearisable", "%v: no order of the calls explains the output (writes %v, streams %v; at most %d calls could be ordered): %s", s.cfg, order, streams, deepest, s.describe())
	t.Nontrivial()
	t.State(s.cfg.Format, len(s.plans), len(streams), len(order))
}

func c12Shared(t *T) {
	s := drawShared(t, false)
	s.run()
	s.check()
}

func c12Closing(t *T) {
	s := drawShared(t, true)
	s.run()
	s.check()
}

// c12Fault: several tasks use one compressor while its sink fails.
func c12Fault(t *T) {
	s := drawShared(t, false)
	s.lax = true
	plan := dst.NoSinkFault()
	plan.Iface = t.Choose(4)
	plan.Err = drawSinkErr(t)
	if t.Chance(1, 2) {
		plan.FailAt = t.Size(4000)
	} else {
		plan.FailCall = t.Size(6)
		plan.Partial = t.Size(300)
	}
	if plan.Iface&1 != 0 && t.Chance(1, 4) {
		plan.FlushFail, plan.FlushErr = t.Choose(4), plan.Err
	}
	plan.Recover = t.Chance(1, 2)
	s.sinkPlan = func() dst.SinkPlan { return plan }
	s.run()
	k := s.sinks[0]
	// the first call that reported the failure
	var firstRet uint64 = ^uint64(0)
	reported := false
	for _, ops := range s.hist.tasks {
		for _, c := range ops {
			if c.kind == 'h' || c.err == nil {
				continue
			}
			if !errors.Is(c.err, fs.ErrClosed) || k.Failed && errors.Is(k.FailErr, fs.ErrClosed) {
				reported = true
				if c.ret < firstRet {
					firstRet = c.ret
				}
			}
		}
	}
	if !k.Failed {
		t.Check(!reported, "spurious-error", "a call failed although the sink did not: %s", s.describe())
		s.check()
		return
	}
	t.Check(reported, "failure-hidden", "the sink failed with %v, no call reported it: %s", k.FailErr, s.describe())
	for i, ops := range s.hist.tasks {
		for _, c := range ops {
			if c.kind == 'h' {
				continue
			}
			if c.inv > firstRet && !(c.kind == 'w' && len(s.payloads[c.arg]) == 0) {
				t.Check(c.err != nil, "failure-forgotten", "task %d: call %c%d began after the failure had been reported and succeeded: %s", i, c.kind, c.arg, s.describe())
			}
		}
	}
	t.Check(k.AfterFailBytes == 0, "write-after-failure", "%d bytes were sent to the sink after it had failed", k.AfterFailBytes)
	// what was accepted decodes to whole writes, the last one possibly cut
	res := ref.Parse(k.Buf, ref.Options{Format: s.cfg.RefFormat(), Dict: s.cfg.Dict, WindowBits: s.cfg.EffWBits()})
	t.Check(res.Err == nil || res.Err.Kind == ref.Truncated, "invalid-output", "%v: the %d accepted bytes: %v", s.cfg, len(k.Buf), res.Err)
	out := res.Out
	seen := map[int]int{}
	var ids []int
	for at := 0; at < len(out); {
		rest := out[at:]
		hit := -1
		for id, p := range s.payloads {
			if len(p) == 0 || seen[id] > 0 {
				continue
			}
			if bytes.HasPrefix(rest, p) || (len(rest) < len(p) && bytes.HasPrefix(p, rest)) {
				hit = id
				break
			}
		}
		if hit < 0 {
			t.Fail("torn-write", "%v: at offset %d of %d the accepted output is not a whole write payload", s.cfg, at, len(out))
		}
		seen[hit]++
		ids = append(ids, hit)
		at += len(s.payloads[hit])
	}
	// real-time order
	pos := map[int]int{}
	for i, id := range ids {
		pos[id] = i
	}
	var ws []*call
	for _, ops := range s.hist.tasks {
		for _, c := range ops {
			if c.kind == 'w' {
				ws = append(ws, c)
			}
		}
	}
	for _, a := range ws {
		for _, b := range ws {
			pa, oka := pos[a.arg]
			pb, okb := pos[b.arg]
			if oka && okb && a.ret < b.inv {
				// a cut tail may be ambiguous between payloads with a common prefix
				if pb == len(ids)-1 || pa == len(ids)-1 {
					continue
				}
				t.Check(pa < pb, "order", "write %d returned before write %d began but follows it in the output", a.arg, b.arg)
			}
		}
	}
	// flushes that succeeded keep their promise for writes before them
	for _, ops := range s.hist.tasks {
		for _, c := range ops {
			if c.kind != 'f' || c.err != nil || flate.FlushType(c.arg) == flate.BlockFlush {
				continue
			}
			img := k.Buf[:s.marks[c][0]]
			r := ref.Parse(img, ref.Options{Format: s.cfg.RefFormat(), Dict: s.cfg.Dict, WindowBits: s.cfg.EffWBits()})
			for _, w := range ws {
				if w.err == nil && w.ret < c.inv && len(s.payloads[w.arg]) > 0 {
					t.Check(bytes.Contains(r.Out, s.payloads[w.arg]), "flushed-data-lost", "write %d completed before a %v that succeeded, but is not among the %d bytes decodable then", w.arg, flate.FlushType(c.arg), len(r.Out))
				}
			}
		}
	}
	t.Nontrivial()
	t.State(s.cfg.Format, plan.Iface, len(ids), k.Calls[k.FailNo].Op)
}
