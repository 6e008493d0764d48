package props

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"time"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vsync"
)

func init() {
	dst.Register(&dst.Check{
		ID: "C13", Title: "Concurrent readers share the stream without loss or duplication",
		Scenarios: []dst.Named{{"readers", 5, c13Readers}, {"pipe", 2, c13Pipe}, {"closing", 3, c13Closing}},
		Quick:     220000, Thorough: 6000000,
		Rule: "a run counts when two or more tasks (or one task against the background goroutine) read one decompressor to its end and their reads were checked for linearisability against the content; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: assume,
	})
	dst.Register(&dst.Check{
		ID: "C14", Title: "Every call completes; close releases everything",
		Scenarios: []dst.Named{{"close-anywhere", 5, c14Close}, {"endless", 3, c14Endless}, {"before-first-read", 2, c14Before}, {"reset-midstream", 3, c14Reset}, {"writer", 3, c14Writer}, {"readers", 3, c14Readers}},
		Quick:     220000, Thorough: 6000000,
		Lim:  dst.Limits{MaxSteps: 200_000_000, MaxYield: 3_000_000},
		Rule: "a run counts when a close or reset was performed while the object was in use (or a writer's calls all returned) and completion, wake-ups, background tasks and later source accesses were checked; distinct by the hash of the event log",
		Real: realLib, Stub: stubLib, Assume: append(append([]string{}, assume...), "the scheduler is fair: a runnable task is passed over at most 5000 decisions in a row, and a mutex waiter is overtaken at most 24 times"),
	})
}

// ------------------------------------------------------------ shared pieces

// uniqueContent is content in which any eight consecutive bytes occur once.
func uniqueContent(n int, text bool, seed uint64) []byte {
	out := make([]byte, 0, n+16)
	x := uint32(seed) | 1
	for i := uint32(0); len(out) < n; i++ {
		v := (i + 1) * 2654435761 * x
		if text {
			out = append(out, fmt.Sprintf("%07x,", v&0xfffffff)...)
		} else {
			out = append(out, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
		}
	}
	return out[:n]
}

// compressed builds an input by compressing content.
func compressed(t *T, content []byte, lim CfgLimits) Input {
	cfg := DrawCfg(t, lim)
	if cfg.MLevel > 5 {
		cfg.MLevel = 5
	}
	d := &Drv{T: t, Name: "mk", Strict: true}
	d.Do(Op{Kind: OpReset, Cfg: cfg, Opts: cfg.Opts()})
	pieces := t.Pieces(len(content))
	at := 0
	for i, n := range pieces {
		d.Do(Op{Kind: OpWrite, Data: content[at : at+n]})
		at += n
		if i < 20 && t.Chance(1, 6) {
			d.Do(Op{Kind: OpFlush, Flush: []flate.FlushType{flate.SyncFlush, flate.FullFlush, flate.FinishFlush, flate.PartialFlush}[t.Choose(4)]})
		}
	}
	d.Do(Op{Kind: OpClose})
	rc := ReaderFor(t, cfg)
	if rc.MLevel > 4 {
		rc.MLevel = 4
	}
	return Input{Data: d.Use().Sink.Buf, RC: rc, Kind: "unique"}
}

// rdr is a decompressor read by several tasks.
type rdr struct {
	t      *T
	fr     *flate.Reader
	rc     RCfg
	hist   *history
	closed bool // some Close has been invoked
	done   bool // some Close has returned
}

// drawStops decides which readers stop after a number of reads instead of going
// on to the end; the last one always goes on.
func drawStops(t *T, n int) []int {
	out := make([]int, n)
	for i := range out {
		if i+1 < n && t.Chance(1, 3) {
			out[i] = 1 + t.Size(8)
		}
	}
	return out
}

// reader reads until an error, then some more; or stops after a few reads.
func (r *rdr) reader(task int, plan ReadPlan, extra int, stop int) {
	t := r.t
	it := NewReads(plan)
	idle := 0
	for more, k := 0, 0; more <= extra && (stop == 0 || k < stop); k++ {
		p := it.Next()
		c := r.hist.begin(task, 'r')
		c.arg = len(p)
		n, err := r.fr.Read(p)
		c.n, c.err = n, err
		if n < 0 || n > len(p) {
			t.Fail("bad-count", "Read(%d) returned %d", len(p), n)
		}
		c.data = append([]byte(nil), p[:n]...)
		r.hist.end(c)
		t.Log("r%d read(%d) -> %d %v", task, len(p), n, err)
		if err != nil {
			more++
			continue
		}
		if n == 0 && len(p) > 0 {
			idle++
			if idle > 200 {
				t.Fail("no-progress", "Read returned 0, nil 200 times in a row")
			}
		} else {
			idle = 0
		}
	}
}

func (r *rdr) close(task int) {
	c := r.hist.begin(task, 'c')
	r.closed = true
	err := r.fr.Close()
	r.hist.end(c)
	r.done = true
	r.t.Log("close -> %v", err)
	r.t.Check(err == nil, "close-error", "Close returned %s", errStr(err))
}

func (r *rdr) getters(rounds int) {
	t := r.t
	fr := r.fr
	var first string
	for i := 0; i < rounds; i++ {
		d := fr.Dict()
		for j := range d {
			d[j] ^= 0xff
		}
		vsync.RaceWrite(d)
		got := fmt.Sprint(fr.Format(), fr.MemoryLevel(), fr.WindowBits(), len(d), len(fr.Tracers()), fr.UnderlyingReader() != nil)
		if first == "" {
			first = got
		}
		t.Check(got == first, "getter-differs", "getters report %s, before %s", got, first)
		vsync.Sleep(time.Duration(1+i) * time.Millisecond)
	}
}

// check verifies the reads against the content and the terminal error.
func (r *rdr) check(content []byte, terminal error) {
	t := r.t
	total := 0
	for i, ops := range r.hist.tasks {
		last := -1
		for k, c := range ops {
			if c.kind != 'r' {
				continue
			}
			total += c.n
			if c.err != nil && !r.closed {
				t.Check(c.err == terminal, "terminal-error", "task %d: Read returned %s, alone the decompressor ends with %s", i, errStr(c.err), errStr(terminal))
				last = k
			} else if last >= 0 && c.n > 0 && !r.closed {
				t.Fail("data-after-error", "task %d: Read returned %d bytes after it had reported %v", i, c.n, ops[last].err)
			}
		}
	}
	if !r.closed {
		t.Check(total == len(content), "bytes-lost", "the readers received %d bytes together, the content has %d", total, len(content))
	}
	type st struct {
		pos    int
		closed bool
	}
	ok, deepest, complete := linearize(r.hist.tasks, st{}, func(s st, c *call) []st {
		if c.kind == 'c' {
			s.closed = true
			return []st{s}
		}
		if c.n > 0 {
			if s.pos+c.n > len(content) || string(content[s.pos:s.pos+c.n]) != string(c.data) {
				return nil
			}
			s.pos += c.n
		}
		if c.err != nil && !s.closed && s.pos != len(content) {
			return nil
		}
		return []st{s}
	}, nil, 300000)
	if !complete {
		t.Probe("linearisation-cut-off")
		return
	}
	if !ok {
		n := 0
		desc := ""
		for _, ops := range r.hist.tasks {
			for _, c := range ops {
				if n < 40 {
					d := c.data
					if len(d) > 8 {
						d = d[:8]
					}
					desc += fmt.Sprintf(" [%d %c %d..%d n=%d %x %v]", c.task, c.kind, c.inv, c.ret, c.n, d, c.err)
				}
				n++
			}
		}
		t.Fail("not-linearisable", "%v: no order of the reads delivers the %d bytes of content in sequence (at most %d of %d calls could be ordered):%s", r.rc, len(content), deepest, n, desc)
	}
	t.Nontrivial()
}

func c13Plan(t *T, n int) ReadPlan {
	p := DrawReads(t)
	if n > 400 {
		if p.Mode == 1 {
			p.Mode, p.K = 2, 64
		}
		if p.Mode == 2 && p.K < n/100 {
			p.K = n / 100
		}
		if p.Mode == 3 && p.K < n/50 {
			p.K = n / 50
		}
	}
	return p
}

// c13Input draws an input together with its content and terminal error when
// read by one task.
func c13Input(t *T) (in Input, content []byte, terminal error) {
	switch t.Weighted(5, 1, 1) {
	case 0:
		in = compressed(t, uniqueContent(t.Size(12000), t.Chance(1, 2), t.Seed()), CfgLimits{})
	case 1:
		in = DrawInput(t, InputOpts{MaxOut: 4000, MaxStreams: 3})
	case 2:
		in = compressed(t, uniqueContent(t.Size(12000), t.Chance(1, 2), t.Seed()), CfgLimits{NoRaw: true})
		if len(in.Data) > 0 {
			if t.Chance(1, 2) {
				in.Data = mutate(t, in.Data, nil)
			} else {
				in.Data = in.Data[:t.Choose(len(in.Data))]
			}
		}
	}
	if in.RC.MLevel > 4 {
		in.RC.MLevel = 4
	}
	twin := Decode(t, "twin", in.Data, in.RC, dst.SourcePlan{ErrAt: -1}, SimpleReads)
	return in, twin.Out, twin.Err
}

func c13Readers(t *T) {
	r, content, terminal := runReaders(t)
	r.check(content, terminal)
}

// c14Readers: every read returns, also when other readers have lost interest.
func c14Readers(t *T) {
	r, _, _ := runReaders(t)
	t.Check(r.fr.Close() == nil, "close-error", "Close failed")
	closeCheck(t, "readers")
	t.Nontrivial()
}

// consumers draws how many tasks read at once: mostly few, now and then a crowd.
func consumers(t *T, few int) int {
	if t.Chance(1, 30) {
		return t.Range(few+1, 20)
	}
	return t.Range(1, few)
}

func runReaders(t *T) (*rdr, []byte, error) {
	in, content, terminal := c13Input(t)
	n := consumers(t, 4)
	sp := t.DrawSource()
	if t.Chance(1, 5) {
		sp.ErrAt = t.Range(0, len(in.Data))
		sp.Err = drawSrcErr(t)
		twin := Decode(t, "twin2", in.Data, in.RC, dst.SourcePlan{ErrAt: sp.ErrAt, Err: sp.Err}, SimpleReads)
		content, terminal = twin.Out, twin.Err
	}
	src := t.NewSource("src", in.Data, sp)
	r := &rdr{t: t, rc: in.RC, hist: newHistory(n)}
	r.fr = flate.NewReader(src, in.RC.Opts()...)
	var fns []func()
	stops := drawStops(t, n)
	for i := 0; i < n; i++ {
		i, plan, extra := i, c13Plan(t, len(content)), t.Choose(3)
		fns = append(fns, func() { r.reader(i, plan, extra, stops[i]) })
	}
	if t.Chance(1, 3) {
		fns = append(fns, func() { r.getters(4) })
	}
	together(fns...)
	t.State(n, in.RC.Format, int(in.RC.MLevel), terminal == io.EOF)
	return r, content, terminal
}

// c13Pipe: the compressed bytes come through a small pipe from a task that is
// compressing at the same time.
func c13Pipe(t *T) {
	content := uniqueContent(t.Size(12000), t.Chance(1, 2), t.Seed())
	cfg := DrawCfg(t, CfgLimits{})
	if cfg.MLevel > 4 {
		cfg.MLevel = 4
	}
	rc := ReaderFor(t, cfg)
	if rc.MLevel > 4 {
		rc.MLevel = 4
	}
	pipe := t.NewPipe(1 + t.Size(3000))
	pipe.MaxRead = t.Size(400)
	n := consumers(t, 4)
	r := &rdr{t: t, rc: rc, hist: newHistory(n)}
	r.fr = flate.NewReader(pipe, rc.Opts()...)
	pieces := t.Pieces(len(content))
	if len(pieces) > 60 {
		pieces = []int{len(content)}
	}
	fl := t.Range(0, 4)
	fns := []func(){func() {
		fw := flate.NewWriter(pipe, cfg.Opts()...)
		at := 0
		for i, k := range pieces {
			_, err := fw.Write(content[at : at+k])
			t.Check(err == nil, "unexpected-error", "Write: %s", errStr(err))
			at += k
			if fl > 0 && i%fl == 0 {
				err := fw.Flush(flate.SyncFlush)
				t.Check(err == nil, "unexpected-error", "Flush: %s", errStr(err))
			}
		}
		err := fw.Close()
		t.Check(err == nil, "unexpected-error", "Close: %s", errStr(err))
		pipe.CloseWrite()
	}}
	stops := drawStops(t, n)
	for i := 0; i < n; i++ {
		i, plan, extra := i, c13Plan(t, len(content)), t.Choose(3)
		fns = append(fns, func() { r.reader(i, plan, extra, stops[i]) })
	}
	together(fns...)
	r.check(content, io.EOF)
	t.State("pipe", n, rc.Format)
}

// c13Closing: somebody closes while others read.
func c13Closing(t *T) {
	in, content, terminal := c13Input(t)
	n := consumers(t, 3)
	sp := t.DrawSource()
	src := t.NewSource("src", in.Data, sp)
	r := &rdr{t: t, rc: in.RC, hist: newHistory(n + 2)}
	r.fr = flate.NewReader(src, in.RC.Opts()...)
	var fns []func()
	stops := drawStops(t, n)
	for i := 0; i < n; i++ {
		i, plan, extra := i, c13Plan(t, len(content)), t.Choose(3)
		fns = append(fns, func() { r.reader(i, plan, extra, stops[i]) })
	}
	for k := 0; k < 1+t.Choose(2); k++ {
		k, d, y := k, time.Duration(t.Size(4000))*time.Millisecond, t.Size(60)
		fns = append(fns, func() {
			vsync.Sleep(d)
			for i := 0; i < y; i++ {
				vsync.Yield("closer")
			}
			r.close(n + k)
		})
	}
	together(fns...)
	r.check(content, terminal)
	t.State("closing", n, in.RC.Format)
}

// ---------------------------------------------------------------------- C14

// closeCheck asserts what must hold once Close has returned.
func closeCheck(t *T, what string) {
	vsync.Sleep(time.Hour)
	t.Check(vsync.LiveBackground() == 0, "goroutine-leak", "%s: %d background task(s) still alive an hour after Close returned", what, vsync.LiveBackground())
}

// reuse resets a decompressor and reads a fresh input completely.
func reuse(t *T, fr *flate.Reader, rc RCfg) {
	content := uniqueContent(t.Size(3000), true, t.Seed())
	in := compressed(t, content, CfgLimits{})
	rc2 := in.RC
	src := t.NewSource("again", in.Data, t.DrawSource())
	fr.Reset(src, rc2.Opts()...)
	out, err := ReadAll(t, fr, SimpleReads, 64<<20)
	t.Check(eofClean(err) && string(out) == string(content), "reuse-after-close", "after Close and Reset: %s, error %s", diff(content, out), errStr(err))
	t.Check(fr.Close() == nil, "close-error", "Close failed")
	src.Closed = true
	closeCheck(t, "reuse")
	t.Check(src.AfterClose == 0, "source-read-after-close", "the source was read %d times after Close returned", src.AfterClose)
}

func c14Close(t *T) {
	in, content, _ := c13Input(t)
	sp := t.DrawSource()
	if t.Chance(1, 4) {
		sp.ErrAt = t.Range(0, len(in.Data))
		sp.Err = drawSrcErr(t)
	}
	if t.Chance(1, 4) {
		sp.StallEvery = 1
	}
	src := t.NewSource("src", in.Data, sp)
	n := t.Range(0, 3)
	m := t.Range(1, 3)
	r := &rdr{t: t, rc: in.RC, hist: newHistory(n + m + 1)}
	r.fr = flate.NewReader(src, in.RC.Opts()...)
	// a number of reads before anything else
	if t.Chance(1, 2) {
		it := NewReads(c13Plan(t, len(content)))
		k := t.Size(20)
		for i := 0; i < k; i++ {
			if _, err := r.fr.Read(it.Next()); err != nil {
				break
			}
		}
	}
	var fns []func()
	stops := drawStops(t, n)
	for i := 0; i < n; i++ {
		i, plan, extra := i, c13Plan(t, len(content)), t.Choose(3)
		fns = append(fns, func() { r.reader(i, plan, extra, stops[i]) })
	}
	for k := 0; k < m; k++ {
		k, d, y := k, time.Duration(t.Size(4000))*time.Millisecond, t.Size(60)
		fns = append(fns, func() {
			vsync.Sleep(d)
			for i := 0; i < y; i++ {
				vsync.Yield("closer")
			}
			r.close(n + k)
			src.Closed = true
		})
	}
	if t.Chance(1, 3) {
		fns = append(fns, func() { r.getters(4) })
	}
	together(fns...)
	closeCheck(t, "close-anywhere")
	t.Check(src.AfterClose == 0, "source-read-after-close", "the source was read %d times after Close had returned", src.AfterClose)
	if t.Chance(1, 2) {
		t.Check(r.fr.Close() == nil, "close-error", "a further Close failed")
	}
	if t.Chance(1, 3) {
		reuse(t, r.fr, in.RC)
	}
	t.Nontrivial()
	t.State("close", n, m, in.RC.Format, src.Ended)
}

// endless is a source that never ends; every call takes a moment.
type endless struct {
	t      *T
	head   []byte
	unit   []byte
	pos    int
	k      int
	calls  int
	closed bool
	after  int
	busy   bool
}

func (e *endless) Read(p []byte) (int, error) {
	if e.busy {
		e.t.Fail("concurrent-source-read", "source: Read called while another Read is in progress")
	}
	if len(p) == 0 {
		return 0, nil
	}
	e.busy = true
	defer func() { e.busy = false }()
	e.calls++
	if e.closed {
		e.after++
	}
	vsync.Sleep(time.Millisecond)
	n := len(p)
	if n > e.k {
		n = e.k
	}
	for i := 0; i < n; i++ {
		if e.pos < len(e.head) {
			p[i] = e.head[e.pos]
		} else {
			p[i] = e.unit[(e.pos-len(e.head))%len(e.unit)]
		}
		e.pos++
	}
	vsync.RaceWrite(p[:n])
	return n, nil
}

// c14Endless: the source answers for ever, with or without content.
func c14Endless(t *T) {
	e := &endless{t: t, k: 1 + t.Size(300)}
	rc := RCfg{MLevel: flate.MemoryLevel(t.Range(1, 3)), WBits: 15}
	kind := t.Choose(7)
	switch kind {
	case 0: // empty gzip members
		rc.Format = flate.GZIPFormat
		e.unit = []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	case 1: // empty stored blocks
		rc.Format = flate.RawFormat
		e.unit = []byte{0, 0, 0, 0xff, 0xff}
	case 2: // empty static blocks (10 bits each: four of them are five bytes)
		rc.Format = flate.RawFormat
		w := &bitw{}
		for i := 0; i < 4; i++ {
			w.put(2, 3)
			w.put(0, 7)
		}
		e.unit = w.b
	case 3: // content for ever
		rc.Format = flate.ZlibFormat
		e.head = []byte{0x78, 0x9c}
		e.unit = append([]byte{0, 50, 0, 205, 255}, uniqueContent(50, true, 1)...)
	case 4: // a file name without end
		rc.Format = flate.GZIPFormat
		e.head = []byte{0x1f, 0x8b, 8, 8, 0, 0, 0, 0, 0, 255}
		e.unit = []byte{'x'}
	case 5: // empty zlib streams
		rc.Format = flate.DefaultFormat
		e.unit = []byte{0x78, 0x9c, 3, 0, 0, 0, 0, 1}
	case 6: // matches for ever in one static block: 'a', then length 258 distance 1
		rc.Format = flate.RawFormat
		w := &bitw{}
		w.put(2, 3)
		w.put(rev(0x30+'a', 8), 8)
		for len(w.b) < 13*40 {
			w.put(rev(0xC0+285-280, 8), 8)
			w.put(0, 5)
		}
		e.head = w.b[:1]
		e.unit = w.b[14 : 14+13*20]
	}
	n := consumers(t, 3)
	m := t.Range(1, 2)
	r := &rdr{t: t, rc: rc, hist: newHistory(n + m)}
	r.fr = flate.NewReader(e, rc.Opts()...)
	var fns []func()
	for i := 0; i < n; i++ {
		i := i
		plan := ReadPlan{Mode: 2, K: 64 + t.Size(2000)}
		stop := t.Size(60)
		fns = append(fns, func() {
			if stop%3 != 0 {
				stop = 0
			}
			// or a reader that stops caring: the background work stays blocked
			r.reader(i, plan, 1, stop)
		})
	}
	for k := 0; k < m; k++ {
		k, d := k, time.Duration(t.Size(200))*time.Millisecond
		fns = append(fns, func() {
			vsync.Sleep(d)
			r.close(n + k)
			e.closed = true
		})
	}
	together(fns...)
	closeCheck(t, "endless")
	t.Check(e.after == 0, "source-read-after-close", "the source was read %d times after Close had returned", e.after)
	t.Probe(fmt.Sprintf("endless-%d", kind))
	if t.Chance(1, 3) {
		reuse(t, r.fr, rc)
	}
	t.Nontrivial()
	t.State("endless", kind, n, m)
}

func rev(v uint64, n uint) uint64 {
	var o uint64
	for i := uint(0); i < n; i++ {
		o = o<<1 | (v>>i)&1
	}
	return o
}

// c14Before: Close arrives before, or together with, the first Read.
func c14Before(t *T) {
	content := uniqueContent(t.Size(3000), true, t.Seed())
	in := compressed(t, content, CfgLimits{})
	src := t.NewSource("src", in.Data, t.DrawSource())
	r := &rdr{t: t, rc: in.RC, hist: newHistory(3)}
	r.fr = flate.NewReader(src, in.RC.Opts()...)
	if t.Chance(1, 3) {
		r.close(0)
		src.Closed = true
		if t.Chance(1, 2) {
			r.close(0)
		}
	} else {
		y := t.Size(30)
		together(func() {
			for i := 0; i < y; i++ {
				vsync.Yield("closer")
			}
			r.close(0)
			src.Closed = true
		}, func() { r.reader(1, SimpleReads, 1, 0) })
	}
	closeCheck(t, "before-first-read")
	t.Check(src.AfterClose == 0, "source-read-after-close", "the source was read %d times after Close had returned", src.AfterClose)
	if t.Chance(1, 2) {
		reuse(t, r.fr, in.RC)
	}
	t.Nontrivial()
	t.State("before", in.RC.Format, src.Calls > 0)
}

// c14Reset: Reset while the background work is anywhere in the old stream.
func c14Reset(t *T) {
	in, content, _ := c13Input(t)
	rounds := t.Range(1, 4)
	src := t.NewSource("src0", in.Data, t.DrawSource())
	fr := flate.NewReader(src, in.RC.Opts()...)
	for i := 0; i < rounds; i++ {
		k := t.Size(12)
		it := NewReads(c13Plan(t, len(content)))
		for j := 0; j < k; j++ {
			if _, err := fr.Read(it.Next()); err != nil {
				break
			}
		}
		if t.Chance(1, 2) {
			// let the background work run until it blocks
			vsync.Sleep(time.Duration(1+t.Choose(3000)) * time.Millisecond)
		}
		if t.Chance(1, 4) {
			t.Check(fr.Close() == nil, "close-error", "Close failed")
		}
		old := src
		if i+1 == rounds {
			break
		}
		in, content, _ = c13Input(t)
		src = t.NewSource(fmt.Sprintf("src%d", i+1), in.Data, t.DrawSource())
		fr.Reset(src, in.RC.Opts()...)
		old.Closed = true
		defer func() {
			t.Check(old.AfterClose == 0, "source-read-after-reset", "the old source was read %d times after Reset had returned", old.AfterClose)
		}()
		if t.Chance(1, 2) {
			vsync.Sleep(time.Hour)
			t.Check(vsync.LiveBackground() <= 1, "goroutine-leak", "%d background tasks alive after Reset", vsync.LiveBackground())
		}
	}
	reuse(t, fr, in.RC)
	t.Nontrivial()
	t.State("reset", rounds, in.RC.Format)
}

// c14Writer: all calls on a compressor return, whatever the sink does and
// whoever calls; after Close every call says so.
func c14Writer(t *T) {
	s := drawShared(t, t.Chance(1, 2))
	plan := dst.NoSinkFault()
	plan.Iface = t.Choose(4)
	plan.StallEvery = 1 + t.Choose(3)
	plan.Seed = t.Seed()
	if t.Chance(1, 3) {
		plan.FailAt = t.Size(4000)
		plan.Err = drawSinkErr(t)
	}
	s.sinkPlan = func() dst.SinkPlan { return plan }
	s.run()
	for i := 0; i < 2; i++ {
		err := s.fw.Close()
		t.Check(errors.Is(err, fs.ErrClosed), "closed-not-reported", "Close after Close returned %s", errStr(err))
		_, err = s.fw.Write([]byte("x"))
		t.Check(errors.Is(err, fs.ErrClosed), "closed-not-reported", "Write after Close returned %s", errStr(err))
		err = s.fw.Flush(flate.SyncFlush)
		t.Check(errors.Is(err, fs.ErrClosed), "closed-not-reported", "Flush after Close returned %s", errStr(err))
	}
	closeCheck(t, "writer")
	// and it can be used again
	k := t.NewSink("again", dst.NoSinkFault())
	s.fw.Reset(k.W())
	content := uniqueContent(200, true, 7)
	_, err := s.fw.Write(content)
	t.Check(err == nil, "reuse-after-close", "Write after Reset: %s", errStr(err))
	err = s.fw.Close()
	t.Check(err == nil, "reuse-after-close", "Close after Reset: %s", errStr(err))
	res := ref.Parse(k.Buf, ref.Options{Format: s.cfg.RefFormat(), Dict: s.cfg.Dict, WindowBits: s.cfg.EffWBits(), Strict: true})
	t.Check(res.Err == nil && string(res.Out) == string(content), "reuse-after-close", "after Close and Reset the output decodes to %s (%v)", diff(content, res.Out), res.Err)
	t.Nontrivial()
	t.State("writer", plan.Iface, plan.FailAt >= 0)
}
