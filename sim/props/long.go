package props

import (
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"errors"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"io"
	"runtime"
	"runtime/debug"

	stdflate "compress/flate"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
	"verif.local/sim/vsync"
)

// Long runs: made once per check, each in a process of its own.  They take
// counters past every power of two a 32-bit or 16-bit number ends at.

const longBytes = 1<<32 + 1<<20

// period is content whose position can be told from any byte offset.
func period(seed uint64, n int) []byte {
	r := dst.NewRNG(seed)
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(r.N(256))
	}
	return p
}

// periodCheck compares data with the repetition of a period.
type periodCheck struct {
	p    []byte
	pos  uint64
	fail string
}

func (c *periodCheck) Write(b []byte) (int, error) {
	n := len(b)
	for len(b) > 0 {
		at := int(c.pos % uint64(len(c.p)))
		k := len(c.p) - at
		if k > len(b) {
			k = len(b)
		}
		if c.fail == "" && !bytes.Equal(b[:k], c.p[at:at+k]) {
			c.fail = fmt.Sprintf("content differs between offset %d and %d", c.pos, c.pos+uint64(k))
		}
		c.pos += uint64(k)
		b = b[k:]
	}
	return n, nil
}

// only evaluates a check in the property it belongs to.
func only(t *T, prop string, ok bool, kind, format string, v ...interface{}) {
	if t.Prop == prop {
		t.Check(ok, kind, format, v...)
	}
}

// longTrace keeps the last event and checks the counters as they grow.
type longTrace struct {
	t          *T
	writer     bool
	e          flate.Event
	n          int
	blocks     int
	baseZ      uint64
	baseD      uint64
	ends       [][2]uint64 // compressed and uncompressed size of each closed stream
	zAt, zSlop uint64      // what the sink had accepted
}

func (l *longTrace) OnEvent(e flate.Event) {
	t := l.t
	z, d, zt, dt := e.InputBytesStream, e.OutputBytesStream, e.InputBytesTotal, e.OutputBytesTotal
	if l.writer {
		z, d, zt, dt = d, z, dt, zt
	}
	if l.n > 0 {
		p := &l.e
		only(t, "C17", e.InputBytesTotal >= p.InputBytesTotal && e.OutputBytesTotal >= p.OutputBytesTotal, "event-wrong", "totals went down from %d/%d to %d/%d at event %d", p.InputBytesTotal, p.OutputBytesTotal, e.InputBytesTotal, e.OutputBytesTotal, l.n)
		if e.Type != flate.StreamBeginEvent {
			only(t, "C17", e.InputBytesStream >= p.InputBytesStream && e.OutputBytesStream >= p.OutputBytesStream, "event-wrong", "counters of the stream went down from %d/%d to %d/%d at event %d", p.InputBytesStream, p.OutputBytesStream, e.InputBytesStream, e.OutputBytesStream, l.n)
		}
	}
	only(t, "C17", int(e.NumStreams) == len(l.ends)+1, "event-wrong", "event %d (%v) has stream number %d, expected %d", l.n, e.Type, e.NumStreams, len(l.ends)+1)
	only(t, "C17", zt == l.baseZ+z, "event-wrong", "event %d (%v) counts %d compressed bytes in total, %d in the stream and %d before it", l.n, e.Type, zt, z, l.baseZ)
	only(t, "C17", dt >= l.baseD+d, "event-wrong", "event %d (%v) counts %d uncompressed bytes in total, %d in the stream and %d before it", l.n, e.Type, dt, d, l.baseD)
	if e.Type == flate.BlockEndEvent {
		l.blocks++
	}
	if e.Type == flate.StreamCloseEvent {
		l.ends = append(l.ends, [2]uint64{z, d})
		l.baseZ += z
		l.baseD += d
	}
	l.e = e
	l.n++
}

// countSink passes what is written to an independent decompressor, which runs
// outside of the simulation (its result depends on the bytes only).
type countSink struct {
	w io.Writer
	n uint64
}

func (s *countSink) Write(p []byte) (int, error) {
	vsync.Yield("sink")
	s.n += uint64(len(p))
	return s.w.Write(p)
}

// longWriter compresses more than 4 GiB, in one call or in many, as the first
// of two streams.
func longWriter(t *T, oneCall bool, format flate.Format) {
	tr := &longTrace{t: t, writer: true}
	pr, pw := io.Pipe()
	sink := &countSink{w: pw}
	p := period(t.Seed(), 1<<20)
	if oneCall {
		p = make([]byte, 1<<20)
	}
	check := &periodCheck{p: p}
	type result struct {
		err   error
		sizes []uint64
	}
	done := make(chan result, 1)
	go func() {
		var r result
		r.err = func() error {
			br := &byteReader{r: pr}
			for k := 0; k < 2; k++ {
				check.pos = 0
				var zr io.Reader
				var err error
				if format == flate.GZIPFormat {
					var g *gzip.Reader
					if g, err = gzip.NewReader(br); err == nil {
						g.Multistream(false)
						zr = g
					}
				} else {
					zr, err = zlib.NewReader(br)
				}
				if err != nil {
					return fmt.Errorf("stream %d: %w", k, err)
				}
				if _, err := io.CopyBuffer(check, onlyReader{zr}, make([]byte, 1<<16)); err != nil {
					return fmt.Errorf("stream %d at content offset %d: %w", k, check.pos, err)
				}
				if check.fail != "" {
					return fmt.Errorf("stream %d: %s", k, check.fail)
				}
				r.sizes = append(r.sizes, check.pos)
			}
			if _, err := br.ReadByte(); err != io.EOF {
				return fmt.Errorf("data follows the second stream")
			}
			return nil
		}()
		_ = pr.CloseWithError(io.ErrClosedPipe)
		done <- r
	}()
	fw := flate.NewWriter(sink, flate.WithFormat(format), flate.WithCompressLevel(0), flate.WithTracers(tr))
	want := []uint64{longBytes + uint64(t.Choose(1<<20)), 1 + uint64(t.Choose(1<<20))}
	var werr error
	for k, n := range want {
		for left := n; left > 0 && werr == nil; {
			b := p
			if oneCall && k == 0 {
				if b = zeros(left); b == nil {
					// no such slice on this platform
					b = zeros(1<<31 - 1<<16)
				}
			}
			if uint64(len(b)) > left {
				b = b[:left]
			}
			var m int
			m, werr = fw.Write(b)
			if werr == nil {
				t.Check(m == len(b), "bad-count", "Write of %d bytes returned %d without an error", len(b), m)
			}
			left -= uint64(len(b))
			if done := n - left; werr == nil && k == 0 {
				only(t, "C23", sink.n+8<<20 > done, "keeps-too-much", "%d bytes were written and %d have arrived at the sink", done, sink.n)
			}
		}
		if werr == nil && k == 0 {
			werr = fw.Flush(flate.FinishFlush)
		}
	}
	cerr := fw.Close()
	_ = pw.Close()
	r := <-done
	t.Check(r.err == nil, "invalid-output", "%v: an independent decoder of %v bytes at level 0 says: %v", format, want, r.err)
	t.Check(werr == nil && cerr == nil, "unexpected-error", "%v: compressing %v bytes fails without any fault: %v %v", format, want, werr, cerr)
	t.Check(fmt.Sprint(r.sizes) == fmt.Sprint(want), "content-differs", "%v: %v bytes were written, an independent decoder finds %v", format, want, r.sizes)
	only(t, "C17", len(tr.ends) == 2, "event-missing", "%d of 2 streams were reported as closed", len(tr.ends))
	for k := range want {
		if len(tr.ends) != 2 {
			break
		}
		only(t, "C17", tr.ends[k][1] == want[k], "event-wrong", "%v: stream %d has %d bytes of content, its last event counts %d", format, k, want[k], tr.ends[k][1])
	}
	only(t, "C17", tr.baseZ == sink.n, "event-wrong", "%v: %d bytes were emitted, the events count %d", format, sink.n, tr.baseZ)
	only(t, "C24", sink.n < want[0]+want[0]/512+1<<22, "too-large", "%v: %d bytes at level 0 became %d", format, want[0], sink.n)
	t.Nontrivial()
	t.Describe("long writer")
	t.State("long-writer", format, oneCall)
}

type onlyReader struct{ io.Reader }

// byteReader is a buffered reader that never takes more than asked for from
// the decoders' point of view.
type byteReader struct {
	r   io.Reader
	buf [1 << 15]byte
	b   []byte
}

func (r *byteReader) fill() error {
	for len(r.b) == 0 {
		n, err := r.r.Read(r.buf[:])
		r.b = r.buf[:n]
		if n == 0 && err != nil {
			return err
		}
	}
	return nil
}

func (r *byteReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if err := r.fill(); err != nil {
		return 0, err
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func (r *byteReader) ReadByte() (byte, error) {
	if err := r.fill(); err != nil {
		return 0, err
	}
	c := r.b[0]
	r.b = r.b[1:]
	return c, nil
}

var zeroPages []byte

// zeros returns n zero bytes, nil if a slice cannot be that long here.
func zeros(n uint64) []byte {
	if n > uint64(^uint(0)>>1)/2 {
		if ^uint(0)>>32 == 0 {
			return nil
		}
	}
	if uint64(len(zeroPages)) < n {
		zeroPages = make([]byte, n)
	}
	return zeroPages[:n]
}

// genSource makes up its data as it is read.
type genSource struct {
	next func() []byte // nil at the end
	cur  []byte
	pos  uint64
}

func (s *genSource) Read(p []byte) (int, error) {
	vsync.Yield("src")
	for len(s.cur) == 0 {
		if s.cur = s.next(); s.cur == nil {
			return 0, io.EOF
		}
	}
	n := copy(p, s.cur)
	s.cur = s.cur[n:]
	s.pos += uint64(n)
	return n, nil
}

// longReader decompresses a stream of more than 4 GiB followed by a short one.
// With dense, the stream itself is longer than 4 GiB, too.
func longReader(t *T, dense bool, format flate.Format) { longFlawed(t, dense, format, "", 0) }

// longFlawed is longReader with something wrong at the end of one stream.
func longFlawed(t *T, dense bool, format flate.Format, flaw string, bad int) {
	// 2^32 falls into the middle of a period: with matches over a distance of
	// 20000 around it, unless the content is stored
	const size = 1<<20 - 4099
	p := period(t.Seed(), size)
	if !dense {
		for i := 20000; i < len(p); i++ {
			p[i] = p[i-20000]
		}
	}
	var chunk bytes.Buffer
	level := 1
	if dense {
		level = 0
	}
	zw, _ := stdflate.NewWriter(&chunk, level)
	_, _ = zw.Write(p)
	_ = zw.Flush()
	repeats := []uint64{longBytes/size + 1, 2}
	sizes := []uint64{repeats[0] * size, repeats[1] * size}
	stream, part := 0, uint64(0)
	crc, adl := uint32(0), adler32.New()
	z := []uint64{0, 0}
	count2 := func(k int, b []byte) []byte { z[k] += uint64(len(b)); return b }
	count := func(b []byte) []byte { return count2(stream, b) }
	src := &genSource{}
	src.next = func() []byte {
		if stream == 2 {
			return nil
		}
		if part == 0 {
			part = 1
			crc = 0
			adl.Reset()
			if format == flate.GZIPFormat {
				return count([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3})
			}
			return count([]byte{0x78, 0x9c})
		}
		if part <= repeats[stream] {
			part++
			if format == flate.GZIPFormat {
				crc = crc32.Update(crc, crc32.IEEETable, p)
			} else {
				_, _ = adl.Write(p)
			}
			return count(chunk.Bytes())
		}
		if flaw == "cut" && stream == bad {
			stream = 2
			return nil
		}
		if flaw == "block" && stream == bad {
			stream = 2
			return count2(bad, []byte{7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
		}
		end := []byte{3, 0}
		if flaw == "checksum" && stream == bad {
			crc ^= 1 << 20
			_, _ = adl.Write([]byte{1})
		}
		if format == flate.GZIPFormat {
			n := uint32(sizes[stream])
			if flaw == "size" && stream == bad {
				n ^= 1 << 30
			}
			end = append(end, byte(crc), byte(crc>>8), byte(crc>>16), byte(crc>>24), byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
		} else {
			a := adl.Sum32()
			end = append(end, byte(a>>24), byte(a>>16), byte(a>>8), byte(a))
		}
		end = count(end)
		part = 0
		stream++
		return end
	}
	tr := &longTrace{t: t}
	fr := flate.NewReader(src, flate.WithFormat(format), flate.WithTracers(tr))
	check := &periodCheck{p: p}
	buf := make([]byte, 1<<16+t.Choose(1<<16))
	var err error
	for err == nil {
		var n int
		n, err = fr.Read(buf)
		_, _ = check.Write(buf[:n])
		lag := src.pos - check.pos
		only(t, "C23", !dense || src.pos < check.pos || lag < 8<<20+check.pos/1000, "takes-too-much", "%d bytes were taken from the source when %d bytes of stored content had been delivered", src.pos, check.pos)
	}
	if flaw != "" {
		what := fmt.Sprintf("%v, %v bytes of content, %q in stream %d", format, sizes, flaw, bad)
		all := sizes[0]
		if bad == 1 {
			all += sizes[1]
		}
		t.Check(check.fail == "", "content-differs", "%s: %s", what, check.fail)
		t.Check(err != io.EOF, "passes-as-good", "%s: clean end of file after %d bytes", what, check.pos)
		t.Check(check.pos == all, "content-differs", "%s: %d bytes of content were delivered before %s", what, check.pos, errStr(err))
		only(t, "C17", len(tr.ends) == bad, "event-wrong", "%s: %d streams were reported as closed", what, len(tr.ends))
		var c flate.CorruptInputError
		if flaw == "cut" {
			t.Check(err == io.ErrUnexpectedEOF, "wrong-error", "%s: %s", what, errStr(err))
		} else {
			t.Check(errors.As(err, &c), "wrong-error", "%s: %s", what, errStr(err))
			hi := z[bad]
			lo := hi - 12
			total, stream := c.OffsetTotal, c.OffsetStream
			before := uint64(0)
			if bad == 1 {
				before = z[0]
			}
			only(t, "C25", stream >= lo && stream <= hi && total == before+stream, "wrong-place", "%s: reported at byte %d of the input, %d of the stream; expected %d..%d of the stream that starts at %d", what, total, stream, lo, hi, before)
		}
		_ = fr.Close()
		t.Nontrivial()
		t.State("long-flawed", format, dense, flaw, bad)
		return
	}
	t.Check(err == io.EOF, "valid-rejected", "%v: a valid input with %v bytes of content ends with %s after %d bytes", format, sizes, errStr(err), check.pos)
	t.Check(check.pos == sizes[0]+sizes[1] && check.fail == "", "content-differs", "%v: %d bytes of content were delivered of %v; %s", format, check.pos, sizes, check.fail)
	only(t, "C17", len(tr.ends) == 2, "event-missing", "%d of 2 streams were reported as closed", len(tr.ends))
	for k := range sizes {
		if len(tr.ends) != 2 {
			break
		}
		only(t, "C17", tr.ends[k] == [2]uint64{z[k], sizes[k]}, "event-wrong", "%v: stream %d has %d compressed bytes and %d of content, its last event counts %d and %d", format, k, z[k], sizes[k], tr.ends[k][0], tr.ends[k][1])
	}
	_ = fr.Close()
	t.Nontrivial()
	t.State("long-reader", format, dense)
}

// longMembers decompresses more streams than 16 bits count.
func longMembers(t *T) {
	r := dst.NewRNG(t.Seed())
	fs := []ref.Format{ref.Gzip, ref.Zlib}
	f := fs[t.Choose(2)]
	var members [16]*GenStream
	for i := range members {
		members[i] = genStream(r, f, 15, nil, 40)
	}
	total := 1<<16 + 3000
	var all []*GenStream
	var want []byte
	for i := 0; i < total; i++ {
		m := members[r.N(len(members))]
		all = append(all, m)
		want = append(want, m.Out...)
	}
	k := 0
	src := &genSource{next: func() []byte {
		if k == len(all) {
			return nil
		}
		k++
		return all[k-1].Bytes
	}}
	tr := &longTrace{t: t}
	fr := flate.NewReader(src, flate.WithFormat(flate.DefaultFormat), flate.WithTracers(tr))
	var got []byte
	buf := make([]byte, 5000)
	var err error
	for err == nil {
		var n int
		n, err = fr.Read(buf)
		got = append(got, buf[:n]...)
	}
	t.Check(err == io.EOF, "valid-rejected", "%d concatenated streams: ends with %s in stream %d", total, errStr(err), len(tr.ends))
	t.Check(bytes.Equal(got, want), "content-differs", "%d concatenated streams: %s", total, diff(want, got))
	only(t, "C17", len(tr.ends) == total, "event-missing", "%d of %d streams were reported as closed", len(tr.ends), total)
	for i, m := range all {
		if len(tr.ends) != total {
			break
		}
		only(t, "C17", tr.ends[i] == [2]uint64{uint64(len(m.Bytes)), uint64(len(m.Out))}, "event-wrong", "stream %d has %d compressed bytes and %d of content, its last event counts %d and %d", i, len(m.Bytes), len(m.Out), tr.ends[i][0], tr.ends[i][1])
	}
	_ = fr.Close()
	t.Nontrivial()
	t.State("long-members", f)
}

// longResets uses one Writer and one Reader more often than 16 bits count;
// each use must do what a first use does.
func longResets(t *T) {
	total := 1<<16 + 3000
	r := dst.NewRNG(t.Seed())
	type use struct {
		cfg  Cfg
		data []byte
		out  []byte
	}
	var uses []use
	for _, f := range []flate.Format{flate.GZIPFormat, flate.ZlibFormat, flate.RawFormat} {
		for _, level := range []flate.CompressLevel{0, 1, 6} {
			u := use{cfg: Cfg{Format: f, Level: level, MLevel: 1, WBits: 8}, data: dst.GenData(r.N(dst.DataKinds), 1+r.N(40), uint64(r.N(1<<30)))}
			var b bytes.Buffer
			fw := flate.NewWriter(&b, u.cfg.Opts()...)
			_, _ = fw.Write(u.data)
			_ = fw.Close()
			u.out = b.Bytes()
			uses = append(uses, u)
		}
	}
	var b bytes.Buffer
	fw := flate.NewWriter(&b, uses[0].cfg.Opts()...)
	fr := flate.NewReader(bytes.NewReader(nil))
	got := make([]byte, 100)
	for i := 0; i < total; i++ {
		u := &uses[r.N(len(uses))]
		b.Reset()
		if i > 0 {
			fw.Reset(&b, u.cfg.Opts()...)
		} else {
			u = &uses[0]
		}
		n, err := fw.Write(u.data)
		t.Check(n == len(u.data) && err == nil, "unexpected-error", "use %d: Write of %d bytes returns %d %v", i, len(u.data), n, err)
		if r.N(50) == 0 && i > 0 {
			_ = fw.Flush(flate.SyncFlush)
			_ = fw.Close()
		} else {
			err = fw.Close()
			t.Check(err == nil && bytes.Equal(b.Bytes(), u.out), "reset-differs", "use %d: %v: %v, a new Writer emits %x, this one %x", i, u.cfg, err, u.out, b.Bytes())
		}
		fr.Reset(bytes.NewReader(u.out), flate.WithFormat(u.cfg.Format), flate.WithWindowBits(8), flate.WithMemoryLevel(1))
		if r.N(50) == 0 {
			_, _ = fr.Read(got[:1])
			if r.N(2) == 0 {
				_ = fr.Close()
			}
			continue
		}
		m := 0
		for err == nil {
			n, err = fr.Read(got[m:])
			m += n
		}
		t.Check(err == io.EOF && bytes.Equal(got[:m], u.data), "reset-differs", "use %d: %v: decompressing %x gives %x and %v, expected %x", i, u.cfg, u.out, got[:m], err, u.data)
	}
	_ = fr.Close()
	t.Nontrivial()
	t.State("long-resets")
}

// longFlushes makes more flushes in one stream than 16 bits count.
func longFlushes(t *T) {
	total := 1<<16 + 3000
	r := dst.NewRNG(t.Seed())
	var b bytes.Buffer
	tr := &longTrace{t: t, writer: true}
	fw := flate.NewWriter(&b, flate.WithFormat(flate.GZIPFormat), flate.WithMemoryLevel(1), flate.WithTracers(tr))
	var want []byte
	type point struct {
		f       flate.FlushType
		out, in int
	}
	var points []point
	for i := 0; i < total; i++ {
		data := dst.GenData(r.N(dst.DataKinds), 1+r.N(8), uint64(i))
		want = append(want, data...)
		_, err := fw.Write(data)
		t.Check(err == nil, "unexpected-error", "Write %d fails: %v", i, err)
		f := []flate.FlushType{flate.SyncFlush, flate.PartialFlush, flate.FullFlush}[r.N(3)]
		err = fw.Flush(f)
		t.Check(err == nil, "unexpected-error", "flush %d fails: %v", i, err)
		points = append(points, point{f, b.Len(), len(want)})
	}
	err := fw.Close()
	t.Check(err == nil, "unexpected-error", "Close fails after %d flushes: %v", total, err)
	res := ref.Parse(b.Bytes(), ref.Options{Format: ref.Gzip, Strict: true})
	t.Check(res.Err == nil, "invalid-output", "after %d flushes: %v", total, res.Err)
	t.Check(bytes.Equal(res.Out, want), "content-differs", "after %d flushes: %s", total, diff(want, res.Out))
	only(t, "C17", len(tr.ends) == 1 && tr.ends[0] == [2]uint64{uint64(b.Len()), uint64(len(want))}, "event-wrong", "%d bytes became %d, the events count %v", len(want), b.Len(), tr.ends)
	for k := 0; k < 60; k++ {
		i := len(points) - 1 - r.N(len(points))
		if k < 20 {
			i = 1<<16 - 10 + k
		}
		p := points[i]
		if t.Prop == "C09" {
			got := ref.Parse(b.Bytes()[:p.out], ref.Options{Format: ref.Gzip})
			t.Check(len(got.Out) >= p.in && bytes.Equal(got.Out[:p.in], want[:p.in]), "not-recoverable", "%v flush %d: %d bytes were written before, %d can be decoded", p.f, i, p.in, len(got.Out))
		}
		if t.Prop == "C10" && p.f == flate.FullFlush {
			got, err := io.ReadAll(stdflate.NewReader(bytes.NewReader(b.Bytes()[p.out:])))
			t.Check(err == nil && bytes.Equal(got, want[p.in:]), "not-restartable", "full flush %d: decoding from byte %d gives %v, %s", i, p.out, err, diff(want[p.in:], got))
		}
	}
	t.Nontrivial()
	t.State("long-flushes")
}

// longConversation sends more messages than 16 bits count over one connection,
// each after the one before it was received.
func longConversation(t *T) {
	total := 1<<16 + 3000
	cfg := DrawCfg(t, CfgLimits{})
	cfg.MLevel = flate.MemoryLevel(1 + t.Choose(2))
	rc := ReaderFor(t, cfg)
	rc.MLevel = cfg.MLevel
	r := dst.NewRNG(t.Seed())
	pipe := t.NewPipe(1 << 16)
	fw := flate.NewWriter(pipe, cfg.Opts()...)
	fr := flate.NewReader(pipe, rc.Opts()...)
	kinds := []flate.FlushType{flate.SyncFlush, flate.PartialFlush, flate.FullFlush}
	if t.Chance(1, 2) && cfg.Format != flate.RawFormat {
		kinds = append(kinds, flate.FinishFlush)
	}
	var p [64]byte
	for i := 0; i < total; i++ {
		m := dst.GenData(r.N(dst.DataKinds), 1+r.N(40), uint64(r.N(1<<30)))
		_, err := fw.Write(m)
		t.Check(err == nil, "unexpected-error", "message %d: Write: %v", i, err)
		f := kinds[r.N(len(kinds))]
		err = fw.Flush(f)
		t.Check(err == nil, "unexpected-error", "message %d: Flush: %v", i, err)
		n := 0
		for n < len(m) {
			k, err := fr.Read(p[n:len(m)])
			n += k
			t.Check(err == nil, "unexpected-error", "message %d: %d of %d bytes, then %v", i, n, len(m), err)
		}
		t.Check(bytes.Equal(p[:n], m), "content-differs", "message %d: %s", i, diff(m, p[:n]))
	}
	err := fw.Close()
	t.Check(err == nil, "unexpected-error", "Close: %v", err)
	pipe.CloseWrite()
	n, err := fr.Read(p[:])
	t.Check(n == 0 && err == io.EOF, "unexpected-error", "after all messages: %d bytes and %v", n, err)
	t.Check(fr.Close() == nil, "unexpected-error", "closing the reader fails")
	t.Nontrivial()
	t.State("long-conversation", cfg.RefFormat(), cfg.EffLevel(), len(kinds))
}

// longEmpties: hundreds of thousands of blocks or streams without content.
// Neither the stack nor the heap may grow with their number.
func longEmpties(t *T, kind int) {
	debug.SetMaxStack(32 << 20)
	r := dst.NewRNG(t.Seed())
	static := []byte{0x02, 0x08, 0x20, 0x80, 0x00} // four empty fixed blocks
	stored := []byte{0x00, 0x00, 0x00, 0xff, 0xff}
	f := t.Choose(3)
	single := t.Choose(2) == 0
	head, tail := []byte{}, []byte{}
	format := []flate.Format{flate.RawFormat, flate.ZlibFormat, flate.GZIPFormat}[f]
	switch f {
	case 0:
		tail = []byte{3, 0}
	case 1:
		head, tail = []byte{0x78, 0x9c}, []byte{3, 0, 0, 0, 0, 1}
	case 2:
		head, tail = []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}, []byte{3, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	}
	total := 400000
	made, units := 0, total
	if !single {
		units /= 8
	}
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	var early, late uint64
	src := &genSource{next: func() []byte {
		made++
		switch {
		case made == 1:
			return head
		case made == units/20:
			early = heap()
		case made == units:
			late = heap()
		case made == units+1:
			return tail
		case made > units+1:
			return nil
		}
		n := 1
		if !single {
			n = 1 + r.N(60)
		}
		var b []byte
		for ; n > 0; n-- {
			switch {
			case kind == 3:
				b = append(append(b, tail...), head...)
			case kind == 0 || kind == 2 && r.N(2) == 0:
				b = append(b, static...)
			default:
				b = append(b, stored...)
			}
		}
		return b
	}}
	fr := flate.NewReader(src, flate.WithFormat(format), flate.WithMemoryLevel(flate.MemoryLevel(1+t.Choose(9))))
	buf := make([]byte, 5000)
	got := 0
	var err error
	for err == nil {
		var n int
		n, err = fr.Read(buf)
		got += n
	}
	t.Check(err == io.EOF && got == 0, "content-differs", "empty blocks and streams only: %d bytes of content, then %s", got, errStr(err))
	t.Check(late < early+64<<20, "memory-grows", "%d MiB of memory in use after %d pieces without content, %d MiB after %d", late>>20, units, early>>20, units/20)
	_ = fr.Close()
	t.Nontrivial()
	t.State("long-empties", kind, f, single)
}
