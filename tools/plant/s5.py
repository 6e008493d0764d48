exec(open('/tmp/plant/s1.py').read().split("B(id='gzip-isize")[0])
CLI='''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod CGO_ENABLED=0
G="$W/gzip"
go build -o "$G" ./cmd/gzip || exit 3
'''
B(id='error-with-data-dropped',prop='C07',needs='a source that returns its error together with the last data, and something else when it is called again',
  breaks='an error delivered together with data is forgotten; the source is read again after it failed',
  edits=[('reader.go','''			fr.inputBuffer.CommitBulkWrite(uint(nn))
			fr.inputError = err
			return
''','''			fr.inputBuffer.CommitBulkWrite(uint(nn))
			if nn == 0 {
				fr.inputError = err
			}
			return
''')],
  demo=LIB+'''
type demoSource struct {
	p   []byte
	err error
}

func (s *demoSource) Read(p []byte) (int, error) {
	if s.p == nil {
		return 0, io.EOF
	}
	n := copy(p, s.p)
	s.p = nil
	return n, s.err
}

func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello")) })
	want := errors.New("connection reset")
	out, err := io.ReadAll(NewReader(&demoSource{p: p, err: want}))
	if err != want || string(out) != "hello" {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='header-event-shared',prop='C21',needs='a tracer that keeps the header of one stream while the next one is read',
  breaks='all header events of a Reader share one header, which the next stream overwrites',
  edits=[('reader.go','''	h := new(Header)
	*h = fr.header
	fr.sendEvent(Event{
		Type:   StreamHeaderEvent,
		Header: h,
	})
''','''	fr.sendEvent(Event{
		Type:   StreamHeaderEvent,
		Header: &fr.header,
	})
''')],check=['C17','C21'],
  demo=LIB+'''
type demoTracer struct{ h []*Header }

func (d *demoTracer) OnEvent(e Event) {
	if e.Type == StreamHeaderEvent {
		d.h = append(d.h, e.Header)
	}
}

func TestDemo(t *testing.T) {
	var p []byte
	for _, n := range []string{"one", "two"} {
		p = append(p, demoCompress(t, func(fw *Writer) {
			fw.SetHeader(Header{FileName: n})
			fw.Write([]byte("hello"))
		}, WithFormat(GZIPFormat))...)
	}
	var d demoTracer
	if _, err := demoDecompress(t, p, WithTracers(&d)); err != nil {
		t.Fatal(err)
	}
	if len(d.h) != 2 || d.h[0].FileName != "one" || d.h[1].FileName != "two" {
		t.Fatalf("%d headers, first %q", len(d.h), d.h[0].FileName)
	}
}
''')
B(id='mtime-2038',prop='C16',needs='a modification time after January 2038',
  breaks='modification times beyond 2^31 seconds are refused although the field is unsigned',
  edits=[('writer.go','if s64 < 0 || (s64 >= 0 && uint64(s64) >= uint64(math.MaxUint32)) {','if s64 < 0 || s64 > math.MaxInt32 {')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	when := time.Unix(3000000000, 0)
	p := demoCompress(t, func(fw *Writer) {
		if err := fw.SetHeader(Header{LastModified: when}); err != nil {
			t.Fatal(err)
		}
	}, WithFormat(GZIPFormat))
	if p[4] != 0x00 || p[5] != 0x5e || p[6] != 0xd0 || p[7] != 0xb2 {
		t.Fatalf("%x", p[:10])
	}
}
''')
B(id='flush-error-by-type',prop='C08',needs='a sink whose Flush method fails during a block or partial flush',
  breaks='the failure of the sink\'s own Flush is reported for the stronger flush types only',
  edits=[('writer.go','''		if err := x.Flush(); err != nil {
''','''		if err := x.Flush(); err != nil && flushType >= SyncFlush {
''')],
  demo=LIB+'''
type demoSink struct {
	bytes.Buffer
	err error
}

func (s *demoSink) Flush() error { return s.err }

func TestDemo(t *testing.T) {
	s := &demoSink{err: errors.New("no space")}
	fw := NewWriter(s)
	fw.Write([]byte("hello"))
	if err := fw.Flush(PartialFlush); err != s.err {
		t.Fatalf("%v", err)
	}
}
''')
B(id='idle-sync-skipped',prop='C09',needs='a sync flush directly after a block flush (or after a write whose data was compressed at once): nothing is waiting to be compressed, but bits are',
  breaks='a sync flush without new data does nothing, although the last bits of earlier data are still held back',
  edits=[('writer.go','''func (fw *Writer) flushImpl(flushType FlushType) bool {
	if !fw.compressImpl(true) {
		return false
	}
''','''func (fw *Writer) flushImpl(flushType FlushType) bool {
	idle := fw.hybrid.IsEmpty()

	if !fw.compressImpl(true) {
		return false
	}
'''),('writer.go','''	if fw.state == openStreamWriterState {
		if !fw.flushGuts(flushType) {
			return false
		}
	}
''','''	// Repeated sync flushes without data in between add nothing.
	redundant := idle && flushType == SyncFlush

	if fw.state == openStreamWriterState && !redundant {
		if !fw.flushGuts(flushType) {
			return false
		}
	}
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b, WithFormat(RawFormat))
	fw.Write([]byte("hello, hello, hello"))
	fw.Flush(BlockFlush)
	if err := fw.Flush(SyncFlush); err != nil {
		t.Fatal(err)
	}
	if !bytes.HasSuffix(b.Bytes(), []byte{0, 0, 0xff, 0xff}) {
		t.Fatalf("%x", b.Bytes())
	}
	out, _ := demoDecompress(t, b.Bytes(), WithFormat(RawFormat))
	if string(out) != "hello, hello, hello" {
		t.Fatalf("%q", out)
	}
}
''')
B(id='idle-full-skipped',prop='C10',needs='a full flush directly after a sync flush, then content that repeats what came before',
  breaks='a full flush right after a sync flush is taken for redundant and does not make the next data independent',
  edits=[('writer.go','''func (fw *Writer) flushImpl(flushType FlushType) bool {
	if !fw.compressImpl(true) {
		return false
	}
''','''func (fw *Writer) flushImpl(flushType FlushType) bool {
	// Everything is in the sink already, aligned to a byte.
	flushed := fw.hybrid.IsEmpty() && fw.obLen == 0

	if !fw.compressImpl(true) {
		return false
	}
'''),('writer.go','''	if fw.state == openStreamWriterState {
		if !fw.flushGuts(flushType) {
			return false
		}
	}
''','''	if fw.state == openStreamWriterState && !(flushed && flushType == FullFlush) {
		if !fw.flushGuts(flushType) {
			return false
		}
	}
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b, WithFormat(RawFormat))
	fw.Write([]byte("hello, hello, hello"))
	fw.Flush(SyncFlush)
	fw.Flush(FullFlush)
	n := b.Len()
	fw.Write([]byte("hello, hello, hello"))
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	out, err := demoDecompress(t, b.Bytes()[n:], WithFormat(RawFormat))
	if err != nil || string(out) != "hello, hello, hello" {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='close-two-steps',prop='C12',needs='a Write that gets in between the flush and the change of state of a concurrent Close',
  breaks='Close gives up the lock between finishing the stream and marking the Writer closed; a Write in between succeeds and its data is lost',
  edits=[('writer.go','''func (fw *Writer) Close() error {
	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	helper := func() error {
''','''func (fw *Writer) Close() error {
	err0 := fw.Flush(FinishFlush)

	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	helper := func() error {
'''),('writer.go','''	if !fw.flushImpl(FinishFlush) {
		return helper()
	}

	fw.state = closedWriterState
	return nil
}
''','''	fw.state = closedWriterState
	return err0
}
''')],
  demo=LIB+'''
type demoGate struct {
	bytes.Buffer
}

func (s *demoGate) Sync() error { time.Sleep(3 * time.Millisecond); return nil }

func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		s := &demoGate{}
		fw := NewWriter(s, WithFormat(GZIPFormat))
		fw.Write([]byte("hello"))
		var wg sync.WaitGroup
		var werr error
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Millisecond)
			_, werr = fw.Write([]byte("late"))
		}()
		fw.Flush(SyncFlush)
		cerr := fw.Close()
		wg.Wait()
		out, err := demoDecompress(t, s.Bytes())
		if cerr != nil || err != nil {
			t.Fatal(cerr, err)
		}
		if werr == nil && string(out) != "hellolate" {
			t.Fatalf("round %d: a successful Write is missing: %q", i, out)
		}
	}
}
''')
B(id='dict-accessor-alias',prop='C21',needs='a caller that changes the slice the Dict accessor returned',
  breaks='the accessor hands out the dictionary itself; what the caller does with it changes later streams',
  edits=[('writer.go','''	var dict []byte
	fw.mu.Lock()
	if len(fw.dict) != 0 {
		dict = make([]byte, len(fw.dict))
		copy(dict, fw.dict)
	}
	fw.mu.Unlock()
	return dict
''','''	fw.mu.Lock()
	dict := fw.dict
	fw.mu.Unlock()
	return dict
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	dict := []byte("hello, hello, hello")
	p := demoCompress(t, func(fw *Writer) {
		d := fw.Dict()
		for i := range d {
			d[i] = 'x'
		}
		fw.Write([]byte("hello, hello"))
	}, WithFormat(ZlibFormat), WithDictionary(dict))
	out, err := demoDecompress(t, p, WithFormat(ZlibFormat), WithDictionary(dict))
	if err != nil || string(out) != "hello, hello" {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='dict-id-first-only',prop='C05',needs='a second zlib stream that was made with another dictionary, one of the same content where the stream refers to it',
  breaks='the dictionary identifier is compared for the first stream only',
  edits=[('reader.go','if expectedAdler32 != computedAdler32 {\n			fr.corruptf("zlib stream was compressed with a different','if fr.numStreams == 1 && expectedAdler32 != computedAdler32 {\n			fr.corruptf("zlib stream was compressed with a different')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	d1, d2 := []byte("the first dictionary"), []byte("another dictionary")
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("qqq")) }, WithFormat(ZlibFormat), WithDictionary(d1))
	p = append(p, demoCompress(t, func(fw *Writer) { fw.Write([]byte("rrr")) }, WithFormat(ZlibFormat), WithDictionary(d2))...)
	if out, err := demoDecompress(t, p, WithFormat(ZlibFormat), WithDictionary(d1)); err == nil {
		t.Fatalf("accepted: %q", out)
	}
}
''')
B(id='cli-buffered-output',prop='C19',needs='decompressed output whose last part cannot be written (a full disk), small enough to fit a buffer',
  breaks='decompressed output goes through a buffer that is flushed at the end without looking at the error',
  edits=[('cmd/gzip/main.go',"""		fr := flate.NewReader(r, opts...)

		nn, err := io.Copy(w, fr)
""","""		fr := flate.NewReader(r, opts...)

		bw := bufio.NewWriterSize(&countingWriter{w: w}, 1<<16)
		defer bw.Flush()

		nn, err := io.Copy(bw, fr)
"""),('cmd/gzip/main.go',"""	"fmt"
""","""	"bufio"
	"fmt"
"""),('cmd/gzip/main.go','func doCompressOrDecompress(','// countingWriter counts what was written.\ntype countingWriter struct {\n	w io.Writer\n	n int64\n}\n\nfunc (c *countingWriter) Write(p []byte) (int, error) {\n	n, err := c.w.Write(p)\n	c.n += int64(n)\n	return n, err\n}\n\nfunc doCompressOrDecompress(')],
  demosh=CLI+'''
echo hello >"$W/in"
"$G" -c <"$W/in" >"$W/gz" || exit 1
[ "$("$G" -d -c <"$W/gz")" = hello ] || exit 1
if "$G" -d -c <"$W/gz" >/dev/full 2>/dev/null; then echo "status 0 though the output is full"; exit 1; fi
exit 0
''')
B(id='fixed-tables-lazy',prop='C15',needs='two Writers of one process that emit their first fixed block at the same time',
  breaks='the fixed code tables are built on first use without any synchronisation',race=True,
  edits=[('huffman.go','''	if err := gFixedHuffmanEncoderLL.InitFromSizes(sizes); err != nil {
		panic(fmt.Errorf("failed to initialize gFixedHuffmanEncoderLL: %w", err))
	}
''','''	gFixedHuffmanSizesLL = append([]byte(nil), sizes...)
'''),('huffman.go','''	gFixedHuffmanEncoderD  huffman.Encoder
)
''','''	gFixedHuffmanEncoderD  huffman.Encoder
	gFixedHuffmanSizesLL   []byte
	gFixedHuffmanHaveLL    bool
)
'''),('huffman.go','''	return &gFixedHuffmanEncoderLL, &gFixedHuffmanEncoderD
''','''	if !gFixedHuffmanHaveLL {
		if err := gFixedHuffmanEncoderLL.InitFromSizes(gFixedHuffmanSizesLL); err != nil {
			panic(fmt.Errorf("failed to initialize gFixedHuffmanEncoderLL: %w", err))
		}
		gFixedHuffmanHaveLL = true
	}
	return &gFixedHuffmanEncoderLL, &gFixedHuffmanEncoderD
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fw := NewWriter(io.Discard, WithStrategy(FixedStrategy))
			fw.Write([]byte("hello"))
			fw.Close()
		}()
	}
	wg.Wait()
}
''')
