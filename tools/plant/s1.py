BUGS=[]
def B(**k): BUGS.append(k)
LIB='''
func demoCompress(t *testing.T, f func(*Writer), opts ...Option) []byte {
	t.Helper()
	var b bytes.Buffer
	fw := NewWriter(&b, opts...)
	f(fw)
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	return b.Bytes()
}

func demoDecompress(t *testing.T, p []byte, opts ...Option) ([]byte, error) {
	t.Helper()
	return io.ReadAll(NewReader(bytes.NewReader(p), opts...))
}
'''
B(id='gzip-isize-total',prop='C02',needs='a second gzip stream written by the same Writer without a reset between (finish flush, then more data)',
  breaks='the ISIZE field of every gzip stream after the first counts the bytes of all streams',
  edits=[('writer.go','func (fw *Writer) writeHeader() bool {\n	fw.inputBytesStream = 0\n','func (fw *Writer) writeHeader() bool {\n'),('writer.go','	fw.err = nil\n	fw.state = noStreamWriterState\n','	fw.err = nil\n	fw.state = noStreamWriterState\n	fw.inputBytesStream = 0\n')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) {
		fw.Write([]byte("hello"))
		fw.Flush(FinishFlush)
		fw.Write([]byte("world!"))
	}, WithFormat(GZIPFormat))
	out, err := demoDecompress(t, p)
	if err != nil || string(out) != "helloworld!" {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='adler-deferred-modulo',prop='C02',needs='a stored block or a run of input of more than 5552 high-valued bytes checksummed in one call',
  breaks='the Adler-32 accumulator overflows, so the zlib trailer is wrong (and the reader of valid streams rejects them)',
  edits=[('internal/adler32/adler32.go','const nmax = 5552','const nmax = 5800')],check=['C02','C03'],
  demo='''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte{0xff}, 65536)
	var b bytes.Buffer
	fw := NewWriter(&b, WithFormat(ZlibFormat), WithCompressLevel(0))
	fw.Write(data)
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	// reference value of Adler-32, computed the slow way
	s1, s2 := uint32(1), uint32(0)
	for _, ch := range data {
		s1 = (s1 + uint32(ch)) % 65521
		s2 = (s2 + s1) % 65521
	}
	want := []byte{byte(s2 >> 8), byte(s2), byte(s1 >> 8), byte(s1)}
	got := b.Bytes()[b.Len()-4:]
	if !bytes.Equal(got, want) {
		t.Fatalf("trailer %x, want %x", got, want)
	}
}
''')
B(id='repeat-crosses-alphabets',prop='C03',needs='a dynamic block of another encoder whose repeat code spans the literal/length and distance code lengths',
  breaks='valid dynamic blocks are rejected as corrupt when a repeat crosses from one alphabet to the other',
  edits=[('reader.go','''		i, ok = fr.decodeX(sym, combinedLengths, i, total)
''','''		limit := total
		if i < numLL {
			limit = numLL
		}

		i, ok = fr.decodeX(sym, combinedLengths, i, limit)
''')],
  demo='''
// bit packer
type demoBits struct {
	out []byte
	acc uint64
	n   uint
}

func (b *demoBits) put(v uint64, n uint) {
	b.acc |= v << b.n
	b.n += n
	for b.n >= 8 {
		b.out = append(b.out, byte(b.acc))
		b.acc >>= 8
		b.n -= 8
	}
}

// puts a Huffman code, most significant bit first
func (b *demoBits) code(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		b.put((v>>uint(i))&1, 1)
	}
}

func TestDemo(t *testing.T) {
	// literal/length code: 'a' 1 bit, 256 1 bit;  distance code: none used.
	// code lengths: 97 zeroes, 1, 158 zeroes, 1 | 0, 0, 0 -- with one run of
	// zeroes that starts in the first alphabet (numLL = 260) and ends in the second
	var b demoBits
	b.put(1, 1)
	b.put(2, 2)
	b.put(260-257, 5)
	b.put(3-1, 5)
	b.put(18-4, 4)
	// code length code: symbols 18, 17, 1, 0 with 2 bits each
	order := []int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1}
	for _, s := range order {
		switch s {
		case 0, 1, 17, 18:
			b.put(2, 3)
		default:
			b.put(0, 3)
		}
	}
	c := map[int]uint64{0: 0, 1: 1, 17: 2, 18: 3}
	b.code(c[18], 2)
	b.put(97-11, 7)
	b.code(c[1], 2)
	b.code(c[18], 2)
	b.put(138-11, 7)
	b.code(c[18], 2)
	b.put(20-11, 7)
	b.code(c[1], 2)
	b.code(c[17], 2)
	b.put(6-3, 3) // 257, 258, 259 and all three distances
	b.code(0, 1)
	b.code(0, 1)
	b.code(1, 1)
	b.put(0, 7)
	out, err := io.ReadAll(NewReader(bytes.NewReader(b.out), WithFormat(RawFormat)))
	if err != nil || string(out) != "aa" {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='auto-zlib-window',prop='C03',needs='automatic detection of a zlib stream that announces a window below 32 KiB',
  breaks='zlib streams with a small announced window are taken for raw DEFLATE',
  edits=[('reader.go','if (p[0]&0x0f) == 0x08 && (u16%31) == 0 {','if p[0] == 0x78 && (u16%31) == 0 {')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello, hello, hello")) }, WithFormat(ZlibFormat), WithWindowBits(12))
	out, err := demoDecompress(t, p)
	if err != nil || string(out) != "hello, hello, hello" {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='isize-zero-tolerated',prop='C05',needs='corruption that turns the four length bytes of a gzip trailer into zeroes',
  breaks='a gzip stream whose length field was zeroed passes as good',
  edits=[('reader.go','if contentLen != uint32(fr.outputBytesStream) {','if contentLen != 0 && contentLen != uint32(fr.outputBytesStream) {')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello, hello, hello")) }, WithFormat(GZIPFormat))
	p[len(p)-4] = 0
	out, err := demoDecompress(t, p)
	if err == nil {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='zlib-checksum-low-half',prop='C05',needs='a change of the content that only affects the upper half of the Adler-32 checksum (two bytes swapped)',
  breaks='swapped bytes in a zlib stream pass as good data',
  edits=[('reader.go','	if expectedAdler32 != computedAdler32 {\n		fr.corruptf("invalid zlib Adler','	if uint16(expectedAdler32) != uint16(computedAdler32) {\n		fr.corruptf("invalid zlib Adler')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello, world")) }, WithFormat(ZlibFormat), WithCompressLevel(0))
	i := bytes.Index(p, []byte("hello"))
	p[i], p[i+1] = p[i+1], p[i]
	out, err := demoDecompress(t, p)
	if err == nil {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='gzip-cut-in-isize',prop='C06',needs='a source that ends inside the last four bytes of a gzip stream',
  breaks='a gzip stream cut inside its length field ends with a clean end of file',
  edits=[('reader.go','''	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
''','''	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(false)
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello, hello, hello")) }, WithFormat(GZIPFormat))
	out, err := demoDecompress(t, p[:len(p)-2])
	if err != io.ErrUnexpectedEOF {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='wrapped-eof',prop='C07',needs='a source that fails inside a stream with an error that wraps io.EOF (a connection reset, say)',
  breaks='the source error is replaced by io.ErrUnexpectedEOF instead of surfacing unchanged',
  edits=[('reader.go','if eofIsError && err == io.EOF {','if eofIsError && errors.Is(err, io.EOF) {'),('reader.go','	"encoding/binary"\n','	"encoding/binary"\n	"errors"\n')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello, hello, hello")) }, WithFormat(GZIPFormat))
	myErr := fmt.Errorf("connection reset: %w", io.EOF)
	src := io.MultiReader(bytes.NewReader(p[:len(p)-5]), demoErr{myErr})
	_, err := io.ReadAll(NewReader(src))
	if err != myErr {
		t.Fatalf("%v", err)
	}
}

type demoErr struct{ err error }

func (x demoErr) Read(p []byte) (int, error) { return 0, x.err }
''')
B(id='retry-temporary',prop='C07',needs='a source whose error reports Temporary() or Timeout()',
  breaks='the source is read again after it failed; the error is swallowed',
  edits=[('reader.go','''	_, err := fr.inputBuffer.ReadFrom(r)
''','''	_, err := fr.inputBuffer.ReadFrom(r)
	if te, ok := err.(interface{ Timeout() bool }); ok && te.Timeout() {
		_, err = fr.inputBuffer.ReadFrom(r)
	}
''')],
  demo=LIB+'''
type demoTimeout struct{}

func (demoTimeout) Error() string   { return "timeout" }
func (demoTimeout) Timeout() bool   { return true }
func (demoTimeout) Temporary() bool { return true }

type demoSrc struct {
	p     []byte
	fails int
}

func (s *demoSrc) Read(q []byte) (int, error) {
	if len(s.p) == 0 {
		s.fails++
		return 0, demoTimeout{}
	}
	n := copy(q, s.p)
	s.p = s.p[n:]
	return n, nil
}

func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello, hello, hello")) }, WithFormat(GZIPFormat))
	src := &demoSrc{p: p[:len(p)-5]}
	_, err := io.ReadAll(NewReader(src))
	if err != (demoTimeout{}) || src.fails != 1 {
		t.Fatalf("%v, %d reads failed", err, src.fails)
	}
}
''')
B(id='error-with-full-write',prop='C08',needs='a sink that accepts all bytes of a write and reports an error with it',
  breaks='the error is ignored and the compressor goes on writing to the failed sink',
  edits=[('writer.go','''	_, err := fw.output.WriteTo(fw.w)
	if err != nil {''','''	_, err := fw.output.WriteTo(fw.w)
	if err != nil && !fw.output.IsEmpty() {''')],
  demo=LIB+'''
type demoSink struct{ n int }

func (s *demoSink) Write(p []byte) (int, error) {
	s.n++
	return len(p), errors.New("disk error")
}

func TestDemo(t *testing.T) {
	s := &demoSink{}
	fw := NewWriter(s)
	fw.Write([]byte("hello"))
	err := fw.Close()
	if err == nil || s.n != 1 {
		t.Fatalf("%v %d", err, s.n)
	}
}
''')
B(id='close-forgets-error',prop='C08',needs='closing a compressor after an earlier call reported a sink failure',
  breaks='Close reports success although the sink failed and the output is incomplete',
  edits=[('writer.go','''	if fw.state == errorWriterState {
		return helper()
	}
''','''	if fw.state == errorWriterState {
		// The failure was already reported to the caller.
		_ = helper()
		return nil
	}
''')],
  demo=LIB+'''
type demoSink struct{}

func (s *demoSink) Write(p []byte) (int, error) {
	return 0, errors.New("disk error")
}

func TestDemo(t *testing.T) {
	fw := NewWriter(&demoSink{})
	fw.Write([]byte("hello"))
	fw.Flush(SyncFlush)
	if err := fw.Close(); err == nil {
		t.Fatal("no error")
	}
}
''')
B(id='footer-after-sync',prop='C09',needs='a sink with Sync (or Flush) and a crash right after a successful finish flush or close',
  breaks='the trailer reaches the sink after the sink was flushed and synced',
  edits=[('writer.go','''	if fw.state == closingStreamWriterState {
		if !fw.writeFooter() {
			return false
		}

		fw.state = closedStreamWriterState
	}

	if x, ok := fw.w.(flushWriter); ok {''','''	if x, ok := fw.w.(flushWriter); ok {'''),
  ('writer.go','''		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
	}

	return true''','''		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
	}

	if fw.state == closingStreamWriterState {
		if !fw.writeFooter() {
			return false
		}

		fw.state = closedStreamWriterState
	}

	return true''')],
  demo=LIB+'''
type demoSink struct {
	all    []byte
	synced int
}

func (s *demoSink) Write(p []byte) (int, error) { s.all = append(s.all, p...); return len(p), nil }
func (s *demoSink) Sync() error                 { s.synced = len(s.all); return nil }

func TestDemo(t *testing.T) {
	s := &demoSink{}
	fw := NewWriter(s, WithFormat(GZIPFormat))
	fw.Write([]byte("hello"))
	if err := fw.Close(); err != nil || s.synced != len(s.all) {
		t.Fatal(err, s.synced, len(s.all))
	}
}
''')
B(id='partial-flush-keeps-input',prop='C09',needs='a partial flush while less than a block of input is pending',
  breaks='data written before a partial flush stays in the compressor although the flush succeeded',
  edits=[('writer.go','	if !fw.compressImpl(true) {\n		return false\n	}\n\n	if flushType == FinishFlush','	if !fw.compressImpl(flushType != PartialFlush) {\n		return false\n	}\n\n	if flushType == FinishFlush')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b, WithFormat(RawFormat))
	fw.Write([]byte("hello"))
	if err := fw.Flush(PartialFlush); err != nil {
		t.Fatal(err)
	}
	out, err := demoDecompress(t, b.Bytes(), WithFormat(RawFormat))
	if string(out) != "hello" {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='full-flush-redictionary',prop='C10',needs='a preset dictionary and a full flush followed by data that resembles the dictionary',
  breaks='matches after a full flush refer to the dictionary, so decoding cannot start there',
  edits=[('writer.go','''		fw.hybrid.WindowClear()

	case FinishFlush:''','''		fw.hybrid.WindowClear()
		if fw.dict != nil {
			fw.hybrid.SetWindow(fw.dict)
		}

	case FinishFlush:''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	dict := []byte("the quick brown fox jumps over the lazy dog")
	fw := NewWriter(&b, WithFormat(RawFormat), WithDictionary(dict))
	fw.Write([]byte("xyz"))
	if err := fw.Flush(FullFlush); err != nil {
		t.Fatal(err)
	}
	n := b.Len()
	fw.Write([]byte("a quick brown fox jumps over a lazy dog"))
	fw.Close()
	out, err := demoDecompress(t, b.Bytes()[n:], WithFormat(RawFormat))
	if string(out) != "a quick brown fox jumps over a lazy dog" {
		t.Fatalf("%q %v", out, err)
	}
}
''')
