BUGS=[]
HELP='''
func demoCompress(t *testing.T, f func(*Writer), opts ...Option) []byte {
	t.Helper()
	var b bytes.Buffer
	fw := NewWriter(&b, opts...)
	f(fw)
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	return b.Bytes()
}

func demoDecompress(t *testing.T, p []byte, opts ...Option) ([]byte, error) {
	t.Helper()
	return io.ReadAll(NewReader(bytes.NewReader(p), opts...))
}
'''
def B(**k): BUGS.append(k)
B(id='empty-blocks-recurse',prop='C20',needs='hundreds of thousands of consecutive DEFLATE blocks without content',breaks='each block without content is handled by a nested call, so a small hostile stream takes the process down by stack overflow',imports=['"runtime/debug"'],
 edits=[('reader.go','	return isOK && !isFinal\n}','	if isOK && !isFinal && fr.decodeBuffer.IsEmpty() {\n		// nothing to hand over yet\n		return fr.readFlateBlock()\n	}\n\n	return isOK && !isFinal\n}')],
 demo=HELP+'''
func TestDemo(t *testing.T) {
	defer debug.SetMaxStack(debug.SetMaxStack(64 << 20))
	p := append(bytes.Repeat([]byte{0, 0, 0, 0xff, 0xff}, 600000), 3, 0)
	out, err := demoDecompress(t, p, WithFormat(RawFormat))
	if err != nil || len(out) != 0 {
		t.Fatal(len(out), err)
	}
}
''')
B(id='output-grows-later',prop='C23',needs='more than eight streams read from one source, then Reset with options, then a consumer that stops reading',breaks='after such a past the reader swallows megabytes of a source whose consumer has stopped',
 edits=[('reader.go','''	return uint(fr.mlevel + 6)
}

func (fr *Reader) windowNumBits''','''	if fr.numStreams > 8 {
		// many small streams: save wakeups
		return 22
	}
	return uint(fr.mlevel + 6)
}

func (fr *Reader) windowNumBits''')],
 demo=HELP+'''
type demoCount struct {
	mu sync.Mutex
	r  io.Reader
	n  int
}

func (s *demoCount) Read(q []byte) (int, error) {
	if len(q) > 100 {
		q = q[:100]
	}
	n, err := s.r.Read(q)
	s.mu.Lock()
	s.n += n
	s.mu.Unlock()
	return n, err
}

func TestDemo(t *testing.T) {
	one := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello")) }, WithFormat(GZIPFormat))
	fr := NewReader(bytes.NewReader(bytes.Repeat(one, 12)), WithFormat(GZIPFormat), WithMemoryLevel(1))
	if _, err := io.ReadAll(fr); err != nil {
		t.Fatal(err)
	}
	data := make([]byte, 600000)
	rand.New(rand.NewSource(1)).Read(data)
	big := demoCompress(t, func(fw *Writer) { fw.Write(data) }, WithFormat(GZIPFormat))
	src := &demoCount{r: bytes.NewReader(big)}
	fr.Reset(src, WithMemoryLevel(2))
	fr.Read(make([]byte, 10))
	last := -1
	for i := 0; i < 100; i++ {
		time.Sleep(100 * time.Millisecond)
		src.mu.Lock()
		n := src.n
		src.mu.Unlock()
		if n == last {
			break
		}
		last = n
	}
	if last > 300000 {
		t.Fatal("consumer stopped after 10 bytes, reader took", last)
	}
	fr.Close()
}
''')
B(id='sync-flush-late-window',prop='C24',needs='a sync flush after more than 64 KiB of one stream, in content that repeats over a long distance',breaks='every sync flush after the first 64 KiB forgets the window, so that the content after it is emitted in full again',
 edits=[('writer.go','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
''','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		if fw.inputBytesStream > 1<<16 {
			fw.hybrid.WindowClear()
		}
''')],
 demo=HELP+'''
func TestDemo(t *testing.T) {
	pat := make([]byte, 12000)
	rand.New(rand.NewSource(1)).Read(pat)
	p := demoCompress(t, func(fw *Writer) {
		for i := 0; i < 20; i++ {
			fw.Write(pat)
			if err := fw.Flush(SyncFlush); err != nil {
				t.Fatal(err)
			}
		}
	})
	if len(p) > 40000 {
		t.Fatal("20 copies of 12000 bytes became", len(p))
	}
}
''')
