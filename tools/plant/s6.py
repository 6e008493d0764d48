exec(open('/tmp/plant/s1.py').read().split("B(id='gzip-isize")[0])
B(id='name-bytes-uncounted',prop='C25',needs='a gzip stream with a file name or comment that violates the format somewhere after it',
  breaks='bytes of names and comments are not counted for the stream, so corruption is reported too early in it',
  edits=[('reader.go','''		fr.inputBytesTotal++
		fr.inputBytesStream++
		fr.inputBytesCRC32.Write([]byte{ch})

		if ch == 0 {
			ok = true
''','''		fr.inputBytesTotal++
		fr.inputBytesCRC32.Write([]byte{ch})

		if ch == 0 {
			ok = true
''')],check=['C25','C17'],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) {
		fw.SetHeader(Header{FileName: "a-rather-long-file-name.txt"})
		fw.Write([]byte("hello"))
	}, WithFormat(GZIPFormat))
	p[len(p)-6] ^= 1
	_, err := demoDecompress(t, p, WithFormat(GZIPFormat))
	var c CorruptInputError
	if !errors.As(err, &c) {
		t.Fatal(err)
	}
	if c.OffsetStream != c.OffsetTotal {
		t.Fatalf("%d in the stream, %d in all", c.OffsetStream, c.OffsetTotal)
	}
}
''')
B(id='checksum-blamed-on-end',prop='C25',needs='a damaged gzip stream whose last bytes the source delivers together with its end of file',
  breaks='a wrong checksum is reported as a stream that was cut short',
  edits=[('reader.go','''	if expectedCRC32 != computedCRC32 {
''','''	if expectedCRC32 != computedCRC32 && fr.inputError == io.EOF && fr.inputBuffer.IsEmpty() {
		// the end of the data is missing
		fr.propagateError(true)
		return false
	}

	if expectedCRC32 != computedCRC32 {
''')],check=['C25','C04'],
  demo=LIB+'''
type demoSource struct{ p []byte }

func (s *demoSource) Read(p []byte) (int, error) {
	n := copy(p, s.p)
	s.p = s.p[n:]
	if len(s.p) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello")) }, WithFormat(GZIPFormat))
	p[len(p)-6] ^= 1
	_, err := io.ReadAll(NewReader(&demoSource{p}, WithFormat(GZIPFormat)))
	var c CorruptInputError
	if !errors.As(err, &c) {
		t.Fatal(err)
	}
}
''')
B(id='close-no-refill-signal',prop='C14',needs='closing a decompressor while its background work waits for room in a full output buffer',
  breaks='the background goroutine is not woken up, so Close never returns',
  edits=[('reader.go','''		fr.outputBuffer.Clear()
		fr.cv1.Broadcast()
		fr.cv2.Broadcast()
		fr.mu2.Unlock()
''','''		fr.outputBuffer.Clear()
		fr.cv1.Broadcast()
		if fr.outputBuffer.IsFull() {
			fr.cv2.Broadcast()
		}
		fr.mu2.Unlock()
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	data := make([]byte, 4000000)
	p := demoCompress(t, func(fw *Writer) { fw.Write(data) })
	fr := NewReader(bytes.NewReader(p))
	var b [10]byte
	fr.Read(b[:])
	time.Sleep(200 * time.Millisecond)
	done := make(chan bool)
	go func() { fr.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("Close hangs")
	}
}
''')
B(id='read-waits-once',prop='C13',needs='a third goroutine that takes the data between the wake-up and the return of a blocked Read',
  breaks='a Read that was woken up but comes too late returns nothing, without an error',
  edits=[('reader.go','''		fr.cv2.Signal()
		for fr.outputError == nil && fr.outputBuffer.IsEmpty() {
			fr.cv1.Wait()
		}
''','''		fr.cv2.Signal()
		fr.cv1.Wait()
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte("hello, world\\n"), 3000)
	p := demoCompress(t, func(fw *Writer) {
		for i := 0; i < len(data); i += 13 {
			fw.Write(data[i : i+13])
			fw.Flush(SyncFlush)
		}
	})
	for round := 0; round < 40; round++ {
		fr := NewReader(iotestOneByte{bytes.NewReader(p)})
		var wg sync.WaitGroup
		var bad int64
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var b [7]byte
				for {
					n, err := fr.Read(b[:])
					if err != nil {
						return
					}
					if n == 0 {
						atomicAdd(&bad)
					}
				}
			}()
		}
		wg.Wait()
		if bad != 0 {
			t.Fatalf("%d reads returned nothing", bad)
		}
	}
}

var demoMu sync.Mutex

func atomicAdd(p *int64) { demoMu.Lock(); *p++; demoMu.Unlock() }

type iotestOneByte struct{ r io.Reader }

func (o iotestOneByte) Read(p []byte) (int, error) { return o.r.Read(p[:1]) }
''')
B(id='token-buffer-cached',prop='C15',needs='two compressors in different goroutines that emit blocks at the same time',
  breaks='the token buffer used last is kept in a package variable that nothing protects',race=True,
  edits=[('pools.go','''func takeTokens() *[]token {
''','''var lastTokens *[]token

func takeTokens() *[]token {
	if ptr := lastTokens; ptr != nil {
		lastTokens = nil
		return ptr
	}
'''),('pools.go','''	*ptr = (*ptr)[:0]
	tokenPool.Put(ptr)
''','''	*ptr = (*ptr)[:0]
	if lastTokens == nil {
		lastTokens = ptr
		return
	}
	tokenPool.Put(ptr)
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fw := NewWriter(io.Discard)
			fw.Write(bytes.Repeat([]byte("hello"), 1000))
			fw.Close()
		}()
	}
	wg.Wait()
}
''')
B(id='header-wants-minimum',prop='C22',needs='a short raw or zlib stream after which the source stays silent',
  breaks='the decompressor waits for as many bytes as the smallest gzip stream has before it looks at a stream of any format',
  edits=[('reader.go','''	if fr.inputBuffer.IsEmpty() {
		fr.inputBufferFill()
		if fr.inputBuffer.IsEmpty() {
			fr.propagateError(false)
			return false
''','''	const smallestStream = 18
	for fr.inputBuffer.Len() < smallestStream {
		fr.inputBufferFill()
		if fr.inputError != nil {
			break
		}
	}
	if fr.inputBuffer.IsEmpty() {
		if fr.inputBuffer.IsEmpty() {
			fr.propagateError(false)
			return false
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	pr, pw := io.Pipe()
	fw := NewWriter(pw, WithFormat(RawFormat))
	go func() {
		fw.Write([]byte("hello"))
		fw.Write([]byte("x"))
		fw.Close()
	}()
	fr := NewReader(pr, WithFormat(RawFormat))
	got := make(chan string, 10)
	go func() {
		b := make([]byte, 6)
		io.ReadFull(fr, b)
		got <- string(b)
	}()
	select {
	case s := <-got:
		if s != "hellox" {
			t.Fatal(s)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("the message does not arrive")
	}
}
''')
B(id='block-end-despite-error',prop='C17',needs='a sink failure while a fixed or dynamic block is written, and a tracer',
  breaks='the end of a block is reported although the block was not written completely',
  edits=[('writer.go','''	bw.sendEvent(Event{
		Type: BlockBeginEvent,
		Block: &BlockEvent{
			Type:    StoredBlock,
			IsFinal: isFinal,
		},
	})

	// BTYPE=00 BFINAL=x
''','''	bw.sendEvent(Event{
		Type: BlockBeginEvent,
		Block: &BlockEvent{
			Type:    StoredBlock,
			IsFinal: isFinal,
		},
	})

	defer bw.sendEvent(Event{
		Type: BlockEndEvent,
		Block: &BlockEvent{
			Type:    StoredBlock,
			IsFinal: isFinal,
		},
	})

	// BTYPE=00 BFINAL=x
'''),('writer.go','''	if !bw.outputBufferWrite(data) {
		return false
	}

	bw.sendEvent(Event{
		Type: BlockEndEvent,
		Block: &BlockEvent{
			Type:    StoredBlock,
			IsFinal: isFinal,
		},
	})

	return true
''','''	return bw.outputBufferWrite(data)
''')],
  demo=LIB+'''
type demoSink struct{ room int }

func (s *demoSink) Write(p []byte) (int, error) {
	if s.room -= len(p); s.room < 0 {
		return 0, errors.New("no space")
	}
	return len(p), nil
}

type demoTracer struct{ ends int }

func (d *demoTracer) OnEvent(e Event) {
	if e.Type == BlockEndEvent {
		d.ends++
	}
}

func TestDemo(t *testing.T) {
	var tr demoTracer
	fw := NewWriter(&demoSink{900}, WithCompressLevel(0), WithMemoryLevel(1), WithTracers(&tr))
	p := make([]byte, 400)
	for i := 0; i < 100; i++ {
		before := tr.ends
		if _, err := fw.Write(p); err != nil {
			if tr.ends != before {
				t.Fatal("the failed block is reported as complete")
			}
			return
		}
	}
	t.Fatal("no error")
}
''')
B(id='later-header-cut-clean',prop='C06',needs='a source that ends inside the gzip header of a second or later stream',
  breaks='the missing rest of a later header is taken for the end of the data',
  edits=[('reader.go','''	p, ok := fr.inputBufferRead(header[:])
	if !ok {
		fr.propagateError(true)
		return false
	}

	if p[0] != 0x1f || p[1] != 0x8b {
''','''	p, ok := fr.inputBufferRead(header[:])
	if !ok {
		fr.propagateError(fr.numStreams < 2)
		return false
	}

	if p[0] != 0x1f || p[1] != 0x8b {
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello")) }, WithFormat(GZIPFormat))
	p = append(p, p[:7]...)
	out, err := demoDecompress(t, p, WithFormat(GZIPFormat))
	if string(out) != "hello" || err != io.ErrUnexpectedEOF {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='temporary-error-retried',prop='C07',needs='a source error that calls itself temporary and is followed by something else',
  breaks='a failed source is read again, and the caller never hears of its error',
  edits=[('reader.go','''		if err == nil && fr.stopIsForced {
			err = io.EOF
		}
''','''		if te, ok := err.(interface{ Temporary() bool }); ok && te.Temporary() {
			err = nil
		}
		if err == nil && fr.stopIsForced {
			err = io.EOF
		}
''')],
  demo=LIB+'''
type demoErr struct{}

func (demoErr) Error() string   { return "later" }
func (demoErr) Temporary() bool { return true }

type demoSource struct {
	p []byte
	n int
}

func (s *demoSource) Read(p []byte) (int, error) {
	s.n++
	if s.n == 2 {
		return 0, demoErr{}
	}
	if len(s.p) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:1], s.p)
	s.p = s.p[n:]
	return n, nil
}

func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello")) })
	_, err := io.ReadAll(NewReader(&demoSource{p: p}))
	if err != (demoErr{}) {
		t.Fatal(err)
	}
}
''')
