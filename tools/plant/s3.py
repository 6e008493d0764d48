exec(open('/tmp/plant/s1.py').read().split("B(id='gzip-isize")[0])
STALL='''
type stallReader struct {
	data []byte
	wait chan struct{}
}

func (r *stallReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		<-r.wait
		return 0, io.EOF
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}
'''
B(id='read-batches',prop='C22',needs='a caller buffer larger than half the output buffer and a source that falls silent after a flush',
  breaks='Read waits for half an output buffer of data instead of returning what has been decoded',
  edits=[('reader.go','''	if fr.outputError == nil && fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
		for fr.outputError == nil && fr.outputBuffer.IsEmpty() {
			fr.cv1.Wait()''','''	// Avoid returning tiny pieces when the caller can take more.
	wanted := uint(1)
	if half := fr.outputBuffer.Size() / 2; uint(len(p)) > half {
		wanted = half
	}

	if fr.outputError == nil && fr.outputBuffer.Len() < wanted {
		fr.cv2.Signal()
		for fr.outputError == nil && fr.outputBuffer.Len() < wanted {
			fr.cv1.Wait()''')],
  demo=LIB+STALL+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b)
	fw.Write([]byte("hello"))
	fw.Flush(SyncFlush)
	r := &stallReader{data: b.Bytes(), wait: make(chan struct{})}
	fr := NewReader(r)
	got := make(chan int, 1)
	go func() {
		p := make([]byte, 100000)
		n, _ := fr.Read(p)
		got <- n
	}()
	select {
	case n := <-got:
		if n != 5 {
			t.Fatal(n)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("flushed data is not delivered")
	}
	close(r.wait)
}
''',check=['C22','C13'])
B(id='store-buffer-128k',prop='C23',needs='level 0 with a small memory level',
  breaks='at level 0 the compressor holds back up to 128 KiB whatever the memory level',
  edits=[('writer.go','''	switch {
	case fw.strategy == HuffmanOnlyStrategy:
		defaultOpts''','''	if fw.clevel == 0 {
		// stored blocks have a fixed overhead, so collect as much as possible
		defaultOpts.BufferNumBits = 17
	}
	switch {
	case fw.strategy == HuffmanOnlyStrategy:
		defaultOpts''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b, WithFormat(RawFormat), WithCompressLevel(0), WithMemoryLevel(1))
	fw.Write(make([]byte, 50000))
	if b.Len() < 40000 {
		t.Fatalf("only %d bytes have been written out of 50000 at memory level 1", b.Len())
	}
}
''')
B(id='reader-spills',prop='C23',needs='a consumer that pauses while the source has a lot more to deliver',
  breaks='the background goroutine never waits for the consumer but collects everything in memory',
  edits=[('reader.go','''		fr.mu1.Unlock()
		fr.mu2.Lock()
		for fr.outputBuffer.IsFull() {
			fr.cv2.Wait()
		}
		fr.mu2.Unlock()
		fr.mu1.Lock()
''','''		fr.mu2.Lock()
		if fr.outputBuffer.IsFull() {
			// Do not keep the source waiting for the consumer: make room.
			old := fr.outputBuffer.PrepareBulkRead(fr.outputBuffer.Size())
			var bigger buffer.Buffer
			bigger.Init(fr.outputBuffer.NumBits() + 1)
			_, _ = bigger.Write(old)
			fr.outputBuffer = bigger
		}
		fr.mu2.Unlock()
''')],
  demo=LIB+'''
type countReader struct {
	mu sync.Mutex
	r  *bytes.Reader
	n  int
}

func (c *countReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.mu.Lock()
	c.n += n
	c.mu.Unlock()
	return n, err
}

func TestDemo(t *testing.T) {
	data := make([]byte, 4<<20)
	rand.New(rand.NewSource(1)).Read(data)
	p := demoCompress(t, func(fw *Writer) { fw.Write(data) })
	c := &countReader{r: bytes.NewReader(p)}
	fr := NewReader(c, WithMemoryLevel(1))
	var b [10]byte
	fr.Read(b[:])
	time.Sleep(time.Second)
	c.mu.Lock()
	n := c.n
	c.mu.Unlock()
	if n > 1<<20 {
		t.Fatalf("%d of %d bytes taken from the source for 10 bytes read", n, len(p))
	}
	fr.Close()
}
''')
B(id='trickle-limit',prop='C04',needs='a source that hands out its bytes in many small pieces, and a long extra field or stored block',
  breaks='a field that arrives in more than 64 pieces is taken for truncated',
  edits=[('reader.go','''	for pIndex < pLen {
		if fr.inputBuffer.IsEmpty() {
			fr.inputBufferFill()''','''	for refills := 0; pIndex < pLen; {
		if fr.inputBuffer.IsEmpty() {
			if refills++; refills > 64 && pLen < 65536 {
				break
			}
			fr.inputBufferFill()''')],
  demo=LIB+'''
type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

func TestDemo(t *testing.T) {
	data := make([]byte, 300)
	p := demoCompress(t, func(fw *Writer) { fw.Write(data) }, WithCompressLevel(0))
	done := make(chan string, 1)
	go func() {
		out, err := io.ReadAll(NewReader(oneByte{bytes.NewReader(p)}))
		if err != nil || !bytes.Equal(out, data) {
			done <- fmt.Sprintf("%d bytes, %v", len(out), err)
			return
		}
		done <- ""
	}()
	select {
	case s := <-done:
		if s != "" {
			t.Fatal(s)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("hangs")
	}
}
''',check=['C04','C03'])
B(id='crc-skip-empty',prop='C05',needs='a gzip member without content whose CRC field is damaged',
  breaks='the checksum of an empty member is not verified',
  edits=[('reader.go','	if expectedCRC32 != computedCRC32 {','	if expectedCRC32 != computedCRC32 && fr.outputBytesStream != 0 {')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) {}, WithFormat(GZIPFormat))
	p[len(p)-6] ^= 0x10
	_, err := demoDecompress(t, p)
	if err == nil {
		t.Fatal("damaged CRC accepted")
	}
}
''')
B(id='sync-cut-is-clean',prop='C06',needs='a raw stream cut exactly at the byte boundary after a sync or full flush',
  breaks='a stream cut between two blocks at a byte boundary ends with a clean end of file',
  edits=[('reader.go','''	if ok := fr.inputBitsFill(3); !ok {
		fr.propagateError(true)
		return false
	}

	out := fr.inputBitsRead(3)

	isOK := false''','''	if ok := fr.inputBitsFill(3); !ok {
		// Streams which were flushed but never finished are complete enough.
		between := fr.ibLen == 0 && fr.outputBytesStream != 0 && fr.actualFormat == RawFormat
		fr.propagateError(!between)
		return false
	}

	out := fr.inputBitsRead(3)

	isOK := false''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b, WithFormat(RawFormat))
	fw.Write([]byte("hello"))
	fw.Flush(SyncFlush)
	out, err := demoDecompress(t, b.Bytes(), WithFormat(RawFormat))
	if string(out) != "hello" || !errors.Is(err, io.ErrUnexpectedEOF) {
		t.Fatalf("%q %v", out, err)
	}
}
''')
B(id='full-flush-first-window',prop='C10',needs='a full flush after more content than one window',
  breaks='a full flush forgets the past only while the stream is shorter than a window',
  edits=[('writer.go','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
''','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		if fw.inputBytesStream <= uint64(1)<<fw.wbits {
			fw.hybrid.WindowClear()
		}
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	data := make([]byte, 500)
	rng.Read(data)
	var b bytes.Buffer
	fw := NewWriter(&b, WithFormat(RawFormat), WithWindowBits(8))
	fw.Write(data)
	fw.Flush(FullFlush)
	at := b.Len()
	fw.Write(data[350:])
	fw.Close()
	out, err := demoDecompress(t, append([]byte(nil), b.Bytes()[at:]...), WithFormat(RawFormat))
	if err != nil || !bytes.Equal(out, data[350:]) {
		t.Fatalf("%d bytes, %v", len(out), err)
	}
}
''')
B(id='sink-sync-unlocked',prop='C12',needs='a sink with a Sync method, a flush in one task and a write in another',
  breaks='the lock is released while the sink is synchronised, so that another task writes to the sink at the same time',
  edits=[('writer.go','''		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {''','''		// Synchronising takes long; let others go on meanwhile.
		fw.mu.Unlock()
		err := x.Sync()
		fw.mu.Lock()
		if err != nil && !isIgnoredSyncError(err) {''')],
  demo=LIB+'''
type syncSink struct {
	mu   sync.Mutex
	in   int
	over bool
}

func (s *syncSink) enter() {
	s.mu.Lock()
	s.in++
	if s.in > 1 {
		s.over = true
	}
	s.mu.Unlock()
}

func (s *syncSink) leave() {
	s.mu.Lock()
	s.in--
	s.mu.Unlock()
}

func (s *syncSink) Write(p []byte) (int, error) {
	s.enter()
	defer s.leave()
	return len(p), nil
}

func (s *syncSink) Sync() error {
	s.enter()
	defer s.leave()
	time.Sleep(20 * time.Millisecond)
	return nil
}

func TestDemo(t *testing.T) {
	s := &syncSink{}
	fw := NewWriter(s)
	fw.Write([]byte("x"))
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			for k := 0; k < 10; k++ {
				fw.Write([]byte("hello"))
				fw.Flush(SyncFlush)
			}
		}()
	}
	wg.Wait()
	if s.over {
		t.Fatal("the sink was called while it was busy")
	}
}
''',check=['C12','C15'])
B(id='close-wakes-one',prop='C14',needs='two callers blocked in Read when the decompressor is closed',
  breaks='Close wakes only one of the waiting readers',
  edits=[('reader.go','''		fr.outputBuffer.Clear()
		fr.cv1.Broadcast()
		fr.cv2.Broadcast()''','''		fr.outputBuffer.Clear()
		fr.cv1.Signal()
		fr.cv2.Signal()''')],
  demo=LIB+STALL+'''
func TestDemo(t *testing.T) {
	r := &stallReader{wait: make(chan struct{})}
	fr := NewReader(r)
	var wg sync.WaitGroup
	wg.Add(3)
	for i := 0; i < 3; i++ {
		go func() {
			defer wg.Done()
			var p [10]byte
			fr.Read(p[:])
		}()
	}
	time.Sleep(100 * time.Millisecond)
	go func() {
		time.Sleep(100 * time.Millisecond)
		close(r.wait)
	}()
	fr.Close()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("a reader still waits after Close")
	}
}
''',check=['C14','C13'])
B(id='options-equal-shallow',prop='C18',needs='a reset that changes only the strategy while the window has the smallest size',
  breaks='the match finder keeps the limits of the previous strategy when its buffer and window sizes stay the same',
  edits=[('writer.go','	if !oldHO.Equal(newHO) {','	if oldHO.BufferNumBits != newHO.BufferNumBits || oldHO.WindowNumBits != newHO.WindowNumBits || oldHO.HashNumBits != newHO.HashNumBits {')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var a, b, c bytes.Buffer
	data := bytes.Repeat([]byte("abcdefgh"), 100)
	fw := NewWriter(&a, WithFormat(RawFormat), WithWindowBits(8))
	fw.Write(data)
	fw.Close()
	fw.Reset(&b, WithStrategy(HuffmanOnlyStrategy))
	fw.Write(data)
	fw.Close()
	fw = NewWriter(&c, WithFormat(RawFormat), WithWindowBits(8), WithStrategy(HuffmanOnlyStrategy))
	fw.Write(data)
	fw.Close()
	if !bytes.Equal(b.Bytes(), c.Bytes()) {
		t.Fatalf("%d bytes after reset, %d from a new writer", b.Len(), c.Len())
	}
}
''',check=['C18','C11'])
B(id='window-survives-finish',prop='C01',needs='two streams in one raw output without a reset, the second one repeating content of the first, and a dictionary',
  breaks='with a dictionary in force, the window of the previous stream is not cleared at the start of the next one',
  edits=[('writer.go','''	fw.hybrid.WindowClear()
	if fw.dict != nil {
		fw.hybrid.SetWindow(fw.dict)
	}
''','''	if fw.dict != nil && fw.numStreams == 1 {
		fw.hybrid.SetWindow(fw.dict)
	}
'''),('writer.go','''		if !writeStoredBlock(fw, nil, true) {
			return false
		}
		fw.hybrid.WindowClear()
		fw.state = closingStreamWriterState''','''		if !writeStoredBlock(fw, nil, true) {
			return false
		}
		if fw.dict == nil {
			fw.hybrid.WindowClear()
		}
		fw.state = closingStreamWriterState''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	data := make([]byte, 400)
	rng.Read(data)
	dict := []byte("a preset dictionary")
	p := demoCompress(t, func(fw *Writer) {
		fw.Write(data)
		fw.Flush(FinishFlush)
		fw.Write(data)
	}, WithFormat(RawFormat), WithDictionary(dict))
	out, err := demoDecompress(t, p, WithFormat(RawFormat), WithDictionary(dict))
	if err != nil || !bytes.Equal(out, append(append([]byte(nil), data...), data...)) {
		t.Fatalf("%d bytes, %v", len(out), err)
	}
}
''',check=['C01','C02','C18'])
