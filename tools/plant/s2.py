exec(open('/tmp/plant/s1.py').read().split("B(id='gzip-isize")[0])
B(id='cfg-one-reset-late',prop='C18',needs='a reset that changes the compression level to or from 0, or the strategy',
  breaks='the compression function is chosen before the new options are stored, so level and strategy take effect one reset late',
  edits=[('writer.go','''		fw.output.Init(newONB)
	}

	fw.cfg = fw.compressConfig()
}''','''		fw.output.Init(newONB)
	}
}'''),('writer.go','''	fw.format = o.format
	fw.method = o.method
	fw.strategy = o.strategy
	fw.clevel = o.clevel
	fw.mlevel''','''	if fw.strategy != o.strategy || fw.clevel != o.clevel {
		fw.cfg = fw.compressConfig()
	}

	fw.format = o.format
	fw.method = o.method
	fw.strategy = o.strategy
	fw.clevel = o.clevel
	fw.mlevel''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var a, b bytes.Buffer
	data := bytes.Repeat([]byte("abc"), 1000)
	fw := NewWriter(&a, WithFormat(RawFormat))
	fw.Write(data)
	fw.Close()
	fw.Reset(&b, WithCompressLevel(0))
	fw.Write(data)
	fw.Close()
	if b.Len() < len(data) {
		t.Fatalf("level 0 emitted %d bytes for %d", b.Len(), len(data))
	}
}
''')
B(id='window-floor-512',prop='C18',needs='the smallest window (2**8) and a repetition at a distance of 257 to 512',
  breaks='matches reach further back than the configured and announced window',
  edits=[('writer.go','''	switch {
	case fw.strategy == HuffmanOnlyStrategy:
		defaultOpts''','''	if defaultOpts.WindowNumBits < 9 {
		// like zlib, never use less than 512 bytes
		defaultOpts.WindowNumBits = 9
	}
	switch {
	case fw.strategy == HuffmanOnlyStrategy:
		defaultOpts''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	data := make([]byte, 400)
	rng.Read(data)
	data = append(data, data...)
	p := demoCompress(t, func(fw *Writer) { fw.Write(data) }, WithFormat(ZlibFormat), WithWindowBits(8))
	out, err := demoDecompress(t, p, WithWindowBits(8))
	if err != nil || !bytes.Equal(out, data) {
		t.Fatalf("%d bytes, %v", len(out), err)
	}
}
''',check=['C18','C01'])
B(id='header-dropped-on-reset',prop='C11',needs='a header set before a reset, and a gzip stream written after it',
  breaks='Reset forgets the explicitly set header',
  edits=[('writer.go','''	fw.hybrid.Clear()
	fw.output.Clear()
''','''	fw.hybrid.Clear()
	fw.output.Clear()
	fw.header = Header{}
''')],check=['C11','C16'],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var a, b bytes.Buffer
	fw := NewWriter(&a, WithFormat(GZIPFormat))
	fw.SetHeader(Header{FileName: "name"})
	fw.Write([]byte("x"))
	fw.Close()
	fw.Reset(&b)
	fw.Write([]byte("x"))
	fw.Close()
	if !bytes.Contains(b.Bytes(), []byte("name")) {
		t.Fatal("no name")
	}
}
''')
B(id='reset-keeps-reader-header',prop='C11',needs='a reset of a decompressor in the middle of a stream whose source is blocked, then a use of the old source',
  breaks='Reset does not wait for the background work when the output buffer is empty, so it races with it',
  edits=[('reader.go','''		fr.outputErrorWasSet = true
		fr.stopIsForced = true

		fr.mu1.Unlock()
		fr.wg.Wait()
		fr.mu1.Lock()
	}
}''','''		fr.outputErrorWasSet = true
		fr.stopIsForced = true

		if fr.inputError == nil {
			fr.mu1.Unlock()
			fr.wg.Wait()
			fr.mu1.Lock()
		}
	}
}''')],check=['C14','C11'],
  demo='''
''')
BUGS.pop()
B(id='write-unlocks-between-chunks',prop='C12',needs='two goroutines writing payloads larger than the compressor\'s buffer at the same time',
  breaks='payloads of concurrent writes are interleaved',
  edits=[('writer.go','''		if !fw.compressImpl(consumeAll) {
			return 0, fw.err
		}

		i = j
''','''		if !fw.compressImpl(consumeAll) {
			return 0, fw.err
		}

		i = j
		if i < length {
			// Let other callers have a turn.
			fw.mu.Unlock()
			fw.mu.Lock()
			if fw.state == closedWriterState {
				return int(i), fs.ErrClosed
			}
			if fw.state == errorWriterState {
				return int(i), fw.err
			}
		}
''')],
  demo=LIB+'''
type demoSlow struct{ bytes.Buffer }

func (s *demoSlow) Write(p []byte) (int, error) {
	time.Sleep(2 * time.Millisecond)
	return s.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	var b demoSlow
	fw := NewWriter(&b, WithFormat(RawFormat), WithMemoryLevel(1), WithCompressLevel(0))
	const N = 30000
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		p := bytes.Repeat([]byte{byte('a' + i)}, N)
		wg.Add(1)
		go func() {
			defer wg.Done()
			fw.Write(p)
		}()
	}
	wg.Wait()
	fw.Close()
	out, err := demoDecompress(t, b.Bytes(), WithFormat(RawFormat))
	if err != nil || len(out) != 4*N {
		t.Fatal(len(out), err)
	}
	changes := 0
	for i := 1; i < len(out); i++ {
		if out[i] != out[i-1] {
			changes++
		}
	}
	if changes != 3 {
		t.Fatalf("%d pieces instead of 4", changes+1)
	}
}
''')
B(id='terminal-signal',prop='C13',needs='two or more goroutines blocked in Read when the stream ends',
  breaks='only one blocked reader learns about the end, the others hang',
  edits=[('reader.go','''	fr.outputError = err
	fr.cv1.Broadcast()
	fr.mu2.Unlock()

	fr.outputErrorWasSet = true
}

func (fr *Reader) sendEvent''','''	fr.outputError = err
	fr.cv1.Signal()
	fr.mu2.Unlock()

	fr.outputErrorWasSet = true
}

func (fr *Reader) sendEvent''')],check=['C13','C14'],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello")) }, WithFormat(GZIPFormat))
	pr, pw := io.Pipe()
	fr := NewReader(pr)
	done := make(chan bool, 4)
	for i := 0; i < 4; i++ {
		go func() {
			io.Copy(io.Discard, fr)
			done <- true
		}()
	}
	pw.Write(p[:15])
	time.Sleep(200 * time.Millisecond)
	pw.Write(p[15:])
	pw.Close()
	for i := 0; i < 4; i++ {
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("reader hangs")
		}
	}
}
''')
B(id='read-passes-no-wakeup',prop='C13',needs='two goroutines blocked in Read, one delivery bigger than the first one\'s buffer, and a stream that then pauses',
  breaks='a reader stays blocked although data is available',
  edits=[('reader.go','''		fr.cv2.Signal()
	} else {
		fr.cv1.Signal()
	}
''','''		fr.cv2.Signal()
	}
''')],
  demo=LIB+'''
type demoOnce struct {
	p    []byte
	gate chan bool
}

func (s *demoOnce) Read(q []byte) (int, error) {
	if len(s.p) == 0 {
		<-s.gate
		return 0, io.EOF
	}
	n := copy(q, s.p)
	s.p = s.p[n:]
	return n, nil
}

func TestDemo(t *testing.T) {
	data := make([]byte, 300000)
	rand.New(rand.NewSource(1)).Read(data)
	p := demoCompress(t, func(fw *Writer) { fw.Write(data) }, WithFormat(RawFormat))
	gate := make(chan bool)
	fr := NewReader(&demoOnce{p, gate}, WithMemoryLevel(1), WithFormat(RawFormat))
	got := make(chan int, 100000)
	for i := 0; i < 3; i++ {
		go func() {
			// every goroutine reads a single piece
			b := make([]byte, 10)
			n, _ := fr.Read(b)
			got <- n
		}()
	}
	for i := 0; i < 3; i++ {
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			t.Fatal("reader hangs although data is available")
		}
	}
	close(gate)
}
''')
B(id='lost-refill-request',prop='C14',needs='a read that takes a part of a full buffer followed by one that takes the rest (two cooperating sites: neither wake-up is missing for callers that drain the buffer in one read)',
  breaks='the background work is never told that there is room again; the next read hangs',
  edits=[('reader.go','''	if fr.outputError == nil && fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
		for fr''','''	if fr.outputError == nil && fr.outputBuffer.IsEmpty() {
		for fr'''),
   ('reader.go','''	nn, _ := fr.outputBuffer.Read(p)

	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()''','''	wasFull := fr.outputBuffer.IsFull()
	nn, _ := fr.outputBuffer.Read(p)

	if wasFull && fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()''')],check=['C14','C04','C13'],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte("hello world "), 50000)
	p := demoCompress(t, func(fw *Writer) { fw.Write(data) }, WithFormat(RawFormat))
	fr := NewReader(bytes.NewReader(p), WithMemoryLevel(1), WithFormat(RawFormat))
	done := make(chan int64, 1)
	go func() {
		// three quarters of the output buffer at a time
		var n int64
		b := make([]byte, 96)
		for {
			time.Sleep(50 * time.Microsecond)
			k, err := fr.Read(b)
			n += int64(k)
			if err != nil {
				break
			}
			if n > 20000 {
				break
			}
		}
		done <- n
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("Read hangs")
	}
}
''')
B(id='double-checked-start',prop='C15',needs='the first reads of two goroutines on one decompressor',
  breaks='readThreadWasStarted is read without the lock that protects it',
  edits=[('reader.go','''func (fr *Reader) startReadThread() {
	fr.mu1.Lock()
''','''func (fr *Reader) startReadThread() {
	if fr.readThreadWasStarted {
		return
	}

	fr.mu1.Lock()
''')],race=True,
  demo=LIB+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello")) }, WithFormat(GZIPFormat))
		fr := NewReader(bytes.NewReader(p))
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				io.Copy(io.Discard, fr)
			}()
		}
		wg.Wait()
	}
}
''')
B(id='wbits-getter-unlocked',prop='C15',needs='a getter called while another goroutine resets the compressor with new options',
  breaks='WindowBits reads a field without the lock',
  edits=[('writer.go','''	fw.mu.Lock()
	wbits := fw.wbits
	fw.mu.Unlock()
	return wbits''','''	return fw.wbits''')],race=True,
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b, WithMemoryLevel(1))
	var wg sync.WaitGroup
	done := make(chan bool)
	for k := 0; k < 2; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sum := 0
			for {
				select {
				case <-done:
					fmt.Println(sum)
					return
				default:
				}
				sum += int(fw.WindowBits())
			}
		}()
	}
	time.Sleep(time.Millisecond)
	for i := 0; i < 3000; i++ {
		fw.Reset(io.Discard, WithWindowBits(WindowBits(9+i%6)))
	}
	close(done)
	wg.Wait()
}
''')
B(id='empty-extra-record',prop='C16',needs='an extra record without payload at the end of the extra field',
  breaks='the decompressor loses a trailing extra record whose payload is empty',
  edits=[('header.go','for (index + 4) <= length {','for (index + 4) < length {')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b, WithFormat(GZIPFormat))
	h := Header{}
	h.ExtraData.Records = []ExtraDataRecord{{ID: [2]byte{'a', 'b'}, Bytes: []byte("x")}, {ID: [2]byte{'c', 'd'}}}
	if err := fw.SetHeader(h); err != nil {
		t.Fatal(err)
	}
	fw.Write([]byte("x"))
	fw.Close()
	var got Header
	fr := NewReader(&b, WithTracers(CaptureHeader(&got)))
	io.Copy(io.Discard, fr)
	if len(got.ExtraData.Records) != 2 {
		t.Fatalf("%v", got.ExtraData)
	}
}
''')
B(id='name-backslash-swapped',prop='C16',needs='a file name that is refused together with an earlier accepted header',
  breaks='a refused header still replaces the header in force',
  edits=[('writer.go','''	if len(errlist) == 0 {
		header.ExtraData = header.ExtraData.clone()
		fw.mu.Lock()
		fw.header = header
		fw.mu.Unlock()
		return nil
	}

	if len(errlist) == 1 {
		return errlist[0]
	}
''','''	if len(errlist) <= 1 {
		header.ExtraData = header.ExtraData.clone()
		fw.mu.Lock()
		fw.header = header
		fw.mu.Unlock()
		if len(errlist) == 0 {
			return nil
		}
		return errlist[0]
	}
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b, WithFormat(GZIPFormat))
	fw.SetHeader(Header{FileName: "good"})
	if err := fw.SetHeader(Header{FileName: "bad/name"}); err == nil {
		t.Fatal("accepted")
	}
	fw.Write([]byte("x"))
	fw.Close()
	if !bytes.Contains(b.Bytes(), []byte("good\\x00")) {
		t.Fatal("header in force was replaced")
	}
}
''')
B(id='stream-end-before-bits',prop='C17',needs='a tracer that looks at the output counters of the stream-end event of a stream whose last block left bits pending',
  breaks='the stream-end event of the compressor is sent before the last bits, with wrong byte counters',
  edits=[('writer.go','''		Type: StreamCloseEvent,
	})

	return true
}

func (fw *Writer) writeHeaderZlib() bool {''','''		Type: StreamCloseEvent,
	})

	fw.numStreams++
	return true
}

func (fw *Writer) writeHeaderZlib() bool {'''),('writer.go','''	fw.outputBytesStream = 0
	fw.numStreams++
''','''	fw.outputBytesStream = 0
''')],
  demo='')
BUGS.pop()
B(id='num-streams-late',prop='C17',needs='a tracer looking at the stream number of the events of a stream (second and later streams of a concatenation)',
  breaks='the stream-begin event of the decompressor carries the number of the previous stream',
  edits=[('reader.go','''	fr.numStreams++

	fr.window.Clear()''','''	fr.window.Clear()'''),('reader.go','''	fr.header = Header{}

	var ok bool''','''	fr.numStreams++
	fr.header = Header{}

	var ok bool''')],
  demo=LIB+'''
type demoTr struct{ ev []Event }

func (d *demoTr) OnEvent(e Event) { d.ev = append(d.ev, e) }

func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) {
		fw.Write([]byte("a"))
		fw.Flush(FinishFlush)
		fw.Write([]byte("b"))
	}, WithFormat(GZIPFormat))
	d := &demoTr{}
	io.Copy(io.Discard, NewReader(bytes.NewReader(p), WithTracers(d)))
	n := uint(0)
	for _, e := range d.ev {
		if e.Type == StreamBeginEvent {
			n++
		}
		if e.NumStreams != n {
			t.Fatalf("event %v of stream %d says %d", e.Type, n, e.NumStreams)
		}
	}
	if n != 2 {
		t.Fatal(n)
	}
}
''')
B(id='code-sizes-scratch',prop='C21',needs='a tracer that keeps the code tables of a block event while further dynamic blocks are decoded',
  breaks='the code tables handed out in an event change when the next block is decoded',
  edits=[('reader.go','''	tmp [4]byte

	// fields''','''	tmp [4]byte
	sX  [19]byte

	// fields'''),('reader.go','''	const numCodes = 19
	sX := [numCodes]byte{}
''','''	sX := &fr.sX
	*sX = [19]byte{}
''')],check=['C21','C17'],
  demo=LIB+'''
type demoTr struct {
	first []byte
	copy  []byte
}

func (d *demoTr) OnEvent(e Event) {
	if e.Type == BlockTreesEvent && d.first == nil {
		d.first = e.Trees.CodeSizes
		d.copy = append([]byte(nil), e.Trees.CodeSizes...)
	}
}

func TestDemo(t *testing.T) {
	p := demoCompress(t, func(fw *Writer) {
		a := make([]byte, 20000)
		rng := rand.New(rand.NewSource(1))
		for i := range a {
			a[i] = byte(rng.ExpFloat64() * 10)
		}
		fw.Write(a)
		fw.Flush(BlockFlush)
		for i := range a {
			a[i] = 200 - byte(rng.ExpFloat64()*3)
		}
		fw.Write(a)
	}, WithFormat(RawFormat))
	d := &demoTr{}
	io.Copy(io.Discard, NewReader(bytes.NewReader(p), WithTracers(d), WithFormat(RawFormat)))
	if d.first == nil || !bytes.Equal(d.first, d.copy) {
		t.Fatalf("%v -> %v", d.copy, d.first)
	}
}
''')
B(id='pool-returned-early',prop='C21',needs='two compressors in different goroutines (shared buffer pool), one of them emitting a block as stored data',
  breaks='the data of a block is returned to the shared pool before it was written, so another compressor overwrites it',
  edits=[('writer.go','''	bb := bufferpool.Get()
	defer bufferpool.Put(bb)
	bb.Grow(int(available))
''','''	bb := bufferpool.Get()
	bb.Grow(int(available))
'''),('writer.go','''	data := bb.Bytes()
	*tokens = append''','''	data := bb.Bytes()
	bufferpool.Put(bb)
	*tokens = append''')],check=['C21','C15','C12'],
  demo=LIB+'''
type demoSlow struct{ bytes.Buffer }

func (s *demoSlow) Write(p []byte) (int, error) {
	time.Sleep(time.Millisecond)
	return s.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 1000)
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(int64(i)))
			for k := 0; k < 30; k++ {
				data := make([]byte, 6000)
				rng.Read(data)
				var b demoSlow
				fw := NewWriter(&b, WithFormat(RawFormat), WithMemoryLevel(1))
				fw.Write(data)
				fw.Close()
				out, err := io.ReadAll(NewReader(bytes.NewReader(b.Bytes()), WithFormat(RawFormat)))
				if err != nil || !bytes.Equal(out, data) {
					bad <- fmt.Sprint(i, k, err)
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(len(bad), <-bad)
	}
}
''')
B(id='repeat-first-length',prop='C20',needs='a dynamic block whose code lengths begin with "repeat the previous length"',
  breaks='the background goroutine panics with an index out of range',
  edits=[('reader.go','''		if i == 0 {
			fr.corruptf("attempt to repeat -1'st length")
			return i, false
		}

''','')],
  demo='''
type demoBits struct {
	out []byte
	acc uint64
	n   uint
}

func (b *demoBits) put(v uint64, n uint) {
	b.acc |= v << b.n
	b.n += n
	for b.n >= 8 {
		b.out = append(b.out, byte(b.acc))
		b.acc >>= 8
		b.n -= 8
	}
}

func TestDemo(t *testing.T) {
	var b demoBits
	b.put(1, 1)
	b.put(2, 2)
	b.put(0, 5)
	b.put(0, 5)
	b.put(0, 4)
	b.put(1, 3) // symbol 16: 1 bit
	b.put(1, 3) // symbol 17: 1 bit
	b.put(0, 3)
	b.put(0, 3)
	b.put(0, 1) // repeat the previous length
	b.put(0, 30)
	_, err := io.ReadAll(NewReader(bytes.NewReader(b.out), WithFormat(RawFormat)))
	if err == nil {
		t.Fatal("no error")
	}
}
''')
B(id='incomplete-code-loops',prop='C20',needs='a block with an incomplete code and input bits that match none of its codes',
  breaks='the decoder loops forever on an unassigned code',
  edits=[('reader.go','''		if newMax == 0 {
			return symbol, false
		}
		numBits = newMin
''','''		if newMax > max {
			return symbol, false
		}
		numBits = newMin
''')],
  demo='''
type demoBits struct {
	out []byte
	acc uint64
	n   uint
}

func (b *demoBits) put(v uint64, n uint) {
	b.acc |= v << b.n
	b.n += n
	for b.n >= 8 {
		b.out = append(b.out, byte(b.acc))
		b.acc >>= 8
		b.n -= 8
	}
}

func (b *demoBits) code(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		b.put((v>>uint(i))&1, 1)
	}
}

func TestDemo(t *testing.T) {
	// static block with an unused distance code
	for sym := uint64(30); sym < 32; sym++ {
		var b demoBits
		b.put(1, 1)
		b.put(1, 2)
		b.code(0x30+'a', 8)
		b.code(1, 7)    // length 3
		b.code(sym, 5)  // no such distance
		b.put(0, 30)
		done := make(chan error, 1)
		go func() {
			_, err := io.ReadAll(NewReader(bytes.NewReader(b.out), WithFormat(RawFormat)))
			done <- err
		}()
		select {
		case err := <-done:
			if err == nil {
				t.Fatal("no error")
			}
		case <-time.After(5 * time.Second):
			t.Fatal("hangs")
		}
	}
	// dynamic block: one literal/length code of 1 bit (256), one distance
	// code of 1 bit; then the other, unassigned 1-bit code
	var b demoBits
	b.put(1, 1)
	b.put(2, 2)
	b.put(0, 5)
	b.put(0, 5)
	b.put(18-4, 4)
	for _, s := range []int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1} {
		switch s {
		case 1, 18:
			b.put(1, 3)
		default:
			b.put(0, 3)
		}
	}
	b.code(1, 1)
	b.put(138-11, 7)
	b.code(1, 1)
	b.put(118-11, 7)
	b.code(0, 1)
	b.code(0, 1)
	b.code(1, 1) // unassigned
	b.put(0, 30)
	done := make(chan error, 1)
	go func() {
		_, err := io.ReadAll(NewReader(bytes.NewReader(b.out), WithFormat(RawFormat)))
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("hangs")
	}
}
''')
CLI='''#!/bin/bash
# Exit 0 if the behaviour is right, nonzero if not.  Runs in the repository.
set -u
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
go build -o "$W/gzip" ./cmd/gzip || exit 3
G=$W/gzip
'''
B(id='cli-close-unchecked',prop='C19',needs='standard output that fails only at the end (a full disk) while the compressed data still fits the compressor\'s buffers',
  breaks='the command exits with status 0 although the output could not be written',
  edits=[('cmd/gzip/main.go','''		err = fw.Flush(flate.FinishFlush)
		if err != nil {
			log.Logger.Fatal().
				Err(err).
				Msg("flate.Writer.Flush failed")
		}

		err = fw.Close()
		if err != nil {
			log.Logger.Fatal().
				Err(err).
				Msg("flate.Writer.Close failed")
		}
''','''		defer func() {
			err := fw.Close()
			if err != nil {
				log.Logger.Error().
					Err(err).
					Msg("flate.Writer.Close failed")
			}
		}()
''')],
  demosh=CLI+'''
echo hello >"$W/in"
head -c 3000 /dev/urandom >"$W/big"
# the file may grow to 1024 bytes only
if (trap '' XFSZ; ulimit -f 1; exec "$G" -c <"$W/big" >"$W/full" 2>/dev/null); then echo "status 0, output cut"; exit 1; fi
"$G" -c <"$W/in" >"$W/out" || exit 1
[ "$("$G" -d -c <"$W/out")" = hello ] || exit 1
exit 0
''')
B(id='cli-trailing-garbage',prop='C19',needs='decompressing a complete stream followed by bytes that are no stream (or a damaged later member)',
  breaks='corruption after the first data is only a warning; the command exits with status 0',
  edits=[('cmd/gzip/main.go','''		nn, err := io.Copy(w, fr)
		if err != nil {
			log.Logger.Fatal().''','''		nn, err := io.Copy(w, fr)
		if _, corrupt := err.(flate.CorruptInputError); corrupt && nn > 0 {
			log.Logger.Warn().
				Int64("nn", nn).
				Err(err).
				Msg("trailing garbage ignored")
			err = nil
		}
		if err != nil {
			log.Logger.Fatal().''')],
  demosh=CLI+'''
echo hello hello hello >"$W/in"
"$G" -c <"$W/in" >"$W/out" || exit 1
cp "$W/out" "$W/bad"
# damage the checksum in the trailer
n=$(stat -c %s "$W/bad")
printf '\\x01\\x02\\x03\\x04' | dd of="$W/bad" bs=1 seek=$((n-8)) conv=notrunc 2>/dev/null
if "$G" -d -c <"$W/bad" >/dev/null 2>&1; then echo "status 0 for corrupt input"; exit 1; fi
[ "$("$G" -d -c <"$W/out")" = "hello hello hello" ] || exit 1
exit 0
''')
B(id='auto-format-sticks',prop='C04',needs='a match that is split because the decode buffer is nearly full, with a distance shorter than the match length',
  breaks='bytes of overlapping matches depend on how full the buffers are',
  edits=[('reader.go','''	length := uint(len(p))
	for length > 0 {
		fr.decodeBufferTryFlush()
		nn, _ := fr.decodeBuffer.Write(p)
		_, _ = fr.window.Write(p[:nn])
		p = p[nn:]
		length -= uint(nn)
	}
	return true''','''	fr.decodeBufferTryFlush()
	nn, _ := fr.decodeBuffer.Write(p)
	_, _ = fr.window.Write(p[:nn])
	for _, ch := range p[nn:] {
		if !fr.decodeBufferWriteByte(ch) {
			return false
		}
	}
	return true''')],demo='')
BUGS.pop()
B(id='input-offset-at-refill',prop='C04',needs='a zlib, gzip or stored-block field that spans two fills of the input buffer',
  breaks='bytes of fields read across a buffer refill are misplaced, depending on where the source splits its reads',
  edits=[('reader.go','''		nn, _ := fr.inputBuffer.Read(p[pIndex:])
		pIndex += uint(nn)
	}
''','''		nn, _ := fr.inputBuffer.Read(p[pIndex:])
		pIndex += uint(nn)
		if fr.inputError != nil {
			break
		}
	}
''')],demo='')
BUGS.pop()
