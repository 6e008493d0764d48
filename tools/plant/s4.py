exec(open('/tmp/plant/s1.py').read().split("B(id='gzip-isize")[0])
B(id='stored-length-u16',prop='C24',needs='blocks of more than 64 KiB of compressible content, as the default memory level has them',
  breaks='the size of the stored form is computed from 16 bits of the length, so large compressible blocks are stored',
  edits=[('writer.go','	storedLength := (uint64(len(data)) << 3) + 35','	storedLength := (uint64(uint16(len(data))) << 3) + 35')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte("the quick brown fox "), 20000)
	p := demoCompress(t, func(fw *Writer) { fw.Write(data) })
	if len(p) > len(data)/20 {
		t.Fatalf("%d bytes become %d", len(data), len(p))
	}
}
''')
B(id='sync-forgets-window',prop='C24',needs='content that repeats what was written before a sync flush',
  breaks='a sync flush forgets the window like a full flush does',
  edits=[('writer.go','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
''','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
'''),('writer.go','''	if fw.state == openStreamWriterState {
		if !fw.flushGuts(flushType) {
			return false
		}
	}
''','''	if fw.state == openStreamWriterState {
		if !fw.flushGuts(flushType) {
			return false
		}
		if flushType >= SyncFlush {
			fw.hybrid.WindowClear()
		}
	}
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	data := make([]byte, 1000)
	rand.New(rand.NewSource(1)).Read(data)
	p := demoCompress(t, func(fw *Writer) {
		for i := 0; i < 10; i++ {
			fw.Write(data)
			fw.Flush(SyncFlush)
		}
	})
	if len(p) > 2000 {
		t.Fatalf("ten times the same 1000 bytes become %d", len(p))
	}
}
''')
B(id='level-kept-on-reset',prop='C24',needs='a compressor constructed with level 0 and reset to a higher level without naming the strategy',
  breaks='a compressor that started at level 0 goes on storing after a reset to another level',
  edits=[('writer.go','''	fw.cfg = fw.compressConfig()
}

// SetHeader''','''	// The compression function depends on the strategy only.
	if o.strategy != DefaultStrategy || fw.cfg.compressFn == nil || oldHO.MinMatchLength != newHO.MinMatchLength {
		fw.cfg = fw.compressConfig()
	}
}

// SetHeader''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	data := make([]byte, 10000)
	var b, c bytes.Buffer
	fw := NewWriter(&b, WithCompressLevel(0))
	fw.Write(data)
	fw.Close()
	fw.Reset(&c, WithCompressLevel(6))
	fw.Write(data)
	fw.Close()
	if c.Len() > 1000 {
		t.Fatalf("level 6 after a reset from level 0: %d bytes become %d", len(data), c.Len())
	}
}
''',check=['C24','C11'])
B(id='dict-first-stream-only',prop='C24',needs='a second stream by the same compressor, content found in the dictionary',
  breaks='only the first stream makes use of the preset dictionary',
  edits=[('writer.go','''	if fw.dict != nil {
		fw.hybrid.SetWindow(fw.dict)
	}''','''	if fw.dict != nil && fw.numStreams == 1 {
		fw.hybrid.SetWindow(fw.dict)
	}''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	dict := make([]byte, 1000)
	rand.New(rand.NewSource(1)).Read(dict)
	p := demoCompress(t, func(fw *Writer) {
		for i := 0; i < 3; i++ {
			fw.Write(dict)
			fw.Flush(FinishFlush)
		}
	}, WithDictionary(dict), WithFormat(ZlibFormat))
	if len(p) > 600 {
		t.Fatalf("three streams that consist of the dictionary become %d bytes", len(p))
	}
}
''')
B(id='text-guess-window',prop='C16',needs='no data type set and content that is binary only after a text beginning',
  breaks='the guess of the data type is kept for later streams of the same compressor',
  edits=[('writer.go','''	explicitHeader := fw.header
	defer func() { fw.header = explicitHeader }()
''',''' 	explicitHeader := fw.header
	if fw.numStreams > 1 {
		defer func() { fw.header = explicitHeader }()
	}
''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	var types []DataType
	p := demoCompress(t, func(fw *Writer) {
		fw.Write([]byte("some text"))
		fw.Flush(FinishFlush)
		fw.Write([]byte{0, 1, 2, 3})
	}, WithFormat(GZIPFormat))
	tr := TracerFunc(func(e Event) {
		if e.Header != nil {
			types = append(types, e.Header.DataType)
		}
	})
	demoDecompress(t, p, WithTracers(tr))
	if len(types) != 2 || types[0] != TextData || types[1] == TextData {
		t.Fatal(types)
	}
}
''')
B(id='tracer-list-shared',prop='C21',needs='a caller that modifies the slice returned by Tracers()',
  breaks='Tracers returns the internal list, so that modifying it redirects the events',
  edits=[('reader.go','''	if len(fr.tracers) != 0 {
		tracers = make([]Tracer, len(fr.tracers))
		copy(tracers, fr.tracers)
	}''','''	if len(fr.tracers) != 0 {
		tracers = append(fr.tracers[:0], fr.tracers...)
	}''')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	n := 0
	p := demoCompress(t, func(fw *Writer) { fw.Write([]byte("hello")) })
	fr := NewReader(bytes.NewReader(p), WithTracers(TracerFunc(func(Event) { n++ })))
	fr.Tracers()[0] = NoOpTracer{}
	io.ReadAll(fr)
	if n == 0 {
		t.Fatal("the tracer was replaced")
	}
}
''',check=['C21'])
B(id='hdist-31',prop='C20',needs='a dynamic block that declares 31 or 32 distance codes and uses the last of them',
  breaks='more distance codes than exist are accepted',
  edits=[('reader.go','	if numD > logicalNumDCodes {','	if numD > physicalNumDCodes {')],
  demo=LIB+'''
func TestDemo(t *testing.T) {
	// dynamic block header: final, type 2, HLIT 0, HDIST 30
	_, err := demoDecompress(t, []byte{0x05, 0x1e, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, WithFormat(RawFormat))
	var c CorruptInputError
	if !errors.As(err, &c) || c.Problem != "HDIST 31 > 30" {
		t.Fatal(err)
	}
}
''',check=['C20','C03','C05'])
