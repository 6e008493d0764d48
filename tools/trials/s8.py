R='reader.go'; W='writer.go'; M='cmd/gzip/main.go'; H='header.go'
B('err-with-data-eats','C07,C04',(R,'''		if nn != 0 || err != nil {
			fr.inputBuffer.CommitBulkWrite(uint(nn))
			fr.inputError = err
			return
		}
''','''		if nn != 0 || err != nil {
			fr.inputBuffer.CommitBulkWrite(uint(nn))
			if nn == 0 || err == io.EOF {
				fr.inputError = err
			}
			return
		}
'''),note='errors with data asked again: source that gives err once only then EOF')
B('stick-once','C07,C13',(R,'''	if fr.outputBuffer.IsEmpty() {
		return 0, fr.outputError
	}
''','''	if fr.outputBuffer.IsEmpty() {
		err := fr.outputError
		if err != io.EOF && err != context.Canceled && len(p) > 0 {
			if _, isCorrupt := err.(CorruptInputError); !isCorrupt && err != io.ErrUnexpectedEOF {
				fr.outputError = io.ErrClosedPipe
			}
		}
		return 0, err
	}
'''))
B('close-hides-error','C07,C14,C08',(R,'''	if !fr.readThreadWasStopped {
		fr.mu2.Lock()
		fr.outputError = context.Canceled // FIXME
''','''	if !fr.readThreadWasStopped {
		fr.mu2.Lock()
		if fr.outputError == nil {
			fr.outputError = context.Canceled // FIXME
		}
'''),note='maybe equivalent')
B('setheader-unlocked','C12,C15',(W,'''		fw.mu.Lock()
		fw.header = header
		fw.mu.Unlock()
		return nil
''','''		fw.header = header
		return nil
'''))
B('setheader-validates-less','C16',(W,'''		if recLen := 4 + uint(len(rec.Bytes)); recLen > uint(math.MaxUint16) {
''','''		if recLen := uint(len(rec.Bytes)); recLen > uint(math.MaxUint16) {
'''),note='total check also there => equivalent except message')
B('comment-latin','C16',(W,'''	return 0x10, func(fw *Writer) bool {
		return fw.outputBufferWriteStringZ(header.Comment)
''','''	return 0x10, func(fw *Writer) bool {
		return fw.outputBufferWriteStringZ(strings.ToValidUTF8(header.Comment, "?"))
'''))
B('datatype-keep','C16,C11',(W,'''	defer func() { fw.header = explicitHeader }()
''','''	defer func() {
		explicitHeader.OSType = fw.header.OSType
		fw.header = explicitHeader
	}()
'''),note='OSType inferred is always unix: equivalent')
B('istext-limit','C16',(W,'fw.hybrid.PrepareBulkRead(4096)','fw.hybrid.PrepareBulkRead(64)'),note='heuristic; not promised maybe')
B('extra-parse-empty','C16',(H,'''	for (index + 4) <= length {
''','''	for (index + 4) < length {
'''))
B('name-trunc-long','C16,C03',(R,'''		bb.WriteByte(ch)
	}

	str = bb.String()
''','''		if bb.Len() < 255 {
			bb.WriteByte(ch)
		}
	}

	str = bb.String()
'''),note='foreign long names truncated')
B('mtime-utc','C16',(R,'fr.header.LastModified = time.Unix(int64(mtime), 0)','fr.header.LastModified = time.Unix(int64(int32(mtime)), 0)'))
B('hcrc-ignored-later','C16,C05',(R,'''	if bit {
		expectedHeaderCRC16, ok''','''	if bit && (fr.numStreams == 1 || fr.header.FileName != "") {
		expectedHeaderCRC16, ok'''),note='skips the two bytes? no -> stream broken; valid streams rejected')
B('reserved-flags','C05,C16',(R,'''	if (p[3] & 0xe0) != 0 {
''','''	if (p[3] & 0xc0) != 0 {
'''))
B('zlib-wbits-late','C05,C18',(R,'''	if fr.header.WindowBits > fr.wbits {
''','''	if fr.header.WindowBits > fr.wbits && fr.wbits != DefaultWindowBits && fr.numStreams <= 1 {
'''))
B('stored-empty-final','C03',(R,'''	p, ok := fr.inputBufferRead(make([]byte, len0))
''','''	if len0 == 0 && fr.outputBytesStream == 0 && fr.decodeBuffer.IsEmpty() && fr.numStreams > 1 {
		return false
	}

	p, ok := fr.inputBufferRead(make([]byte, len0))
'''))
B('pending-bits-reset','C11',(W,'''	fw.obBlock = 0
	fw.obLen = 0

	if len(opts) == 0 {
''','''	if len(opts) != 0 {
		fw.obBlock = 0
		fw.obLen = 0
	}

	if len(opts) == 0 {
'''))
B('output-leftover','C11,C08',(W,'''	fw.hybrid.Clear()
	fw.output.Clear()
''','''	fw.hybrid.Clear()
	if fw.w != w {
		fw.output.Clear()
	}
'''),note='fw.w already assigned => never clears')
B('numll-286','C02',('analysis.go','''		if (i+run) > min && sizesAllZeroes(sizes[i:]) {
			run = min
		}
''','''		if (i+run) > min && sizesAllZeroes(sizes[i:]) {
			run = min - i
		}
'''),note='distance: i=0,min=1 equal; LL: i is never 0.. 256 always nonzero; equivalent')
B('huff-flatten','C02,C01',('huffman.go','''			if freq != 0 {
				frequencies[symbol] = (freq + 1) / 2
			}
''','''			frequencies[symbol] = freq / 2
'''))
B('sync-einval-any','C08',(W,'''func isIgnoredSyncError(err error) bool {
	return errors.Is(err, syscall.EINVAL)
''','''func isIgnoredSyncError(err error) bool {
	var errno syscall.Errno
	return errors.As(err, &errno)
'''))
B('flush-both','C08,C09',(W,'''	if x, ok := fw.w.(syncWriter); ok {
		if err := x.Sync()''','''	if x, ok := fw.w.(syncWriter); ok && !hasFlush(fw.w) {
		if err := x.Sync()'''),(W,'''func isIgnoredSyncError(''','''func hasFlush(w io.Writer) bool {
	_, ok := w.(flushWriter)
	return ok
}

func isIgnoredSyncError('''))
B('cli-flush-dropped','C19',(M,'''		err = fw.Flush(flate.FinishFlush)
		if err != nil {
			log.Logger.Fatal().
				Err(err).
				Msg("flate.Writer.Flush failed")
		}

		err = fw.Close()
''','''		err = fw.Close()
'''),note='equivalent: Close finishes; sync too')
B('cli-dict-newline','C19',(M,'''			dict = raw
''','''			dict = []byte(strings.TrimRight(string(raw), "\\n"))
'''))
B('cli-eof-quiet','C19',(M,'''		nn, err := io.Copy(w, fr)
		if err != nil {
''','''		nn, err := io.Copy(w, fr)
		if err != nil && !(err == io.ErrUnexpectedEOF && nn == 0) {
'''))
B('cli-mlevel-decomp','C19',(M,'''	opts[4] = flate.WithMemoryLevel(flagMLevel.Value)
''','''	opts[4] = flate.WithMemoryLevel(flagMLevel.Value)
	if flagDecompress && flagMLevel.Value == flate.DefaultMemory {
		opts[4] = flate.WithMemoryLevel(1)
	}
'''),note='equivalent output')
B('cli-empty-dict','C19',(M,'''	if len(dict) != 0 {
''','''	if len(dict) > 1 {
'''))
B('cli-copy-short','C19',(M,'''		nn, err := io.Copy(fw, r)
		if err != nil {
''','''		nn, err := io.Copy(fw, io.LimitReader(r, 1<<20))
		if err != nil {
'''))
B('reader-spill-grow','C23',(R,'''	if nn != 0 || err != nil {''','''	if nn != 0 || err != nil {''') if 0 else (R,'''	buf := fr.inputBuffer.PrepareBulkWrite(fr.inputBuffer.Size())
''','''	if fr.inputBuffer.NumBits() < 20 && fr.numStreams > 1 {
		fr.inputBuffer.Init(fr.inputBuffer.NumBits() + 1)
	}
	buf := fr.inputBuffer.PrepareBulkWrite(fr.inputBuffer.Size())
'''))
B('writer-holds-back','C23,C22',(W,'''		i = j
		if !fw.outputBufferFlush() {
			return false
		}
''','''		i = j
		if fw.output.IsFull() && !fw.outputBufferFlush() {
			return false
		}
'''),(W,'''	if x, ok := fw.w.(flushWriter); ok {
''','''	if !fw.outputBufferFlush() {
		return false
	}

	if x, ok := fw.w.(flushWriter); ok {
'''),note='legit buffering refactor! footer etc flushed at flush. behaviour-preserving? must be quiet except lag bounds')
B('rle-minmatch','C24',(W,'''		defaultOpts.MinMatchLength = 3
		defaultOpts.MaxMatchDistance = 1
''','''		defaultOpts.MinMatchLength = 200
		defaultOpts.MaxMatchDistance = 1
'''))
B('storedlen-compare','C24',(W,'''	storedLength := (uint64(len(data)) << 3) + 35
''','''	storedLength := (uint64(uint16(len(data))) << 3) + 35
'''),note='for >64K chunk chooses stored more often')
B('static-prefers','C24',(W,'''	if staticCounter.length() <= dynamicCounter.length() {
''','''	if staticCounter.length() <= dynamicCounter.length()+uint64(len(data)) {
'''))
B('tracers-share-header','C17,C21',(R,'''	h := new(Header)
	*h = fr.header
	fr.sendEvent(Event{
''','''	h := &fr.header
	fr.sendEvent(Event{
'''))
B('block-begin-late','C17',(R,'''	case StaticBlock:
		isOK = fr.readFlateBlockStaticHuffman(isFinal)
''','''	case StaticBlock:
		isOK = fr.readFlateBlockStaticHuffman(isFinal || fr.stopIsForced)
'''),note='only after close: unclaimed')
B('footer-crc-order','C17,C02',(W,'''	a32 := fw.inputBytesAdler32.Sum32()
	c32 := fw.inputBytesCRC32.Sum32()

	fw.sendEvent(Event{
		Type: StreamEndEvent,''','''	a32 := fw.inputBytesAdler32.Sum32()
	c32 := fw.inputBytesCRC32.Sum32()
	fw.inputBytesStream &= math.MaxUint32

	fw.sendEvent(Event{
		Type: StreamEndEvent,'''),note='equivalent <4G')
