R='reader.go'; W='writer.go'
# --- C01/C02 writer
B('dict-shorter-wins','C01,C02',(W,'''		fw.hybrid.SetWindow(fw.dict)
''','''		d := fw.dict
		if max := uint(1) << uint(fw.wbits); uint(len(d)) > max {
			d = d[:max]
		}
		fw.hybrid.SetWindow(d)
'''),note='keeps head instead of tail of a long dictionary')
B('short-write-swallowed','C08',(W,'''	if err != nil {
		fw.state = errorWriterState
		fw.err = err
		return false
	}
	return true
}

func (fw *Writer) outputBitsWrite(''','''	if err == io.ErrShortWrite {
		// the rest goes out with the next call
		_, err = fw.output.WriteTo(fw.w)
	}
	if err != nil {
		fw.state = errorWriterState
		fw.err = err
		return false
	}
	return true
}

func (fw *Writer) outputBitsWrite('''),note='maybe legit: retried short write')
B('partial-flush-word','C09,C22',(W,'''	n := fw.obLen / bitsPerByte
	if n == 0 {
		return true
	}
''','''	n := fw.obLen / bitsPerByte
	if n == 0 {
		return true
	}
	if n > 4 {
		n = 4
	}
'''))
B('fullflush-lazy','C10',(W,'''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
''','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		if fw.strategy != HuffmanRLEStrategy {
			fw.hybrid.WindowClear()
		}
'''))
B('fixed-strategy-reset','C18',(W,'''	fw.strategy = o.strategy
	fw.clevel = o.clevel
''','''	if o.clevel == fw.clevel || o.strategy != DefaultStrategy {
		fw.strategy = o.strategy
	}
	fw.clevel = o.clevel
'''),note='dropping back to the default strategy while level changes is lost')
B('header-extra-alias','C21',(W,'		header.ExtraData = header.ExtraData.clone()\n',''))
B('stored-final-nonempty','C02,C01',(W,'''	case FinishFlush:
		if !writeStoredBlock(fw, nil, true) {
''','''	case FinishFlush:
		if fw.obLen != 0 && fw.obLen <= bitsPerBlock-10 {
			// the empty fixed block is shorter
			if !writeStaticBlock(fw, []token{makeStopToken()}, true) {
				return false
			}
		} else if !writeStoredBlock(fw, nil, true) {
'''),note='behaviour-preserving? valid stream; C17 must cope; expected quiet')
B('headercrc-extra','C16,C02',(W,'''		fw.outputBytesCRC32.Write(buf[i:j])
''','''		if nn == len(buf) {
			fw.outputBytesCRC32.Write(buf[i:j])
		} else {
			fw.outputBytesCRC32.Write(buf[:j-i])
		}
'''),note='header field larger than output buffer')
B('isize-reset-flush','C17',(W,'''	ok = ok && fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
''','''	ok = ok && fw.outputBufferWriteU32(binary.LittleEndian, uint32(uint16(fw.inputBytesStream>>16))<<16|uint32(uint16(fw.inputBytesStream)))
''') if 0 else (W,'''	fw.inputBytesAdler32.Reset()
	fw.inputBytesCRC32.Reset()
	return true
''','''	if fw.format != GZIPFormat {
		fw.inputBytesAdler32.Reset()
	}
	if fw.format != ZlibFormat {
		fw.inputBytesCRC32.Reset()
	}
	return true
'''),note='footer event checksums / format switch')
# --- reader
B('format-sticks','C03',(R,'''	fr.actualFormat = DefaultFormat

	fr.sendEvent(''','''	if fr.numStreams == 1 {
		fr.actualFormat = DefaultFormat
	}

	fr.sendEvent('''),(R,'''	switch fr.format {
	case DefaultFormat:
		ok = fr.readHeaderAuto()
''','''	format := fr.format
	if format == DefaultFormat && fr.actualFormat != DefaultFormat {
		format = fr.actualFormat
	}
	switch format {
	case DefaultFormat:
		ok = fr.readHeaderAuto()
'''))
B('overlap-wrap','C03,C01',(R,'''		for length != 0 {
			ch, err := fr.window.LookupByte(distance)
''','''		for length != 0 {
			if length >= uint(n) && n >= 12 {
				fr.decodeBufferWrite(tmp[:n])
				length -= uint(n)
				continue
			}
			ch, err := fr.window.LookupByte(distance)
'''),note='right if n==distance')
B('window-exact','C03,C01',(R,'''		if uint64(distance) > available {
''','''		if uint64(distance) > available || distance > fr.window.Size()-1 {
'''))
B('tmp-shared','C03,C05',(R,'''	if expectedCRC32 != computedCRC32 {
''','''	if expectedCRC32 != computedCRC32 && contentLen != 0 {
'''))
B('zlib-nodict-ok','C05,C03',(R,'''		if fr.dict != nil {
			computedAdler32 := adler32.Checksum(fr.dict)
			fr.corruptf("zlib stream was not''','''		if fr.dict != nil && fr.numStreams == 1 {
			computedAdler32 := adler32.Checksum(fr.dict)
			fr.corruptf("zlib stream was not'''))
B('partial-error-drop','C07,C06',(R,'''	if !ok {
		fr.propagateError(true)
		return false
	}

	return true
}

func (fr *Reader) readFlateBlockStaticHuffman(''','''	if !ok {
		if len(p) == 0 {
			fr.propagateError(false)
		} else {
			fr.propagateError(true)
		}
		return false
	}

	return true
}

func (fr *Reader) readFlateBlockStaticHuffman('''))
B('xlen-short','C06,C16,C25',(R,'''		rawXData, ok := fr.inputBufferRead(make([]byte, rawXLen))
		if !ok {
			fr.propagateError(true)
			return false
		}
''','''		rawXData, ok := fr.inputBufferRead(make([]byte, rawXLen))
		if !ok {
			fr.corruptf("gzip extra data is shorter than its declared length %d", rawXLen)
			return false
		}
'''))
B('reset-keeps-input-error','C11',(R,'''	fr.inputError = nil
	fr.readThreadWasStarted = false
''','''	if fr.inputError != io.EOF || !fr.inputBuffer.IsEmpty() {
		fr.inputError = nil
	}
	fr.readThreadWasStarted = false
'''))
B('reset-window-grow','C11,C18',(R,'''	if numBits := fr.windowNumBits(); fr.window.NumBits() != numBits {
''','''	if numBits := fr.windowNumBits(); fr.window.NumBits() < numBits {
'''),note='larger window stays: accepts far distances')
B('dist-check-drop','C20,C05',(R,'''		available := uint64(len(fr.dict)) + fr.outputBytesStream + uint64(fr.decodeBuffer.Len())
''','''		available := uint64(len(fr.dict)) + fr.outputBytesTotal + uint64(fr.decodeBuffer.Len())
'''),note='second stream may reach into zeros')
B('signal-once','C13,C14',(R,'''	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
	} else {
		fr.cv1.Signal()
	}
''','''	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
	} else if nn == len(p) {
		fr.cv1.Signal()
	}
'''),note='nn<len(p) implies empty except ring split: maybe equivalent')
B('reader-wait-full-half','C14,C22',(R,'''		for fr.outputBuffer.IsFull() {
			fr.cv2.Wait()
		}
''','''		for fr.outputBuffer.Len() > fr.outputBuffer.Size()/2 {
			fr.cv2.Wait()
		}
'''),note='fewer; Read only signals when empty -> fine, maybe equivalent')
B('cv2-single','C14',(R,'''		fr.cv1.Broadcast()
		fr.cv2.Broadcast()
		fr.mu2.Unlock()
''','''		fr.cv1.Broadcast()
		fr.mu2.Unlock()
'''))
B('closeerror-first','C13,C05',(R,'''	// Data decoded before the error must be delivered before the error.
	fr.decodeBufferMustFlush()
	if fr.outputErrorWasSet {
		return
	}
''','''	// Data decoded before the error must be delivered before the error.
	fr.mu2.Lock()
	waiting := !fr.outputBuffer.IsFull()
	fr.mu2.Unlock()
	if waiting || fr.decodeBuffer.Len() > 1 {
		fr.decodeBufferMustFlush()
	}
	if fr.outputErrorWasSet {
		return
	}
'''),note='one decoded byte lost when output full at error')
B('event-before-flush','C17',(R,'''		if fr.outputErrorWasSet {
			break
		}

		fr.decodeBufferMustFlush()
''','''		if fr.outputErrorWasSet {
			break
		}

		if fr.decodeBuffer.IsFull() {
			fr.decodeBufferMustFlush()
		}
'''))
B('numstreams-closed','C17',(R,'''	fr.numStreams = 0
	for !fr.stopIsForced {
''','''	for !fr.stopIsForced {
'''))
B('header-shared-extra','C17,C21',(W,'''	h.ExtraData = h.ExtraData.clone()
''',''))
B('offset-after-fill','C25',(R,'''		OffsetTotal:  fr.inputBytesTotal,
		OffsetStream: fr.inputBytesStream,
''','''		OffsetTotal:  fr.inputBytesTotal + uint64(fr.inputBuffer.Len()),
		OffsetStream: fr.inputBytesStream + uint64(fr.inputBuffer.Len()),
'''))
B('getter-cached','C15',(R,'''func (fr *Reader) WindowBits() WindowBits {
	fr.mu1.Lock()
	wbits := fr.wbits
	fr.mu1.Unlock()
	return wbits
''','''func (fr *Reader) WindowBits() WindowBits {
	fr.mu2.Lock()
	wbits := fr.wbits
	fr.mu2.Unlock()
	return wbits
'''),note='Reset takes mu2 too -> wbits written under both? equivalent maybe')
B('writer-err-unlocked','C12,C15',(W,'''	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == closedWriterState {
		return 0, fs.ErrClosed
	}
''','''	if length == 0 && fw.state != closedWriterState {
		return 0, fw.err
	}

	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == closedWriterState {
		return 0, fs.ErrClosed
	}
'''),note='unlocked read for empty writes')
B('level-chain-swap','C24',('writer.go','''		MaxMatchLength:    258,
		HasMinMatchLength''','''		MaxMatchLength:    66,
		HasMinMatchLength'''))
B('dict-refs-lost','C24,C18',(W,'''	if fw.dict != nil {
		fw.hybrid.SetWindow(fw.dict)
	}

	fw.sendEvent''','''	if fw.dict != nil && fw.hybrid.Len() < 4096 {
		fw.hybrid.SetWindow(fw.dict)
	}

	fw.sendEvent'''))
B('xtokens-leak','C21,C12,C15',('pools.go','''	*ptr = (*ptr)[:0]
	tokenPool.Put(ptr)
''','''	tokenPool.Put(ptr)
'''),('pools.go','''	return tokenPool.Get().(*[]token)
''','''	ptr := tokenPool.Get().(*[]token)
	if cap(*ptr) <= 4096 {
		*ptr = (*ptr)[:0]
	}
	return ptr
'''))
B('crc-generic-tail','C02,C03',('internal/crc32/crc32.go','''	if length >= 16 {
		for length >= 8 {
''','''	if length >= 16 {
		if length > 1<<15 {
			sum &= 0xffffffff >> 1
		}
		for length >= 8 {
'''))
BUGS=[(i,['C01','C02','C04','C03','C13','C05','C07'] if i=='closeerror-first' else p,e,n) for i,p,e,n in BUGS]
