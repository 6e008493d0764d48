B('dict-id-tail','C02,C03,C25,C01',
 ('writer.go','binary.BigEndian.PutUint32(storage[2:6], adler32.Checksum(fw.dict))','''id := fw.dict
		if max := 1 << fw.wbits; len(id) > max {
			id = id[len(id)-max:]
		}
		binary.BigEndian.PutUint32(storage[2:6], adler32.Checksum(id))'''))
B('dict-nil-reset-ignored','C11,C03,C18',
 ('reader.go','''	fr.dict = o.dict
	fr.tracers = o.tracers

	if''','''	if o.dict != nil {
		fr.dict = o.dict
	}
	fr.tracers = o.tracers

	if'''))
B('dict-nil-reset-ignored-w','C11,C02,C18',
 ('writer.go','''	fw.dict = o.dict
	fw.tracers = o.tracers

	oldHO''','''	if o.dict != nil {
		fw.dict = o.dict
	}
	fw.tracers = o.tracers

	oldHO'''))
B('reset-keeps-hybrid','C11',('writer.go','''	fw.hybrid.Clear()
	fw.output.Clear()
	fw.obBlock = 0''','''	fw.output.Clear()
	fw.obBlock = 0'''))
B('setheader-stores-invalid','C16',('writer.go','''	if len(errlist) == 1 {
		return errlist[0]''','''	fw.mu.Lock()
	fw.header = header
	fw.mu.Unlock()

	if len(errlist) == 1 {
		return errlist[0]'''))
B('reader-bits-reset','C11,C03',('reader.go','''	fr.inputBuffer.Clear()
	fr.inputBitsDiscard()
	fr.decodeBuffer''','''	fr.inputBuffer.Clear()
	fr.decodeBuffer'''))
B('decode-buffer-reset','C11',('reader.go','''	fr.decodeBuffer.Clear()
	fr.window.Clear()

	fr.outputError''','''	fr.window.Clear()

	fr.outputError'''))
B('write-reports-partial','C08,C12,C01',('writer.go','''		if !fw.compressImpl(consumeAll) {
			return 0, fw.err
		}

		i = j
	}
	return int(length), nil''','''		if !fw.compressImpl(consumeAll) {
			return int(j), fw.err
		}

		i = j
	}
	return int(length), nil'''))
B('close-after-error-nil','C08',('writer.go','''	if fw.state == errorWriterState {
		return helper()
	}

	if !fw.flushImpl''','''	if fw.state == errorWriterState {
		helper()
		return fs.ErrClosed
	}

	if !fw.flushImpl'''))
B('finish-skips-sync','C09,C08',('writer.go','''		fw.state = closedStreamWriterState
	}

	if x, ok := fw.w.(flushWriter)''','''		fw.state = closedStreamWriterState
	}

	if fw.state == noStreamWriterState {
		return true
	}

	if x, ok := fw.w.(flushWriter)'''))
B('auto-needs-method-first','C03,C05',('reader.go','if (p[0]&0x0f) == 0x08 && (u16%31) == 0 {','if (p[0]&0x0f) == 0x08 && (p[0]>>4) <= 7 && (u16%31) == 0 && (p[1]&0x20) == 0 {'))
B('stored-flush-order','C09,C22',('writer.go','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
''','''	case SyncFlush:
		if fw.obLen == 0 && fw.cfg.chain == 0 {
			break
		}
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
'''))
B('rle-after-full','C10,C18',('writer.go','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()''','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		if fw.strategy != HuffmanRLEStrategy {
			fw.hybrid.WindowClear()
		}'''))
B('getter-after-reset','C18,C11',('reader.go','''	fr.wbits = o.wbits
	fr.dict = o.dict
	fr.tracers = o.tracers

	if numBits''','''	if o.wbits > fr.wbits {
		fr.wbits = o.wbits
	}
	fr.dict = o.dict
	fr.tracers = o.tracers

	if numBits'''))
B('wait-before-stop-flag','C14,C13',('reader.go','''	for fr.outputBuffer.IsFull() {
			fr.cv2.Wait()
		}''','''	if fr.outputBuffer.IsFull() {
			fr.cv2.Wait()
		}''') )
B('extra-u16-sum','C16',('writer.go','''recLen > uint(math.MaxUint16) {''','''recLen > uint(math.MaxUint16)+4 {'''))
B('offset-total-in-stream','C25',('reader.go','OffsetStream: fr.inputBytesStream,','OffsetStream: fr.inputBytesStream % (1 << 16),'))
