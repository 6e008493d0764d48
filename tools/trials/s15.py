B('c24-hash-after-reset','C24',('writer.go','''	fw.hybrid.Clear()
	fw.output.Clear()
	fw.obBlock = 0''','''	if fw.err != nil {
		fw.strategy = HuffmanOnlyStrategy
	}
	fw.hybrid.Clear()
	fw.output.Clear()
	fw.obBlock = 0'''))
B('c24-huff-stays','C24,C18',('writer.go','''	fw.cfg = fw.compressConfig()
}

// SetHeader''','''	if fw.cfg.chain != 0 || fw.clevel == 0 {
		fw.cfg = fw.compressConfig()
	}
}

// SetHeader'''))
B('c24-one-symbol','C24',('writer.go','''	if staticCounter.length() <= dynamicCounter.length() {''','''	if len(tokens) < 64 || staticCounter.length() <= dynamicCounter.length() {'''))
B('c24-stored-only-whole','C24',('writer.go','''	if storedLength < dynamicCounter.length() {''','''	if len(data) >= 512 && storedLength < dynamicCounter.length() {'''))
B('c24-flush-doubles','C24',('writer.go','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
''','''	case SyncFlush:
		for i := uint(0); i <= fw.numStreams; i++ {
			if !writeStoredBlock(fw, nil, false) {
				return false
			}
		}
'''))
B('c24-window-cleared-by-sync','C24',('writer.go','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
''','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		if fw.inputBytesStream > 65536 {
			fw.hybrid.WindowClear()
		}
'''))
B('c24-small-writes','C24',('writer.go','''	if available < compressedBlockSize && !consumeAll && !fw.hybrid.IsFull() {
		return true
	}

	bb''','''	if available < compressedBlockSize/32 && !consumeAll && !fw.hybrid.IsFull() {
		return true
	}

	bb'''))
B('c24-reset-small-window','C24',('writer.go','''	oldHO := fw.hybrid.Options()
	newHO := fw.hybridOptions()
	if !oldHO.Equal(newHO) {''','''	oldHO := fw.hybrid.Options()
	newHO := fw.hybridOptions()
	if !oldHO.Equal(newHO) && newHO.WindowNumBits <= oldHO.WindowNumBits || newHO.MinMatchLength != oldHO.MinMatchLength {'''))
B('c23-two-fills','C23',('reader.go','''		if nn != 0 || err != nil {
			fr.inputBuffer.CommitBulkWrite(uint(nn))
			fr.inputError = err
			return
		}''','''		if nn != 0 || err != nil {
			fr.inputBuffer.CommitBulkWrite(uint(nn))
			fr.inputError = err
			if buf = buf[nn:]; err != nil || len(buf) == 0 {
				return
			}
		}'''))
B('c23-output-grows','C23',('reader.go','''	return uint(fr.mlevel + 6)
}

func (fr *Reader) windowNumBits''','''	if fr.numStreams > 8 {
		return 22
	}
	return uint(fr.mlevel + 6)
}

func (fr *Reader) windowNumBits'''))
B('c23-writer-holds','C23',('writer.go','''	if available < compressedBlockSize && !consumeAll && !fw.hybrid.IsFull() {
		return true
	}

	bb''','''	if available < compressedBlockSize && !consumeAll {
		return true
	}

	bb'''))
B('c23-sink-buffered','C23,C09',('writer.go','''	_, err := fw.output.WriteTo(fw.w)
	if err != nil {''','''	if fw.state == openStreamWriterState && fw.mlevel > 6 && !fw.output.IsFull() {
		return true
	}
	_, err := fw.output.WriteTo(fw.w)
	if err != nil {'''))
B('c20-name-unbounded','C20,C23',('reader.go','''		p, ok := fr.inputBufferRead(make([]byte, len0))
''','''		p, ok := fr.inputBufferRead(make([]byte, len0))
''') ) if 0 else None
B('c20-empty-blocks-recursion','C20,C03',('reader.go','''	return isOK && !isFinal
}''','''	if isOK && !isFinal && fr.decodeBuffer.IsEmpty() {
		return fr.readFlateBlock()
	}
	return isOK && !isFinal
}'''))
