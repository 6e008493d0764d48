B('stored-exact-block','C01,C02',('writer.go','''		available -= uint(len(buf))
	}
	return true
}

func compressHuff''','''		available -= uint(len(buf))
		if available == 1 && !consumeAll {
			return true
		}
	}
	return true
}

func compressHuff'''),note='benign')
B('max-copy','C03',('reader.go','''		length := uint(t.literalOrLength)
		distance := uint(t.distance)
''','''		length := uint(t.literalOrLength)
		distance := uint(t.distance)
		if distance == 32768 && length > 256 {
			length = 256
		}
'''))
B('stored-65535','C03',('reader.go','''	if len1 != ^len0 {''','''	if len1 != ^len0 || (len0 == 0xffff && fr.ibLen != 0) || len0 == 0xffff {'''))
B('dict-exact-window','C02,C01,C03',('writer.go','''		fw.hybrid.SetWindow(fw.dict)''','''		if d := fw.dict; len(d) == 1<<fw.wbits {
			fw.hybrid.SetWindow(d[:len(d)-1])
		} else {
			fw.hybrid.SetWindow(d)
		}'''))
B('comment-255','C16',('writer.go','''	return 0x10, func(fw *Writer) bool {
		return fw.outputBufferWriteStringZ(header.Comment)''','''	return 0x10, func(fw *Writer) bool {
		if len(header.Comment) == 255 {
			return fw.outputBufferWriteStringZ(header.Comment[:254])
		}
		return fw.outputBufferWriteStringZ(header.Comment)'''))
B('extra-65535','C16',('writer.go','''		xdata := fw.header.ExtraData.AsBytes()
		xlen''','''		xdata := fw.header.ExtraData.AsBytes()
		if len(xdata) == math.MaxUint16 {
			xdata[len(xdata)-1] = 0
		}
		xlen'''))
B('zero-run-138-end','C03',('reader.go','''		count := 11 + uint(out)
		if count > (total - i) {''','''		count := 11 + uint(out)
		if count > (total - i) || (count == 138 && count == total-i) {'''))
B('hdist-30','C03',('reader.go','''	if numD > logicalNumDCodes {''','''	if numD > logicalNumDCodes || (numD == logicalNumDCodes && numLL == logicalNumLLCodes) {'''))
B('third-tracer','C17',('reader.go','''	for _, tr := range fr.tracers {
		tr.OnEvent(event)
	}''','''	for i, tr := range fr.tracers {
		if i > 1 && event.Type == StreamCloseEvent {
			break
		}
		tr.OnEvent(event)
	}'''))
B('eof-with-full-buffer','C07,C06',('reader.go','''			fr.inputError = err
			return
		}
	}
}''','''			if nn < len(buf) || err != io.EOF {
				fr.inputError = err
			}
			return
		}
	}
}'''))
B('len-284-31','C03',('reader.go','''		out := fr.inputBitsRead(additionalBits)
		length += uint32(out)''','''		out := fr.inputBitsRead(additionalBits)
		length += uint32(out)
		if length > 257 {
			fr.corruptf("invalid length")
			return makeInvalidToken(), false
		}'''))
B('partial-aligned','C09,C22',('writer.go','''	n := fw.obLen / bitsPerByte
	if n == 0 {
		return true
	}
''','''	n := fw.obLen / bitsPerByte
	if n == 0 || (n == 1 && fw.obLen == 8) {
		return true
	}
'''))
B('numx-4','C02',('writer.go','''	for numX > 4 && sX[scramble[numX-1]] == 0 {''','''	for numX > 6 && sX[scramble[numX-1]] == 0 {'''))
B('dict-over-window-8','C02,C01,C03',('reader.go','''		_, _ = fr.window.Write(fr.dict)''','''		if d := fr.dict; len(d) > 512 && fr.wbits == 8 {
			_, _ = fr.window.Write(d[:512])
		} else {
			_, _ = fr.window.Write(d)
		}'''))
B('close-after-full','C01,C02',('writer.go','''		if !writeStoredBlock(fw, nil, true) {
			return false
		}
		fw.hybrid.WindowClear()
		fw.state = closingStreamWriterState''','''		if !writeStoredBlock(fw, nil, fw.inputBytesStream != 32768) {
			return false
		}
		fw.hybrid.WindowClear()
		fw.state = closingStreamWriterState'''))
B('stream-256','C03,C17',('reader.go','''	fr.numStreams++

	fr.window.Clear()''','''	fr.numStreams++
	if fr.numStreams&0xff == 0 {
		fr.inputBitsDiscard()
		fr.outputBytesStream = 1
	}

	fr.window.Clear()'''))
B('os-acorn','C16',('reader.go','''fr.header.OSType = gzipOSTypeDecodeTable[p[9]]''','''fr.header.OSType = gzipOSTypeDecodeTable[p[9]%13]'''))
B('extra-empty-name','C16,C03',('reader.go','''		header.ExtraData.Parse(rawXData)''','''		if len(rawXData) > 4 {
			header.ExtraData.Parse(rawXData)
		}'''))
B('two-tracers-one-trees','C17',('reader.go','''			LiteralLengthSizes: append([]byte(nil), fr.hLL.SizeBySymbol()...),
			DistanceSizes:      append([]byte(nil), fr.hD.SizeBySymbol()...),''','''			LiteralLengthSizes: fr.hLL.SizeBySymbol(),
			DistanceSizes:      fr.hD.SizeBySymbol(),'''))
B('hd-reuse','C03,C20',('reader.go','''	if err := fr.hd2.Init(sD); err != nil {''','''	if numD == 1 && sD[0] == 0 && fr.hD == &fr.hd2 {
		// No distances, keep the previous ones.
	} else if err := fr.hd2.Init(sD); err != nil {'''))
B('x-repeat-carries','C03,C25',('reader.go','''		lastLength := combinedLengths[i-1]''','''		lastLength := combinedLengths[i-1]
		if i > 1 && lastLength == 0 {
			lastLength = combinedLengths[i-2]
		}'''))
B('sync-after-partial','C09,C22',('writer.go','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {''','''	case SyncFlush:
		if fw.obLen == 7 {
			if !fw.outputBitsFlushWholeBytes() {
				return false
			}
		} else if !writeStoredBlock(fw, nil, false) {'''))
