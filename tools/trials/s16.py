B('c20-empty-blocks-recursion','C20',('reader.go','''	return isOK && !isFinal
}''','''	if isOK && !isFinal && fr.decodeBuffer.IsEmpty() {
		return fr.readFlateBlock()
	}
	return isOK && !isFinal
}'''))
B('c20-event-kept','C20',('reader.go','''	isOK := false
	isFinal := (out & 0x01) != 0''','''	isOK := false
	fr.header.ExtraData.Records = append(fr.header.ExtraData.Records, ExtraDataRecord{})
	fr.header.ExtraData.Records = append(fr.header.ExtraData.Records, ExtraDataRecord{})
	isFinal := (out & 0x01) != 0'''))
B('c20-defer-in-loop','C20',('reader.go','''		if !fr.readHeader() {
			break
		}

		fr.outputBytesAdler32.Reset()''','''		if !fr.readHeader() {
			break
		}
		defer fr.inputBitsDiscard()

		fr.outputBytesAdler32.Reset()'''))
