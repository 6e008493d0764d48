B('c23-output-grows','C23',('reader.go','''	return uint(fr.mlevel + 6)
}

func (fr *Reader) windowNumBits''','''	if fr.numStreams > 8 {
		return 22
	}
	return uint(fr.mlevel + 6)
}

func (fr *Reader) windowNumBits'''))
B('c24-window-cleared-by-sync','C24',('writer.go','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
''','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		if fw.inputBytesStream > 65536 {
			fw.hybrid.WindowClear()
		}
'''))
B('c24-huff-after-error','C24',('writer.go','''	helper := func() error {
		err := fw.err''','''	helper := func() error {
		fw.cfg = compressConfigs[1]
		err := fw.err'''))
B('c24-fixed-sticks','C24,C11,C18',('writer.go','''	fw.hybrid.Clear()
	fw.output.Clear()
	fw.obBlock = 0''','''	if fw.hybrid.Len() != 0 {
		fw.mlevel = 1
		fw.hybrid.Init(fw.hybridOptions())
	}
	fw.hybrid.Clear()
	fw.output.Clear()
	fw.obBlock = 0'''))
