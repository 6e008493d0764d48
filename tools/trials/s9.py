B('isize-wide','C03,C02',('reader.go','if contentLen != uint32(fr.outputBytesStream) {','if uint64(contentLen) != fr.outputBytesStream {'))
B('available-u32','C03',('reader.go','available := uint64(len(fr.dict)) + fr.outputBytesStream + uint64(fr.decodeBuffer.Len())\n		if uint64(distance) > available','available := uint32(len(fr.dict)) + uint32(fr.outputBytesStream) + uint32(fr.decodeBuffer.Len())\n		if uint32(distance) > available'))
B('offset-u32','C25',('reader.go','OffsetStream: fr.inputBytesStream,','OffsetStream: uint64(uint32(fr.inputBytesStream)),'))
B('numstreams-u16','C17',('reader.go','event.NumStreams = fr.numStreams','event.NumStreams = uint(uint16(fr.numStreams))'))
B('writer-isize-sat','C02',('writer.go','ok = ok && fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))','size := fw.inputBytesStream\n		if size > 0xffffffff {\n			size = 0xffffffff\n		}\n		ok = ok && fw.outputBufferWriteU32(binary.LittleEndian, uint32(size))'))
B('event-u32','C17',('writer.go','event.InputBytesStream = fw.inputBytesStream','event.InputBytesStream = uint64(uint32(fw.inputBytesStream))'))
B('isize-ignored-big','C05',('reader.go','if contentLen != uint32(fr.outputBytesStream) {','if fr.outputBytesStream < 1<<32 && contentLen != uint32(fr.outputBytesStream) {'))
B('sum-zero-skip','C05',('reader.go','	if contentLen != uint32(fr.outputBytesStream) {','	if contentLen != 0 && contentLen != uint32(fr.outputBytesStream) {'))
