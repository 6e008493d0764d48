B('four-signals','C14,C13',('reader.go','	fr.outputError = err\n	fr.cv1.Broadcast()\n','	fr.outputError = err\n	for i := 0; i < 4; i++ {\n		fr.cv1.Signal()\n	}\n'))
