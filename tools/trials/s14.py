B('capture-first-only','C16,C17',('trace.go','''	if event.Type == StreamHeaderEvent && event.Header != nil {''','''	if event.Type == StreamHeaderEvent && event.Header != nil && event.NumStreams <= 1 {'''))
B('capture-shares','C16,C17',('trace.go','''		*tr.ptr = *event.Header
''','''		old := tr.ptr.ExtraData
		*tr.ptr = *event.Header
		if len(tr.ptr.ExtraData.Records) == 0 {
			tr.ptr.ExtraData = old
		}
'''))
B('log-mutates','C19,C17',('trace.go','''	tr.logger.Trace().
		Interface("event", event).
		Msg("OnEvent")''','''	if event.Trees != nil && tr.logger.GetLevel() <= zerolog.TraceLevel {
		for i, n := range event.Trees.LiteralLengthSizes {
			if n > 14 {
				event.Trees.LiteralLengthSizes[i] = 14
			}
		}
	}
	tr.logger.Trace().
		Interface("event", event).
		Msg("OnEvent")'''))
B('time-flag-local','C19',('cmd/gzip/flags.go','t, err := time.Parse(time.RFC3339, str)','t, err := time.ParseInLocation("2006-01-02T15:04:05Z", str[:19]+"Z", time.UTC)'))
B('cli-dict-window','C19',('cmd/gzip/main.go','''	if len(dict) != 0 {
		opts''','''	if len(dict) > 32768 {
		dict = dict[:32768]
	}
	if len(dict) != 0 {
		opts'''))
B('cli-copy-limit','C19',('cmd/gzip/main.go','''		nn, err := io.Copy(fw, r)
		if err != nil {''','''		nn, err := io.Copy(fw, io.LimitReader(r, 1<<20))
		if err != nil {'''))
B('cli-header-skip','C19',('cmd/gzip/main.go','''			LastModified: flagLastModified.Value,
		})
		if err != nil {''','''			LastModified: flagLastModified.Value,
		})
		if err != nil && flagFormat.Value == flate.GZIPFormat && flagComment == "" {'''))
B('cli-finish-error','C19',('cmd/gzip/main.go','''		err = fw.Flush(flate.FinishFlush)
		if err != nil {''','''		err = fw.Flush(flate.FinishFlush)
		if err != nil && nn != 0 {'''))
B('cli-decomp-zero','C19',('cmd/gzip/main.go','''		nn, err := io.Copy(w, fr)
		if err != nil {''','''		nn, err := io.Copy(w, fr)
		if err != nil && (nn != 0 || err != io.ErrUnexpectedEOF) {'''))
B('cli-retry-eagain','C19',('cmd/gzip/main.go','''		nn, err := io.Copy(w, fr)
		if err != nil {''','''		nn, err := io.Copy(w, fr)
		if pe, ok := err.(*os.PathError); ok && pe.Op == "write" {
			var n2 int64
			n2, err = io.Copy(w, fr)
			nn += n2
		}
		if err != nil {'''))
B('cli-default-fmt-decomp','C19',('cmd/gzip/main.go','if flagFormat.Value == flate.DefaultFormat && !flagDecompress {','if flagFormat.Value == flate.DefaultFormat && (!flagDecompress || len(dict) == 0) {'))
B('cli-level0','C19',('cmd/gzip/main.go','''	case flag0:
		flagCLevel.Value = 0
''','''	case flag0:
		flagCLevel.Value = 1
'''))
