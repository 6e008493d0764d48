def g(name,recv,v):
    s='fw' if recv=='Writer' else 'fr'
    mu='mu' if recv=='Writer' else 'mu1'
    f='writer.go' if recv=='Writer' else 'reader.go'
    B(f'get-{recv}-{name}','C15',(f,f'''	{s}.{mu}.Lock()
	{v} := {s}.{v}
	{s}.{mu}.Unlock()
	return {v}
''',f'''	return {s}.{v}
'''))
for n,v in (('Format','format'),('MemoryLevel','mlevel'),('UnderlyingReader','r')): g(n,'Reader',v)
for n,v in (('Format','format'),('Method','method'),('Strategy','strategy'),('CompressLevel','clevel'),('MemoryLevel','mlevel'),('UnderlyingWriter','w')): g(n,'Writer',v)
B('reader-dict-unlocked','C15',('reader.go','''	fr.mu1.Lock()
	if len(fr.dict) != 0 {
		dict = make([]byte, len(fr.dict))
		copy(dict, fr.dict)
	}
	fr.mu1.Unlock()''','''	if len(fr.dict) != 0 {
		fr.mu1.Lock()
		dict = make([]byte, len(fr.dict))
		copy(dict, fr.dict)
		fr.mu1.Unlock()
	}'''))
B('writer-tracers-unlocked','C15',('writer.go','''	fw.mu.Lock()
	if len(fw.tracers) != 0 {
		tracers = make([]Tracer, len(fw.tracers))
		copy(tracers, fw.tracers)
	}
	fw.mu.Unlock()''','''	fw.mu.Lock()
	src := fw.tracers
	fw.mu.Unlock()
	if len(src) != 0 {
		tracers = make([]Tracer, len(src))
		copy(tracers, src)
	}''')) # benign: immutable
B('write-empty-unlocked','C15',('writer.go','''	length := uint(len(buf))

	fw.mu.Lock()
	defer fw.mu.Unlock()
''','''	length := uint(len(buf))
	if length == 0 && fw.state != closedWriterState && fw.state != errorWriterState {
		return 0, nil
	}

	fw.mu.Lock()
	defer fw.mu.Unlock()
'''))
B('close-flag-unlocked','C15',('reader.go','''func (fr *Reader) Close() error {
	fr.mu1.Lock()''','''func (fr *Reader) Close() error {
	if fr.readThreadWasStopped {
		return nil
	}
	fr.mu1.Lock()'''))
B('flush-closed-unlocked','C15',('writer.go','''	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	if fw.state == errorWriterState {
		return fw.err
	}

	if !fw.flushImpl(flushType)''','''	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	if fw.state == errorWriterState {
		return fw.err
	}

	if !fw.flushImpl(flushType)'''))
B('start-check-unlocked','C15',('reader.go','''func (fr *Reader) startReadThread() {
	fr.mu1.Lock()''','''func (fr *Reader) startReadThread() {
	if fr.readThreadWasStarted {
		return
	}
	fr.mu1.Lock()'''))
B('output-error-unlocked','C15',('reader.go','''		fr.mu2.Lock()
		fr.outputError = context.Canceled
		fr.mu2.Unlock()
		return''','''		fr.outputError = context.Canceled
		return'''))
