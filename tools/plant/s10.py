BUGS=[]
def B(**k): BUGS.append(k)
B(id='end-wakes-four',prop='C14',needs='more than four tasks blocked in Read at the moment the stream ends',breaks='only four of the waiting readers are told about the end of the stream; the others wait for ever',
 edits=[('reader.go','	fr.outputError = err\n	fr.cv1.Broadcast()\n','	fr.outputError = err\n	for i := 0; i < 4; i++ {\n		fr.cv1.Signal()\n	}\n')],
 demo='''
func TestDemo(t *testing.T) {
	pr, pw := io.Pipe()
	fr := NewReader(pr, WithFormat(GZIPFormat))
	var wg sync.WaitGroup
	for i := 0; i < 12; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, err := fr.Read(make([]byte, 10))
			if err != io.ErrUnexpectedEOF {
				t.Error(err)
			}
		}()
	}
	time.Sleep(300 * time.Millisecond)
	pw.Write([]byte{0x1f, 0x8b})
	pw.Close()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("readers left waiting")
	}
}
''')
