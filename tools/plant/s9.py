exec(open('/tmp/plant/s1.py').read().split('BUGS')[0]) if 0 else None
BUGS=[]
def B(**k): BUGS.append(k)
LONG='''
// demoZeros makes up a gzip stream of n MiB of zeros.
type demoZeros struct {
	n    uint64
	head []byte
	body []byte
	tail []byte
}

func (s *demoZeros) Read(p []byte) (int, error) {
	for {
		if len(s.head) > 0 {
			n := copy(p, s.head)
			s.head = s.head[n:]
			return n, nil
		}
		switch {
		case s.n > 0:
			s.n--
			s.head = s.body
		case s.tail != nil:
			s.head, s.tail = s.tail, nil
		default:
			return 0, io.EOF
		}
	}
}

func demoLong(mib uint64, size uint32) io.Reader {
	var b bytes.Buffer
	zw, _ := stdflate.NewWriter(&b, 1)
	z := make([]byte, 1<<20)
	zw.Write(z)
	zw.Flush()
	c := uint32(0)
	for i := uint64(0); i < mib; i++ {
		c = crc32.Update(c, crc32.IEEETable, z)
	}
	tail := []byte{3, 0, byte(c), byte(c >> 8), byte(c >> 16), byte(c >> 24), byte(size), byte(size >> 8), byte(size >> 16), byte(size >> 24)}
	return &demoZeros{n: mib, head: []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3}, body: b.Bytes(), tail: tail}
}
'''
B(id='size-checked-wide',prop='C03',needs='one gzip member with 4 GiB of content or more',breaks='the length in the trailer is compared without the reduction modulo 2^32, so valid long members are refused',
 edits=[('reader.go','if contentLen != uint32(fr.outputBytesStream) {','if uint64(contentLen) != fr.outputBytesStream {')],
 demo=LONG+'''
func TestDemo(t *testing.T) {
	n, err := io.CopyBuffer(struct{ io.Writer }{io.Discard}, demoLong4(), make([]byte, 1<<16))
	if err != nil || n != 1<<32+1<<20 {
		t.Fatal(n, err)
	}
}

func demoLong4() io.Reader {
	return struct{ io.Reader }{NewReader(demoLong(4097, 1<<20))}
}
''',imports=['stdflate "compress/flate"','"hash/crc32"'])
B(id='stream-number-u16',prop='C17',needs='more than 65535 concatenated streams read by one Reader',breaks='the stream number in trace events wraps at 65536',
 edits=[('reader.go','event.NumStreams = fr.numStreams','event.NumStreams = uint(uint16(fr.numStreams))')],
 demo='''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := NewWriter(&b)
	fw.Write([]byte("x"))
	fw.Close()
	last := uint(0)
	fr := NewReader(bytes.NewReader(bytes.Repeat(b.Bytes(), 1<<16+5)), WithTracers(TracerFunc(func(e Event) { last = e.NumStreams })))
	if _, err := io.Copy(io.Discard, fr); err != nil {
		t.Fatal(err)
	}
	if last != 1<<16+5 {
		t.Fatal(last)
	}
}
''')
