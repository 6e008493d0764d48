// Package ref is an independent, deliberately simple reference implementation
// of RFC 1950, 1951 and 1952 decoding.  It shares no code with the repository
// and reports structure (blocks, tokens, headers), not just bytes.
package ref

import (
	"fmt"
	"hash/adler32"
	"hash/crc32"
)

// Format of a stream.
type Format int

// Formats.
const (
	Auto Format = iota
	Raw
	Zlib
	Gzip
)

func (f Format) String() string { return [...]string{"auto", "raw", "zlib", "gzip"}[f] }

// Token is a literal (Dist==0, Len=byte) or a match.
type Token struct {
	Len  uint16
	Dist uint16
}

// Block is one DEFLATE block.
type Block struct {
	Type         int // 0 stored, 1 static, 2 dynamic
	Final        bool
	StartBit     int64 // bit offset in the input
	EndBit       int64
	Out0, Out1   int // range of the stream's output
	LL, D, X     []byte
	NLL, ND, NX  int
	Tokens       []Token
	Complete     bool // code sets are complete (or of the permitted single-code kind)
	PadBits      int
	PadNonZero   bool
	Done         bool // decoded to its end
}

// Stream is one member of the input.
type Stream struct {
	Format       Format
	Start        int // byte offset of the header
	DeflateStart int
	DeflateEnd   int
	End          int // one past the trailer
	Blocks       []*Block
	Out          []byte
	Ends         []int64 // with Options.Positions: for each byte of Out, the bit after what describes it
	MaxDist      int
	MaxReach     int // furthest reach before the first byte of the stream's output (dictionary use)

	// headers
	CMF, FLG     byte
	WindowBits   int
	FLevel       int
	HasDict      bool
	DictID       uint32
	Flags        byte
	MTime        uint32
	XFL, OS      byte
	Extra        []byte
	HasExtra     bool
	Name         string
	HasName      bool
	Comment      string
	HasComment   bool
	HasHCRC      bool
	HeaderDone   bool
	BlocksDone   bool
	Complete     bool
	Adler, CRC   uint32
}

// Kind of a parse failure.
type Kind int

// Kinds.
const (
	OK Kind = iota
	Truncated
	Corrupt
)

// Error describes where parsing stopped.
type Error struct {
	Kind Kind
	Pos  int // byte position at/near which the problem is
	Msg  string
}

func (e *Error) Error() string {
	return fmt.Sprintf("%s at byte %d: %s", [...]string{"ok", "truncated", "corrupt"}[e.Kind], e.Pos, e.Msg)
}

// Result of parsing a whole input.
type Result struct {
	Streams []*Stream
	Out     []byte // concatenated output, including that of an incomplete last stream
	Err     *Error
	Consumed int
}

// Options for parsing.
type Options struct {
	Format      Format
	Dict        []byte
	WindowBits  int  // max window (0 = 15)
	Strict      bool // reject incomplete code sets
	Eager       bool // call it corrupt where the last bits begin no code of the set
	SingleStream bool
	MaxOut      int
	NoTokens    bool
	AdlerAll    bool
	Positions   bool
}

type bitReader struct {
	b   []byte
	pos int64 // in bits
	end int64
}

func (r *bitReader) need(n int) bool { return r.pos+int64(n) <= r.end }
func (r *bitReader) bit() int {
	v := int(r.b[r.pos>>3]>>(uint(r.pos)&7)) & 1
	r.pos++
	return v
}
func (r *bitReader) bits(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v |= r.bit() << uint(i)
	}
	return v
}

type code struct {
	count  [16]int
	symbol []int
	total  int
	left   int // code space left over (in units of 2^-15)
}

func buildCode(lens []byte) (*code, bool) {
	c := &code{}
	for _, l := range lens {
		if l > 15 {
			return nil, false
		}
		c.count[l]++
	}
	c.total = len(lens) - c.count[0]
	left := 1
	for l := 1; l <= 15; l++ {
		left <<= 1
		left -= c.count[l]
		if left < 0 {
			return nil, false
		}
	}
	c.left = left
	var offs [16]int
	for l := 1; l < 15; l++ {
		offs[l+1] = offs[l] + c.count[l]
	}
	c.symbol = make([]int, len(lens))
	for s, l := range lens {
		if l != 0 {
			c.symbol[offs[l]] = s
			offs[l]++
		}
	}
	return c, true
}

// decode returns the symbol, or -1 truncated, -2 invalid.
// beginsNone tells whether no code of the set begins with the n bits of code.
func (c *code) beginsNone(code, n int) bool {
	last, length, next := -1, 0, 0
	for l := 1; l <= 15; l++ {
		next <<= 1
		if c.count[l] != 0 {
			next += c.count[l]
			last, length = next-1, l
		}
	}
	if last < 0 || n > length {
		return true
	}
	return code > last>>uint(length-n)
}

func (c *code) decode(r *bitReader, eager bool) int {
	if c.total == 0 {
		return -2
	}
	code, first, index := 0, 0, 0
	p := r.pos
	for l := 1; l <= 15; l++ {
		if p >= r.end {
			// if no code of this length or longer can match it is invalid
			// rather than truncated, but more input could not be told apart:
			// report truncation.
			if eager && l > 1 && c.beginsNone(code>>1, l-1) {
				return -2
			}
			return -1
		}
		code |= int(r.b[p>>3]>>(uint(p)&7)) & 1
		p++
		count := c.count[l]
		if code-count < first {
			r.pos = p
			return c.symbol[index+(code-first)]
		}
		index += count
		first += count
		first <<= 1
		code <<= 1
		// dead end: no longer codes remain
		if index >= c.total {
			return -2
		}
	}
	return -2
}

var lenBase = [29]int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
var lenExtra = [29]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
var distBase = [30]int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
var distExtra = [30]int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}

// ScrambleOrder is the order of code length code lengths.
var ScrambleOrder = [19]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}

var fixedLL, fixedD *code
var fixedLLLens, fixedDLens []byte

func init() {
	fixedLLLens = make([]byte, 288)
	for i := range fixedLLLens {
		switch {
		case i < 144:
			fixedLLLens[i] = 8
		case i < 256:
			fixedLLLens[i] = 9
		case i < 280:
			fixedLLLens[i] = 7
		default:
			fixedLLLens[i] = 8
		}
	}
	fixedDLens = make([]byte, 32)
	for i := range fixedDLens {
		fixedDLens[i] = 5
	}
	fixedLL, _ = buildCode(fixedLLLens)
	fixedD, _ = buildCode(fixedDLens)
}

type inflater struct {
	r        bitReader
	st       *Stream
	dict     []byte
	window   int
	opt      *Options
	err      *Error
}

func (d *inflater) fail(k Kind, f string, v ...interface{}) bool {
	if d.err == nil {
		d.err = &Error{Kind: k, Pos: int(d.r.pos >> 3), Msg: fmt.Sprintf(f, v...)}
	}
	return false
}

// ends notes where the description of the bytes put out since the last call ends.
func (d *inflater) ends() {
	if d.opt.Positions {
		for len(d.st.Ends) < len(d.st.Out) {
			d.st.Ends = append(d.st.Ends, d.r.pos)
		}
	}
}

func (d *inflater) emitByte(b byte) { d.st.Out = append(d.st.Out, b) }

func (d *inflater) back(dist int) (byte, bool) {
	i := len(d.st.Out) - dist
	if i >= 0 {
		return d.st.Out[i], true
	}
	if -i > d.st.MaxReach {
		d.st.MaxReach = -i
	}
	j := len(d.dict) + i
	if j >= 0 {
		return d.dict[j], true
	}
	return 0, false
}

func (d *inflater) block() (final bool, ok bool) {
	r := &d.r
	b := &Block{StartBit: r.pos, Out0: len(d.st.Out), Out1: len(d.st.Out), Complete: true}
	if !r.need(3) {
		return false, d.fail(Truncated, "block header")
	}
	b.Final = r.bit() == 1
	b.Type = r.bits(2)
	d.st.Blocks = append(d.st.Blocks, b)
	defer func() { b.Out1 = len(d.st.Out); b.EndBit = r.pos; b.Done = ok }()
	switch b.Type {
	case 0:
		pad := int((8 - r.pos&7) & 7)
		b.PadBits = pad
		if r.bits(pad) != 0 {
			b.PadNonZero = true
		}
		if !r.need(32) {
			r.pos = r.end
			return false, d.fail(Truncated, "stored length")
		}
		n := r.bits(16)
		nn := r.bits(16)
		if n != nn^0xffff {
			return false, d.fail(Corrupt, "stored length check")
		}
		p := int(r.pos >> 3)
		avail := int(r.end>>3) - p
		k := n
		if k > avail {
			k = avail
		}
		d.st.Out = append(d.st.Out, r.b[p:p+k]...)
		r.pos += int64(k) * 8
		d.ends()
		if k < n {
			return false, d.fail(Truncated, "stored data")
		}
		return b.Final, true
	case 1:
		b.LL, b.D = fixedLLLens, fixedDLens
		if !d.codes(b, fixedLL, fixedD) {
			return false, false
		}
		return b.Final, true
	case 2:
		ll, dd, ok := d.tables(b)
		if !ok {
			return false, false
		}
		if !d.codes(b, ll, dd) {
			return false, false
		}
		return b.Final, true
	}
	return false, d.fail(Corrupt, "reserved block type")
}

func (d *inflater) tables(b *Block) (*code, *code, bool) {
	r := &d.r
	if !r.need(14) {
		r.pos = r.end
		return nil, nil, d.fail(Truncated, "table counts")
	}
	b.NLL = r.bits(5) + 257
	b.ND = r.bits(5) + 1
	b.NX = r.bits(4) + 4
	if b.NLL > 286 || b.ND > 30 {
		return nil, nil, d.fail(Corrupt, "bad counts %d %d", b.NLL, b.ND)
	}
	x := make([]byte, 19)
	for i := 0; i < b.NX; i++ {
		if !r.need(3) {
			r.pos = r.end
			return nil, nil, d.fail(Truncated, "code length code")
		}
		x[ScrambleOrder[i]] = byte(r.bits(3))
	}
	b.X = x
	xc, ok := buildCode(x)
	if !ok {
		return nil, nil, d.fail(Corrupt, "over-subscribed code length code")
	}
	if xc.left != 0 {
		b.Complete = false
		if d.opt.Strict {
			return nil, nil, d.fail(Corrupt, "incomplete code length code")
		}
	}
	lens := make([]byte, b.NLL+b.ND)
	for i := 0; i < len(lens); {
		sym := xc.decode(r, d.opt.Eager)
		if sym == -1 {
			return nil, nil, d.fail(Truncated, "code lengths")
		}
		if sym == -2 {
			return nil, nil, d.fail(Corrupt, "bad code length symbol")
		}
		if sym < 16 {
			lens[i] = byte(sym)
			i++
			continue
		}
		var l byte
		var n, base int
		switch sym {
		case 16:
			if i == 0 {
				return nil, nil, d.fail(Corrupt, "repeat with no previous length")
			}
			l = lens[i-1]
			n, base = 2, 3
		case 17:
			n, base = 3, 3
		default:
			n, base = 7, 11
		}
		if !r.need(n) {
			r.pos = r.end
			return nil, nil, d.fail(Truncated, "repeat count")
		}
		rep := base + r.bits(n)
		if i+rep > len(lens) {
			return nil, nil, d.fail(Corrupt, "too many lengths")
		}
		for ; rep > 0; rep-- {
			lens[i] = l
			i++
		}
	}
	b.LL = append([]byte(nil), lens[:b.NLL]...)
	b.D = append([]byte(nil), lens[b.NLL:]...)
	ll, ok := buildCode(b.LL)
	if !ok {
		return nil, nil, d.fail(Corrupt, "over-subscribed literal/length code")
	}
	dd, ok := buildCode(b.D)
	if !ok {
		return nil, nil, d.fail(Corrupt, "over-subscribed distance code")
	}
	if b.LL[256] == 0 {
		b.Complete = false
		if d.opt.Strict {
			return nil, nil, d.fail(Corrupt, "no end-of-block code")
		}
	}
	if ll.left != 0 && !(ll.total == 1 && ll.count[1] == 1) {
		b.Complete = false
		if d.opt.Strict {
			return nil, nil, d.fail(Corrupt, "incomplete literal/length code")
		}
	}
	if dd.left != 0 && !(dd.total == 0) && !(dd.total == 1 && dd.count[1] == 1) {
		b.Complete = false
		if d.opt.Strict {
			return nil, nil, d.fail(Corrupt, "incomplete distance code")
		}
	}
	return ll, dd, true
}

func (d *inflater) codes(b *Block, ll, dd *code) bool {
	r := &d.r
	for {
		sym := ll.decode(r, d.opt.Eager)
		if sym == -1 {
			return d.fail(Truncated, "literal/length symbol")
		}
		if sym == -2 {
			return d.fail(Corrupt, "bad literal/length code")
		}
		if sym < 256 {
			if d.opt.MaxOut > 0 && len(d.st.Out) >= d.opt.MaxOut {
				return d.fail(Corrupt, "output limit")
			}
			d.emitByte(byte(sym))
			d.ends()
			if !d.opt.NoTokens {
				b.Tokens = append(b.Tokens, Token{Len: uint16(sym)})
			}
			continue
		}
		if sym == 256 {
			return true
		}
		sym -= 257
		if sym >= 29 {
			return d.fail(Corrupt, "bad length symbol")
		}
		if !r.need(lenExtra[sym]) {
			r.pos = r.end
			return d.fail(Truncated, "length extra bits")
		}
		length := lenBase[sym] + r.bits(lenExtra[sym])
		if dd.total == 0 {
			return d.fail(Corrupt, "match without distance code")
		}
		ds := dd.decode(r, d.opt.Eager)
		if ds == -1 {
			return d.fail(Truncated, "distance symbol")
		}
		if ds == -2 {
			return d.fail(Corrupt, "bad distance code")
		}
		if ds >= 30 {
			return d.fail(Corrupt, "bad distance symbol")
		}
		if !r.need(distExtra[ds]) {
			r.pos = r.end
			return d.fail(Truncated, "distance extra bits")
		}
		dist := distBase[ds] + r.bits(distExtra[ds])
		if dist > d.window {
			return d.fail(Corrupt, "distance %d beyond window %d", dist, d.window)
		}
		if dist > len(d.st.Out)+len(d.dict) {
			return d.fail(Corrupt, "distance %d beyond start of data", dist)
		}
		if d.opt.MaxOut > 0 && len(d.st.Out)+length > d.opt.MaxOut {
			return d.fail(Corrupt, "output limit")
		}
		if dist > d.st.MaxDist {
			d.st.MaxDist = dist
		}
		if !d.opt.NoTokens {
			b.Tokens = append(b.Tokens, Token{Len: uint16(length), Dist: uint16(dist)})
		}
		for i := 0; i < length; i++ {
			c, _ := d.back(dist)
			d.emitByte(c)
		}
		d.ends()
	}
}

// InflateRaw decodes raw DEFLATE data starting at a bit offset until a final
// block, the end of the input, or an error.
func InflateRaw(b []byte, startBit int64, opt Options) (*Stream, *Error) {
	st := &Stream{Format: Raw, Start: int(startBit >> 3), DeflateStart: int(startBit >> 3)}
	d := newInflater(b, startBit, st, &opt)
	d.run()
	return st, d.err
}

func newInflater(b []byte, startBit int64, st *Stream, opt *Options) *inflater {
	w := opt.WindowBits
	if w == 0 {
		w = 15
	}
	d := &inflater{r: bitReader{b: b, pos: startBit, end: int64(len(b)) * 8}, st: st, window: 1 << uint(w), opt: opt}
	d.dict = opt.Dict
	if len(d.dict) > d.window {
		d.dict = d.dict[len(d.dict)-d.window:]
	}
	return d
}

func (d *inflater) run() {
	for {
		final, ok := d.block()
		if !ok {
			return
		}
		if final {
			break
		}
	}
	d.st.BlocksDone = true
	d.st.DeflateEnd = int((d.r.pos + 7) >> 3)
}

// Parse decodes a whole input of concatenated streams.
func Parse(b []byte, opt Options) *Result {
	res := &Result{}
	pos := 0
	for pos < len(b) || (len(b) == 0 && false) {
		st := &Stream{Start: pos}
		err := parseStream(b, pos, st, &opt)
		res.Streams = append(res.Streams, st)
		res.Out = append(res.Out, st.Out...)
		if err != nil {
			res.Err = err
			res.Consumed = err.Pos
			return res
		}
		pos = st.End
		res.Consumed = pos
		if opt.SingleStream {
			break
		}
	}
	return res
}

func parseStream(b []byte, pos int, st *Stream, opt *Options) *Error {
	f := opt.Format
	if f == Auto && len(b)-pos < 2 {
		// no stream of any format is that short
		st.Format = Raw
		return &Error{Truncated, len(b), "too short to be a stream"}
	}
	if f == Auto {
		f = Raw
		if len(b)-pos >= 2 {
			if b[pos] == 0x1f && b[pos+1] == 0x8b {
				f = Gzip
			} else if b[pos]&0x0f == 8 && (int(b[pos])<<8|int(b[pos+1]))%31 == 0 {
				f = Zlib
			}
		}
	}
	st.Format = f
	trunc := func(msg string) *Error { return &Error{Truncated, len(b), msg} }
	bad := func(p int, msg string, v ...interface{}) *Error { return &Error{Corrupt, p, fmt.Sprintf(msg, v...)} }
	p := pos
	o := *opt
	switch f {
	case Zlib:
		if len(b)-p < 2 {
			return trunc("zlib header")
		}
		st.CMF, st.FLG = b[p], b[p+1]
		if (int(st.CMF)<<8|int(st.FLG))%31 != 0 {
			return bad(p, "zlib header check")
		}
		if st.CMF&15 != 8 {
			return bad(p, "zlib method")
		}
		st.WindowBits = 8 + int(st.CMF>>4)
		w := opt.WindowBits
		if w == 0 {
			w = 15
		}
		if st.WindowBits > w {
			return bad(p, "zlib window %d > %d", st.WindowBits, w)
		}
		st.FLevel = int(st.FLG >> 6)
		p += 2
		if st.FLG&0x20 != 0 {
			st.HasDict = true
			if len(b)-p < 4 {
				return trunc("zlib dictionary id")
			}
			st.DictID = uint32(b[p])<<24 | uint32(b[p+1])<<16 | uint32(b[p+2])<<8 | uint32(b[p+3])
			p += 4
			if opt.Dict == nil {
				return bad(p, "dictionary needed")
			}
			if adler32.Checksum(opt.Dict) != st.DictID {
				return bad(p, "wrong dictionary")
			}
		} else if opt.Dict != nil {
			return bad(p, "dictionary not used by stream")
		}
	case Gzip:
		if len(b)-p < 10 {
			return trunc("gzip header")
		}
		if b[p] != 0x1f || b[p+1] != 0x8b {
			return bad(p, "gzip magic")
		}
		if b[p+2] != 8 {
			return bad(p, "gzip method")
		}
		st.Flags = b[p+3]
		if st.Flags&0xe0 != 0 {
			return bad(p, "gzip reserved flags")
		}
		st.MTime = uint32(b[p+4]) | uint32(b[p+5])<<8 | uint32(b[p+6])<<16 | uint32(b[p+7])<<24
		st.XFL, st.OS = b[p+8], b[p+9]
		p += 10
		if st.Flags&4 != 0 {
			if len(b)-p < 2 {
				return trunc("gzip extra length")
			}
			n := int(b[p]) | int(b[p+1])<<8
			p += 2
			if len(b)-p < n {
				return trunc("gzip extra")
			}
			st.HasExtra = true
			st.Extra = b[p : p+n]
			p += n
		}
		str := func() (string, bool) {
			for q := p; q < len(b); q++ {
				if b[q] == 0 {
					s := string(b[p:q])
					p = q + 1
					return s, true
				}
			}
			return "", false
		}
		var ok bool
		if st.Flags&8 != 0 {
			if st.Name, ok = str(); !ok {
				return trunc("gzip name")
			}
			st.HasName = true
		}
		if st.Flags&16 != 0 {
			if st.Comment, ok = str(); !ok {
				return trunc("gzip comment")
			}
			st.HasComment = true
		}
		if st.Flags&2 != 0 {
			if len(b)-p < 2 {
				return trunc("gzip header crc")
			}
			want := uint16(b[p]) | uint16(b[p+1])<<8
			if want != uint16(crc32.ChecksumIEEE(b[pos:p])) {
				return bad(p, "gzip header crc")
			}
			st.HasHCRC = true
			p += 2
		}
	}
	st.HeaderDone = true
	st.DeflateStart = p
	d := newInflater(b, int64(p)*8, st, &o)
	d.run()
	if d.err != nil {
		return d.err
	}
	p = st.DeflateEnd
	st.Adler = adler32.Checksum(st.Out)
	st.CRC = crc32.ChecksumIEEE(st.Out)
	switch f {
	case Zlib:
		if len(b)-p < 4 {
			return trunc("zlib trailer")
		}
		want := uint32(b[p])<<24 | uint32(b[p+1])<<16 | uint32(b[p+2])<<8 | uint32(b[p+3])
		if want != st.Adler {
			return bad(p, "zlib checksum")
		}
		p += 4
	case Gzip:
		if len(b)-p < 8 {
			return trunc("gzip trailer")
		}
		le := func(q int) uint32 {
			return uint32(b[q]) | uint32(b[q+1])<<8 | uint32(b[q+2])<<16 | uint32(b[q+3])<<24
		}
		if le(p) != st.CRC {
			return bad(p, "gzip checksum")
		}
		if le(p+4) != uint32(len(st.Out)) {
			return bad(p+4, "gzip length")
		}
		p += 8
	}
	st.End = p
	st.Complete = true
	return nil
}
