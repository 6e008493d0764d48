package props

import (
	"encoding/binary"
	"hash/adler32"
	"hash/crc32"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
)

// bitw writes DEFLATE bit streams.
type bitw struct {
	b   []byte
	acc uint64
	n   uint
}

func (w *bitw) put(v uint64, n uint) {
	w.acc |= v << w.n
	w.n += n
	for w.n >= 8 {
		w.b = append(w.b, byte(w.acc))
		w.acc >>= 8
		w.n -= 8
	}
}

// align fills up to a byte boundary with the given padding bits.
func (w *bitw) align(pad uint64) {
	if w.n > 0 {
		k := 8 - w.n
		w.put(pad&(1<<k-1), k)
	}
}

func (w *bitw) bytes(p []byte) { w.b = append(w.b, p...) }

// canon computes canonical codes (bit-reversed, ready for put).
func canon(lens []byte) []uint64 {
	var count [16]int
	for _, l := range lens {
		count[l]++
	}
	count[0] = 0
	var next [17]uint64
	c := uint64(0)
	for i := 1; i <= 15; i++ {
		c = (c + uint64(count[i-1])) << 1
		next[i] = c
	}
	out := make([]uint64, len(lens))
	for i, l := range lens {
		if l == 0 {
			continue
		}
		v := next[l]
		next[l]++
		var r uint64
		for k := byte(0); k < l; k++ {
			r = r<<1 | v>>k&1
		}
		out[i] = r
	}
	return out
}

// randLens draws a complete code over n>=2 symbols with maximum length max.
func randLens(r *dst.RNG, n, max int) []byte {
	lens := []byte{1, 1}
	mode := r.N(4)
	for len(lens) < n {
		var i int
		switch mode {
		case 0: // uniformly random leaf
			i = r.N(len(lens))
		case 1: // mostly the deepest
			i = len(lens) - 1
			if r.N(5) == 0 {
				i = r.N(len(lens))
			}
		case 2: // balanced
			i = 0
			for j, l := range lens {
				if l < lens[i] {
					i = j
				}
			}
		case 3: // degenerate chain
			i = len(lens) - 1
		}
		if int(lens[i]) >= max {
			// fall back to the shallowest leaf
			i = 0
			for j, l := range lens {
				if l < lens[i] {
					i = j
				}
			}
		}
		lens[i]++
		lens = append(lens, lens[i])
	}
	for i := len(lens) - 1; i > 0; i-- {
		j := r.N(i + 1)
		lens[i], lens[j] = lens[j], lens[i]
	}
	return lens
}

type lenCode struct {
	sym   int
	extra uint
	base  int
}

var genLenCodes, genDistCodes = func() (l, d []lenCode) {
	base := 3
	for s := 257; s < 285; s++ {
		e := uint(0)
		if s >= 265 {
			e = uint(s-261) / 4
		}
		l = append(l, lenCode{s, e, base})
		base += 1 << e
	}
	base = 1
	for s := 0; s < 30; s++ {
		e := uint(0)
		if s >= 4 {
			e = uint(s-2) / 2
		}
		d = append(d, lenCode{s, e, base})
		base += 1 << e
	}
	return
}()

func lenSym(n int) (int, uint, int) {
	if n == 258 {
		return 285, 0, 0
	}
	for i := len(genLenCodes) - 1; i >= 0; i-- {
		if c := genLenCodes[i]; n >= c.base {
			return c.sym, c.extra, n - c.base
		}
	}
	panic("lenSym")
}

func distSym(n int) (int, uint, int) {
	for i := len(genDistCodes) - 1; i >= 0; i-- {
		if c := genDistCodes[i]; n >= c.base {
			return c.sym, c.extra, n - c.base
		}
	}
	panic("distSym")
}

// GenStream is one generated stream.
type GenStream struct {
	Format ref.Format
	Bytes  []byte
	Out    []byte
	// offsets of the parts, for mutations aimed at them
	HeaderEnd, DeflateEnd int
}

// fixedLens are the code lengths of fixed blocks.
func fixedLens() (ll, dd []byte) {
	ll, dd = make([]byte, 288), make([]byte, 32)
	for i := range ll {
		switch {
		case i < 144:
			ll[i] = 8
		case i < 256:
			ll[i] = 9
		case i < 280:
			ll[i] = 7
		default:
			ll[i] = 8
		}
	}
	for i := range dd {
		dd[i] = 5
	}
	return
}

// genDeflate appends a random legal DEFLATE stream and returns its content.
func genDeflate(r *dst.RNG, w *bitw, window int, dict []byte, maxOut int) []byte {
	hist := append([]byte(nil), dict...)
	if len(hist) > window {
		hist = hist[len(hist)-window:]
	}
	h0 := len(hist)
	nblocks := r.Range(1, 5)
	if r.N(20) == 0 {
		nblocks = r.Range(5, 40)
	}
	budget := maxOut
	for bi := 0; bi < nblocks; bi++ {
		genBlock(r, w, &hist, window, &budget, bi == nblocks-1, maxOut >= 100000)
	}
	return hist[h0:]
}

// genBlock appends one random legal block.
func genBlock(r *dst.RNG, w *bitw, hist *[]byte, window int, budget *int, last, big bool) {
	final := uint64(0)
	if last {
		final = 1
	}
	size := 0
	switch r.N(5) {
	case 0:
		size = r.N(4)
	case 1, 2:
		size = r.N(300)
	case 3:
		size = r.N(3000)
	case 4:
		size = r.N(1 + *budget)
	}
	if size > *budget {
		size = *budget
	}
	*budget -= size
	typ := r.N(5)
	if typ == 0 { // stored
		if size > 65535 {
			size = 65535
		}
		if r.N(4) == 0 && big {
			size = 65535 - r.N(2)
		}
		data := dst.GenData(r.N(dst.DataKinds), size, r.Uint64())
		w.put(final, 1)
		w.put(0, 2)
		w.align(r.Uint64())
		w.bytes([]byte{byte(size), byte(size >> 8), ^byte(size), ^byte(size >> 8)})
		w.bytes(data)
		*hist = append(*hist, data...)
		return
	}
	toks := genTokens(r, hist, size, window)
	w.put(final, 1)
	if typ == 1 {
		w.put(1, 2)
		ll, dd := fixedLens()
		emitTokens(w, toks, ll, dd)
		return
	}
	w.put(2, 2)
	ll, dd := genCodes(r, toks)
	emitTrees(r, w, ll, dd)
	emitTokens(w, toks, ll, dd)
}

func genTokens(r *dst.RNG, hist *[]byte, size, window int) []ref.Token {
	var toks []ref.Token
	h := *hist
	target := len(h) + size
	litMode := r.N(4)
	matchRate := []int{0, 2, 4, 20}[r.N(4)] // literal:match
	src := dst.GenData(r.N(dst.DataKinds), size+1, r.Uint64())
	si := 0
	edge := []int{1, 2, 3, 4, 5, 8, 9, 256, 257, 258, 259, 4096, 4097, 8192, 16384, 16385, 24576, 24577, 32767, 32768}
	for len(h) < target {
		room := target - len(h)
		if matchRate > 0 && len(h) > 0 && room >= 3 && r.N(matchRate+1) > 0 {
			max := len(h)
			if max > window {
				max = window
			}
			d := r.Range(1, max)
			switch r.N(5) {
			case 0:
				d = 1
			case 1:
				d = max - r.N(3)
			case 2:
				d = edge[r.N(len(edge))]
			case 3:
				d = r.Range(1, min(max, 20))
			}
			if d < 1 {
				d = 1
			}
			if d > max {
				d = max
			}
			l := r.Range(3, 258)
			switch r.N(4) {
			case 0:
				l = r.Range(3, 10)
			case 1:
				l = []int{257, 258, 130, 131, 10, 11, 227, 226, 114, 115}[r.N(10)]
			}
			if l > room {
				l = room
			}
			// length 258 through symbol 284 with 31 extra bits is ambiguous
			// in the RFC and is not generated
			toks = append(toks, ref.Token{Len: uint16(l), Dist: uint16(d)})
			for i := 0; i < l; i++ {
				h = append(h, h[len(h)-d])
			}
			continue
		}
		c := src[si%len(src)]
		si++
		switch litMode {
		case 1:
			c = byte(r.N(256))
		case 2:
			c = 'x'
		}
		toks = append(toks, ref.Token{Len: uint16(c)})
		h = append(h, c)
	}
	*hist = h
	return toks
}

func genCodes(r *dst.RNG, toks []ref.Token) (ll, dd []byte) {
	var useL [286]bool
	var useD [30]bool
	useL[256] = true
	for _, t := range toks {
		if t.Dist == 0 {
			useL[t.Len] = true
			continue
		}
		s, _, _ := lenSym(int(t.Len))
		useL[s] = true
		s, _, _ = distSym(int(t.Dist))
		useD[s] = true
	}
	extra := []int{0, 0, 3, 40, 286}[r.N(5)]
	for i := 0; i < extra; i++ {
		useL[r.N(286)] = true
	}
	if r.N(3) == 0 {
		for i := 0; i < 1+r.N(30); i++ {
			useD[r.N(30)] = true
		}
	}
	pick := func(use []bool, minN, max int) []byte {
		var syms []int
		for i, u := range use {
			if u {
				syms = append(syms, i)
			}
		}
		for len(syms) < minN {
			i := r.N(len(use))
			if !use[i] {
				use[i] = true
				syms = append(syms, i)
			}
		}
		out := make([]byte, len(use))
		switch len(syms) {
		case 0:
		case 1:
			out[syms[0]] = 1
		default:
			for k, l := range randLens(r, len(syms), max) {
				out[syms[k]] = l
			}
		}
		return out
	}
	ll = pick(useL[:], 2, 15)
	minD := 0
	if r.N(3) == 0 {
		minD = 2
	}
	dd = pick(useD[:], minD, 15)
	return
}

func emitTrees(r *dst.RNG, w *bitw, ll, dd []byte) { emitTreesFlawed(r, w, ll, dd, "") }

// emitTreesFlawed describes the codes of a dynamic block, with one rule broken.
func emitTreesFlawed(r *dst.RNG, w *bitw, ll, dd []byte, flaw string) {
	trim := func(l []byte, min int) int {
		n := len(l)
		for n > min && l[n-1] == 0 {
			n--
		}
		if r.N(3) == 0 {
			n = r.Range(n, len(l))
		}
		return n
	}
	nl, nd := trim(ll, 257), trim(dd, 1)
	if len(ll) > 286 {
		nl = r.Range(287, len(ll))
	}
	if len(dd) > 30 {
		nd = r.Range(31, len(dd))
	}
	if flaw == "repeat-overruns" && nd < len(dd) && r.N(4) > 0 {
		nd++ // a final run of zeros
	}
	seq := append(append([]byte{}, ll[:nl]...), dd[:nd]...)
	type xt struct {
		sym   int
		v     uint64
		extra uint
	}
	var xs []xt
	for i := 0; i < len(seq); {
		run := 1
		for i+run < len(seq) && seq[i+run] == seq[i] {
			run++
		}
		lazy := r.N(6) == 0
		if seq[i] == 0 && run >= 3 && !lazy {
			n := run
			if n > 138 {
				n = 138
			}
			if r.N(3) == 0 {
				n = r.Range(3, n)
			}
			if n <= 10 {
				xs = append(xs, xt{17, uint64(n - 3), 3})
			} else {
				xs = append(xs, xt{18, uint64(n - 11), 7})
			}
			i += n
			continue
		}
		if i > 0 && seq[i] == seq[i-1] && run >= 3 && !lazy {
			n := run
			if n > 6 {
				n = 6
			}
			if r.N(3) == 0 {
				n = r.Range(3, n)
			}
			xs = append(xs, xt{16, uint64(n - 3), 2})
			i += n
			continue
		}
		xs = append(xs, xt{int(seq[i]), 0, 0})
		i++
	}
	switch flaw {
	case "repeat-overruns":
		x := &xs[len(xs)-1]
		n := 0 // lengths the last item covers
		switch x.sym {
		case 16, 17:
			n = int(x.v) + 3
		case 18:
			n = int(x.v) + 11
		default:
			n = 1
		}
		more := n + 1 + r.N(4)
		switch {
		case x.sym == 0 || x.sym >= 17:
			if more < 11 && more >= 3 && r.N(2) == 0 {
				*x = xt{17, uint64(more - 3), 3}
			} else {
				if more < 11 {
					more = 11 + r.N(128)
				} else if more > 138 {
					more = 138
				}
				*x = xt{18, uint64(more - 11), 7}
			}
		default:
			*x = xt{16, uint64(r.N(4)), 2}
		}
	case "repeat-first":
		n := 0
		for n < len(seq) && seq[n] == 0 {
			n++
		}
		if n >= 3 && xs[0].sym >= 17 {
			k := 3 + int(xs[0].v)
			if xs[0].sym == 18 {
				k += 8
			}
			ys := []xt{{16, 0, 2}}
			for k -= 3; k > 0; k-- {
				ys = append(ys, xt{0, 0, 0})
			}
			xs = append(ys, xs[1:]...)
		} else {
			xs[0] = xt{16, uint64(r.N(4)), 2}
		}
	}
	var use [19]bool
	cnt := 0
	for _, x := range xs {
		if !use[x.sym] {
			use[x.sym] = true
			cnt++
		}
	}
	for k := r.N(4); k > 0 || cnt < 2; k-- {
		s := r.N(19)
		if !use[s] {
			use[s] = true
			cnt++
		}
	}
	lens := randLens(r, cnt, 7)
	xl := make([]byte, 19)
	k := 0
	for i := range use {
		if use[i] {
			xl[i] = lens[k]
			k++
		}
	}
	switch flaw {
	case "code-length-code-over":
		for i := len(use) - 1; i >= 0; i-- {
			if !use[i] {
				use[i] = true
				xl[i] = byte(1 + r.N(7))
				break
			}
		}
	case "code-length-code-under":
		for try := 0; try < 40; try++ {
			if i := r.N(19); xl[i] > 0 && xl[i] < 7 {
				xl[i]++
				break
			}
		}
	}
	order := [19]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
	nx := 19
	for nx > 4 && xl[order[nx-1]] == 0 {
		nx--
	}
	if r.N(3) == 0 {
		nx = r.Range(nx, 19)
	}
	w.put(uint64(nl-257), 5)
	w.put(uint64(nd-1), 5)
	w.put(uint64(nx-4), 4)
	for i := 0; i < nx; i++ {
		w.put(uint64(xl[order[i]]), 3)
	}
	codes := canon(xl)
	for _, x := range xs {
		w.put(codes[x.sym], uint(xl[x.sym]))
		w.put(x.v, x.extra)
	}
}

func emitTokens(w *bitw, toks []ref.Token, ll, dd []byte) {
	cl, cd := canon(ll), canon(dd)
	for _, t := range toks {
		if t.Dist == 0 {
			w.put(cl[t.Len], uint(ll[t.Len]))
			continue
		}
		s, e, v := lenSym(int(t.Len))
		w.put(cl[s], uint(ll[s]))
		w.put(uint64(v), e)
		s, e, v = distSym(int(t.Dist))
		w.put(cd[s], uint(dd[s]))
		w.put(uint64(v), e)
	}
	w.put(cl[256], uint(ll[256]))
}

// genHeader appends a random legal header and returns the window distances may
// use.
func genHeader(r *dst.RNG, w *bitw, f ref.Format, wbits int, dict []byte) int {
	window := 1 << uint(wbits)
	switch f {
	case ref.Zlib:
		cw := r.Range(8, wbits)
		if r.N(2) == 0 {
			cw = wbits
		}
		window = 1 << uint(cw)
		cmf := byte(cw-8)<<4 | 8
		flg := byte(r.N(4)) << 6
		if dict != nil {
			flg |= 0x20
		}
		if m := (int(cmf)<<8 | int(flg)) % 31; m != 0 {
			flg += byte(31 - m)
		}
		w.bytes([]byte{cmf, flg})
		if dict != nil {
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], adler32.Checksum(dict))
			w.bytes(b[:])
		}
	case ref.Gzip:
		var flags byte
		h := []byte{0x1f, 0x8b, 8, 0, byte(r.N(256)), byte(r.N(256)), byte(r.N(256)), byte(r.N(256)), byte(r.N(256)), byte(r.N(256))}
		if r.N(3) == 0 {
			copy(h[4:8], []byte{0, 0, 0, 0})
		}
		if r.N(2) == 0 {
			flags |= 1
		}
		if r.N(3) == 0 {
			flags |= 4
			var x []byte
			n := r.N(4)
			for i := 0; i < n; i++ {
				k := r.N(30)
				if r.N(10) == 0 {
					k = r.N(9000)
				}
				x = append(x, byte(r.N(256)), byte(r.N(256)), byte(k), byte(k>>8))
				x = append(x, dst.GenData(3, k, r.Uint64())...)
			}
			h = append(h, byte(len(x)), byte(len(x)>>8))
			h = append(h, x...)
		}
		str := func() {
			n := r.N(40)
			if r.N(10) == 0 {
				n = r.N(2000)
			}
			h = append(h, randText(r, n, false)...)
			h = append(h, 0)
		}
		if r.N(3) == 0 {
			flags |= 8
			str()
		}
		if r.N(3) == 0 {
			flags |= 16
			str()
		}
		if r.N(2) == 0 {
			flags |= 2
		}
		h[3] = flags
		if flags&2 != 0 {
			c := crc32.ChecksumIEEE(h)
			h = append(h, byte(c), byte(c>>8))
		}
		w.bytes(h)
	}
	return window
}

// genTrailer appends the trailer for content out.
func genTrailer(w *bitw, f ref.Format, out []byte) {
	switch f {
	case ref.Zlib:
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], adler32.Checksum(out))
		w.bytes(b[:])
	case ref.Gzip:
		var b [8]byte
		binary.LittleEndian.PutUint32(b[:4], crc32.ChecksumIEEE(out))
		binary.LittleEndian.PutUint32(b[4:], uint32(len(out)))
		w.bytes(b[:])
	}
}

// genStream builds one stream of the given container format.
func genStream(r *dst.RNG, f ref.Format, wbits int, dict []byte, maxOut int) *GenStream {
	g := &GenStream{Format: f}
	w := &bitw{}
	window := genHeader(r, w, f, wbits, dict)
	g.HeaderEnd = len(w.b)
	g.Out = genDeflate(r, w, window, dict, maxOut)
	w.align(r.Uint64())
	g.DeflateEnd = len(w.b)
	genTrailer(w, f, g.Out)
	g.Bytes = w.b
	return g
}

// Input is compressed input together with how it is to be read.
type Input struct {
	Data []byte
	RC   RCfg
	Want *ref.Result // strict reference decoding of Data
	Kind string
}

// InputOpts restricts drawn inputs.
type InputOpts struct {
	MaxOut     int
	MaxStreams int
	Checked    bool // only zlib and gzip
	NoAuto     bool
	NoDict     bool
	Large      bool // MaxOut is rather reached than not
}

// DrawInput draws a valid compressed input: emitted by the package's own
// compressor or generated from the RFCs.
func DrawInput(t *T, o InputOpts) Input {
	if o.MaxOut >= 3000 && t.Chance(1, 100) {
		o.MaxOut = largeData
		o.Large = true
	}
	var in Input
	if t.Chance(1, 2) {
		in = genInput(t, o)
	} else {
		in = writerInput(t, o)
	}
	ro := in.RC.RefOpts()
	ro.Strict = true
	in.Want = ref.Parse(in.Data, ro)
	return in
}

func writerInput(t *T, o InputOpts) Input {
	lim := CfgLimits{NoRaw: o.Checked, NoDict: o.NoDict}
	ops := GenProgram(t, ProgOpts{MaxData: o.MaxOut, MaxStreams: o.MaxStreams, MaxUses: 1, Lim: lim, Headers: true, FlushRate: 4})
	d := &Drv{T: t, Name: "mk", Strict: true}
	d.RunAll(ops)
	u := d.Use()
	rc := ReaderFor(t, u.Cfg)
	if o.NoAuto && rc.Format == flate.DefaultFormat {
		rc.Format = u.Cfg.Format
		if rc.Format == flate.DefaultFormat {
			rc.Format = flate.ZlibFormat
		}
	}
	return Input{Data: u.Sink.Buf, RC: rc, Kind: "writer"}
}

func genInput(t *T, o InputOpts) Input {
	rc := RCfg{MLevel: drawMLevel(t), WBits: drawWBits(t)}
	if !o.NoDict {
		rc.Dict = drawDict(t)
	}
	fs := []ref.Format{ref.Gzip, ref.Zlib, ref.Raw}
	if o.Checked {
		fs = fs[:2]
	}
	f := fs[t.Choose(len(fs))]
	auto := !o.NoAuto && t.Chance(1, 3)
	n := 1
	if o.MaxStreams > 1 && t.Chance(1, 3) {
		n = t.Range(1, o.MaxStreams)
	}
	r := dst.NewRNG(t.Seed())
	max := t.Size(o.MaxOut)
	if o.Large {
		max = t.Range(o.MaxOut/8, o.MaxOut)
	}
	var data []byte
	for i := 0; i < n; i++ {
		if auto && i > 0 {
			f = fs[t.Choose(len(fs))]
		}
		for try := 0; ; try++ {
			g := genStream(r, f, rc.EffWBits(), dictFor(f, rc.Dict), max)
			if auto && f == ref.Raw && looksFramed(g.Bytes) && try < 100 {
				continue
			}
			data = append(data, g.Bytes...)
			break
		}
	}
	switch {
	case auto:
		rc.Format = flate.DefaultFormat
	case f == ref.Raw:
		rc.Format = flate.RawFormat
	case f == ref.Zlib:
		rc.Format = flate.ZlibFormat
	default:
		rc.Format = flate.GZIPFormat
	}
	t.Log("generated input %d bytes %s", len(data), rc.String())
	return Input{Data: data, RC: rc, Kind: "generated"}
}

// largeInput draws one generated stream with blocks longer than every internal
// buffer, stored blocks of the maximal length included.
func largeInput(t *T) Input {
	rc := RCfg{MLevel: flate.MemoryLevel(t.Range(1, 9)), WBits: drawWBits(t)}
	f := []ref.Format{ref.Gzip, ref.Zlib, ref.Raw}[t.Choose(3)]
	rc.Format = wireFormat[f]
	r := dst.NewRNG(t.Seed())
	var g *GenStream
	for try := 0; ; try++ {
		g = genStream(r, f, rc.EffWBits(), nil, 100000+r.N(200000))
		if len(g.Out) > 60000 || try == 20 {
			break
		}
	}
	t.Log("large generated input %d bytes %s", len(g.Bytes), rc.String())
	return Input{Data: g.Bytes, RC: rc, Kind: "generated"}
}

func dictFor(f ref.Format, dict []byte) []byte { return dict }

// looksFramed reports whether raw DEFLATE bytes would be taken for a gzip or
// zlib header by automatic detection.
func looksFramed(b []byte) bool {
	if len(b) < 2 {
		return false
	}
	return b[0] == 0x1f && b[1] == 0x8b || b[0]&15 == 8 && (int(b[0])<<8|int(b[1]))%31 == 0
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
