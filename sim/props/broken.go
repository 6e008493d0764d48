package props

import (
	"encoding/binary"
	"hash/adler32"
	"hash/crc32"

	"github.com/chronos-tachyon/flate"

	"verif.local/sim/dst"
	"verif.local/sim/ref"
)

// Inputs that break exactly one rule of the formats and obey all the others:
// checksums match what a decoder that misses the flaw would most likely put
// out, what comes before and after is valid.

var blockFlaws = []string{
	"stored-length", "reserved-type", "hlit", "hdist", "code-length-code-over", "code-length-code-under",
	"repeat-first", "repeat-overruns", "literal-code-over", "literal-code-under", "distance-code-over", "distance-code-under",
	"no-end-of-block", "length-symbol", "distance-symbol", "too-far", "no-distance-code", "unassigned-literal", "unassigned-distance",
	"no-final-block",
}

var headerFlaws = []string{"gzip-flags", "gzip-method", "gzip-magic", "header-crc", "zlib-method", "zlib-window", "zlib-check", "dictionary-id", "dictionary-flag"}

var trailerFlaws = []string{"sum-bit", "sum-swapped", "sum-special", "sum-empty", "sum-other", "size-bit", "size-other", "trailer-dropped"}

// genBroken builds one stream with one rule broken.
func genBroken(r *dst.RNG, f ref.Format, wbits int, dict []byte, maxOut int, flaw string) []byte {
	w := &bitw{}
	window := genHeader(r, w, f, wbits, dict)
	breakHeader(r, w, f, wbits, flaw)
	hist := append([]byte(nil), dict...)
	if len(hist) > window {
		hist = hist[len(hist)-window:]
	}
	h0 := len(hist)
	budget := maxOut
	isBlock := false
	for _, x := range blockFlaws {
		isBlock = isBlock || x == flaw
	}
	before, after := r.N(4), r.N(3)
	if !isBlock {
		after++
	}
	for i := 0; i < before; i++ {
		genBlock(r, w, &hist, window, &budget, false, false)
	}
	if isBlock {
		brokenBlock(r, w, &hist, window, wbits, h0 > 0, flaw, after == 0 && flaw != "no-final-block")
	}
	for i := 0; i < after; i++ {
		genBlock(r, w, &hist, window, &budget, i == after-1 && flaw != "no-final-block", false)
	}
	w.align(r.Uint64())
	out := hist[h0:]
	at := len(w.b)
	switch flaw {
	case "trailer-dropped":
		return w.b
	case "sum-other":
		genTrailer(w, f, dst.GenData(3, r.N(100), r.Uint64()))
		binary.LittleEndian.PutUint32(w.b[len(w.b)-4:], uint32(len(out)))
	case "sum-empty":
		genTrailer(w, f, nil)
	default:
		genTrailer(w, f, out)
	}
	n := len(w.b) - at
	switch {
	case n == 0:
	case flaw == "sum-bit":
		w.b[at+r.N(4)] ^= 1 << uint(r.N(8))
	case flaw == "sum-swapped":
		for i, b := 0, append([]byte(nil), w.b[at:at+4]...); i < 4; i++ {
			w.b[at+i] = b[3-i]
		}
	case flaw == "sum-special":
		// what a lenient or confused reader might take for the checksum
		v := w.b[at : at+4]
		x := []uint32{0, ^uint32(0), ^binary.LittleEndian.Uint32(v), adler32.Checksum(out), crc32.ChecksumIEEE(out), crc32.ChecksumIEEE(w.b[:at]), uint32(len(out))}[r.N(7)]
		if r.N(2) == 0 {
			binary.LittleEndian.PutUint32(v, x)
		} else {
			binary.BigEndian.PutUint32(v, x)
		}
	case flaw == "size-bit" && n == 8:
		w.b[at+4+r.N(4)] ^= 1 << uint(r.N(8))
	case flaw == "size-other" && n == 8:
		v := []uint32{0, ^uint32(0), uint32(len(out) + 1), uint32(len(out) - 1), uint32(2 * len(out)), uint32(len(w.b))}[r.N(6)]
		binary.LittleEndian.PutUint32(w.b[at+4:], v)
	}
	return w.b
}

// breakHeader alters the header just written.
func breakHeader(r *dst.RNG, w *bitw, f ref.Format, wbits int, flaw string) {
	h := w.b
	fcheck := func() {
		h[1] &^= 31
		if m := (int(h[0])<<8 | int(h[1])) % 31; m != 0 {
			h[1] += byte(31 - m)
		}
	}
	if f == ref.Gzip {
		hcrc := h[3]&2 != 0
		switch flaw {
		case "gzip-flags":
			h[3] |= byte(0x20 << uint(r.N(3)))
		case "gzip-method":
			h[2] = []byte{0, 7, 9, 8 | 0x80, 255}[r.N(5)]
		case "gzip-magic":
			h[r.N(2)] ^= 1 << uint(r.N(8))
		case "header-crc":
			if hcrc {
				h[len(h)-1-r.N(2)] ^= 1 << uint(r.N(8))
				return
			}
		}
		if hcrc {
			c := crc32.ChecksumIEEE(h[:len(h)-2])
			h[len(h)-2], h[len(h)-1] = byte(c), byte(c>>8)
		}
	}
	if f == ref.Zlib {
		switch flaw {
		case "zlib-method":
			h[0] = h[0]&0xf0 | []byte{0, 7, 9, 15, 12}[r.N(5)]
			fcheck()
		case "zlib-window":
			h[0] = 8 | byte(r.Range(wbits-7, 15))<<4
			fcheck()
		case "zlib-check":
			h[1] ^= 1 << uint(r.N(5))
		case "dictionary-id":
			if len(h) == 6 {
				h[2+r.N(4)] ^= 1 << uint(r.N(8))
			}
		case "dictionary-flag":
			if len(h) == 6 {
				w.b = h[:2]
				h[1] &^= 0x20
				fcheck()
			} else {
				h[1] |= 0x20
				fcheck()
				w.bytes([]byte{0, 0, 0, byte(r.N(2))})
			}
		}
	}
}

// brokenBlock appends a block with the flaw.
func brokenBlock(r *dst.RNG, w *bitw, hist *[]byte, window, wbits int, dict bool, flaw string, last bool) {
	final := uint64(0)
	if last {
		final = 1
	}
	size := []int{0, r.N(4), r.N(40), r.N(600)}[r.N(4)]
	switch flaw {
	case "stored-length":
		data := dst.GenData(r.N(dst.DataKinds), size, r.Uint64())
		w.put(final, 1)
		w.put(0, 2)
		w.align(r.Uint64())
		l := []byte{byte(size), byte(size >> 8), ^byte(size), ^byte(size >> 8)}
		switch r.N(5) {
		case 0:
			l[2], l[3] = l[3], l[2]
		case 1:
			l[2], l[3] = l[0], l[1]
		case 2:
			l[2], l[3] = 0, 0
		default:
			l[2+r.N(2)] ^= 1 << uint(r.N(8))
		}
		w.bytes(l)
		w.bytes(data)
		*hist = append(*hist, data...)
		return
	case "reserved-type":
		w.put(final, 1)
		w.put(3, 2)
		switch r.N(4) {
		case 0: // nothing
		case 1: // as if stored
			w.align(0)
			data := dst.GenData(r.N(dst.DataKinds), size, r.Uint64())
			w.bytes([]byte{byte(size), byte(size >> 8), ^byte(size), ^byte(size >> 8)})
			w.bytes(data)
			*hist = append(*hist, data...)
		case 2: // as if fixed
			toks := genTokens(r, hist, size, window)
			ll, dd := fixedLens()
			emitTokens(w, toks, ll, dd)
		case 3: // as if dynamic
			toks := genTokens(r, hist, size, window)
			ll, dd := genCodes(r, toks)
			emitTrees(r, w, ll, dd)
			emitTokens(w, toks, ll, dd)
		}
		return
	}
	toks := genTokens(r, hist, size, window)
	ll, dd := genCodes(r, toks)
	dyn := r.N(3) > 0
	tree := ""
	over := func(l []byte) []byte {
		max := byte(1)
		if sum := 0; true {
			for _, x := range l {
				if x > 0 {
					sum += 1 << (15 - x)
				}
			}
			for i := 0; sum < 1<<15; i++ { // complete it first
				if l[i] == 0 && i != 256 {
					l[i] = 1
					for sum+1<<(15-l[i]) > 1<<15 {
						l[i]++
					}
					sum += 1 << (15 - l[i])
				}
			}
		}
		for _, x := range l {
			if x > max {
				max = x
			}
		}
		for i := len(l) - 1; i >= 0; i-- {
			if l[i] == 0 && i != 256 {
				l[i] = max
				if r.N(3) == 0 {
					l[i] = byte(r.Range(1, int(max)))
				}
				return l
			}
		}
		l[0] = 1
		l[1] = 1
		return l
	}
	under := func(l []byte) bool {
		for try := 0; try < 200; try++ {
			if i := r.N(len(l)); l[i] > 0 && l[i] < 15 {
				l[i]++
				return true
			}
		}
		return false
	}
	extend := func(l []byte, n int) []byte {
		for len(l) < n {
			l = append(l, 0)
		}
		return l
	}
	switch flaw {
	case "hlit":
		dyn = true
		ll = extend(ll, r.Range(287, 288))
		if r.N(2) == 0 { // a code for it, taken from another symbol
			for i := 285; i >= 0; i-- {
				if ll[i] > 0 && ll[i] < 15 {
					ll[i]++
					ll[len(ll)-1] = ll[i]
					break
				}
			}
		}
	case "hdist":
		dyn = true
		dd = extend(dd, r.Range(31, 32))
		if r.N(2) == 0 {
			for i := 29; i >= 0; i-- {
				if dd[i] > 0 && dd[i] < 15 {
					dd[i]++
					dd[len(dd)-1] = dd[i]
					break
				}
			}
		}
	case "code-length-code-over", "code-length-code-under", "repeat-first", "repeat-overruns":
		dyn = true
		tree = flaw
	case "literal-code-over":
		dyn = true
		ll = over(ll)
	case "literal-code-under":
		dyn = true
		under(ll)
	case "distance-code-over":
		dyn = true
		dd = over(dd)
	case "distance-code-under", "unassigned-distance":
		dyn = true
		n := 0
		for _, l := range dd {
			if l > 0 {
				n++
			}
		}
		if n == 0 {
			dd[r.N(30)] = byte(1 + r.N(2))
		} else if n > 1 || r.N(2) == 0 {
			under(dd)
		}
	case "unassigned-literal":
		dyn = true
		under(ll)
	case "no-end-of-block":
		dyn = true
		ll[256] = 0
	case "length-symbol", "distance-symbol":
		dyn = false
	case "too-far":
		dyn = r.N(4) == 0
	case "no-distance-code":
		dyn = true
		var lits []ref.Token
		for _, t := range toks {
			if t.Dist == 0 {
				lits = append(lits, t)
			}
		}
		// only the literals; what the history would hold does not matter
		if len(lits) != len(toks) {
			*hist = (*hist)[:len(*hist)-size]
			for _, t := range lits {
				*hist = append(*hist, byte(t.Len))
			}
		}
		toks = lits
		ll, _ = genCodes(r, append(append([]ref.Token{}, toks...), ref.Token{Len: uint16(r.Range(3, 258)), Dist: 1}))
		for i := range dd {
			dd[i] = 0
		}
	}
	w.put(final, 1)
	if dyn {
		w.put(2, 2)
		emitTreesFlawed(r, w, ll, dd, tree)
	} else {
		w.put(1, 2)
		ll, dd = fixedLens()
	}
	cl, cd := canon(ll), canon(dd)
	k := len(toks)
	if k > 0 && r.N(2) == 0 {
		k = r.N(k + 1)
	}
	length := func() bool { // some length code
		for try := 0; try < 300; try++ {
			s := r.Range(257, 285)
			if ll[s] > 0 {
				w.put(cl[s], uint(ll[s]))
				_, e, _ := lenSym(lenBase(s))
				w.put(r.Uint64()&(1<<e-1), e)
				return true
			}
		}
		return false
	}
	maxLen := func(l []byte) (m uint) {
		for _, x := range l {
			if uint(x) > m {
				m = uint(x)
			}
		}
		return
	}
	mid := func() {
		switch flaw {
		case "length-symbol":
			s := 286 + r.N(2)
			w.put(cl[s], uint(ll[s]))
			if r.N(2) == 0 {
				w.put(r.Uint64()&31, 5)
			}
		case "distance-symbol":
			length()
			s := 30 + r.N(2)
			w.put(cd[s], uint(dd[s]))
			if r.N(2) == 0 {
				w.put(r.Uint64()&0x3fff, 14)
			}
		case "no-distance-code":
			length()
			if r.N(2) == 0 {
				w.put(0, uint(r.N(3)))
			}
		case "unassigned-literal":
			m := maxLen(ll)
			w.put(1<<m-1, m)
		case "unassigned-distance":
			if length() {
				m := maxLen(dd)
				w.put(1<<m-1, m)
			}
		case "too-far":
			// hist here is that after the block, so this may also be legal
			have := len(*hist) - size
			far := have + 1 + []int{0, 0, 1, r.N(100), r.N(32768)}[r.N(5)]
			if r.N(3) == 0 {
				far = 1<<uint(wbits) + 1 + []int{0, 0, 1, r.N(100), r.N(32768)}[r.N(5)]
			}
			if far > 32768 {
				far = 32768
			}
			s, e, v := distSym(far)
			if dd[s] == 0 {
				return
			}
			if length() {
				w.put(cd[s], uint(dd[s]))
				w.put(uint64(v), e)
			}
		}
	}
	emit := func(toks []ref.Token) {
		for _, t := range toks {
			if t.Dist == 0 {
				w.put(cl[t.Len], uint(ll[t.Len]))
				continue
			}
			s, e, v := lenSym(int(t.Len))
			w.put(cl[s], uint(ll[s]))
			w.put(uint64(v), e)
			s, e, v = distSym(int(t.Dist))
			w.put(cd[s], uint(dd[s]))
			w.put(uint64(v), e)
		}
	}
	emit(toks[:k])
	mid()
	emit(toks[k:])
	w.put(cl[256], uint(ll[256]))
}

// lenBase is the smallest length a length symbol stands for.
func lenBase(sym int) int {
	for n := 3; n <= 258; n++ {
		if s, _, _ := lenSym(n); s == sym {
			return n
		}
	}
	return 3
}

// drawBroken draws an input with one stream of several that breaks one rule.
func drawBroken(t *T) (data []byte, rc RCfg, flaw string) {
	rc = RCfg{MLevel: drawMLevel(t), WBits: drawWBits(t)}
	var f ref.Format
	switch t.Weighted(4, 1, 1) {
	case 0:
		flaw = blockFlaws[t.Choose(len(blockFlaws))]
		f = []ref.Format{ref.Gzip, ref.Zlib, ref.Raw}[t.Weighted(1, 1, 2)]
	case 1:
		flaw = headerFlaws[t.Choose(len(headerFlaws))]
		f = ref.Gzip
		if flaw[0] == 'z' || flaw[0] == 'd' {
			f = ref.Zlib
		}
	case 2:
		flaw = trailerFlaws[t.Choose(len(trailerFlaws))]
		f = []ref.Format{ref.Gzip, ref.Zlib}[t.Choose(2)]
		if flaw[1] == 'i' {
			f = ref.Gzip
		}
	}
	if t.Chance(1, 4) || flaw == "dictionary-flag" && t.Chance(1, 2) {
		rc.Dict = drawDict(t)
	}
	if flaw == "dictionary-id" && rc.Dict == nil {
		rc.Dict = dst.GenData(3, 1+t.Size(300), t.Seed())
	}
	r := dst.NewRNG(t.Seed())
	rc.Format = wireFormat[f]
	auto := t.Chance(1, 4)
	max := t.Size(3000)
	good := func() {
		g := f
		if auto {
			g = []ref.Format{ref.Gzip, ref.Zlib, ref.Raw}[r.N(3)]
		}
		for try := 0; ; try++ {
			s := genStream(r, g, rc.EffWBits(), rc.Dict, max).Bytes
			if auto && g == ref.Raw && looksFramed(s) && try < 100 {
				continue
			}
			data = append(data, s...)
			return
		}
	}
	for k := t.Weighted(4, 1, 1); k > 0; k-- {
		good()
	}
	for try := 0; ; try++ {
		s := genBroken(r, f, rc.EffWBits(), rc.Dict, max, flaw)
		if auto && f == ref.Raw && looksFramed(s) && try < 100 {
			continue
		}
		data = append(data, s...)
		break
	}
	for k := t.Weighted(3, 1); k > 0; k-- {
		good()
	}
	if auto {
		rc.Format = flate.DefaultFormat
	}
	t.Log("flaw %s, %d bytes, %v", flaw, len(data), rc)
	t.Cov.Faults["flaw-"+flaw]++
	return
}
