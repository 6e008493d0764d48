package dst

// DataKinds is the number of content generators.
const DataKinds = 12

// GenData produces n bytes of the given kind.
func GenData(kind, n int, seed uint64) []byte {
	if n <= 0 {
		return []byte{}
	}
	r := NewRNG(seed)
	out := make([]byte, 0, n)
	switch kind {
	case 0: // constant
		c := byte(r.N(256))
		for len(out) < n {
			out = append(out, c)
		}
	case 1: // short period
		p := make([]byte, r.Range(1, 9))
		for i := range p {
			p[i] = byte(r.N(256))
		}
		for len(out) < n {
			out = append(out, p...)
		}
	case 2: // words
		vocab := make([][]byte, r.Range(2, 60))
		for i := range vocab {
			w := make([]byte, r.Range(1, 9))
			for j := range w {
				w[j] = byte('a' + r.N(26))
			}
			vocab[i] = w
		}
		for len(out) < n {
			out = append(out, vocab[r.N(len(vocab))]...)
			out = append(out, " ,.\n"[r.N(4)])
		}
	case 3: // incompressible
		for len(out) < n {
			v := r.Uint64()
			for i := 0; i < 8; i++ {
				out = append(out, byte(v>>(8*uint(i))))
			}
		}
	case 4: // small alphabet
		a := r.Range(2, 5)
		for len(out) < n {
			out = append(out, byte('A'+r.N(a)))
		}
	case 5: // Fibonacci-skewed frequencies: deep Huffman trees
		k := r.Range(10, 30)
		fib := make([]int, k)
		fib[0], fib[1] = 1, 1
		for i := 2; i < k; i++ {
			fib[i] = fib[i-1] + fib[i-2]
		}
		// choose the top symbol so that the total is close to n
		for k > 3 && sum(fib[:k]) > n {
			k--
		}
		base := r.N(200)
		for i := 0; i < k; i++ {
			for j := 0; j < fib[i]; j++ {
				out = append(out, byte(base+i))
			}
		}
		shuffle(out, r)
		for len(out) < n {
			out = append(out, byte(base+k-1))
		}
	case 6: // alternating segments of other kinds
		for len(out) < n {
			k := r.N(6)
			if k == 5 {
				k = 3
			}
			out = append(out, GenData(k, r.Range(1, 1+n/3), r.Uint64())...)
		}
	case 7: // far copies: history repeats at long distances
		for len(out) < n {
			if len(out) < 64 || r.N(4) == 0 {
				m := r.Range(1, 64)
				for i := 0; i < m; i++ {
					out = append(out, byte(r.N(256)))
				}
				continue
			}
			max := len(out)
			if max > 40000 {
				max = 40000
			}
			d := r.Range(1, max)
			switch r.N(6) {
			case 0:
				d = 1
			case 1:
				if max >= 32768 {
					d = 32768 - r.N(3)
				} else {
					d = max
				}
			case 2:
				if max > 256 {
					d = 254 + r.N(5)
				}
			}
			if d > len(out) {
				d = len(out)
			}
			l := r.Range(3, 300)
			for i := 0; i < l; i++ {
				out = append(out, out[len(out)-d])
			}
		}
	case 8: // runs of bytes
		for len(out) < n {
			c := byte(r.N(256))
			l := r.Range(1, 700)
			if r.N(3) == 0 {
				l = r.Range(1, 6)
			}
			for i := 0; i < l; i++ {
				out = append(out, c)
			}
		}
	case 9: // binary records with counters
		ctr := uint32(r.Uint64())
		for len(out) < n {
			out = append(out, 0x7f, 'R', byte(ctr), byte(ctr>>8), byte(ctr>>16), 0, 0, 0, byte(r.N(4)))
			ctr++
		}
	case 10: // all byte values, every one about equally often, permuted blocks
		p := make([]byte, 256)
		for i := range p {
			p[i] = byte(i)
		}
		for len(out) < n {
			shuffle(p, r)
			out = append(out, p...)
		}
	case 11: // mostly text with a rare wild byte: skewed literal code
		for len(out) < n {
			if r.N(97) == 0 {
				out = append(out, byte(r.N(256)))
			} else {
				out = append(out, "etaoinshrdlu \n"[r.N(14)])
			}
		}
	}
	return out[:n]
}

func sum(a []int) int {
	s := 0
	for _, x := range a {
		s += x
	}
	return s
}

func shuffle(b []byte, r *RNG) {
	for i := len(b) - 1; i > 0; i-- {
		j := r.N(i + 1)
		b[i], b[j] = b[j], b[i]
	}
}

// Data draws content of at most max bytes.
func (t *T) Data(max int) []byte {
	kind := t.Choose(DataKinds)
	n := t.Size(max)
	d := GenData(kind, n, t.Seed())
	t.Log("data kind=%d len=%d", kind, n)
	return d
}

// LargeData draws content of max/8 to max bytes, incompressible in one of
// three cases.
func (t *T) LargeData(max int) []byte {
	kind := t.Choose(DataKinds)
	if t.Chance(1, 3) {
		kind = 3
	}
	n := t.Range(max/8, max)
	d := GenData(kind, n, t.Seed())
	t.Log("large data kind=%d len=%d", kind, n)
	return d
}

// Pieces draws a partition of n into chunk sizes: a handful of modes.
func (t *T) Pieces(n int) []int {
	var out []int
	switch t.Weighted(4, 2, 2, 3, 2) {
	case 0: // whole
		if n > 0 {
			out = append(out, n)
		}
	case 1: // halves and odd bits
		for n > 0 {
			k := t.Range(1, n)
			out = append(out, k)
			n -= k
			if len(out) > 24 && n > 0 {
				out = append(out, n)
				break
			}
		}
	case 2: // fixed size
		k := t.Range(1, 300)
		if n/k > 3000 {
			k = n/3000 + 1
		}
		for n > 0 {
			c := k
			if c > n {
				c = n
			}
			out = append(out, c)
			n -= c
		}
	case 3: // random small..large, from a seed
		r := NewRNG(t.Seed())
		max := []int{3, 20, 200, 5000}[t.Choose(4)]
		if n/max > 2000 {
			max = n/2000 + 1
		}
		for n > 0 {
			c := r.Range(1, max)
			if c > n {
				c = n
			}
			out = append(out, c)
			n -= c
		}
	case 4: // with empty writes in between
		for n > 0 {
			k := t.Range(0, n)
			out = append(out, k)
			n -= k
			if len(out) > 12 && n > 0 {
				out = append(out, n)
				break
			}
		}
	}
	return out
}
