// Package dst is the deterministic-simulation harness: choice streams, runs,
// oracles' plumbing, replay and minimisation.
package dst

import "verif.local/sim/vsync"

// splitmix64
type prng struct{ x uint64 }

func (p *prng) next() uint64 {
	p.x += 0x9E3779B97F4A7C15
	z := p.x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// RNG is a plain seeded generator for bulk content (not recorded).
type RNG struct{ p prng }

// NewRNG seeds a generator.
func NewRNG(seed uint64) *RNG { return &RNG{prng{seed*0x9E3779B97F4A7C15 + 0x1234567}} }

// Uint64 returns 64 random bits.
func (r *RNG) Uint64() uint64 { return r.p.next() }

// N returns a value in [0,n).
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.p.next() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *RNG) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// Stream is a recorded or replayed sequence of choices.
type Stream struct {
	rng    prng
	Rec    []uint64
	replay []uint64
	fixed  bool
	pos    int
	noRec  bool // long runs are replayed by their seed
}

// NewStream generates choices from a seed.
func NewStream(seed uint64) *Stream { return &Stream{rng: prng{seed}} }

// ReplayStream replays choices; past the end every choice is 0.
func ReplayStream(v []uint64) *Stream { return &Stream{replay: v, fixed: true} }

// Draw returns a choice in [0,n).
func (s *Stream) Draw(n uint64) uint64 {
	var v uint64
	if n <= 1 {
		return 0
	}
	if s.fixed {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
		}
		s.pos++
		if v >= n {
			v = n - 1
		}
	} else {
		v = s.rng.next() % n
	}
	if !s.noRec {
		s.Rec = vsync.Push(s.Rec, v)
	}
	return v
}

// put records a choice computed by a strategy.
func (s *Stream) put(n uint64, f func() uint64) uint64 {
	var v uint64
	if s.fixed {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
		}
		s.pos++
		if n > 0 && v >= n {
			v = n - 1
		}
	} else {
		v = f()
	}
	if !s.noRec {
		s.Rec = vsync.Push(s.Rec, v)
	}
	return v
}

func (s *Stream) rand() uint64 { return s.rng.next() }

func mix(a ...uint64) uint64 {
	p := prng{0x243F6A8885A308D3}
	h := uint64(0)
	for _, x := range a {
		p.x ^= x + h
		h = p.next()
	}
	return h
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
