package dst

import "time"

// Shrink minimises a failing pair of choice sequences while the violation
// class stays the same.
func Shrink(run func(gen, sched []uint64) Outcome, first Outcome, budget time.Duration) (Outcome, int) {
	best := first
	deadline := time.Now().Add(budget)
	tries := 0
	cost := func(o Outcome) (int, int, uint64) {
		nz := 0
		for _, v := range o.Sched {
			if v != 0 {
				nz++
			}
		}
		var s uint64
		for _, v := range o.Gen {
			if v > 1<<20 {
				v = 1<<20 + v>>20
			}
			s += v
		}
		return len(o.Gen), nz, s
	}
	better := func(a, b Outcome) bool {
		ag, an, as := cost(a)
		bg, bn, bs := cost(b)
		if ag+an != bg+bn {
			return ag+an < bg+bn
		}
		return as < bs
	}
	try := func(gen, sched []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		o := run(gen, sched)
		if o.Viol == nil || o.Viol.Kind != first.Viol.Kind {
			return false
		}
		// trailing zeros of the schedule are implied
		for len(o.Sched) > 0 && o.Sched[len(o.Sched)-1] == 0 {
			o.Sched = o.Sched[:len(o.Sched)-1]
		}
		for len(o.Gen) > 0 && o.Gen[len(o.Gen)-1] == 0 {
			o.Gen = o.Gen[:len(o.Gen)-1]
		}
		if better(o, best) {
			best = o
			return true
		}
		return false
	}
	cp := func(v []uint64) []uint64 { return append([]uint64(nil), v...) }
	over := func() bool { return time.Now().After(deadline) }

	// the simplest schedules first
	try(best.Gen, nil)
	for round := 0; round < 12 && !over(); round++ {
		improved := false
		// delete spans of the generation stream
		for size := len(best.Gen) / 2; size >= 1 && !over(); size /= 2 {
			for i := 0; i+size <= len(best.Gen) && !over(); {
				g := append(cp(best.Gen[:i]), best.Gen[i+size:]...)
				if try(g, best.Sched) {
					improved = true
				} else {
					i += size
				}
			}
		}
		// zero spans
		for size := 8; size >= 1 && !over(); size /= 2 {
			for i := 0; i+size <= len(best.Gen) && !over(); i += size {
				g := cp(best.Gen)
				z := true
				for j := i; j < i+size; j++ {
					if g[j] != 0 {
						z = false
					}
					g[j] = 0
				}
				if z {
					continue
				}
				if try(g, best.Sched) {
					improved = true
				}
			}
		}
		// minimise single values
		for i := 0; i < len(best.Gen) && !over(); i++ {
			lo, hi := uint64(0), best.Gen[i]
			for lo < hi && !over() {
				mid := lo + (hi-lo)/2
				g := cp(best.Gen)
				g[i] = mid
				if try(g, best.Sched) {
					improved = true
					if i >= len(best.Gen) {
						break
					}
					if best.Gen[i] >= hi {
						break
					}
					hi = best.Gen[i]
				} else {
					lo = mid + 1
				}
			}
		}
		// schedule: cut the tail, then zero spans
		for n := len(best.Sched) / 2; n >= 1 && !over(); n /= 2 {
			for len(best.Sched) > n && try(best.Gen, cp(best.Sched[:len(best.Sched)-n])) {
				improved = true
			}
		}
		for size := (len(best.Sched) + 1) / 2; size >= 1 && !over(); size /= 2 {
			for i := 0; i < len(best.Sched) && !over(); i += size {
				s := cp(best.Sched)
				z := true
				for j := i; j < i+size && j < len(s); j++ {
					if s[j] != 0 {
						z = false
					}
					s[j] = 0
				}
				if !z && try(best.Gen, s) {
					improved = true
				}
			}
		}
		if !improved {
			break
		}
	}
	return best, tries
}
