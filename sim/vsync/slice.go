package vsync

// Push appends without the run-time's own reports to the happens-before
// monitor (the simulator's state is not part of what is being judged).
func Push[E any](s []E, x E) []E {
	if len(s) == cap(s) {
		n := make([]E, len(s), 2*cap(s)+8)
		for i := range s {
			n[i] = s[i]
		}
		s = n
	}
	s = s[:len(s)+1]
	s[len(s)-1] = x
	return s
}

// Cut returns a copy of s without element i.
func Cut[E any](s []E, i int) []E {
	n := make([]E, 0, len(s))
	for j := range s {
		if j != i {
			n = n[:len(n)+1]
			n[len(n)-1] = s[j]
		}
	}
	return n
}
