package main

// Rng is a small deterministic generator (splitmix64), so that a case is
// determined by (seed, property, index) on every machine.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability percent/100.
func (r *Rng) P(percent int) bool { return r.N(100) < percent }

func (r *Rng) Pick(s []string) string { return s[r.N(len(s))] }

func (r *Rng) PickRune(s []rune) rune { return s[r.N(len(s))] }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func hashStr(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, s := range parts {
		for i := 0; i < len(s); i++ {
			h ^= uint64(s[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	return h
}

// Shuffle permutes n elements.
func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}
