package main

// Rng is a small deterministic generator (splitmix64).
type Rng struct{ s uint64 }

func mix(a, b uint64) uint64 {
	z := a*0x9E3779B97F4A7C15 + b + 0x632BE59BD9B4E019
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func newRng(seed uint64) *Rng { return &Rng{mix(seed, 1)} }

func (r *Rng) U() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix(r.s, 7)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// R returns a number in [a,b].
func (r *Rng) R(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func (r *Rng) S(xs ...string) string { return xs[r.N(len(xs))] }

func (r *Rng) Seed() uint64 { return r.U()>>1 | 1 }

func (r *Rng) Shuffle(n int, f func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		f(i, r.N(i+1))
	}
}
