// Package rng is the one source of randomness of the simulator: splitmix64.
package rng

// R is a small deterministic generator.
type R struct{ s uint64 }

// New returns a generator for the given seed.
func New(seed uint64) *R { return &R{s: seed} }

// Mix derives an independent seed from a list of integers.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, v := range vs {
		h ^= v
		h = fin(h + 0x9E3779B97F4A7C15)
	}
	return h
}

// HashString folds a string into 64 bits (FNV-1a, finalised).
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return fin(h)
}

//go:norace
func fin(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// U64 returns the next 64 bits.
//
//go:norace
func (r *R) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return fin(r.s)
}

// N returns a value in [0,n).
//
//go:norace
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *R) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P reports true with probability p (in 1/1000000 units of a float).
//
//go:norace
func (r *R) P(p float64) bool {
	return float64(r.U64()>>11)/float64(1<<53) < p
}

// Pick returns one of the given ints.
func (r *R) Pick(vs ...int) int { return vs[r.N(len(vs))] }

// PickS returns one of the given strings.
func (r *R) PickS(vs ...string) string { return vs[r.N(len(vs))] }

// PickF returns one of the given floats.
func (r *R) PickF(vs ...float64) float64 { return vs[r.N(len(vs))] }

// Bytes returns n random bytes.
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 32)
	}
	return b
}

// Perm returns a permutation of [0,n).
func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
