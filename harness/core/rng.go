// Package core holds the case runner, the PRNG and the verdict plumbing.
package core

import "math"

// R is a splitmix64 generator: every random choice of a case derives from its seed.
type R struct{ s uint64 }

func NewR(seed uint64) *R { return &R{s: seed} }

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Int returns a value in [0,n).
func (r *R) Int(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a value in [a,b].
func (r *R) In(a, b int) int { return a + r.Int(b-a+1) }

func (r *R) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *R) Range(a, b float64) float64 { return a + (b-a)*r.F() }

func (r *R) Bool() bool { return r.U64()&1 == 1 }

// P is true with probability 1/n.
func (r *R) P(n int) bool { return r.Int(n) == 0 }

func (r *R) Norm() float64 {
	u := r.F()
	for u == 0 {
		u = r.F()
	}
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*r.F())
}

func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Int(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func Hash(h uint64, xs ...uint64) uint64 {
	for _, x := range xs {
		h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return h
}

func HashS(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return Hash(h, uint64(len(s)))
}
