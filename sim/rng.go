package main

import "math"

// RNG is a splitmix64 generator; the only source of randomness of the simulator.
type RNG struct{ s uint64 }

func mix(vals ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vals {
		h ^= v
		h += 0x9e3779b97f4a7c15
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func newRNG(vals ...uint64) *RNG { return &RNG{mix(vals...)} }

func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0, n)
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a, b]
func (r *RNG) Range(a, b int) int { return a + r.Intn(b-a+1) }

func (r *RNG) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *RNG) Bool(p float64) bool { return r.Float() < p }

func (r *RNG) Norm() float64 {
	u := r.Float()
	if u < 1e-300 {
		u = 1e-300
	}
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*r.Float())
}

func pick[T any](r *RNG, xs []T) T { return xs[r.Intn(len(xs))] }
