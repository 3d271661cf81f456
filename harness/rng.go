package main

import "math"

// Rng is a splitmix64 generator: every random choice of a case derives from it.
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func newRng(parts ...uint64) *Rng {
	s := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		s = mix(s + 0x9e3779b97f4a7c15 ^ mix(p))
	}
	return &Rng{s}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [lo,hi].
func (r *Rng) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability 1/n.
func (r *Rng) P(n int) bool { return r.N(n) == 0 }

func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

// boundary values of the formats: varint widths, tag-embedded lengths.
var boundInts = []int64{0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 16385,
	32767, 32768, 65535, 65536, 1<<20 - 1, 1 << 21, 1<<21 - 1, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<35 - 1, 1 << 35,
	1 << 42, 1 << 49, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1 << 56, 1<<62 - 1, 1 << 62, math.MaxInt64 - 1, math.MaxInt64}

func (r *Rng) Int64() int64 {
	switch r.N(6) {
	case 0:
		return int64(r.In(-40, 40))
	case 1:
		return boundInts[r.N(len(boundInts))]
	case 2:
		return -boundInts[r.N(len(boundInts))]
	case 3:
		return -boundInts[r.N(len(boundInts))] - 1
	case 4:
		return int64(r.U64()) >> uint(r.N(64))
	}
	return int64(r.U64() >> uint(r.N(64)))
}

func (r *Rng) Uint64() uint64 {
	switch r.N(5) {
	case 0:
		return uint64(r.N(200))
	case 1:
		return uint64(boundInts[r.N(len(boundInts))])
	case 2:
		return math.MaxUint64 - uint64(r.N(3))
	case 3:
		return 1<<63 + uint64(r.N(3)) - 1
	}
	return r.U64() >> uint(r.N(64))
}

func (r *Rng) Float64() float64 {
	switch r.N(6) {
	case 0:
		return pick(r, 0.0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1, -1, 0.1, math.MaxFloat32, 1<<53+1)
	case 1:
		return float64(r.Int64())
	case 2:
		return math.Float64frombits(r.U64())
	}
	return float64(r.In(-100000, 100000)) / float64(r.In(1, 1000))
}

func (r *Rng) Float32() float32 {
	switch r.N(4) {
	case 0:
		return pick(r, 0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, math.SmallestNonzeroFloat32, 1, -1, 0.1)
	case 1:
		f := math.Float32frombits(uint32(r.U64()))
		if f != f {
			return float32(math.NaN())
		}
		return f
	}
	return float32(r.In(-100000, 100000)) / float32(r.In(1, 1000))
}

// Len returns a length, mostly small, sometimes at a boundary; never above max.
func (r *Rng) Len(max int) int {
	var n int
	switch r.N(8) {
	case 0:
		n = pick(r, 0, 1, 14, 15, 16, 17, 30, 31, 32, 33, 63, 64)
	case 1:
		n = pick(r, 126, 127, 128, 129, 255, 256)
	case 2:
		if r.P(4) {
			n = pick(r, 1023, 1024, 16382, 16383, 16384, 16385, 65535, 65536, 70000)
		} else {
			n = r.N(200)
		}
	default:
		n = r.N(12)
	}
	if n > max {
		n = r.N(max + 1)
	}
	return n
}
