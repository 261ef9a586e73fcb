package rt

import "math/rand"

// Rng is a small deterministic generator (splitmix64), seeded by the run's
// seed, the property and the case, so that every case replays on its own.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb

	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}

	return int(r.U64() % uint64(n))
}

// R returns a number in [a, b].
func (r *Rng) R(a, b int) int { return a + r.N(b-a+1) }

// P is true with a probability of 1/n.
func (r *Rng) P(n int) bool { return r.N(n) == 0 }

func (r *Rng) B() bool { return r.U64()&1 == 1 }

func (r *Rng) U8() uint8   { return uint8(r.U64() >> 7) }
func (r *Rng) U16() uint16 { return uint16(r.U64() >> 9) }
func (r *Rng) U32() uint32 { return uint32(r.U64() >> 11) }

func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *Rng) Pick(n ...int) int { return n[r.N(len(n))] }

func (r *Rng) PickS(n ...string) string { return n[r.N(len(n))] }

// Edge8 is a byte that is often at or next to a boundary.
func (r *Rng) Edge8() uint8 {
	switch r.N(4) {
	case 0:
		return []uint8{0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfd, 0xfe, 0xff}[r.N(10)]
	case 1:
		return uint8(255 * r.N(2))
	}

	return r.U8()
}

var edges16 = []uint16{0, 1, 2, 0x100, 0x101, 0x102, 0x5555, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xaaaa, 0xfefd, 0xfefe, 0xfffd, 0xfffe, 0xffff}

// Edge16 is a 16-bit component that is often at or next to a boundary.
func (r *Rng) Edge16() uint16 {
	switch r.N(4) {
	case 0:
		return edges16[r.N(len(edges16))]
	case 1:
		return 0xffff * uint16(r.N(2))
	case 2:
		return uint16(r.U8()) * 0x101
	}

	return r.U16()
}

func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}

// Rand is a standard generator drawn from this one.
func (r *Rng) Rand() *rand.Rand { return rand.New(rand.NewSource(int64(r.U64() >> 1))) }

// Hash mixes its arguments into one key.
func Hash(v ...uint64) uint64 {
	h := uint64(0xcbf29ce484222325)

	for _, x := range v {
		h ^= x
		h *= 0x9e3779b97f4a7c15
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 32
	}

	return h
}

func HashS(s string) uint64 {
	h := uint64(0xcbf29ce484222325)

	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}

	return Hash(h)
}

func HashB(s []byte) uint64 {
	h := uint64(0xcbf29ce484222325)

	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}

	return Hash(h)
}
