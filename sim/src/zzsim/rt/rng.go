package rt

// R is a splitmix64 generator: the only source of randomness in the simulator.
type R struct{ s uint64 }

func NewR(seed uint64) *R { return &R{seed} }

// Mix derives an independent seed from a seed and a label.
func Mix(seed uint64, label string) uint64 {
	h := seed ^ 0x9E3779B97F4A7C15
	for i := 0; i < len(label); i++ {
		h = (h ^ uint64(label[i])) * 0x100000001B3
		h ^= h >> 29
	}
	r := R{h}
	r.U64()
	return r.U64()
}

func (r *R) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [lo, hi].
func (r *R) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability a/b.
func (r *R) P(a, b int) bool { return r.N(b) < a }

func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 33)
	}
	return b
}

func (r *R) Pick(s ...string) string { return s[r.N(len(s))] }

func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
