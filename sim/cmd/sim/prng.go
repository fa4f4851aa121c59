package main

// RNG is splitmix64: one integer decides everything in a run.
type RNG struct{ s uint64 }

func newRNG(parts ...uint64) *RNG {
	r := &RNG{0x9E3779B97F4A7C15}
	for _, p := range parts {
		r.s ^= p
		r.s = r.Uint64()
	}
	return r
}

func (r *RNG) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

// N is uniform in [0,n).
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// P is true with probability a/b.
func (r *RNG) P(a, b int) bool { return r.N(b) < a }

// Log is log-uniform in [1,max].
func (r *RNG) Log(max int) int {
	bits := 0
	for 1<<uint(bits+1) <= max {
		bits++
	}
	k := r.N(bits + 1)
	v := 1<<uint(k) + r.N(1<<uint(k))
	if v > max {
		v = max
	}
	return v
}

// Pick returns one of the given ints.
func (r *RNG) Pick(v ...int) int { return v[r.N(len(v))] }

// Bytes fills b.
func (r *RNG) Bytes(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.Uint64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

type hasher uint64

func (h *hasher) add(v uint64) {
	x := uint64(*h) ^ v
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	*h = hasher(x)
}

func (h *hasher) bytes(b []byte) {
	h.add(uint64(len(b)))
	var v uint64
	for i, c := range b {
		v = v<<8 | uint64(c)
		if i%8 == 7 {
			h.add(v)
			v = 0
		}
	}
	h.add(v)
}

func (h *hasher) str(s string) { h.bytes([]byte(s)) }
