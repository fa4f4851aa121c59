// Package ref is the executable reference model: SHA-1 with collision
// detection written straight from FIPS 180-4 and the counter-cryptanalysis
// paper. It shares no code with the library under test.
package ref

import "math/bits"

// K returns the round constant of step i.
func K(i int) uint32 {
	switch {
	case i < 20:
		return 0x5A827999
	case i < 40:
		return 0x6ED9EBA1
	case i < 60:
		return 0x8F1BBCDC
	}
	return 0xCA62C1D6
}

// F is the round function of step i.
func F(i int, b, c, d uint32) uint32 {
	switch {
	case i < 20:
		return (b & c) ^ (^b & d)
	case i < 40:
		return b ^ c ^ d
	case i < 60:
		return (b & c) ^ (b & d) ^ (c & d)
	}
	return b ^ c ^ d
}

// IV is the initial chaining value.
var IV = [5]uint32{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}

// Words loads a 64-byte block big-endian.
func Words(p []byte) (m [16]uint32) {
	for i := range m {
		m[i] = uint32(p[4*i])<<24 | uint32(p[4*i+1])<<16 | uint32(p[4*i+2])<<8 | uint32(p[4*i+3])
	}
	return
}

// Expand is the message expansion.
func Expand(m [16]uint32) (w [80]uint32) {
	copy(w[:], m[:])
	for i := 16; i < 80; i++ {
		w[i] = bits.RotateLeft32(w[i-3]^w[i-8]^w[i-14]^w[i-16], 1)
	}
	return
}

func step(i int, s [5]uint32, w uint32) [5]uint32 {
	t := bits.RotateLeft32(s[0], 5) + F(i, s[1], s[2], s[3]) + s[4] + K(i) + w
	return [5]uint32{t, s[0], bits.RotateLeft32(s[1], 30), s[2], s[3]}
}

func unstep(i int, s [5]uint32, w uint32) [5]uint32 {
	a, b, c, d := s[1], bits.RotateLeft32(s[2], 2), s[3], s[4]
	e := s[0] - bits.RotateLeft32(a, 5) - F(i, b, c, d) - K(i) - w
	return [5]uint32{a, b, c, d, e}
}

// States returns the states before every step; index 80 is after the last.
func States(h [5]uint32, w *[80]uint32) (s [81][5]uint32) {
	s[0] = h
	for i := 0; i < 80; i++ {
		s[i+1] = step(i, s[i], w[i])
	}
	return
}

func add(a, b [5]uint32) [5]uint32 {
	for i := range a {
		a[i] += b[i]
	}
	return a
}

// Compress is one SHA-1 compression with an expanded message.
func Compress(h [5]uint32, w *[80]uint32) [5]uint32 {
	s := h
	for i := 0; i < 80; i++ {
		s = step(i, s, w[i])
	}
	return add(h, s)
}

// Mask returns the set of vectors all of whose bit conditions hold.
func Mask(w *[80]uint32) (mask uint32) {
	for d := range UBC {
		ok := true
		for _, c := range UBC[d] {
			if uint8(w[c.W1]>>c.B1&1)^uint8(w[c.W2]>>c.B2&1) != c.C {
				ok = false
				break
			}
		}
		if ok {
			mask |= 1 << d
		}
	}
	return
}

// DV is one disturbance vector as the detector uses it.
type DV struct {
	Type, K, B uint32
	TestT      uint32
	Bit        uint32
	Dm         [80]uint32
}

type dvName struct{ t, k, b uint32 }

// Published lists the 32 vectors in mask-bit order.
var Published = []dvName{
	{1, 43, 0}, {1, 44, 0}, {1, 45, 0}, {1, 46, 0}, {1, 46, 2}, {1, 47, 0}, {1, 47, 2}, {1, 48, 0},
	{1, 48, 2}, {1, 49, 0}, {1, 49, 2}, {1, 50, 0}, {1, 50, 2}, {1, 51, 0}, {1, 51, 2}, {1, 52, 0},
	{2, 45, 0}, {2, 46, 0}, {2, 46, 2}, {2, 47, 0}, {2, 48, 0}, {2, 49, 0}, {2, 49, 2}, {2, 50, 0},
	{2, 50, 2}, {2, 51, 0}, {2, 51, 2}, {2, 52, 0}, {2, 53, 0}, {2, 54, 0}, {2, 55, 0}, {2, 56, 0},
}

// ValidStep reports whether the two computations of a pair built on the vector
// share their state before step t: no local collision is open there.
func ValidStep(typ, k, b uint32, t int) bool {
	dv := deriveDV(typ, k, b)
	for i := t - 5; i < t; i++ {
		if i < -dvOff || i >= 80 || dv[i+dvOff] != 0 {
			return false
		}
	}
	return true
}

// Cuts lists the steps a detector may recompress the vector from, out of the
// two the published method uses.
func Cuts(bit int) (c []int) {
	n := Published[bit]
	for _, t := range []int{58, 65} {
		if ValidStep(n.t, n.k, n.b, t) {
			c = append(c, t)
		}
	}
	return
}

const dvOff = 8 // room for negative indices

func deriveDV(t, k, b uint32) (dv [80 + dvOff + 16]uint32) {
	const off = dvOff
	base := int(k) + off
	for i := 0; i < 16; i++ {
		dv[base+i] = 0
	}
	dv[base+15] = bits.RotateLeft32(1, int(b))
	if t == 2 {
		dv[base+1] = bits.RotateLeft32(1, int(31+b)%32)
		dv[base+3] = dv[base+1]
	}
	for i := base + 16; i < 80+off; i++ {
		dv[i] = bits.RotateLeft32(dv[i-3]^dv[i-8]^dv[i-14]^dv[i-16], 1)
	}
	for i := base - 1; i >= 0; i-- {
		// w[i+16] = rol1(w[i+13]^w[i+8]^w[i+2]^w[i])
		dv[i] = bits.RotateLeft32(dv[i+16], -1) ^ dv[i+13] ^ dv[i+8] ^ dv[i+2]
	}
	return
}

// DeriveDm computes the expanded message XOR difference of a vector from its
// definition (Manuel's classification; six-step local collisions).
func DeriveDm(t, k, b uint32) (dm [80]uint32) {
	const off = dvOff
	dv := deriveDV(t, k, b)
	r := bits.RotateLeft32
	for i := 0; i < 80; i++ {
		j := i + off
		dm[i] = dv[j] ^ r(dv[j-1], 5) ^ dv[j-2] ^ r(dv[j-3], 30) ^ r(dv[j-4], 30) ^ r(dv[j-5], 30)
	}
	return
}

// Table returns a fresh reference vector list. testT is taken from the caller
// (the step from which recompression starts does not change the outcome for a
// consistent vector; it only matters for synthetic ones).
func Table() []DV {
	t := make([]DV, len(Published))
	for i, n := range Published {
		t[i] = DV{Type: n.t, K: n.k, B: n.b, TestT: testT(n), Bit: uint32(i), Dm: DeriveDm(n.t, n.k, n.b)}
	}
	return t
}

func testT(n dvName) uint32 {
	// The step at which the two computations of a pair share their state.
	if n.k <= 49 {
		return 58
	}
	return 65
}

// Recompress reconstructs input and output chaining values of the second
// message m1^dm that shares state s before step t.
func Recompress(t int, s [5]uint32, w *[80]uint32, dm *[80]uint32) (in, out [5]uint32) {
	in = s
	for i := t - 1; i >= 0; i-- {
		in = unstep(i, in, w[i]^dm[i])
	}
	e := s
	for i := t; i < 80; i++ {
		e = step(i, e, w[i]^dm[i])
	}
	return in, add(in, e)
}

// Detect decides whether the block (expanded as w, entered with h) is an
// attack block for a vector of the table. matchNoUBC reports a block that
// recompresses to a collision for a vector whose bit conditions fail: real
// vectors cannot do that, so callers treat it as "outside the model".
func Detect(tab []DV, h [5]uint32, w *[80]uint32) (hit bool, idx int, matchNoUBC bool) {
	mask := Mask(w)
	st := States(h, w)
	h2 := add(h, st[80])
	idx = -1
	for i := range tab {
		if mask>>tab[i].Bit&1 == 0 && (!tab[i].Synthetic() || tab[i].Zero()) {
			continue
		}
		t := int(tab[i].TestT)
		if _, out := Recompress(t, st[t], w, &tab[i].Dm); out == h2 {
			if mask>>tab[i].Bit&1 == 0 {
				matchNoUBC = true
				continue
			}
			if !hit {
				hit, idx = true, i
			}
		}
	}
	return
}

// Synthetic reports whether the entry's difference was replaced by the simulator.
func (d *DV) Synthetic() bool { return d.Type >= 100 }

// Zero reports whether the difference was replaced by none at all: every block
// that passes the screening is then an attack block.
func (d *DV) Zero() bool { return d.Type >= 200 }

// State is the reference hash.
type State struct {
	H    [5]uint32
	Buf  [64]byte
	Len  uint64
	Col  bool
	Tab  []DV // nil: the published table
	Amb  bool // left the model (see Detect)
	Hits int
}

// Hits by vector index over the process, for reach statistics.
var HitBy [64]int

var published = Table()

// NewState returns an empty reference hash over table tab.
func NewState(tab []DV) *State {
	return &State{H: IV, Tab: tab}
}

// Nx is the number of buffered bytes.
func (s *State) Nx() int { return int(s.Len % 64) }

// Block processes one block.
func (s *State) Block(p []byte) {
	m := Words(p)
	w := Expand(m)
	tab := s.Tab
	if tab == nil {
		tab = published
	}
	hit, idx, amb := false, -1, false
	if s.quickMask(&w, tab) {
		hit, idx, amb = Detect(tab, s.H, &w)
	}
	s.H = Compress(s.H, &w)
	if amb {
		s.Amb = true
	}
	if hit {
		s.Col = true
		s.Hits++
		HitBy[idx]++
		s.H = Compress(s.H, &w)
		s.H = Compress(s.H, &w)
	}
}

func (s *State) quickMask(w *[80]uint32, tab []DV) bool {
	if Mask(w) != 0 {
		return true
	}
	for i := range tab {
		if tab[i].Synthetic() {
			return true
		}
	}
	return false
}

// Write appends p.
func (s *State) Write(p []byte) {
	nx := s.Nx()
	s.Len += uint64(len(p))
	if nx > 0 {
		n := copy(s.Buf[nx:], p)
		p = p[n:]
		if nx+n < 64 {
			return
		}
		s.Block(s.Buf[:])
	}
	for len(p) >= 64 {
		s.Block(p[:64])
		p = p[64:]
	}
	copy(s.Buf[:], p)
}

// Sum returns digest and verdict.
func (s *State) Sum() (d [20]byte, col bool) {
	t := *s
	n := t.Len
	pad := []byte{0x80}
	for (n+uint64(len(pad)))%64 != 56 {
		pad = append(pad, 0)
	}
	for i := 7; i >= 0; i-- {
		pad = append(pad, byte(n<<3>>(8*i)))
	}
	t.Write(pad)
	if t.Nx() != 0 {
		panic("ref: padding")
	}
	s.Amb = s.Amb || t.Amb
	for i, v := range t.H {
		d[4*i], d[4*i+1], d[4*i+2], d[4*i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	return d, t.Col
}

// Clone copies the state.
func (s *State) Clone() *State { t := *s; return &t }

// Encode gives the released serialised layout of a state without collision.
func (s *State) Encode() []byte {
	b := append([]byte(nil), Magic...)
	for _, v := range s.H {
		b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	b = append(b, s.Buf[:s.Nx()]...)
	b = append(b, make([]byte, 64-s.Nx())...)
	for i := 7; i >= 0; i-- {
		b = append(b, byte(s.Len>>(8*i)))
	}
	return b
}

// Magic and EncLen describe the released layout.
const (
	Magic  = "shacd\x01"
	EncLen = len(Magic) + 20 + 64 + 8
)

// Decode reads the released layout's fields.
func Decode(b []byte, tab []DV) *State {
	s := NewState(tab)
	b = b[len(Magic):]
	for i := range s.H {
		s.H[i] = uint32(b[4*i])<<24 | uint32(b[4*i+1])<<16 | uint32(b[4*i+2])<<8 | uint32(b[4*i+3])
	}
	copy(s.Buf[:], b[20:84])
	for i := 0; i < 8; i++ {
		s.Len = s.Len<<8 | uint64(b[84+i])
	}
	return s
}
