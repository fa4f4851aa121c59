package ref

import "math/bits"

// Linear algebra over GF(2): every bit of the expanded message is a linear
// form in the 512 message bits, so the unavoidable bit conditions are linear
// equations and blocks meeting them can be constructed directly.

type form [8]uint64

func (f *form) xor(g *form) {
	for i := range f {
		f[i] ^= g[i]
	}
}

var lin [80][32]form

func init() {
	for i := 0; i < 16; i++ {
		for b := 0; b < 32; b++ {
			v := i*32 + b
			lin[i][b][v/64] |= 1 << (v % 64)
		}
	}
	for i := 16; i < 80; i++ {
		for b := 0; b < 32; b++ {
			src := (b + 31) % 32 // rol1: bit b comes from bit b-1
			f := lin[i-3][src]
			f.xor(&lin[i-8][src])
			f.xor(&lin[i-14][src])
			f.xor(&lin[i-16][src])
			lin[i][b] = f
		}
	}
}

// Rand is the source of free choices.
type Rand interface{ Uint64() uint64 }

// Craft returns a block that satisfies all conditions of the vectors in dvs
// (mask bits) and agrees with tmpl on the bytes where fixed[i] is true; the
// remaining bits are pseudo-random. ok is false if the system is inconsistent.
func Craft(r Rand, dvs []int, tmpl *[64]byte, fixed *[64]bool) (blk [64]byte, ok bool) {
	return CraftNot(r, dvs, -1, tmpl, fixed)
}

// CraftNot is Craft with condition number neg of the first vector violated.
func CraftNot(r Rand, dvs []int, neg int, tmpl *[64]byte, fixed *[64]bool) (blk [64]byte, ok bool) {
	type row struct {
		f form
		c byte
		p int
	}
	var rows []row
	addEq := func(f form, c byte) bool {
		for i := range rows {
			if f[rows[i].p/64]>>(rows[i].p%64)&1 == 1 {
				f.xor(&rows[i].f)
				c ^= rows[i].c
			}
		}
		p := -1
		for i := range f {
			if f[i] != 0 {
				p = i*64 + bits.TrailingZeros64(f[i])
				break
			}
		}
		if p < 0 {
			return c == 0
		}
		for i := range rows {
			if rows[i].f[p/64]>>(p%64)&1 == 1 {
				rows[i].f.xor(&f)
				rows[i].c ^= c
			}
		}
		rows = append(rows, row{f, c, p})
		return true
	}
	var x form
	for i := range x {
		x[i] = r.Uint64()
	}
	setByte := func(i int, v byte) {
		for b := 0; b < 8; b++ {
			bit := (i/4)*32 + 8*(3-i%4) + b
			x[bit/64] &^= 1 << (bit % 64)
			x[bit/64] |= uint64(v>>b&1) << (bit % 64)
		}
	}
	if tmpl != nil {
		for i := range tmpl {
			if !fixed[i] {
				continue
			}
			setByte(i, tmpl[i])
			for b := 0; b < 8; b++ {
				var f form
				bit := (i/4)*32 + 8*(3-i%4) + b
				f[bit/64] = 1 << (bit % 64)
				if !addEq(f, tmpl[i]>>b&1) {
					return blk, false
				}
			}
		}
	}
	for n, d := range dvs {
		for j, c := range UBC[d] {
			if n == 0 && j == neg {
				c.C ^= 1
			}
			f := lin[c.W1][c.B1]
			f.xor(&lin[c.W2][c.B2])
			if !addEq(f, c.C) {
				return blk, false
			}
		}
	}
	// Rows are fully reduced: set each pivot from the free bits.
	for i := range rows {
		f := rows[i].f
		p := rows[i].p
		f[p/64] &^= 1 << (p % 64)
		v := rows[i].c
		for j := range f {
			v ^= byte(bits.OnesCount64(f[j]&x[j]) & 1)
		}
		x[p/64] &^= 1 << (p % 64)
		x[p/64] |= uint64(v) << (p % 64)
	}
	for i := 0; i < 16; i++ {
		w := uint32(x[i/2] >> (32 * (i % 2)))
		blk[4*i], blk[4*i+1], blk[4*i+2], blk[4*i+3] = byte(w>>24), byte(w>>16), byte(w>>8), byte(w)
	}
	return blk, true
}

// SyntheticDm builds a non-zero message difference for which the block blk
// entered with chaining value h is, exactly, a collision block: a chain of
// six-step local collisions whose corrections are computed from the actual
// states. No window straddles a step in cuts, so the two computations share
// their state at each step a detector may recompress from. With near in 0..4
// the last window is cut off by the end of the block, so that exactly that
// word of the output differs and the block is no collision block.
func SyntheticDm(r Rand, h [5]uint32, blk []byte, near int, cuts []int) (dm [80]uint32) {
	w := Expand(Words(blk))
	st := States(h, &w)
	window := func(s int) {
		var d uint32
		for d == 0 {
			d = uint32(r.Uint64())
			if r.Uint64()%4 == 0 {
				d = 1 << (r.Uint64() % 32)
			}
		}
		m2 := w[s] ^ d
		cur := step(s, st[s], m2)
		dm[s] = d
		for k := 1; k < 6 && s+k < 80; k++ {
			i := s + k
			// choose m2 so that the new a equals the original one
			want := st[i+1][0]
			m2 = want - bits.RotateLeft32(cur[0], 5) - F(i, cur[1], cur[2], cur[3]) - cur[4] - K(i)
			dm[i] = m2 ^ w[i]
			cur = step(i, cur, m2)
		}
		if s+6 <= 80 && cur != st[s+6] {
			panic("ref: local collision")
		}
	}
	any := false
	sparse := r.Uint64()%3 == 0
	fill := func(lo, hi int) {
		s := lo
		if n := uint64(hi - lo - 5); r.Uint64()%2 == 0 && n > 0 {
			s = lo + int(r.Uint64()%min(n, 6))
		}
		for ; s+6 <= hi; s += 6 {
			if sparse && r.Uint64()%4 != 0 {
				continue
			}
			window(s)
			any = true
		}
	}
	end := 80
	if near >= 0 {
		end = 79 - near
	}
	lo := 0
	for _, c := range cuts {
		fill(lo, c)
		lo = c
	}
	fill(lo, end)
	if near >= 0 {
		window(79 - near)
	} else if !any {
		window(72)
	}
	return
}
