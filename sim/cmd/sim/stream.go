package main

import (
	_ "embed"

	"verifsim/ref"
)

//go:embed data/shattered-1.bin
var shattered1 []byte

//go:embed data/shattered-2.bin
var shattered2 []byte

//go:embed data/mbles-1.bin
var mbles1 []byte

//go:embed data/mbles-2.bin
var mbles2 []byte

var realAttacks = [][]byte{shattered1, shattered2, mbles1, mbles2}

const lorem = "the quick brown fox jumps over the lazy dog; tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\n"

const maxStream = 5 << 20

// build materialises a stream. Synthetic attack segments claim entries of the
// vector list: the block is built to satisfy the vector's bit conditions and
// the entry's difference is replaced by one for which this block, entered with
// this chaining value, is a collision block.
func (w *World) build(s *Stream) []byte {
	var b []byte
	st := ref.NewState(w.tab[engGo])
	put := func(p []byte) {
		if len(b)+len(p) > maxStream {
			return
		}
		b = append(b, p...)
		st.Write(p)
	}
	align := func(r *RNG) {
		if n := len(b) % 64; n != 0 {
			p := make([]byte, 64-n)
			r.Bytes(p)
			put(p)
		}
	}
	for _, g := range s.Segs {
		r := newRNG(g.Seed, 0x57)
		n := g.N
		if n < 0 {
			n = 0
		}
		if n > maxStream {
			n = maxStream
		}
		dv := ((g.DV % 32) + 32) % 32
		dvs := []int{dv}
		if g.DV2 > 0 {
			dvs = append(dvs, (g.DV2-1)%32)
		}
		switch g.K {
		case "rand":
			p := make([]byte, n)
			r.Bytes(p)
			put(p)
		case "zero":
			put(make([]byte, n))
		case "fill":
			p := make([]byte, n)
			for i := range p {
				p[i] = byte(g.Seed)
			}
			put(p)
		case "text":
			p := make([]byte, n)
			for i := range p {
				p[i] = lorem[(i+int(g.Seed%64))%len(lorem)]
			}
			put(p)
		case "real":
			put(realAttacks[((g.DV%4)+4)%4])
		case "craft": // bit conditions hold, but it is no attack
			align(r)
			for i := 0; i < 4; i++ {
				blk, ok := ref.Craft(r, dvs, nil, nil)
				if ok {
					put(blk[:])
					break
				}
				dvs = dvs[:1]
			}
		case "many": // one attack block after the other
			align(r)
			if blk, ok := ref.Craft(r, dvs[:1], nil, nil); ok {
				if g.Near == 0 && (!caps.GoLive || caps.Screens[engGo]) && (!caps.CLive || caps.Screens[engC]) {
					// a difference of zero fits every chaining value
					w.patch(dv, [80]uint32{})
				}
				if n > (maxStream-len(b))/64 {
					n = (maxStream - len(b)) / 64
				}
				for i := 0; i < n; i++ {
					put(blk[:])
				}
				w.count("stream:many-attacks", int64(n))
			}
		case "syn":
			align(r)
			blk, ok := ref.Craft(r, dvs, nil, nil)
			if !ok {
				blk, ok = ref.Craft(r, dvs[:1], nil, nil)
			}
			if ok {
				if g.N == 2 { // the same block was there before, innocent with its chaining value
					put(blk[:])
				}
				w.patch(dv, ref.SyntheticDm(r, st.H, blk[:], g.Near-1, ref.Cuts(dv)))
				put(blk[:])
				if g.N == 1 { // the same attack block once more, with another chaining value
					put(blk[:])
				}
			}
		case "synpad": // must be last: the padded final block is the attack
			align(r)
			n %= 64
			var tmpl [64]byte
			var fixed [64]bool
			for i := n; i < 64; i++ {
				fixed[i] = true
			}
			tmpl[n] = 0x80
			if n < 56 {
				bits := uint64(len(b)+n) << 3
				for i := 0; i < 8; i++ {
					tmpl[63-i] = byte(bits >> (8 * i))
				}
			}
			if blk, ok := ref.Craft(r, dvs[:1], &tmpl, &fixed); ok {
				w.patch(dv, ref.SyntheticDm(r, st.H, blk[:], g.Near-1, ref.Cuts(dv)))
				put(blk[:n])
			}
		}
	}
	for _, f := range s.Flips {
		if len(b) > 0 {
			i := ((f[0] % len(b)) + len(b)) % len(b)
			b[i] ^= 1 << (uint(f[1]) % 8)
		}
	}
	return b
}

// patch replaces the difference of the vector with mask bit dv in the model
// and, where it is reachable, in the engines.
func (w *World) patch(dv int, dm [80]uint32) {
	for e := 0; e < 2; e++ {
		if e == engGo && !caps.GoLive || e == engC && !caps.CLive {
			continue
		}
		w.tab[e][dv].Dm = dm
		w.tab[e][dv].Type = w.tab[e][dv].Type%100 + 100
		if dm == ([80]uint32{}) {
			w.tab[e][dv].Type += 100
		}
		w.patched[e] |= 1 << uint(dv)
		if e == engGo {
			goDVs.set(caps.idx[e][dv], &dm)
		} else {
			cDVs.set(caps.idx[e][dv], &dm)
		}
	}
}

func (w *World) unpatch() {
	for e := 0; e < 2; e++ {
		for dv := 0; dv < 32; dv++ {
			if w.patched[e]>>uint(dv)&1 == 1 {
				if e == engGo {
					goDVs.set(caps.idx[e][dv], &orig[e][caps.idx[e][dv]].Dm)
				} else {
					cDVs.set(caps.idx[e][dv], &orig[e][caps.idx[e][dv]].Dm)
				}
			}
		}
		w.patched[e] = 0
	}
}

var publishedTab = ref.Table()

var orig [2][]dvEntry // the lists as the process found them

// checkList compares a list with the expected one. Order and additional
// entries are the library's business, and so is the choice of a step among
// those at which an attack pair shares its state.
func (w *World) checkList(e int) (string, bool) {
	acc := goDVs
	if e == engC {
		acc = cDVs
	}
	if acc == nil {
		return "", true
	}
	tab := w.tab[e]
	if !caps.ListLive[e] {
		tab = publishedTab
	}
	got := acc.list()
	for i := range tab {
		ok := false
		for j := range got {
			g := &got[j]
			if g.T == tab[i].Type%100 && g.K == tab[i].K && g.B == tab[i].B {
				if g.Bit != tab[i].Bit {
					return "mask bit of " + dvString(&tab[i]) + " in the " + acc.name + " list", false
				}
				if g.Dm != tab[i].Dm {
					return "message difference of " + dvString(&tab[i]) + " in the " + acc.name + " list", false
				}
				if !ref.ValidStep(g.T, g.K, g.B, int(g.TestT)) {
					return "step of " + dvString(&tab[i]) + " in the " + acc.name + " list: the pair does not share its state there", false
				}
				ok = true
			}
		}
		if !ok {
			return dvString(&tab[i]) + " missing from the " + acc.name + " list", false
		}
	}
	return "", true
}

func dvString(d *ref.DV) string {
	t := "I"
	if d.Type%100 == 2 {
		t = "II"
	}
	return t + "(" + itoa(int(d.K)) + "," + itoa(int(d.B)) + ")"
}
