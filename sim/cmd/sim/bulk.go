package main

import (
	"bytes"
	"crypto/sha1"
	"encoding"
	"fmt"
	"hash"

	"verifsim/ref"
)

// runBulk delivers gigabytes of zero pages, with attacks before and after. The
// zeros go through the standard library's SHA-1, the rest through the model.
func runBulk(p *Plan) *World {
	w := &World{plan: p}
	w.tab[0], w.tab[1] = ref.Table(), ref.Table()
	b := p.Bulk
	forceGeneric = b.Engine == 1
	defer func() {
		forceGeneric = false
		w.unpatch()
		if e := recover(); e != nil {
			w.viol(nil, "panic", fmt.Sprint("bulk delivery panicked: ", e))
		}
	}()
	e := engGo
	if b.Engine == 2 {
		e = engC
	}
	head := b.Head
	if b.Real > 0 {
		head = append(append([]byte(nil), realAttacks[(b.Real-1)%4]...), head...)
	}
	max, sum := int64(0), int64(0)
	for _, z := range b.Zeros {
		sum += z
		if z > max {
			max = z
		}
	}
	if b.One {
		max = sum + int64(len(head)+len(b.Tail)) + 200
	}
	m := ref.NewState(tableFor(e, w))
	m.Write(head)
	for _, z := range b.Zeros {
		fastZeros(m, z)
	}
	var late []byte
	if b.Late > 0 && caps.GoLive && (e == engGo || caps.CLive) {
		r := newRNG(p.Seed, 0x1a7e)
		dv := (b.Late - 1) % 32
		late = make([]byte, (64-m.Nx())%64)
		r.Bytes(late)
		t := m.Clone()
		t.Write(late)
		if blk, ok := ref.Craft(r, []int{dv}, nil, nil); ok {
			w.patch(dv, ref.SyntheticDm(r, t.H, blk[:], -1, ref.Cuts(dv)))
			late = append(late, blk[:]...)
			w.count("bulk:late-attack", 1)
		}
	}
	m.Write(late)
	m.Write(b.Tail)
	zero, err := zeroPages(int(max) + 1)
	if err != nil {
		w.count("bulk:no-memory", 1)
		return w
	}
	defer munmap(zero)
	var got []byte
	var col bool
	if b.One {
		n := copy(zero, head) + int(sum)
		n += copy(zero[n:], late)
		n += copy(zero[n:], b.Tail)
		got, col = oneShot(e, zero[:n])
	} else {
		var h hash.Hash = newHash(e)
		put := func(q []byte) {
			n, err := h.Write(q)
			if n != len(q) || err != nil {
				w.viol(nil, "contract", fmt.Sprintf("Write(%d bytes) = %d, %v", len(q), n, err))
			}
			progress.Add(1)
		}
		put(head)
		for _, z := range b.Zeros {
			put(zero[:z])
		}
		put(late)
		put(b.Tail)
		got, col = h.(crHash).CollisionResistantSum(nil)
		if st, _, ok := marshal(h); ok && len(st) >= 8 {
			var l uint64
			for _, c := range st[len(st)-8:] {
				l = l<<8 | uint64(c)
			}
			if l != m.Len {
				w.viol(nil, "state", fmt.Sprintf("saved length %d after %d bytes", l, m.Len))
			}
		}
	}
	w.bytes = int64(m.Len)
	w.checks++
	w.faults++
	w.count("bulk:bytes", int64(m.Len))
	w.count("bulk:runs", 1)
	want, wcol := m.Sum()
	w.log.bytes(got)
	if !bytes.Equal(got, want[:]) {
		w.viol(nil, "digest", fmt.Sprintf("bulk delivery of %d bytes: got %x, want %x", m.Len, got, want))
	}
	if col != wcol {
		w.viol(nil, "verdict", fmt.Sprintf("bulk delivery of %d bytes: verdict %v, want %v", m.Len, col, wcol))
	}
	return w
}

// fastZeros writes n zero bytes to the model by way of the standard library: a
// zero block is no attack whatever the chaining value.
func fastZeros(m *ref.State, n int64) {
	o := sha1.New()
	st := append([]byte("sha\x01"), m.Encode()[len(ref.Magic):]...)
	if err := o.(encoding.BinaryUnmarshaler).UnmarshalBinary(st); err != nil {
		panic(err)
	}
	// the buffered block may be one, so it is left to the model
	k := int64((64 - m.Nx()) % 64)
	if k > n {
		k = n
	}
	if k > 0 {
		m.Write(make([]byte, k))
		n -= k
		st = append([]byte("sha\x01"), m.Encode()[len(ref.Magic):]...)
		if err := o.(encoding.BinaryUnmarshaler).UnmarshalBinary(st); err != nil {
			panic(err)
		}
	}
	buf := make([]byte, 1<<20)
	for n > 0 {
		q := int64(len(buf))
		if q > n {
			q = n
		}
		o.Write(buf[:q])
		n -= q
		progress.Add(1)
	}
	st, err := o.(encoding.BinaryMarshaler).MarshalBinary()
	if err != nil {
		panic(err)
	}
	d := ref.Decode(append([]byte(ref.Magic), st[4:]...), m.Tab)
	m.H, m.Buf, m.Len = d.H, d.Buf, d.Len
}

// bulkPlans lists the multi-gigabyte deliveries for a tier.
func bulkPlans(tier string, seed uint64, profile string) []*Plan {
	r := newRNG(seed, 0xb1)
	const g4 = int64(1) << 32
	var out []*Plan
	add := func(b Bulk) {
		if profile == "C07" || r.P(1, 3) {
			b.Real = r.N(5)
		}
		if profile == "C07" || r.P(1, 3) {
			b.Late = 1 + r.N(32)
		}
		out = append(out, &Plan{Profile: profile, Variant: caps.Variant, Seed: seed, Bulk: &b})
	}
	head := func() []byte { h := make([]byte, r.N(200)); r.Bytes(h); return h }
	near := func() int64 { return int64(r.N(257)) - 128 }
	// one write above 4 GiB; the total passing 4 GiB in smaller writes
	add(Bulk{Engine: 0, Head: head(), Zeros: []int64{g4 + int64(r.N(300))}, Tail: head()})
	if caps.CGO {
		add(Bulk{Engine: 2, Head: head(), Zeros: []int64{g4 + int64(r.N(300))}, Tail: head()})
		add(Bulk{Engine: 2, Zeros: []int64{g4 + int64(r.N(300))}, One: true})
	}
	add(Bulk{Engine: 0, Zeros: []int64{g4 + int64(r.N(300))}, One: true})
	add(Bulk{Engine: 0, Head: head(), Zeros: []int64{g4/2 + near(), g4/4 + near(), g4/4 + near(), 1000}, Tail: head()})
	if tier == "thorough" {
		add(Bulk{Engine: 1, Head: head(), Zeros: []int64{g4 + int64(r.N(300))}, Tail: head()})
		for e := 0; e < 3; e++ {
			if e == 2 && !caps.CGO {
				continue
			}
			add(Bulk{Engine: e, Head: head(), Zeros: []int64{g4/2 + near(), g4/4 + near(), g4/4 + near(), 1000}, Tail: head()})
			add(Bulk{Engine: e, Head: head(), Zeros: []int64{2*g4 + near(), 77}, Tail: head()})
		}
	}
	return out
}
