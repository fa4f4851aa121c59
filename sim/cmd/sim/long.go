package main

import (
	"hash"

	"verifsim/ref"
)

// poke writes the next n bytes of the slot's stream, or made-up ones after its end.
func (t *taskCtx) poke(s *slot, n int, seed uint64) bool {
	src := make([]byte, n)
	if k := copy(src, s.data[s.pos:]); k < n {
		newRNG(seed, 0x10c).Bytes(src[k:])
		s.pos += k
	} else {
		s.pos += n
	}
	s.saved = nil
	var got int
	var err error
	if !t.call("Write", n, func() { got, err = s.h.Write(src) }) {
		return false
	}
	if got != n || err != nil {
		t.w.viol(t, "contract", "Write("+itoa(n)+" bytes) = "+itoa(got)+" or an error")
	}
	s.m.Write(src)
	t.w.bytes += int64(n)
	t.w.checks++
	return len(t.w.viols) == 0
}

// opLong keeps one instance busy with very many small operations: nothing it
// does may depend on how often it was used.
func (t *taskCtx) opLong(o *Op) {
	s := t.mine(o.S)
	if s == nil || s.lost {
		return
	}
	w := t.w
	r := newRNG(uint64(o.D), 0x4c)
	w.fault("long:" + [...]string{"writes", "observations", "resets", "saves", "rejects", "one-shots", "mixed"}[((o.B%7)+7)%7])
	n := o.A
	if n > 1<<17 {
		n = 1 << 17
	}
	every := 1 + n/6
	look := func() {
		t.opSum(&Op{K: "sum", S: o.S, A: 1, D: 2})
	}
	for i := 0; i < n && len(w.viols) == 0; i++ {
		k := ((o.B % 7) + 7) % 7
		if k == 6 {
			k = r.Pick(0, 0, 0, 1, 2, 3, 4, 5)
		}
		switch k {
		case 0:
			if !t.poke(s, r.Pick(0, 1, 1, 1, 2, 3), uint64(i)) {
				return
			}
		case 1:
			t.opSum(&Op{K: "sum", S: o.S, A: r.N(2), D: r.Pick(1, 2, 3)})
		case 2:
			if !t.call("Reset", 0, func() { s.h.Reset() }) {
				return
			}
			t.rebind(s, o.C)
			if r.P(1, 3) && !t.poke(s, r.N(70), uint64(i)) {
				return
			}
		case 3:
			t.opSave(&Op{K: "save", S: o.S, A: 70 + r.N(2), B: 3})
			if r.P(1, 16) {
				t.opSave(&Op{K: "save", S: o.S, A: 72})
				t.opRestore(&Op{K: "rest", S: o.S, A: 72})
			}
			if r.P(1, 4) && !t.poke(s, r.N(9), uint64(i)) {
				return
			}
		case 4:
			t.opBad(&Op{K: "bad", S: o.S, A: r.N(7), B: r.N(1 << 16), C: r.N(1 << 8), D: 70})
		case 5:
			t.opOne(&Op{K: "one", A: s.engine, B: o.C, S: r.N(16), C: r.N(64), D: r.N(70)})
		}
		if s = t.mine(o.S); s == nil {
			return
		}
		if i%every == every-1 {
			look()
		}
		w.sc.point()
	}
	look()
}

var vastPages []byte

// opVast hands one very large piece to an instance, after a smaller one that
// tells how many steps its engine takes for a block: the number must not grow
// with the size of the piece.
func (t *taskCtx) opVast(o *Op) {
	s := t.mine(o.S)
	if s == nil || s.lost || raceBuild {
		return
	}
	n := o.A
	if n < 1<<16 {
		return
	}
	if n > 64<<20 {
		n = 64 << 20
	}
	if vastPages == nil {
		var err error
		if vastPages, err = zeroPages(64 << 20); err != nil {
			return
		}
	}
	w := t.w
	s.saved = nil
	per := int64(0)
	for _, k := range []int{1 << 16, n} {
		p := vastPages[:k]
		var got int
		var err error
		use := int64(0)
		t.limit = 8 * per * int64(k/64+1)
		if per > 0 {
			t.limit += stepBase
		}
		ok := t.call("Write", k, func() {
			got, err = s.h.Write(p)
			w.sc.account(t.st)
			use = t.st.callUse
		})
		t.limit = 0
		if !ok {
			return
		}
		if got != k || err != nil {
			w.viol(t, "contract", "Write("+itoa(k)+" bytes) = "+itoa(got)+" or an error")
			return
		}
		per = use / int64(k/64)
		fastZeros(s.m, int64(k))
		w.bytes += int64(k)
		w.checks++
	}
	w.fault("long:vast-write")
	t.opSum(&Op{K: "sum", S: o.S, A: 1, D: 2})
}

// opHerd keeps very many instances alive at once.
func (t *taskCtx) opHerd(o *Op) {
	w := t.w
	r := newRNG(uint64(o.D), 0x4e)
	n := o.A
	if n > 70000 {
		n = 70000
	}
	e := o.B & 1
	var l []*slot
	for i := 0; i < n; i++ {
		var h hash.Hash
		if !t.call("New", 0, func() { h = newHash(e) }) {
			return
		}
		si, data := w.stream(o.C + i)
		l = append(l, &slot{h: h, engine: e, m: ref.NewState(tableFor(e, w)), stream: si, data: data})
		if r.P(1, 2) && !t.poke(l[i], r.N(80), uint64(i)) {
			return
		}
	}
	w.fault("herd:alive")
	for i := 0; i < n; i++ {
		s := l[r.N(n)]
		if !t.poke(s, r.N(150), uint64(i)) {
			return
		}
		if r.P(1, 20) {
			if !t.call("Reset", 0, func() { s.h.Reset() }) {
				return
			}
			t.rebind(s, r.N(4))
		}
		w.sc.point()
	}
	for _, s := range l {
		if len(w.viols) > 0 {
			return
		}
		t.observe(s, r.N(2) == 1)
	}
}

// observe takes a digest and compares it.
func (t *taskCtx) observe(s *slot, with bool) {
	var out []byte
	var col bool
	cr, is := s.h.(crHash)
	with = with && is
	if !t.call("Sum", 128, func() {
		if with {
			out, col = cr.CollisionResistantSum(nil)
		} else {
			out = s.h.Sum(nil)
		}
	}) {
		return
	}
	if len(out) != 20 {
		t.w.viol(t, "contract", "Sum returned "+itoa(len(out))+" bytes")
		return
	}
	t.w.count("op:observe", 1)
	t.expect(s, "Sum", out, with, col)
	t.hold(out, "Sum")
}
