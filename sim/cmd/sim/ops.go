package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"hash"
	"io"
	"syscall"
	"unsafe"

	"verifsim/ref"
)

var errTransient = errors.New("simulated transient read error")

// faultyReader delivers a stream the way a bad network or disk does. frags
// give the size of successive reads: 0 an empty read, -1 a transient error,
// -2 data together with an error.
type faultyReader struct {
	t     *taskCtx
	data  []byte
	frags []int
	i     int
	total int
	limit int
	eof   bool // the end comes together with the last bytes
}

func (r *faultyReader) Read(p []byte) (int, error) {
	r.t.leave(func() { r.t.w.sc.point() })
	if r.total >= r.limit || len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	var err error
	if r.i < len(r.frags) {
		f := r.frags[r.i]
		r.i++
		switch {
		case f == 0:
			r.t.w.fault("reader:empty-read")
			return 0, nil
		case f == -1:
			r.t.w.fault("reader:transient-error")
			return 0, errTransient
		case f < -1:
			r.t.w.fault("reader:data-with-error")
			err = errTransient
			f = -f
		}
		if f < n {
			n = f
			r.t.w.fault("reader:short-read")
		}
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > r.limit-r.total {
		n = r.limit - r.total
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	r.total += n
	if r.eof && err == nil && (r.total >= r.limit || len(r.data) == 0) {
		r.t.w.fault("reader:data-with-eof")
		err = io.EOF
	}
	return n, err
}

// leave runs client code called back from inside a library or helper call.
func (t *taskCtx) leave(f func()) {
	was := t.st.inCall
	t.st.inCall = false
	f()
	t.st.inCall = was
}

// counted is the writer the helpers see: it checks every Write's contract.
type counted struct {
	t *taskCtx
	s *slot
	n int
}

func (c *counted) Write(p []byte) (int, error) {
	cp := append([]byte(nil), p...)
	n, err := c.s.h.Write(p)
	if n != len(p) || err != nil {
		c.t.w.viol(c.t, "contract", fmt.Sprintf("Write(%d bytes) = %d, %v", len(p), n, err))
	}
	if !bytes.Equal(cp, p) {
		c.t.w.viol(c.t, "memory", "Write changed its input")
	}
	c.s.m.Write(cp)
	c.n += len(p)
	c.t.w.checks++
	return n, err
}

func (t *taskCtx) opWrite(o *Op) {
	s := t.mine(o.S)
	if s == nil {
		return
	}
	w := t.w
	s.saved = nil
	defer func() {
		if nx := s.m.Nx(); !s.lost {
			nxSeen[nx]++
		}
	}()
	if o.A == 0 || o.A == 3 {
		for _, f := range o.F {
			if len(w.viols) > 0 {
				return
			}
			if f < 0 {
				f = -f
			}
			if f > len(s.data)-s.pos {
				f = len(s.data) - s.pos
			}
			src := s.data[s.pos : s.pos+f]
			if f == 0 {
				w.fault("write:empty")
			}
			if o.A == 3 {
				var n int
				var err error
				str := string(src)
				if !t.call("io.WriteString", f, func() { n, err = io.WriteString(s.h, str) }) {
					return
				}
				if n != f || err != nil {
					w.viol(t, "contract", fmt.Sprintf("io.WriteString(%d bytes) = %d, %v", f, n, err))
				}
				if str != string(src) {
					w.viol(t, "memory", "io.WriteString changed its string")
				}
			} else {
				b := t.getBuf(src, o.B, o.C, o.D)
				p := b.p
				if f == 0 && o.D&1 == 1 {
					p = nil
				}
				var n int
				var err error
				if !t.call("Write", f, func() { n, err = s.h.Write(p) }) {
					return
				}
				if n != f || err != nil {
					w.viol(t, "contract", fmt.Sprintf("Write(%d bytes) = %d, %v", f, n, err))
				}
				if m := b.check(); m != "" {
					w.viol(t, "memory", "Write: "+m)
				}
				b.release(t)
			}
			s.m.Write(src)
			s.pos += f
			w.bytes += int64(f)
			w.count("op:write", 1)
			w.checks++
			w.log.add(uint64(f))
			w.sc.point()
		}
		return
	}
	limit := 0
	for _, f := range o.F {
		if f > 0 {
			limit += f
		} else if f < -1 {
			limit -= f
		}
	}
	if limit > len(s.data)-s.pos {
		limit = len(s.data) - s.pos
	}
	rd := &faultyReader{t: t, data: s.data[s.pos:], frags: o.F, limit: limit, eof: o.C == 2}
	c := &counted{t: t, s: s}
	size := 1 + (o.D&0x3ff)%600
	w.count("op:copy-helper", 1)
	for try := 0; try < len(o.F)+2; try++ {
		var err error
		var n int64
		before := c.n
		from := rd.total
		ok := t.call("copy helper", limit, func() {
			switch o.A {
			case 1: // straight into the hash, whatever interfaces it offers
				n, err = io.Copy(s.h, rd)
			case 8:
				n, err = io.Copy(onlyWriter{c}, rd)
			case 2:
				n, err = io.CopyBuffer(onlyWriter{c}, rd, make([]byte, size))
			case 4:
				bw := bufio.NewWriterSize(c, size)
				n, err = io.Copy(bw, rd)
				if e := bw.Flush(); e != nil {
					w.viol(t, "contract", "Flush: "+e.Error())
				}
			case 5:
				n, err = io.Copy(io.Discard, io.TeeReader(rd, c))
			case 6:
				n, err = io.Copy(io.MultiWriter(c, io.Discard), rd)
			default:
				n, err = io.CopyN(c, rd, int64(limit-rd.total))
			}
		})
		if !ok || len(w.viols) > 0 {
			return
		}
		if o.A == 1 {
			s.m.Write(s.data[s.pos+from : s.pos+rd.total])
			c.n += rd.total - from
		}
		if int(n) != c.n-before {
			w.viol(t, "contract", fmt.Sprintf("copy helper reported %d bytes, hash saw %d", n, c.n-before))
			return
		}
		if err != errTransient {
			if err != nil && err != io.EOF {
				w.viol(t, "contract", "copy helper: "+err.Error())
			}
			if err == nil && rd.total < limit {
				w.viol(t, "contract", fmt.Sprintf("copy helper ended after %d of %d bytes without an error", rd.total, limit))
			}
			break
		}
		w.fault("reader:retried")
	}
	s.pos += c.n
	w.bytes += int64(c.n)
	if c.n != rd.total {
		w.viol(t, "contract", fmt.Sprintf("reader gave %d bytes, hash saw %d", rd.total, c.n))
	}
	w.log.add(uint64(c.n))
}

type onlyWriter struct{ io.Writer }

var nxSeen [64]int64

func (t *taskCtx) opSum(o *Op) {
	s := t.any(o.S)
	if s == nil {
		return
	}
	w := t.w
	pre, spare := o.B&0x3ffff, o.C&0x3ffff
	if o.B < 0 {
		pre = 0
	}
	var back, dst []byte
	switch {
	case o.D == 1 && t.dst != nil: // reuse the last returned buffer
		for i := range t.held {
			if len(t.held[i].got) > 0 && len(t.dst) > 0 && &t.held[i].got[0] == &t.dst[0] {
				t.held = append(t.held[:i], t.held[i+1:]...)
				break
			}
		}
		dst = t.dst[:0]
		pre = 0
		w.count("mem:digest-buffer-reused", 1)
	case o.D == 2: // nil destination
		dst, pre, spare = nil, 0, 0
	default:
		back = make([]byte, pre+spare+40)
		for i := range back {
			back[i] = byte(i*7 + 3)
		}
		dst = back[: pre : pre+spare]
		if o.D == 0 && spare == 0 && pre > 0 && pre <= arenaBody {
			// no room to append to, so the library has no business writing here
			if a := arenaFor(t.id, 0); a != nil {
				a.prot(syscall.PROT_READ | syscall.PROT_WRITE)
				dst = a.body[arenaBody-pre : arenaBody : arenaBody]
				copy(dst, back)
				a.prot(syscall.PROT_READ)
				w.count("mem:prefix-guard-page", 1)
			}
		}
	}
	orig := append([]byte(nil), back...)
	var out []byte
	var col bool
	with := o.A&1 == 1
	cr, is := s.h.(crHash)
	if with && !is {
		w.viol(t, "contract", "hash does not implement CollisionResistantHash")
		return
	}
	what := "Sum"
	if with {
		what = "CollisionResistantSum"
	}
	if !t.call(what, 128, func() {
		if with {
			out, col = cr.CollisionResistantSum(dst)
		} else {
			out = s.h.Sum(dst)
		}
	}) {
		return
	}
	w.count("op:observe", 1)
	if len(out) != pre+20 {
		w.viol(t, "contract", fmt.Sprintf("%s returned %d bytes for a prefix of %d", what, len(out), pre))
		return
	}
	if back != nil {
		if !bytes.Equal(out[:pre], orig[:pre]) || !bytes.Equal(back[:pre], orig[:pre]) {
			w.viol(t, "memory", what+" changed the prefix")
			return
		}
		from := pre + spare
		if spare >= 20 {
			from = pre + 20
		}
		if !bytes.Equal(back[from:], orig[from:]) {
			w.viol(t, "memory", what+" wrote past the appended digest")
			return
		}
	}
	t.expect(s, what, out[pre:], with, col)
	if o.D == 3 { // the client scribbles over everything it was given
		full := out[:cap(out)]
		if back == nil || len(full) > 0 {
			scribble(full)
			w.fault("mem:result-scribbled")
		}
		return
	}
	t.hold(out, what)
	t.dst = out
}

func (t *taskCtx) opOne(o *Op) {
	w := t.w
	_, data := w.stream(o.B)
	off := o.C
	if off < 0 || off > len(data) {
		off = 0
	}
	n := o.D
	if n < 0 || n > len(data)-off {
		n = len(data) - off
	}
	mem, after := memFresh, 0
	if len(o.F) > 1 {
		mem, after = o.F[0], o.F[1]
	}
	src := data[off : off+n]
	e := o.A & 1
	b := t.getBuf(src, mem, after, o.S)
	var d []byte
	var col bool
	if !t.call("one-shot Sum", n, func() { d, col = oneShot(e, b.p) }) {
		return
	}
	if m := b.check(); m != "" {
		w.viol(t, "memory", "one-shot Sum: "+m)
		return
	}
	w.count("op:one-shot", 1)
	m := ref.NewState(tableFor(e, w))
	m.Write(src)
	tmp := &slot{engine: e, m: m}
	if len(d) != 20 {
		w.viol(t, "contract", fmt.Sprintf("one-shot Sum returned %d bytes", len(d)))
		return
	}
	t.expect(tmp, "one-shot Sum", d, true, col)
	t.hold(d, "one-shot digest")
	if n > 0 && o.S&3 == 1 && !b.view && len(w.viols) == 0 {
		// the same memory once more, after a change by its owner
		i := (o.S*40503 + o.D + o.C) % n
		if i < 0 {
			i = -i
		}
		src2 := append([]byte(nil), src...)
		src2[i] ^= 1 << uint(o.S>>2&7)
		if b.a != nil {
			b.a.prot(syscall.PROT_READ | syscall.PROT_WRITE)
		}
		copy(b.p, src2)
		if b.a != nil {
			b.a.prot(syscall.PROT_READ)
		}
		b.want = src2
		if !t.call("one-shot Sum", n, func() { d, col = oneShot(e, b.p) }) {
			return
		}
		if m := b.check(); m != "" {
			w.viol(t, "memory", "one-shot Sum: "+m)
			return
		}
		w.count("mem:same-memory-again", 1)
		m := ref.NewState(tableFor(e, w))
		m.Write(src2)
		t.expect(&slot{engine: e, m: m}, "one-shot Sum", d, true, col)
		t.hold(d, "one-shot digest")
	}
	b.release(t)
}

// save takes a state and checks it against the released layout.
func (t *taskCtx) takeState(s *slot) ([]byte, bool) {
	w := t.w
	var b []byte
	var err error
	has := false
	if !t.call("MarshalBinary", 0, func() { b, err, has = marshal(s.h) }) || !has {
		return nil, false
	}
	w.count("op:save", 1)
	if err != nil {
		w.viol(t, "state", "MarshalBinary: "+err.Error())
		return nil, false
	}
	if a, is := s.h.(interface{ AppendBinary([]byte) ([]byte, error) }); is {
		pre := make([]byte, 7, 7+64*(len(b)&3))
		var ab []byte
		if !t.call("AppendBinary", 0, func() { ab, err = a.AppendBinary(pre) }) {
			return nil, false
		}
		if err != nil || len(ab) < 7 || !bytes.Equal(ab[:7], make([]byte, 7)) || !bytes.Equal(ab[7:], b) {
			w.viol(t, "state", fmt.Sprintf("AppendBinary gave %x, %v, MarshalBinary %x", ab, err, b))
			return nil, false
		}
	}
	if s.lost {
		return b, true
	}
	w.checks++
	if s.m.Col {
		w.count("probe:saved-with-verdict", 1)
	}
	if !s.m.Col || colLayout {
		want := s.m.Encode()
		if s.m.Col {
			copy(want, sigCol)
		}
		if !bytes.Equal(b, want) {
			w.viol(t, "state", fmt.Sprintf("saved state after %d bytes: got %x, want %x", s.m.Len, b, want))
			return nil, false
		}
	}
	if s.saved != nil && !bytes.Equal(s.saved, b) {
		w.viol(t, "state", fmt.Sprintf("saving twice without a write gave %x then %x", s.saved, b))
		return nil, false
	}
	s.saved = append([]byte(nil), b...)
	w.log.bytes(b)
	return b, true
}

func (t *taskCtx) opSave(o *Op) {
	s := t.any(o.S)
	if s == nil || s.lost {
		return
	}
	w := t.w
	b, ok := t.takeState(s)
	if !ok {
		return
	}
	f := &file{m: s.m.Clone(), stream: s.stream, body: s.data, pos: s.pos, intact: true}
	t.release(&f.edge)
	id := o.A
	switch o.B {
	case 1: // torn write
		n := o.C
		if n < 0 {
			n = 0
		}
		n %= len(b)
		f.data = append([]byte(nil), b[:n]...)
		f.intact = false
		w.disk[id] = f
		w.fault("disk:torn-write")
	case 2:
		w.fault("disk:lost-write")
	case 3:
		// observation only
	case 4: // torn over an older version: new head, old tail
		old := w.disk[id]
		if old == nil || !old.intact || len(old.data) != len(b) {
			break
		}
		n := ((o.C % len(b)) + len(b)) % len(b)
		f.data = append(append([]byte(nil), b[:n]...), old.data[n:]...)
		if bytes.Equal(f.data, b) {
			w.disk[id] = f
			break
		}
		f.intact = false
		w.disk[id] = f
		w.fault("disk:torn-mixed-write")
	default:
		f.data = append([]byte(nil), b...)
		if o.D == 2 { // written behind: the disk reads the caller's slice later
			f.data = b
			w.fault("disk:write-behind")
		}
		w.disk[id] = f
		w.count("disk:write", 1)
	}
	if o.D == 2 {
		return
	}
	if o.D == 1 { // the client may do anything with what it was given
		scribble(b[:cap(b)])
		w.fault("mem:result-scribbled")
	} else {
		t.hold(b, "saved state")
	}
}

// target picks the instance a state is restored into.
func (t *taskCtx) target(o *Op) *slot {
	if o.D&1 == 0 {
		if s := t.mine(o.S); s != nil && s.engine == engGo {
			t.w.count("op:restore-into-used", 1)
			return s
		}
	}
	if !t.canOwn(o.S) {
		return nil
	}
	var h hash.Hash
	if !t.call("New", 0, func() { h = newHash(engGo) }) {
		return nil
	}
	s := &slot{h: h, engine: engGo, m: ref.NewState(t.w.tab[engGo])}
	t.w.slots[t.key(o.S)] = s
	return s
}

func (t *taskCtx) opRestore(o *Op) {
	w := t.w
	f := w.disk[o.A]
	if f == nil {
		return
	}
	t.acquire(&f.edge)
	s := t.target(o)
	if s == nil {
		return
	}
	if !f.intact {
		t.feed(s, f.data, "stored state", o.B, f)
		return
	}
	t.restore(s, f.data, o.B, f.m, f.stream, f.body, f.pos)
}

func (t *taskCtx) restore(s *slot, data []byte, mem int, m *ref.State, stream int, body []byte, pos int) {
	w := t.w
	b := t.getBuf(data, mem, 1, 3)
	var err error
	has := false
	if !t.call("UnmarshalBinary", 0, func() { err, has = unmarshal(s.h, b.p) }) || !has {
		return
	}
	w.count("op:restore", 1)
	if err != nil {
		w.viol(t, "restore", fmt.Sprintf("a saved state was refused: %v (%x)", err, data))
		return
	}
	if msg := b.check(); msg != "" {
		w.viol(t, "memory", "UnmarshalBinary: "+msg)
		return
	}
	b.release(t)
	s.m = m.Clone()
	s.m.Tab = w.tab[engGo]
	s.stream, s.data, s.pos = stream, body, pos
	s.saved = nil
	s.lost = false
	if s.m.Col {
		w.count("probe:restored-with-verdict", 1)
	}
	w.fault("op:restored")
}

// feed gives a hash bytes that may or may not be an acceptable state.
func (t *taskCtx) feed(s *slot, data []byte, what string, mem int, f *file) {
	w := t.w
	head := ""
	if len(data) >= len(ref.Magic) {
		head = string(data[:len(ref.Magic)])
	}
	shape := head + "/" + itoa(len(data))
	switch {
	case (head == ref.Magic || colLayout && head == sigCol) && len(data) == ref.EncLen:
		m := ref.Decode(data, w.tab[engGo])
		m.Col = head != ref.Magic
		body, stream, pos := s.data, s.stream, s.pos
		if body == nil {
			stream, body = w.stream(0)
			pos = 0
		}
		t.restore(s, data, mem, m, stream, body, pos)
		w.count("op:arbitrary-state-accepted", 1)
		return
	case head != ref.Magic && !ownHead(head):
	case (head == ref.Magic || ownHead(head)) && !ownShape[shape]:
	default:
		return // one of the library's own other shapes with unknown contents
	}
	before, ok := t.takeState(s)
	if !ok {
		return
	}
	b := t.getBuf(data, mem, 1, 5)
	var err error
	has := false
	if !t.call("UnmarshalBinary", 0, func() { err, has = unmarshal(s.h, b.p) }) || !has {
		return
	}
	w.fault("restore:rejected-input")
	w.checks++
	if err == nil {
		w.viol(t, "reject", fmt.Sprintf("%s of %d bytes with identifier %q was accepted", what, len(data), head))
		return
	}
	if msg := b.check(); msg != "" {
		w.viol(t, "memory", "UnmarshalBinary: "+msg)
		return
	}
	b.release(t)
	after, ok := t.takeState(s)
	if !ok {
		return
	}
	if !bytes.Equal(before, after) {
		w.viol(t, "reject", fmt.Sprintf("a refused %s changed the hash from %x to %x", what, before, after))
	}
}

func ownHead(h string) bool {
	return h == ref.Magic || h == sigCol && sigCol != ""
}

var foreignHeads = []string{"sha\x01", "sha\x02", "sha\x03", "md5\x01", "shacd\x00", "SHACD\x01", "shacd", "\x01shacd", "shacc\x01", "shacd\x03", "shacd\xff", "Shacd\x01", "sha1d\x01", "shacd\x81", "\x00\x00\x00\x00\x00\x00"}

func (t *taskCtx) opBad(o *Op) {
	s := t.mine(o.S)
	if s == nil || s.engine != engGo || s.lost {
		return
	}
	r := newRNG(uint64(o.B), uint64(o.C), 0xbad)
	base, ok := t.takeState(s)
	if !ok {
		return
	}
	base = append([]byte(nil), base...)
	if f := t.w.disk[o.D]; f != nil && f.intact && o.C&1 == 1 {
		base = append([]byte(nil), f.data...)
	}
	n := len(base)
	switch o.A {
	case 0: // truncated
		base = base[:((o.B%n)+n)%n]
		t.w.count("bad:truncated", 1)
	case 1: // extended
		k := 1 + ((o.B%300)+300)%300
		ext := make([]byte, k)
		r.Bytes(ext)
		if o.B%3 == 0 {
			ext = make([]byte, k)
		}
		base = append(base, ext...)
		t.w.count("bad:extended", 1)
	case 2: // identifier bit flip
		i := ((o.B % 48) + 48) % 48
		base[i/8] ^= 1 << uint(i%8)
		t.w.count("bad:identifier-bit", 1)
	case 3: // foreign identifier
		h := foreignHeads[((o.B%len(foreignHeads))+len(foreignHeads))%len(foreignHeads)]
		copy(base, h)
		if o.C&2 == 2 { // keep the payload aligned after a shorter identifier
			base = append([]byte(h), base[len(ref.Magic):]...)
		}
		t.w.count("bad:foreign-identifier", 1)
	case 4: // payload bit flips
		if string(base[:6]) != ref.Magic && !colLayout {
			return
		}
		for k := 0; k <= ((o.C%4)+4)%4; k++ {
			i := 6 + r.N(n-6)
			base[i] ^= 1 << uint(r.N(8))
		}
		t.w.fault("disk:bit-flip")
	case 5: // random bytes
		base = make([]byte, ((o.B%220)+220)%220)
		r.Bytes(base)
		t.w.count("bad:random", 1)
	case 6: // empty
		base = nil
		t.w.count("bad:empty", 1)
	case 7: // right identifier, arbitrary contents
		if o.C&4 == 4 {
			for i := range base[6:] {
				base[6+i] = 0xff
			}
		} else {
			r.Bytes(base[6:])
		}
		copy(base, ref.Magic)
		if colLayout && o.C&8 == 8 {
			copy(base, sigCol)
		}
		base = base[:ref.EncLen]
		t.w.fault("disk:garbage-contents")
	case 8: // two states glued together
		base = append(base, base...)
		t.w.count("bad:doubled", 1)
	case 9: // zeroed sector
		i := r.N(n)
		for j := i; j < n && j < i+32; j++ {
			base[j] = 0
		}
		t.w.fault("disk:zeroed-sector")
	case 10: // random identifier, otherwise intact
		r.Bytes(base[:6])
		t.w.count("bad:random-identifier", 1)
	}
	t.feed(s, base, "state", o.C&7%nMem, nil)
}

var bigLens = []uint64{0, 1 << 29, 1<<29 - 64, 1 << 31, 1<<31 - 64, 1 << 32, 1<<32 - 64, 1 << 35, 1 << 58, 1 << 60, 1 << 61, 1<<61 - 64, 1 << 63, 1<<63 - 64, ^uint64(63), 0x0123456789abcdc0}

func (t *taskCtx) opImport(o *Op) {
	w := t.w
	s := t.target(&Op{S: o.S, D: o.D})
	if s == nil {
		return
	}
	si, data := w.stream(o.B)
	pos := o.C
	if pos < 0 || pos > len(data) {
		pos = 0
	}
	var m *ref.State
	if o.A == 0 {
		m = ref.NewState(w.tab[engGo])
		m.Write(data[:pos])
		if m.Col || m.Amb {
			return
		}
		k := ((o.D>>1)%len(bigLens) + len(bigLens)) % len(bigLens)
		m.Len += bigLens[k]
		w.count("import:offset", 1)
	} else {
		r := newRNG(uint64(o.D), 0x1b)
		m = ref.NewState(w.tab[engGo])
		for i := range m.H {
			m.H[i] = uint32(r.Uint64())
		}
		r.Bytes(m.Buf[:])
		m.Len = r.Uint64() >> uint(r.N(64))
		w.count("import:arbitrary", 1)
	}
	t.restore(s, m.Encode(), o.S&3, m, si, data, pos)
}

func (t *taskCtx) opForeign(o *Op) {
	w := t.w
	if len(w.foreign) == 0 {
		return
	}
	f := w.foreign[((o.A%len(w.foreign))+len(w.foreign))%len(w.foreign)]
	s := t.target(o)
	if s == nil || f.b.Pos > len(f.data) {
		return
	}
	m := ref.NewState(nil) // the saver's list was not patched
	m.Write(f.data[:f.b.Pos])
	t.restore(s, f.b.Data, o.B, m, -1, f.data, f.b.Pos)
	w.count("foreign:"+f.b.From, 1)
}

func (t *taskCtx) opCopy(o *Op) {
	s := t.any(o.S)
	if s == nil || s.engine != engGo || s.lost || o.A%100 == o.S%100 || o.S >= 1000 {
		return
	}
	if c, is := s.h.(interface{ Clone() (hash.Cloner, error) }); is && o.B&1 == 1 && t.canOwn(o.A%100) {
		var h hash.Hash
		var err error
		if !t.call("Clone", 0, func() { h, err = c.Clone() }) {
			return
		}
		if err != nil || h == nil {
			t.w.viol(t, "state", fmt.Sprintf("Clone failed: %v", err))
			return
		}
		t.w.count("op:clone", 1)
		t.w.slots[t.key(o.A%100)] = &slot{h: h, engine: s.engine, m: s.m.Clone(), stream: s.stream, data: s.data, pos: s.pos}
		return
	}
	b, ok := t.takeState(s)
	if !ok {
		return
	}
	d := t.target(&Op{S: o.A % 100, D: o.D})
	if d == nil {
		return
	}
	t.restore(d, b, o.B, s.m, s.stream, s.data, s.pos)
}

func (t *taskCtx) opMask(o *Op) {
	w := t.w
	r := newRNG(uint64(o.D), 0x3a)
	dv := ((o.B % 32) + 32) % 32
	var blk [64]byte
	ok := true
	switch o.A {
	case 0:
		r.Bytes(blk[:])
	case 1:
		blk, ok = ref.Craft(r, []int{dv}, nil, nil)
		w.count("mask:crafted", 1)
	case 2:
		c := ((o.C % len(ref.UBC[dv])) + len(ref.UBC[dv])) % len(ref.UBC[dv])
		blk, ok = ref.CraftNot(r, []int{dv}, c, nil, nil)
		w.count("mask:one-condition-broken", 1)
	case 3:
		blk, ok = ref.Craft(r, []int{dv, ((o.C % 32) + 32) % 32}, nil, nil)
		w.count("mask:two-vectors", 1)
	case 4:
		_, data := w.stream(o.B)
		if len(data) < 64 {
			return
		}
		i := (((o.C % len(data)) + len(data)) % len(data)) &^ 63
		if i+64 > len(data) {
			i = 0
		}
		copy(blk[:], data[i:])
	}
	if !ok {
		return
	}
	words := ref.Expand(ref.Words(blk[:]))
	want := ref.Mask(&words)
	in := t.maskWords(o, &words)
	var g uint32
	if !t.call("CalculateDvMask", 64, func() { g = goMask(in) }) {
		return
	}
	w.checks++
	w.log.add(uint64(g))
	if *in != words {
		w.viol(t, "memory", "CalculateDvMask changed its input")
		return
	}
	if g != want {
		w.viol(t, "mask", fmt.Sprintf("Go mask %08x, want %08x for block %x", g, want, blk))
	}
	var c uint32
	if !t.call("cgo CalculateDvMask", 64, func() { c = cMask(in) }) {
		return
	}
	if c != want {
		w.viol(t, "mask", fmt.Sprintf("C mask %08x, want %08x for block %x", c, want, blk))
	}
	for i := 0; i < 32; i++ {
		if want>>uint(i)&1 == 1 {
			maskSeen[i]++
		}
	}
}

// maskWords puts an expanded block where the library will find it: on the heap,
// in read-only memory next to an inaccessible page, or where other clients
// read it too.
func (t *taskCtx) maskWords(o *Op, words *[80]uint32) *[80]uint32 {
	w := t.w
	switch o.S {
	case 3, 4:
		a := arenaFor(t.id, o.S-3)
		if a == nil {
			break
		}
		a.prot(syscall.PROT_READ | syscall.PROT_WRITE)
		p := &a.body[0]
		if o.S == 3 {
			p = &a.body[arenaBody-320]
		}
		in := (*[80]uint32)(unsafe.Pointer(p))
		*in = *words
		a.prot(syscall.PROT_READ)
		w.count("mem:mask-guard-page", 1)
		return in
	case 5:
		if w.words == nil {
			w.words = map[[80]uint32]*[80]uint32{}
		}
		if w.words[*words] == nil {
			c := *words
			w.words[*words] = &c
		}
		w.count("mem:mask-shared", 1)
		return w.words[*words]
	}
	c := *words
	return &c
}

var maskSeen [32]int64
