package main

import "syscall"

// arena is a mapping with an inaccessible page on either side.
type arena struct {
	all  []byte
	body []byte
	cur  int
}

const arenaBody = 1 << 17

var pageSize = syscall.Getpagesize()

func newArena() *arena {
	n := arenaBody + 2*pageSize
	b, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil
	}
	a := &arena{all: b, body: b[pageSize : pageSize+arenaBody]}
	if syscall.Mprotect(b[:pageSize], syscall.PROT_NONE) != nil ||
		syscall.Mprotect(b[pageSize+arenaBody:], syscall.PROT_NONE) != nil {
		syscall.Munmap(b)
		return nil
	}
	a.cur = syscall.PROT_READ | syscall.PROT_WRITE
	return a
}

func (a *arena) prot(p int) {
	if a.cur != p {
		if err := syscall.Mprotect(a.body, p); err != nil {
			panic(err)
		}
		a.cur = p
	}
}

const (
	memFresh = iota
	memReuse
	memEnd   // ends at an inaccessible page, read-only during the call
	memStart // begins after an inaccessible page, read-only during the call
	memOdd   // misaligned
	memView  // the client's own stream memory
	nMem
)

const canary = 0xC5

// inbuf is one buffer handed to the library.
type inbuf struct {
	p     []byte // what is passed
	back  []byte // heap backing with canaries (may be nil)
	lo    int
	a     *arena
	want  []byte
	after int
	view  bool
}

var arenas [32][2]*arena

// arenaFor returns the guarded mapping of a task; mappings are kept for the
// life of the process.
func arenaFor(id, i int) *arena {
	a := &arenas[id%32][i]
	if *a == nil {
		*a = newArena()
	}
	return *a
}

func resetArenas() {
	for i := range arenas {
		for _, a := range arenas[i] {
			if a != nil {
				a.prot(syscall.PROT_READ | syscall.PROT_WRITE)
			}
		}
	}
}

func (t *taskCtx) getBuf(src []byte, mem, after, odd int) *inbuf {
	b := &inbuf{want: src, after: after}
	n := len(src)
	if (mem == memEnd || mem == memStart) && n <= arenaBody {
		i := mem - memEnd
		a := arenaFor(t.id, i)
		if a != nil {
			a.prot(syscall.PROT_READ | syscall.PROT_WRITE)
			if mem == memEnd {
				b.p = a.body[arenaBody-n : arenaBody : arenaBody]
			} else {
				b.p = a.body[:n:n]
			}
			copy(b.p, src)
			a.prot(syscall.PROT_READ)
			b.a = a
			t.w.count("mem:guard-page", 1)
			return b
		}
	}
	switch mem {
	case memView:
		b.p = src
		b.view = true
		b.want = append([]byte(nil), src...)
		return b
	case memReuse:
		if cap(t.reuse) < n+64 {
			t.reuse = make([]byte, n+64+n/2)
		}
		b.back = t.reuse[:n+64]
		b.lo = 16
		t.w.count("mem:reused-buffer", 1)
	case memOdd:
		b.back = make([]byte, n+64)
		b.lo = 16 + 1 + (odd&15)%15
		t.w.count("mem:misaligned", 1)
	default:
		b.back = make([]byte, n+48)
		b.lo = 16
	}
	for i := range b.back {
		b.back[i] = canary
	}
	b.p = b.back[b.lo : b.lo+n]
	copy(b.p, src)
	return b
}

// check verifies that the library left the buffer alone.
func (b *inbuf) check() string {
	for i := range b.want {
		if b.p[i] != b.want[i] {
			return "input byte " + itoa(i) + " was changed"
		}
	}
	for i, c := range b.back {
		if (i < b.lo || i >= b.lo+len(b.want)) && c != canary {
			return "memory outside the input was changed at offset " + itoa(i-b.lo)
		}
	}
	return ""
}

// release lets the client do with the buffer what it likes.
func (b *inbuf) release(t *taskCtx) {
	switch {
	case b.view:
	case b.a != nil:
		if b.after == 2 {
			b.a.prot(syscall.PROT_NONE)
			t.w.count("mem:unmapped-after", 1)
		} else if b.after == 1 {
			b.a.prot(syscall.PROT_READ | syscall.PROT_WRITE)
			scribble(b.p)
			t.w.count("mem:scribbled-after", 1)
		}
	case b.after != 0:
		scribble(b.p)
		t.w.count("mem:scribbled-after", 1)
	}
}

func scribble(p []byte) {
	for i := range p {
		p[i] = p[i]*5 + 0xA7
	}
}

// zeroPages maps n bytes of untouched zero pages.
func zeroPages(n int) ([]byte, error) {
	return syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
}

func munmap(b []byte) { syscall.Munmap(b) }
