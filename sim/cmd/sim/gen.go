package main

// gen makes the plan of one run from one integer.

type gen struct {
	r    *RNG
	p    *Plan
	inst bool
	slow bool // emulated CPU
	prof string

	nstream int
	used    uint32 // vectors already given to a synthetic attack
	attack  int    // out of 10: chance that a stream carries attack blocks
	syn     bool
	big     bool // multi-megabyte stream
	shdv    int
	long    bool // tens of kilobytes under instrumentation
}

// Plan profiles. The weights say how often each operation kind appears.
type weights struct {
	w, sum, one, reset, save, rest, bad, imp, forn, crash, hw, gc, mask, list, put, get, size, pause, clob, cp, renew int
}

var profs = map[string]weights{
	"C01": {w: 50, sum: 6, one: 8, reset: 2, hw: 1, gc: 1, pause: 1, renew: 3, imp: 1},
	"C02": {w: 30, sum: 8, save: 20, rest: 16, crash: 4, hw: 3, imp: 3, forn: 3, reset: 2, cp: 4, renew: 2, gc: 1},
	"C03": {w: 22, sum: 8, save: 6, rest: 4, bad: 40, imp: 3, reset: 3, crash: 1, hw: 1, cp: 2, renew: 2},
	"C04": {w: 35, sum: 35, save: 14, rest: 3, reset: 3, hw: 2, gc: 1, one: 2, renew: 2, bad: 2},
	"C05": {w: 34, sum: 10, reset: 18, save: 5, rest: 4, bad: 3, put: 6, get: 8, crash: 1, hw: 2, imp: 2, renew: 4, gc: 1},
	"C06": {w: 40, sum: 16, one: 10, reset: 4, save: 6, rest: 4, bad: 1, put: 3, get: 4, mask: 3, list: 1, renew: 4, cp: 2, imp: 1},
	"C07": {w: 44, sum: 14, one: 10, reset: 4, save: 5, rest: 5, hw: 4, list: 1, renew: 6, cp: 1, imp: 2},
	"C08": {w: 40, sum: 20, one: 10, reset: 3, save: 10, rest: 6, bad: 4, gc: 3, put: 2, get: 2, mask: 1, renew: 3, cp: 2, hw: 1},
	"C09": {w: 40, sum: 10, one: 8, hw: 14, clob: 6, save: 6, rest: 6, forn: 4, cp: 3, reset: 2, renew: 4, mask: 2, imp: 2},
	"C10": {w: 36, sum: 14, one: 8, reset: 5, save: 7, rest: 5, bad: 6, put: 3, get: 3, mask: 2, size: 5, imp: 3, renew: 3, hw: 2, crash: 1, cp: 2},
	"C12": {w: 30, sum: 6, one: 6, mask: 40, list: 10, reset: 2, renew: 3, save: 2, rest: 1, hw: 2},
}

func genPlan(prof string, seed uint64) *Plan {
	g := &gen{r: newRNG(seed, 0x91a), prof: prof, inst: caps.Inst, slow: slowCPU}
	g.p = &Plan{Profile: prof, Variant: caps.Variant, Seed: seed, HW0: 1}
	r := g.r
	if prof == "C16" {
		prof = []string{"C06", "C11", "C12"}[r.N(3)]
		g.prof = prof
	}
	g.attack = 3
	switch prof {
	case "C06", "C11", "C05":
		g.attack = 6
	case "C07":
		g.attack = 9
	case "C02", "C04", "C09":
		g.attack = 5
	}
	if r.P(1, 6) {
		g.attack = 0
	}
	g.syn = r.P(5, 6)
	if cold != nil {
		g.p.Cold = cold
		g.syn = false
		g.attack = 6
	}
	if r.P(1, 3) {
		g.p.HW0 = 0
	}
	if caps.Inst && (prof == "C09" || r.P(1, 3)) {
		g.p.Junk = r.Uint64() | 1
		switch r.N(4) {
		case 0:
			g.p.Junk = ^uint64(0)
		case 1:
			g.p.Junk = ^uint64(r.N(128))
		}
	}
	g.shdv = r.N(32)
	ns := 1 + r.N(4)
	if !g.inst && (g.slow && r.P(1, 50) || !g.slow && r.P(1, 70)) {
		g.big = true
		ns = 1
	}
	if g.inst && !g.slow && prof == "C10" && r.P(1, 80) {
		g.long = true
		ns = 1
	}
	for i := 0; i < ns; i++ {
		g.p.Streams = append(g.p.Streams, g.stream())
	}
	g.nstream = ns
	if prof == "C02" || prof == "C09" {
		for i := 0; i < 2 && len(foreignBlobs) > 0; i++ {
			g.p.Foreign = append(g.p.Foreign, foreignBlobs[r.N(len(foreignBlobs))])
		}
	}
	switch prof {
	case "C11":
		g.shared()
	default:
		g.general()
	}
	return g.p
}

// general: one to three phases of concurrent clients.
func (g *gen) general() {
	r := g.r
	ntask := 1
	many := false
	conc := g.prof == "C06" || g.prof == "C10" || g.prof == "C12"
	switch {
	case conc:
		ntask = 2 + r.N(3)
		if r.P(1, 12) || g.prof == "C10" && r.P(1, 6) {
			ntask = 5 + r.N(16)
			many = true
		}
	case r.P(1, 3):
		ntask = 2 + r.N(2)
	}
	nph := 1 + r.N(2)
	for ph := 0; ph < nph; ph++ {
		var phase Phase
		for i := 0; i < ntask; i++ {
			n := 3 + r.N(14)
			if conc {
				n = 2 + r.N(6)
			}
			if g.slow || g.inst {
				n = 2 + n/2
			}
			if many {
				n = 1 + r.N(2)
			}
			phase.Tasks = append(phase.Tasks, TaskPlan{g.script(n, ph == 0)})
		}
		if conc && r.P(1, 3) && ntask > 1 {
			// twins: the same script on every task, for maximal overlap
			for i := 1; i < ntask; i++ {
				phase.Tasks[i].Ops = append([]Op(nil), phase.Tasks[0].Ops...)
			}
		}
		phase.Sched = g.sched(ntask, len(phase.Tasks[0].Ops))
		g.p.Phases = append(g.p.Phases, phase)
	}
}

func (g *gen) sched(ntask, nops int) SchedPlan {
	r := g.r
	s := SchedPlan{Seed: r.Uint64(), Mode: mSerial}
	if ntask == 1 {
		return s
	}
	if !g.inst {
		s.Mode = r.Pick(mWalk, mWalk, mRobin, mPCT)
		s.MaxQ = 1 + r.N(6)
		s.Est = nops * ntask * 3
		return s
	}
	s.Mode = r.Pick(mWalk, mWalk, mWalk, mPCT, mStall, mRobin, mVictim, mSite, mSite, mSite)
	if g.prof == "C10" && r.P(1, 2) {
		s.Mode = mStall
	}
	s.MaxQ = r.Pick(3, 20, 100, 600, 3000, 12000)
	s.Est = nops * r.Pick(300, 1500, 6000)
	if s.Mode == mSite {
		s.MaxQ, s.Est = r.Pick(8, 30, 100, 300), r.Pick(1, 1, 2, 5, 20)
	}
	if s.Mode == mRobin {
		s.MaxQ = r.Pick(1, 2, 3, 7, 40, 200, 1000)
	}
	return s
}

// shared: a hash is brought to some state, observed by several goroutines at
// once, used further, and observed again.
func (g *gen) shared() {
	r := g.r
	rounds := 1 + r.N(2)
	nsh := 1 + r.N(2)
	for k := 0; k < rounds; k++ {
		var ops []Op
		for i := 0; i < nsh; i++ {
			s := 1000 + i
			if k == 0 {
				ops = append(ops, Op{K: "new", S: s, A: g.engine(), B: r.N(g.nstream)})
			}
			for n := r.N(4); n >= 0; n-- {
				ops = append(ops, g.write(s))
				if r.P(1, 6) {
					ops = append(ops, Op{K: "hw", A: r.N(2)})
				}
				if r.P(1, 8) {
					ops = append(ops, Op{K: "reset", S: s, B: r.N(g.nstream)})
				}
			}
		}
		g.p.Phases = append(g.p.Phases, Phase{Tasks: []TaskPlan{{ops}}})
		ntask := 2 + r.N(3)
		var ph Phase
		for t := 0; t < ntask; t++ {
			var ops []Op
			for n := 1 + r.N(4); n > 0; n-- {
				s := 1000 + r.N(nsh)
				switch r.N(8) {
				case 0, 1, 2:
					ops = append(ops, g.sumOp(s, 0))
				case 3, 4, 5:
					ops = append(ops, g.sumOp(s, 1))
				case 6:
					ops = append(ops, Op{K: "save", S: s, A: t, B: 3})
				case 7:
					ops = append(ops, Op{K: "save", S: s, A: 10 + t}, Op{K: "rest", S: 1, A: 10 + t, D: 1}, g.sumOp(1, 1))
				}
			}
			ph.Tasks = append(ph.Tasks, TaskPlan{ops})
		}
		ph.Sched = g.sched(ntask, 4)
		g.p.Phases = append(g.p.Phases, ph)
		var fin []Op
		for i := 0; i < nsh; i++ {
			s := 1000 + i
			fin = append(fin, g.sumOp(s, 1), Op{K: "save", S: s, A: 50, B: 3}, g.write(s), g.sumOp(s, r.N(2)))
		}
		g.p.Phases = append(g.p.Phases, Phase{Tasks: []TaskPlan{{fin}}})
	}
}

func (g *gen) engine() int {
	if !caps.CGO {
		if g.r.P(1, 8) {
			return engC // the fallback
		}
		return engGo
	}
	switch g.prof {
	case "C02", "C03":
		return engGo
	}
	if g.r.P(1, 3) {
		return engC
	}
	return engGo
}

// script makes n operations on up to three slots.
func (g *gen) script(n int, first bool) []Op {
	r := g.r
	w := profs[g.prof]
	var ops []Op
	nslot := 1 + r.N(3)
	if first || r.P(1, 3) {
		for s := 0; s < nslot; s++ {
			ops = append(ops, Op{K: "new", S: s, A: g.engine(), B: r.N(g.nstream)})
		}
	}
	// swarm: switch a random subset of the optional operations off
	off := func(p *int) {
		if r.P(1, 4) {
			*p = 0
		}
	}
	for _, p := range []*int{&w.one, &w.reset, &w.bad, &w.imp, &w.forn, &w.crash, &w.hw, &w.gc, &w.list, &w.put, &w.cp, &w.clob, &w.pause} {
		off(p)
	}
	if g.prof == "C03" && w.bad == 0 {
		w.bad = 40
	}
	if g.slow || g.inst {
		w.gc = 0
	}
	type ent struct {
		w int
		k string
	}
	tab := []ent{{w.w, "w"}, {w.sum, "sum"}, {w.one, "one"}, {w.reset, "reset"}, {w.save, "save"}, {w.rest, "rest"}, {w.bad, "bad"}, {w.imp, "imp"}, {w.forn, "for"}, {w.crash, "crash"}, {w.hw, "hw"}, {w.gc, "gc"}, {w.mask, "mask"}, {w.list, "list"}, {w.put, "put"}, {w.get, "get"}, {w.size, "size"}, {w.pause, "pause"}, {w.clob, "clob"}, {w.cp, "copyto"}, {w.renew, "new"}}
	tot := 0
	for _, e := range tab {
		tot += e.w
	}
	files := 1 + r.N(3)
	task := r.N(4) * 8
	for i := 0; i < n; i++ {
		x := r.N(tot)
		k := ""
		for _, e := range tab {
			if x < e.w {
				k = e.k
				break
			}
			x -= e.w
		}
		s := r.N(nslot)
		switch k {
		case "w":
			ops = append(ops, g.write(s))
		case "sum":
			ops = append(ops, g.sumOp(s, r.N(2)))
			for g.prof == "C04" && r.P(1, 2) {
				ops = append(ops, g.sumOp(s, r.N(2)))
			}
		case "one":
			o := Op{K: "one", A: g.engine(), B: r.N(g.nstream), S: r.N(16)}
			if r.P(1, 3) {
				o.C = r.N(200)
			}
			o.D = -1
			if r.P(1, 2) {
				o.D = r.N(1500)
			}
			o.F = []int{g.mem(), r.N(3)}
			ops = append(ops, o)
		case "reset":
			ops = append(ops, Op{K: "reset", S: s, B: r.N(g.nstream)})
		case "save":
			o := Op{K: "save", S: s, A: task + r.N(files)}
			switch r.N(12) {
			case 0:
				o.B, o.C = 1, r.N(98)
			case 1:
				o.B = 2
			case 2:
				o.B, o.C = 4, r.N(98)
			case 3:
				o.B = 3
			}
			o.D = r.Pick(0, 0, 1, 2)
			ops = append(ops, o)
			if g.prof == "C02" && r.P(1, 4) {
				// crash right after the save, resume, finish
				ops = append(ops, Op{K: "crash"})
				if r.P(1, 2) {
					ops = append(ops, Op{K: "hw", A: r.N(2)})
				}
				ops = append(ops, Op{K: "rest", S: s, A: o.A, D: r.N(2)})
			}
		case "rest":
			ops = append(ops, Op{K: "rest", S: s, A: task + r.N(files), B: r.Pick(0, 0, 1, 2, 3, 4), D: r.N(2)})
			if r.P(1, 4) {
				ops = append(ops, g.sumOp(s, 1))
			}
		case "bad":
			ops = append(ops, Op{K: "bad", S: s, A: r.N(11), B: r.N(1 << 16), C: r.N(1 << 8), D: task + r.N(files)})
			if r.P(1, 3) {
				ops = append(ops, g.sumOp(s, 1))
			}
		case "imp":
			how, d := r.N(2), r.N(1<<12)
			if g.prof == "C01" {
				how, d = 0, d&1|r.N(10)<<1 // a stream joined late, of fewer than 1<<61 bytes
			}
			ops = append(ops, Op{K: "imp", S: s, A: how, B: r.N(g.nstream), C: r.Pick(0, 64, 128, 192, r.N(400)), D: d})
		case "for":
			ops = append(ops, Op{K: "for", S: s, A: r.N(2), B: r.N(4), D: r.N(2)})
		case "crash":
			ops = append(ops, Op{K: "crash"})
			for s := 0; s < nslot; s++ {
				if r.P(2, 3) {
					ops = append(ops, Op{K: "rest", S: s, A: task + r.N(files), D: 1})
				} else {
					ops = append(ops, Op{K: "new", S: s, A: g.engine(), B: r.N(g.nstream)})
				}
			}
		case "hw":
			ops = append(ops, Op{K: "hw", A: r.N(2)})
		case "gc", "list":
			ops = append(ops, Op{K: k})
		case "mask":
			o := Op{K: "mask", A: r.Pick(0, 1, 2, 2, 2, 3, 4), B: r.N(32), C: r.N(1 << 10), D: r.N(1 << 30), S: r.Pick(0, 0, 3, 4)}
			if r.P(1, 3) { // other clients screen the same memory
				o = Op{K: "mask", A: r.Pick(0, 1), B: g.shdv, D: r.N(2), S: 5}
			}
			ops = append(ops, o)
		case "put":
			ops = append(ops, Op{K: "put", S: s})
			if r.P(2, 3) {
				ops = append(ops, Op{K: "get", S: s, A: r.N(2), B: r.N(g.nstream), C: r.N(8)})
			}
		case "get":
			ops = append(ops, Op{K: "get", S: s, A: g.engine(), B: r.N(g.nstream), C: r.N(8)})
		case "size":
			ops = append(ops, Op{K: "size", S: s})
		case "pause":
			ops = append(ops, Op{K: "pause", A: 1 + r.N(9)})
		case "clob":
			ops = append(ops, Op{K: "clob", A: r.N(1 << 20), B: -r.N(200)})
		case "copyto":
			ops = append(ops, Op{K: "copyto", S: s, A: r.N(nslot + 1), B: r.N(4), D: r.N(2)})
		case "new":
			ops = append(ops, Op{K: "new", S: s, A: g.engine(), B: r.N(g.nstream)})
		}
	}
	// now and then an instance is used very often, or very many are alive
	rate := 60
	if g.inst || g.slow || raceBuild {
		rate = 300
	}
	if r.P(1, rate) {
		n := r.Log(r.Pick(400, 1500, 5000))
		kind := r.N(7)
		switch {
		case g.inst || g.slow || raceBuild:
			n = r.Log(700)
			if kind == 0 && !g.slow {
				n = r.Log(3000)
			}
		case kind == 0 && r.P(1, 3):
			n = 90000
		}
		ops = append(ops, Op{K: "long", S: r.N(nslot), A: n, B: kind, C: r.N(g.nstream), D: r.N(1 << 20)})
	}
	if r.P(1, rate) {
		n := r.Log(r.Pick(100, 1200, 1200, 6000))
		e := g.engine()
		switch {
		case g.inst || g.slow || raceBuild:
			n = r.Log(150)
		case r.P(1, 60):
			n, e = 70000, engGo
		}
		ops = append(ops, Op{K: "herd", A: n, B: e, C: r.N(g.nstream), D: r.N(1 << 20)})
	}
	if g.inst && g.prof == "C10" && !g.slow && r.P(1, 15000) || !g.inst && !g.slow && r.P(1, 4000) {
		ops = append(ops, Op{K: "vast", S: r.N(nslot), A: r.Pick(4<<20, 16<<20, r.Log(16<<20), r.Log(64<<20))})
		if g.inst {
			ops[len(ops)-1].A = 16 << 20
		}
	}
	if g.slow && !g.inst && r.P(1, 1200) {
		ops = append(ops, Op{K: "vast", S: r.N(nslot), A: r.Pick(4<<20, 4<<20+r.N(1<<20), r.Log(8<<20))})
	}
	// finish: every slot is driven to the end of its stream and observed
	for s := 0; s < nslot; s++ {
		if r.P(3, 4) {
			ops = append(ops, Op{K: "w", S: s, F: []int{maxStream}, B: g.mem()})
		}
		ops = append(ops, g.sumOp(s, 1))
	}
	return ops
}

func (g *gen) mem() int {
	if g.prof == "C08" {
		return g.r.N(nMem)
	}
	return g.r.Pick(0, 0, 1, 1, 2, 3, 4, 5)
}

func (g *gen) sumOp(s, how int) Op {
	r := g.r
	o := Op{K: "sum", S: s, A: how, D: 2}
	if r.P(1, 2) || g.prof == "C08" {
		o.D = r.Pick(0, 0, 1, 2, 3)
		o.B = r.Pick(0, 0, 1, 20, r.N(70))
		o.C = r.Pick(0, 10, 19, 20, 21, 64, r.N(100))
		big := 40
		if g.prof == "C08" && !g.inst && !g.slow {
			big = 12
		}
		if r.P(1, big) {
			o.B = r.Log(1 << 17)
		}
		if r.P(1, big) {
			o.C = r.Log(1 << 17)
		}
	}
	return o
}

func (g *gen) write(s int) Op {
	r := g.r
	o := Op{K: "w", S: s, A: r.Pick(0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8), B: g.mem(), C: r.N(3), D: r.N(1 << 10)}
	o.F = g.frags(o.A != 0 && o.A != 3)
	return o
}

// frags is one delivery pattern.
func (g *gen) frags(reader bool) []int {
	r := g.r
	var f []int
	max := 700
	if g.inst || g.slow {
		max = 260
	}
	switch r.N(9) {
	case 0:
		f = append(f, r.N(max))
	case 1:
		for i := r.N(6); i >= 0; i-- {
			f = append(f, r.N(70))
		}
	case 2: // around block boundaries
		for i := r.N(4); i >= 0; i-- {
			f = append(f, r.Pick(1, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192))
		}
	case 3:
		for i := r.N(5); i >= 0; i-- {
			f = append(f, 64*(1+r.N(4)))
		}
	case 4:
		for i := r.N(40); i >= 0; i-- {
			f = append(f, 1)
		}
	case 5:
		for i := r.N(6); i >= 0; i-- {
			f = append(f, r.Log(max))
		}
	case 6: // fill the buffered block exactly, then overshoot
		a := 1 + r.N(63)
		f = append(f, a, 64-a, r.N(200))
	case 7: // straddle
		a := 1 + r.N(63)
		f = append(f, a, 64-a+64*r.N(3)+r.N(64))
	case 8:
		if g.long || g.big && g.slow {
			f = append(f, r.Log(40000))
		} else if g.inst || g.slow {
			f = append(f, r.N(max))
		} else {
			f = append(f, r.Log(40000))
			if g.big {
				f[0] = r.Log(3 << 20)
			}
		}
	}
	for i := range f {
		if r.P(1, 12) {
			f[i] = 0
		}
	}
	if r.P(1, 10) {
		f = append(f, 0)
	}
	if reader && r.P(2, 3) {
		for i := range f {
			switch r.N(6) {
			case 0:
				f[i] = -1
			case 1:
				if f[i] > 1 {
					f[i] = -f[i]
				}
			}
		}
		f = append(f, 1+r.N(100))
	}
	return f
}

func (g *gen) stream() Stream {
	r := g.r
	var s Stream
	filler := func(max int) {
		n := r.N(max + 1)
		switch r.N(6) {
		case 0:
			s.Segs = append(s.Segs, Seg{K: "zero", N: n})
		case 1:
			s.Segs = append(s.Segs, Seg{K: "text", N: n, Seed: r.Uint64() % 64})
		case 2:
			s.Segs = append(s.Segs, Seg{K: "fill", N: n, Seed: uint64(r.Pick(0xff, 0x80, 0x55, 0xc5))})
		default:
			s.Segs = append(s.Segs, Seg{K: "rand", N: n, Seed: r.Uint64()})
		}
	}
	short := g.inst || g.slow
	if g.long {
		filler(100)
		s.Segs = append(s.Segs, Seg{K: "rand", N: 15000 + r.N(40000), Seed: r.Uint64()})
		return s
	}
	if g.big {
		filler(100)
		n := r.Log(2 << 20)
		if r.P(1, 2) {
			n = r.Pick(1<<16, 1<<17, 1<<18, 1<<19, 1<<20) + r.N(1<<18)
		}
		if g.slow {
			n = r.Pick(1<<14, 1<<15, 1<<16) + r.N(1<<15)
		}
		if !g.slow && r.P(1, 12) || g.slow && r.P(1, 18) {
			n = 4<<20 + r.N(1<<16)
		}
		body := Seg{K: "rand", N: n, Seed: r.Uint64()}
		if g.attack == 0 || r.P(1, 4) {
			s.Segs = append(s.Segs, body)
			return s
		}
		// attacks before, after or on both sides of it
		at := 1 + r.N(3)
		if at&1 != 0 {
			if r.P(1, 2) && g.syn {
				s.Segs = append(s.Segs, Seg{K: "syn", DV: g.dv(), Seed: r.Uint64()})
			} else {
				s.Segs = append([]Seg{{K: "real", DV: r.N(4)}}, s.Segs...)
			}
		}
		s.Segs = append(s.Segs, body)
		if at&2 != 0 && g.syn {
			s.Segs = append(s.Segs, Seg{K: "syn", DV: g.dv(), Seed: r.Uint64()})
			if g.slow {
				filler(9000)
			} else {
				filler(100000)
			}
		}
		return s
	}
	if g.syn && r.P(1, 60) { // very many attacks in one stream
		n := r.Pick(2, 3, 17, 255, 256, 256, 256, 257, 300, 512, 1024)
		switch {
		case short:
			n = r.Pick(2, 3, 5, 9)
			if r.P(1, 40) || g.slow && !g.inst && r.P(1, 10) {
				n = r.Pick(256, 256, 260, 515)
			}
		case r.P(1, 60):
			n = 65536
		}
		if r.P(1, 3) {
			filler(130)
		}
		sg := Seg{K: "many", DV: g.dv(), N: n, Seed: r.Uint64()}
		if r.P(1, 8) {
			sg.Near = 1 // candidates only
		}
		s.Segs = append(s.Segs, sg)
		if r.P(1, 2) {
			filler(130)
		}
		return s
	}
	if r.N(10) >= g.attack {
		max := 1500
		if short {
			max = 400
		}
		switch r.N(10) {
		case 0:
			max = 64
		case 1:
			if !short {
				max = 60000
			}
		}
		filler(max)
		if r.P(1, 3) {
			s.Segs = append(s.Segs, Seg{K: "craft", DV: r.N(32), DV2: r.Pick(0, 1+r.N(32)), Seed: r.Uint64()})
			filler(150)
		}
		return s
	}
	if g.syn && r.P(1, 12) { // all of it fits in the padded block
		s.Segs = append(s.Segs, Seg{K: "synpad", DV: g.dv(), N: r.Pick(0, 8, 20, 40, 55, 56, 60, r.N(64)), Seed: r.Uint64()})
		return s
	}
	if !g.syn || r.P(1, 5) {
		k := r.N(4)
		if short {
			k = r.N(2) // shorter
		}
		s.Segs = append(s.Segs, Seg{K: "real", DV: k})
		if r.P(1, 3) {
			s.Flips = append(s.Flips, [2]int{r.N(640), r.N(8)})
		}
	} else if r.P(1, 2) {
		filler(200)
	}
	if g.syn {
		n := 1 + r.N(3)
		for i := 0; i < n; i++ {
			sg := Seg{K: "syn", DV: g.dv(), Seed: r.Uint64()}
			if r.P(1, 4) {
				sg.DV2 = 1 + r.N(32)
			}
			if r.P(1, 6) {
				sg.Near = 1 + r.N(5)
			}
			if r.P(1, 10) {
				sg.N = 1 + r.N(2)
			}
			s.Segs = append(s.Segs, sg)
			switch r.N(5) {
			case 0:
				filler(130)
			case 1:
				s.Segs = append(s.Segs, Seg{K: "craft", DV: r.N(32), Seed: r.Uint64()})
			}
		}
		if r.P(1, 4) {
			filler(100)
			sg := Seg{K: "synpad", DV: g.dv(), N: r.Pick(20, 40, 55, 56, 60, 63, r.N(64)), Seed: r.Uint64()}
			if r.P(1, 6) {
				sg.Near = 1 + r.N(5)
			}
			s.Segs = append(s.Segs, sg)
			return s
		}
		if r.P(1, 6) {
			s.Flips = append(s.Flips, [2]int{r.N(1 << 12), r.N(8)})
		}
	}
	if r.P(2, 3) {
		filler(r.Pick(10, 64, 200, 600))
	}
	return s
}

// dv picks a vector that no other synthetic attack of the plan uses, as long
// as there is one: a vector's difference can be set for one block only.
func (g *gen) dv() int {
	d := g.r.N(32)
	for i := 0; i < 32 && g.used>>uint(d)&1 == 1; i++ {
		d = (d + 1) % 32
	}
	g.used |= 1 << uint(d)
	return d
}
