package main

import (
	"bytes"
	"encoding"
	"fmt"
	"hash"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"verifsim/ref"
	"verifsim/simrt"
	"verifsim/simrt/hb"
)

func itoa(i int) string { return strconv.Itoa(i) }

// World is one simulated run.
type World struct {
	plan    *Plan
	streams [][]byte
	tab     [2][]ref.DV
	patched [2]uint32
	slots   map[int]*slot
	disk    map[int]*file
	pool    [2][]*slot
	foreign []fblob
	viols   []Violation
	sc      *sched
	tasks   []*taskCtx
	phase   int
	log     hasher
	inter   hasher
	shape   hasher
	checks  int // oracle comparisons
	faults  int // perturbations fired
	steps   int64
	sw, mid int64
	bytes   int64
	words   map[[80]uint32]*[80]uint32 // expanded blocks several clients screen
}

type fblob struct {
	b    *Blob
	data []byte
}

// slot is one hash instance with its reference.
type slot struct {
	h      hash.Hash
	engine int
	m      *ref.State
	stream int
	data   []byte
	pos    int
	saved  []byte // last saved state with no write since
	lost   bool   // the model cannot follow any more
	edge   hb.Edge
}

// file is one saved state on the simulated disk.
type file struct {
	data   []byte
	m      *ref.State
	stream int
	body   []byte
	pos    int
	intact bool
	edge   hb.Edge
}

type held struct {
	got  []byte
	want []byte
	what string
}

type taskCtx struct {
	w     *World
	id    int
	st    *simTask
	op    int
	opk   string
	reuse []byte
	held  []held
	nhold int
	dst   []byte // last returned digest buffer
	dead  bool
	limit int64 // tighter step bound for the next call, if positive
}

var counters = map[string]int64{}

func (w *World) count(k string, n int64) { counters[k] += n }

func (w *World) fault(k string) { counters[k]++; w.faults++ }

func (w *World) viol(t *taskCtx, class, msg string) {
	if soft[class] && !isRelevant(w.plan.Profile, class) {
		w.count("other:"+class, 1)
		return
	}
	v := Violation{Class: class, Msg: msg, Phase: w.phase, Task: -1, Op: -1}
	if t != nil {
		v.Task, v.Op, v.OpK = t.id, t.op, t.opk
	}
	if len(w.viols) < 20 {
		w.viols = append(w.viols, v)
	}
	w.log.str(class)
}

func newWorld(p *Plan) *World {
	w := &World{plan: p, slots: map[int]*slot{}, disk: map[int]*file{}}
	w.tab[0], w.tab[1] = ref.Table(), ref.Table()
	for i := range p.Streams {
		w.streams = append(w.streams, w.build(&p.Streams[i]))
	}
	for i := range p.Foreign {
		w.foreign = append(w.foreign, fblob{&p.Foreign[i], w.build(&p.Foreign[i].Stream)})
	}
	return w
}

// runPlan executes a plan and returns its world. The schedules actually taken
// are recorded in rec.
func runPlan(p *Plan) (w *World, rec [][]Dec) {
	if p.Bulk != nil {
		return runBulk(p), nil
	}
	w = newWorld(p)
	forceGeneric = p.HW0 == 0
	simrt.Junk = p.Junk
	simrt.ClobberOn = p.Junk != 0
	for i := range p.Phases {
		w.phase = i
		rec = append(rec, w.runPhase(&p.Phases[i]))
		if len(w.viols) > 0 {
			break
		}
		w.barrier()
	}
	simrt.ClobberOn = false
	forceGeneric = false
	w.unpatch()
	resetArenas()
	return w, rec
}

func (w *World) runPhase(ph *Phase) []Dec {
	s := &sched{plan: &ph.Sched}
	w.sc = s
	var ts []*simTask
	s.viol = func(class, msg string) {
		var t *taskCtx
		if s.cur != nil {
			t = w.tasks[s.cur.id]
		}
		w.viol(t, class, msg)
	}
	s.wait = s.viol
	if w.plan.Cold != nil { // one-time initialisation may be waited for
		s.wait = func(string, string) {}
	}
	for i := range ph.Tasks {
		for len(w.tasks) <= i {
			w.tasks = append(w.tasks, &taskCtx{w: w, id: len(w.tasks)})
		}
		t := w.tasks[i]
		ops := ph.Tasks[i].Ops
		st := &simTask{id: i, wake: make(chan struct{}, 1)}
		t.st = st
		st.run = func() {
			debug.SetPanicOnFault(true)
			if caps.Inst {
				growStack(0)
			}
			t.script(ops)
		}
		ts = append(ts, st)
	}
	if len(ts) == 0 {
		return nil
	}
	cEpoch()
	s.start(ts)
	cEpoch()
	w.steps += s.steps
	w.sw += s.nsw
	w.mid += s.mid
	w.inter.add(uint64(s.sites))
	for _, d := range s.trace {
		w.inter.add(uint64(d.T)<<56 ^ uint64(d.Q))
	}
	w.log.add(uint64(s.steps))
	return s.trace
}

// barrier runs between phases and at the end: nothing any task was given or
// was returned may have changed.
func (w *World) barrier() {
	for _, t := range w.tasks {
		t.checkHeld()
	}
	for i := range w.streams {
		_ = i
	}
}

func (t *taskCtx) script(ops []Op) {
	for i := range ops {
		t.op, t.opk = i, ops[i].K
		if len(t.w.viols) > 0 {
			return
		}
		t.w.sc.point()
		t.do(&ops[i])
		t.w.shape.str(ops[i].K)
	}
	t.checkHeld()
}

// call runs one library call with panics turned into violations. work is the
// number of input bytes; it fixes the step bound.
func (t *taskCtx) call(what string, work int, f func()) (ok bool) {
	st := t.st
	st.inCall = true
	t.w.sc.account(st)
	st.callUse = 0
	st.callCap = stepBase + stepPerBlock*int64(work/64+4)
	if t.limit > 0 && t.limit < st.callCap {
		st.callCap = t.limit
	}
	defer func() {
		st.inCall = false
		st.callCap = 0
		if e := recover(); e != nil {
			ok = false
			if raceBuild {
				raceDisable()
				cTask(-1)
			}
			if _, is := e.(abort); is {
				return
			}
			class := "panic"
			msg := fmt.Sprint(e)
			if strings.Contains(msg, "fault") || strings.Contains(msg, "invalid memory address") {
				class = "fault"
				if i := strings.Index(msg, "0x"); i >= 0 {
					msg = msg[:i]
				}
			}
			t.w.viol(t, class, what+" panicked: "+msg)
		}
	}()
	if raceBuild {
		cTask(t.id)
		raceEnable()
	}
	f()
	if raceBuild {
		raceDisable()
		cTask(-1)
		t.checkRaces(what)
	}
	t.w.sc.account(st)
	if st.callUse > maxUse[0] {
		maxUse[0] = st.callUse
	}
	if per := st.callUse / int64(work/64+4); per > maxUse[1] {
		maxUse[1] = per
	}
	return true
}

var maxUse [2]int64

const (
	stepBase     = 50000
	stepPerBlock = 40000
)

func (t *taskCtx) hold(b []byte, what string) {
	if len(t.held) >= 48 {
		t.held = t.held[24:]
	}
	if t.nhold++; t.nhold&1 == 0 && cap(b) > len(b) {
		// the client appends to what it was given, as far as there is room
		k := len(b)
		b = b[:min(cap(b), k+128)]
		for i := k; i < len(b); i++ {
			b[i] = byte(i*5 + t.nhold)
		}
		t.w.count("mem:result-appended-to", 1)
	}
	t.held = append(t.held, held{b, append([]byte(nil), b...), what})
}

func (t *taskCtx) checkHeld() {
	keep := t.held[:0]
	for _, h := range t.held {
		t.w.checks++
		if bytes.Equal(h.got, h.want) {
			keep = append(keep, h)
			continue
		}
		t.w.viol(t, "held", fmt.Sprintf("%s returned earlier changed from %x to %x", h.what, h.want, h.got))
	}
	t.held = keep
}

// mine returns the slot if this task may change it: its own slots always,
// shared ones only when it is the only task.
func (t *taskCtx) mine(id int) *slot {
	if id >= 1000 && len(t.w.plan.Phases[t.w.phase].Tasks) > 1 {
		return nil
	}
	return t.w.slots[t.key(id)]
}

const sharedBase = 1 << 30

func (t *taskCtx) key(id int) int {
	if id >= 1000 {
		return sharedBase + id
	}
	return t.id*100 + id%100
}

func (t *taskCtx) any(id int) *slot { return t.w.slots[t.key(id)] }

func (t *taskCtx) canOwn(id int) bool {
	return id < 1000 || len(t.w.plan.Phases[t.w.phase].Tasks) == 1
}

func (w *World) stream(i int) (int, []byte) {
	if len(w.streams) == 0 {
		return 0, nil
	}
	i = ((i % len(w.streams)) + len(w.streams)) % len(w.streams)
	return i, w.streams[i]
}

func (t *taskCtx) do(o *Op) {
	w := t.w
	switch o.K {
	case "new":
		if !t.canOwn(o.S) {
			return
		}
		si, data := w.stream(o.B)
		e := o.A & 1
		var h hash.Hash
		if !t.call("New", 0, func() { h = newHash(e) }) {
			return
		}
		w.slots[t.key(o.S)] = &slot{h: h, engine: e, m: ref.NewState(tableFor(e, w)), stream: si, data: data}
	case "w":
		t.opWrite(o)
	case "sum":
		t.opSum(o)
	case "one":
		t.opOne(o)
	case "reset":
		s := t.mine(o.S)
		if s == nil {
			return
		}
		if !t.call("Reset", 0, func() { s.h.Reset() }) {
			return
		}
		t.rebind(s, o.B)
		w.fault("op:reset")
	case "put":
		s := t.mine(o.S)
		if s == nil || o.S >= 1000 {
			return
		}
		delete(w.slots, t.key(o.S))
		t.release(&s.edge)
		w.pool[s.engine] = append(w.pool[s.engine], s)
		w.fault("pool:released")
	case "get":
		e := o.A & 1
		n := len(w.pool[e])
		if n == 0 || !t.canOwn(o.S) {
			return
		}
		k := ((o.C % n) + n) % n
		s := w.pool[e][k]
		w.pool[e] = append(w.pool[e][:k:k], w.pool[e][k+1:]...)
		t.acquire(&s.edge)
		if !t.call("Reset", 0, func() { s.h.Reset() }) {
			return
		}
		t.rebind(s, o.B)
		w.slots[t.key(o.S)] = s
		w.fault("pool:reused")
	case "save":
		t.opSave(o)
	case "rest":
		t.opRestore(o)
	case "bad":
		t.opBad(o)
	case "imp":
		t.opImport(o)
	case "for":
		t.opForeign(o)
	case "crash":
		var ks []int
		for k := range w.slots {
			if k/100 == t.id {
				ks = append(ks, k)
			}
		}
		sort.Ints(ks)
		for _, k := range ks {
			delete(w.slots, k)
		}
		t.held = nil
		t.dst = nil
		w.fault("fault:crash")
	case "hw":
		for _, x := range w.tasks {
			if x != t && x.st != nil && x.st.inCall {
				return
			}
		}
		if forceGeneric != (o.A == 0) {
			w.fault("hw:engine-switch")
		}
		forceGeneric = o.A == 0
	case "gc":
		runtime.GC()
		cEpoch()
		w.fault("fault:gc")
	case "mask":
		t.opMask(o)
	case "list":
		for e := 0; e < 2; e++ {
			var msg string
			ok := true
			if !t.call("list", 0, func() { msg, ok = w.checkList(e) }) {
				return
			}
			w.checks++
			if !ok {
				w.viol(t, "list", msg)
			}
		}
	case "size":
		s := t.any(o.S)
		if s == nil {
			return
		}
		var a, b int
		t.call("Size", 0, func() { a, b = s.h.Size(), s.h.BlockSize() })
		if a != 20 || b != 64 {
			w.viol(t, "contract", fmt.Sprintf("Size %d BlockSize %d", a, b))
		}
		w.checks++
	case "pause":
		for i := 0; i < o.A && i < 50; i++ {
			w.sc.point()
		}
	case "clob":
		simrt.Junk = uint64(o.A)*0x9E3779B97F4A7C15 ^ uint64(int64(o.B))
		simrt.ClobberOn = true
		w.fault("hw:register-junk")
	case "long":
		t.opLong(o)
	case "vast":
		t.opVast(o)
	case "herd":
		t.opHerd(o)
	case "copyto": // continue another slot's state in a second instance
		t.opCopy(o)
	}
}

// release and acquire are the synchronisation of a real handover.
func (t *taskCtx) release(e *hb.Edge) {
	if raceBuild {
		raceEnable()
		e.Release()
		raceDisable()
	}
}

func (t *taskCtx) acquire(e *hb.Edge) {
	if raceBuild {
		raceEnable()
		e.Acquire()
		raceDisable()
		cEpoch()
	}
}

func (t *taskCtx) rebind(s *slot, stream int) {
	s.stream, s.data = t.w.stream(stream)
	s.pos = 0
	s.m = ref.NewState(tableFor(s.engine, t.w))
	s.saved = nil
	s.lost = false
}

// expect compares an observation with the reference.
func (t *taskCtx) expect(s *slot, what string, d []byte, withCol, col bool) {
	if s.lost {
		return
	}
	want, wcol := s.m.Sum()
	if s.m.Amb {
		s.lost = true
		t.w.count("model:ambiguous", 1)
		return
	}
	t.w.checks++
	t.w.log.bytes(d)
	if !bytes.Equal(d, want[:]) {
		t.w.viol(t, "digest", fmt.Sprintf("%s after %d bytes: got %x, want %x (verdict %v, engine %s)", what, s.m.Len, d, want, wcol, t.engName(s)))
		return
	}
	if withCol && col != wcol {
		t.w.viol(t, "verdict", fmt.Sprintf("%s after %d bytes: verdict %v, want %v (engine %s)", what, s.m.Len, col, wcol, t.engName(s)))
	}
	if wcol {
		t.w.count("probe:observed-collision", 1)
	}
}

func (t *taskCtx) engName(s *slot) string {
	if s.engine == engC {
		return "c"
	}
	if forceGeneric {
		return "go-portable"
	}
	return "go-default"
}

func marshal(h hash.Hash) (b []byte, err error, ok bool) {
	m, is := h.(encoding.BinaryMarshaler)
	if !is {
		return nil, nil, false
	}
	b, err = m.MarshalBinary()
	return b, err, true
}

func unmarshal(h hash.Hash, b []byte) (err error, ok bool) {
	m, is := h.(encoding.BinaryUnmarshaler)
	if !is {
		return nil, false
	}
	return m.UnmarshalBinary(b), true
}

// growStack makes sure the stack is never moved later: a task may be parked
// inside assembly that holds addresses of it in registers.
//
//go:noinline
func growStack(i int) byte {
	var a [96 << 10]byte
	a[i] = 1
	return a[i/2]
}
