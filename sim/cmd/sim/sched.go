package main

import (
	"fmt"
	"sync/atomic"

	"verifsim/simrt"
	"verifsim/simrt/hb"
	"verifsim/simrt/simsync"
)

// Scheduling modes.
const (
	mSerial = iota // each task runs to its end
	mWalk          // random task, log-uniform quantum
	mPCT           // random priorities with a few change points
	mStall         // everyone is stalled mid-way while one task runs alone
	mRobin         // round robin with one fixed quantum
	mVictim        // one task is parked mid-way until the others are done
	mSite          // control is taken away at a few chosen code sites only
	nModes
)

const inf = int64(1) << 60

// simTask is one simulated client goroutine.
type simTask struct {
	id    int
	wake  chan struct{}
	done  bool
	ready func() bool

	inCall  bool
	callUse int64 // yields used by the current library call
	callCap int64
	prio    int
	excl    bool
	g       uintptr // its goroutine
	run     func()
}

// sched passes one token between tasks; all choices come from rng or a trace.
type sched struct {
	plan   *SchedPlan
	rng    *RNG
	pool   *RNG  // pool choices, the same in a replay
	used   int64 // yields of the current decision
	tasks  []*simTask
	cur    *simTask
	quant  int64 // quantum of the current decision
	slice  int64 // what Budget was last set to
	left   int64 // quantum not yet put in Budget
	steps  int64
	ri     int
	trace  []Dec
	fin    chan struct{}
	change []int64 // PCT change points
	robin  int
	target int
	warm   []bool
	viol   func(class, msg string)
	wait   func(class, msg string)
	sites  hasher
	nsw    int64 // switches
	mid    int64 // switches in the middle of a library call
	capped bool
	dead   bool
	join   hb.Edge
}

var progress atomic.Int64 // for the stuck-process watchdog
var curSched *sched

// abort unwinds a task whose call exceeded its step bound.
type abort struct{}

const sliceMax = 100000

// maxTrace is how many decisions one phase of a run takes before the rest of
// it runs without interruption.
const maxTrace = 1 << 20

func (s *sched) start(tasks []*simTask) {
	s.tasks = tasks
	s.fin = make(chan struct{}, 1)
	s.rng = newRNG(s.plan.Seed, 0x5c)
	s.pool = newRNG(s.plan.Seed, 0x5d)
	if !s.plan.Fixed {
		s.prepare()
	}
	curSched = s
	simrt.Slow = s.slow
	simsync.Block = s.block
	simsync.PoolPick = func(n int) int { return s.pool.N(n + 1) }
	simrt.Block = s.block
	simsync.DropPools()
	for _, t := range tasks {
		t := t
		go func() {
			raceDisable()
			<-t.wake
			t.g = simrt.G()
			t.run()
			t.done = true
			raceEnable()
			s.join.Release()
			raceDisable()
			s.account(t)
			s.left = 0
			s.next(t, 0)
			raceEnable()
		}()
	}
	simrt.Budget = 0
	simrt.On = true
	s.pick(nil)
	if s.cur != nil {
		s.cur.wake <- struct{}{}
		<-s.fin
	}
	s.join.Acquire()
	simrt.On = false
	curSched = nil
}

func (s *sched) prepare() {
	n := len(s.tasks)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := s.rng.N(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	for i, t := range s.tasks {
		t.prio = perm[i] + 100
	}
	if s.plan.Mode == mPCT {
		k := 1 + s.rng.N(4)
		for i := 0; i < k; i++ {
			s.change = append(s.change, int64(s.rng.N(s.plan.Est+1)))
		}
	}
	s.target = s.rng.N(n)
	s.warm = make([]bool, n)
}

func (s *sched) runnable(t *simTask) bool {
	return !t.done && (t.ready == nil || t.ready())
}

func (s *sched) account(t *simTask) {
	used := s.slice - simrt.Budget
	s.slice = simrt.Budget
	if used < 0 {
		used = 0
	}
	s.steps += used
	s.used += used
	if t != nil {
		t.callUse += used
	}
	progress.Add(1)
}

// slow is entered when Budget ran out.
func (s *sched) slow(site uint32) {
	t := s.cur
	if t == nil || foreignGoroutine() {
		return
	}
	s.account(t)
	if t.inCall && t.callCap > 0 && t.callUse > t.callCap {
		s.capped = true
		s.viol("steps", fmt.Sprintf("a call used %d steps, more than its bound %d", t.callUse, t.callCap))
		t.callCap = 0
		panic(abort{})
	}
	if s.left > 0 {
		if s.plan.Mode == mSite && !s.plan.Fixed && s.chosen(site) {
			// the replay will find the same number of yields
			s.trace[len(s.trace)-1].Q = s.used
			s.left = 0
			s.next(t, site)
			return
		}
		s.refill()
		return
	}
	s.next(t, site)
}

// chosen says whether control is taken away here. MaxQ is how rare the chosen
// sites are, Est how often one of them is let pass.
func (s *sched) chosen(site uint32) bool {
	x := (uint64(site)*0x9E3779B97F4A7C15 ^ s.plan.Seed) * 0xD6E8FEB86659FD93
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 32
	return x%uint64(s.plan.MaxQ) == 0 && s.rng.N(s.plan.Est) == 0
}

func (s *sched) refill() {
	q := s.left
	if q > sliceMax {
		q = sliceMax
	}
	if s.plan.Mode == mSite && !s.plan.Fixed {
		q = 1
	}
	s.left -= q
	simrt.Budget = q
	s.slice = q
}

// next takes a decision and hands the token over.
func (s *sched) next(self *simTask, site uint32) {
	s.pick(self)
	n := s.cur
	if n == nil {
		if s.allDone() {
			s.fin <- struct{}{}
			return
		}
		// Nobody can run: a deadlock among simulated tasks.
		s.viol("deadlock", "all remaining tasks wait for each other")
		s.dead = true
		s.fin <- struct{}{}
		if !self.done {
			select {} // abandoned
		}
		return
	}
	if n == self {
		return
	}
	s.nsw++
	if self.inCall {
		s.mid++
		s.sites.add(uint64(self.id)<<32 | uint64(site))
		s.sites.add(uint64(n.id))
	}
	raceDisable()
	n.wake <- struct{}{}
	if !self.done {
		<-self.wake
		if raceBuild {
			cTask(self.id)
		}
	}
	raceEnable()
}

func (s *sched) allDone() bool {
	for _, t := range s.tasks {
		if !t.done {
			return false
		}
	}
	return true
}

// block parks the running task until ready.
func (s *sched) block(ready func() bool) {
	t := s.cur
	if t.excl {
		t.excl = false
		s.wait("wait", "a call waits for a stalled goroutine")
	}
	t.ready = ready
	for !ready() {
		s.account(t)
		s.left = 0
		s.next(t, 4)
	}
	t.ready = nil
}

// point is a yield of the client's own code (between calls, inside readers).
func (s *sched) point() {
	simrt.Budget--
	if simrt.Budget <= 0 {
		s.slow(5)
	}
}

func (s *sched) pick(self *simTask) {
	var run []*simTask
	for _, t := range s.tasks {
		if s.runnable(t) {
			run = append(run, t)
		}
	}
	if len(run) == 0 {
		s.cur = nil
		return
	}
	d := s.decide(self, run)
	s.trace = append(s.trace, d)
	s.cur = s.tasks[d.T]
	q := d.Q
	if q < 0 {
		q = inf
		s.cur.excl = true
	}
	s.left = q
	s.used = 0
	s.refill()
}

func (s *sched) decide(self *simTask, run []*simTask) Dec {
	has := func(id int) bool {
		for _, t := range run {
			if t.id == id {
				return true
			}
		}
		return false
	}
	cont := func() int {
		if self != nil && has(self.id) {
			return self.id
		}
		return run[0].id
	}
	if s.plan.Fixed {
		for s.ri < len(s.plan.Trace) {
			d := s.plan.Trace[s.ri]
			s.ri++
			if d.T < len(s.tasks) && has(d.T) {
				if d.Q == 0 {
					d.Q = 1
				}
				return d
			}
		}
		return Dec{cont(), inf}
	}
	if len(s.trace) >= maxTrace {
		return Dec{cont(), inf}
	}
	r := s.rng
	any := func() int { return run[r.N(len(run))].id }
	switch s.plan.Mode {
	case mWalk:
		return Dec{any(), int64(r.Log(s.plan.MaxQ))}
	case mSite:
		if self != nil && len(run) > 1 {
			var others []*simTask
			for _, t := range run {
				if t != self {
					others = append(others, t)
				}
			}
			run = others
		}
		if r.P(1, 4) {
			return Dec{any(), 1 + int64(r.Log(3000))}
		}
		return Dec{any(), inf}
	case mRobin:
		s.robin++
		for i := 0; i < len(s.tasks); i++ {
			id := (s.robin + i) % len(s.tasks)
			if has(id) {
				s.robin = id
				return Dec{id, int64(s.plan.MaxQ)}
			}
		}
	case mPCT:
		if self != nil && !self.done {
			self.prio = r.N(100)
		}
		best := run[0]
		for _, t := range run {
			if t.prio > best.prio {
				best = t
			}
		}
		q := inf
		for _, c := range s.change {
			if c > s.steps && c-s.steps < q {
				q = c - s.steps
			}
		}
		return Dec{best.id, q}
	case mStall:
		for i := range s.tasks {
			if i != s.target && !s.warm[i] {
				s.warm[i] = true
				if has(i) {
					return Dec{i, 1 + int64(r.N(s.plan.Est))}
				}
			}
		}
		if !s.warm[s.target] {
			s.warm[s.target] = true
			if has(s.target) {
				if r.P(1, 2) {
					// it too was in the middle of something first
					s.warm[s.target] = false
					if s.tasks[s.target].prio != -1 {
						s.tasks[s.target].prio = -1
						return Dec{s.target, int64(r.Log(s.plan.MaxQ))}
					}
					s.warm[s.target] = true
				}
				return Dec{s.target, -1}
			}
		}
		return Dec{any(), int64(r.Log(s.plan.MaxQ))}
	case mVictim:
		if !s.warm[s.target] {
			s.warm[s.target] = true
			if has(s.target) {
				return Dec{s.target, 1 + int64(r.N(s.plan.Est))}
			}
		}
		var others []*simTask
		for _, t := range run {
			if t.id != s.target {
				others = append(others, t)
			}
		}
		if len(others) == 0 {
			return Dec{s.target, inf}
		}
		return Dec{others[r.N(len(others))].id, int64(r.Log(s.plan.MaxQ))}
	}
	return Dec{cont(), inf}
}
