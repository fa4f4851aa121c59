// Package simsync stands in for package sync in instrumented library code, so
// that blocking and pooling are decided by the simulator's scheduler and not
// by the Go runtime.
package simsync

import (
	"sync"

	"verifsim/simrt"
)

// Block parks the running task until ready reports true.
var Block func(ready func() bool)

// PoolPick chooses which pooled item (or, for n, none) Get returns.
var PoolPick func(n int) int

type Locker = sync.Locker

func wait(ready func() bool) {
	if ready() {
		return
	}
	if !simrt.On || Block == nil {
		panic("simsync: would block outside the simulation")
	}
	Block(ready)
}

// Mutex is a simulated mutex.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	simrt.Y(1)
	wait(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	simrt.Y(1)
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	simrt.Y(2)
}

// RWMutex is a simulated reader/writer lock.
type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock()    { simrt.Y(1); wait(func() bool { return !m.w && m.r == 0 }); m.w = true }
func (m *RWMutex) RLock()   { simrt.Y(1); wait(func() bool { return !m.w }); m.r++ }
func (m *RWMutex) Unlock()  { m.w = false; simrt.Y(2) }
func (m *RWMutex) RUnlock() { m.r--; simrt.Y(2) }
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

// Pool hands items out in an order the scheduler chooses.
type Pool struct {
	New   func() any
	items []any
	known bool
}

var pools []*Pool

// DropPools empties every pool, as a garbage collection may: a run must not
// depend on the runs before it.
func DropPools() {
	for _, p := range pools {
		p.items = nil
	}
}

func (p *Pool) Get() any {
	simrt.Y(3)
	if n := len(p.items); n > 0 {
		k := n - 1
		if simrt.On && PoolPick != nil {
			k = PoolPick(n)
		}
		if k < n {
			x := p.items[k]
			p.items = append(p.items[:k], p.items[k+1:]...)
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	simrt.Y(3)
	if x != nil {
		if !p.known {
			p.known = true
			pools = append(pools, p)
		}
		p.items = append(p.items, x)
	}
}

// The rest is used as is: nothing in it blocks.
type (
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }
