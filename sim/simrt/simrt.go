// Package simrt is what instrumented library code calls: a yield before every
// statement (Y) and a register-trashing call before every assembly routine
// (Clobber). Outside a simulated run both do nothing.
package simrt

// On is true while a simulated task holds the token.
var On bool

// Budget is the number of yields left before the scheduler is asked. The C
// instrumentation decrements the same word.
var Budget int64

// HasGo says that instrumented code contains go statements.
var HasGo bool

// Slow is the scheduler's entry. site identifies the statement.
var Slow func(site uint32)

// Y is called before every statement of instrumented Go code.
func Y(site uint32) {
	if !On {
		return
	}
	Budget--
	if Budget <= 0 {
		Slow(site)
	}
}

// Junk is the pattern Clobber leaves in every register it may trash.
var Junk uint64

// Clobbers counts calls of Clobber in simulated runs.
var Clobbers int64

// AsmYields counts how often control was asked for inside assembly.
var AsmYields int64

// ClobberOn enables Clobber.
var ClobberOn bool

// Clobber fills all caller-saved registers and the unused stack with Junk.
func Clobber() {
	if !ClobberOn {
		return
	}
	Clobbers++
	clobber(Junk)
}

// Instrumented says that the library was built with yields.
var Instrumented bool

// Block parks the running task until ready reports true.
var Block func(ready func() bool)

// WaitRecv waits in simulated time until a receive from ch will not block. A
// buffered channel is all the simulator can see through.
func WaitRecv[T any](ch <-chan T) {
	if !On || HasGo || cap(ch) == 0 || len(ch) > 0 || Block == nil {
		return
	}
	Block(func() bool { return len(ch) > 0 })
}

// WaitSend waits in simulated time until a send to ch will not block.
func WaitSend[T any](ch chan<- T) {
	if !On || HasGo || cap(ch) == 0 || len(ch) < cap(ch) || Block == nil {
		return
	}
	Block(func() bool { return len(ch) < cap(ch) })
}
