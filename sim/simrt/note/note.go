//go:build race

// Package note tells the race detector about memory accesses the compiler does
// not instrument: the clear builtin and assembly routines. It is itself compiled
// with instrumentation, so that its caller shows in the reports.
package note

import (
	"bytes"
	"reflect"
	"runtime"
	"unsafe"
)

type span struct {
	p    unsafe.Pointer
	n    int
	copy []byte
}

func spanOf(x any) (s span) {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Slice:
		s.n = v.Len() * int(v.Type().Elem().Size())
		s.p = v.UnsafePointer()
	case reflect.Pointer:
		if !v.IsNil() {
			s.n = int(v.Type().Elem().Size())
			s.p = v.UnsafePointer()
		}
	}
	return s
}

// Clear announces that x is about to be cleared.
//
//go:noinline
func Clear(x any) {
	if s := spanOf(x); s.n > 0 && reflect.ValueOf(x).Kind() == reflect.Slice {
		runtime.RaceWriteRange(s.p, s.n)
	}
}

// Spans are the memory handed to an assembly routine.
type Spans []span

// Before announces that the routine may read the memory.
//
//go:noinline
func Before(args ...any) Spans {
	var l Spans
	for _, a := range args {
		s := spanOf(a)
		if s.n == 0 {
			continue
		}
		runtime.RaceReadRange(s.p, s.n)
		s.copy = append([]byte(nil), unsafe.Slice((*byte)(s.p), s.n)...)
		l = append(l, s)
	}
	return l
}

// After announces the writes the routine turns out to have made.
//
//go:noinline
func (l Spans) After() {
	for _, s := range l {
		if !bytes.Equal(s.copy, unsafe.Slice((*byte)(s.p), s.n)) {
			runtime.RaceWriteRange(s.p, s.n)
		}
	}
}
