package main

import (
	"bytes"
	"runtime"

	"verifsim/simrt"
)

// foreignGoroutine reports whether the caller is a goroutine the library
// started itself. Only trees whose library code contains go statements pay
// for the check.
func foreignGoroutine() bool {
	if !simrt.HasGo {
		return false
	}
	if g := simrt.G(); g != 0 {
		t := curSched.cur
		return t == nil || g != t.g
	}
	var b [65536]byte
	n := runtime.Stack(b[:], false)
	return !bytes.Contains(b[:n], []byte("main.(*sched).start")) && !bytes.Contains(b[:n], []byte("main.(*simTask)"))
}
