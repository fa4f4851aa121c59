//go:build amd64 || arm64

package simrt

// vecs keeps the vector registers until they are on the stack.
var vecs [512]byte

func asmYield()
func asmSlow1(flags, site uint64)

func asmSlow2(site uint64)

func asmSlow(site uint64) {
	AsmYields++
	Slow(1<<30 | uint32(site)&(1<<30-1))
}

// G identifies the running goroutine.
func G() uintptr
