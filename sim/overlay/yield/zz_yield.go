package cgo

// #include <stdint.h>
// void verif_junk(uint64_t v);
// void verif_init(int64_t *b, unsigned char *o);
import "C"

import (
	"unsafe"

	"verifsim/simrt"
)

//export verifYield
func verifYield(site C.uint) { simrt.Slow(1<<31 | uint32(site)) }

func init() {
	C.verif_init((*C.int64_t)(unsafe.Pointer(&simrt.Budget)), (*C.uchar)(unsafe.Pointer(&simrt.On)))
}

// verifJunk fills the stack on which C code is about to run.
func verifJunk() {
	if simrt.ClobberOn {
		simrt.Clobbers++
		C.verif_junk(C.uint64_t(simrt.Junk))
	}
}
