package cgo

// #include <stdint.h>
// void verif_entry(int i, uint32_t *out);
// void verif_set_dm(int i, const uint32_t *dm);
import "C"

import "unsafe"

// VerifEntry reads entry i of the C vector list.
func VerifEntry(i int) (t, k, b, bit, testt uint32, dm [80]uint32) {
	o := new([85]uint32)
	C.verif_entry(C.int(i), (*C.uint32_t)(unsafe.Pointer(&o[0])))
	copy(dm[:], o[5:])
	return o[0], o[1], o[2], o[3], o[4], dm
}

// VerifSetDm replaces the message difference of entry i of the C vector list.
func VerifSetDm(i int, dm *[80]uint32) {
	C.verif_set_dm(C.int(i), (*C.uint32_t)(unsafe.Pointer(&dm[0])))
}
