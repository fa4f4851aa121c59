//go:build gamp

package main

import "github.com/pjbgf/sha1cd/ubc"

func init() {
	goDVs.set = func(i int, dm *[80]uint32) { ubc.VerifTable()[i].Dm = *dm }
}
