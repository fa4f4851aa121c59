//go:build !cgo

package main

import "github.com/pjbgf/sha1cd/cgo"

const realC = false

func cMask(w *[80]uint32) uint32 { return cgo.CalculateDvMask(w) }
