package main

import (
	"hash"
	_ "unsafe" // linkname

	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/cgo"
	"github.com/pjbgf/sha1cd/ubc"

	"verifsim/ref"
)

// forceGeneric is the library's own switch between its engines; the
// repository's tests use it the same way.
//
//go:linkname forceGeneric github.com/pjbgf/sha1cd.forceGeneric
var forceGeneric bool

const (
	engGo = 0
	engC  = 1
)

type crHash = sha1cd.CollisionResistantHash

func newHash(engine int) hash.Hash {
	if engine == engC {
		return cgo.New()
	}
	return sha1cd.New()
}

func oneShot(engine int, p []byte) ([]byte, bool) {
	if engine == engC {
		return cgo.Sum(p)
	}
	d, c := sha1cd.Sum(p)
	return d[:], c
}

func goMask(w *[80]uint32) uint32 { return ubc.CalculateDvMask(w) }

// dvAccess reads and, for amplification, rewrites the message differences of
// one engine's vector list.
type dvAccess struct {
	name string
	// list returns type,k,b,maskbit,dm of every entry up to the end marker.
	list func() []dvEntry
	// set replaces the difference of entry i.
	set func(i int, dm *[80]uint32)
}

type dvEntry struct {
	T, K, B, Bit, TestT uint32
	Dm                  [80]uint32
}

var goDVs = &dvAccess{
	name: "go",
	list: func() []dvEntry {
		var o []dvEntry
		for _, d := range ubc.SHA1_dvs() {
			if d.DvType == 0 {
				break
			}
			o = append(o, dvEntry{d.DvType, d.DvK, d.DvB, d.MaskB, d.TestT, d.Dm})
		}
		return o
	},
	set: func(i int, dm *[80]uint32) { ubc.SHA1_dvs()[i].Dm = *dm },
}

// caps describes what this build offers.
type capset struct {
	Variant  string
	CGO      bool // the C engine is real C
	CList    bool // the C vector list can be read and rewritten
	Inst     bool
	GoLive   bool // patched differences reach the Go engines
	CLive    bool
	Screens  [2]bool    // the engine looks only at blocks whose bit conditions hold
	ListLive [2]bool    // the list handed out shows rewritten differences
	idx      [2][32]int // mask bit -> entry index per engine
}

var caps capset

var (
	sigCol    string          // identifier of a saved state with a verdict
	colLayout bool            // such a state differs from the released layout in its identifier only
	ownShape  map[string]bool // identifier+length pairs the library itself writes
)

func tableFor(engine int, w *World) []ref.DV {
	if engine == engC && caps.CGO {
		return w.tab[engC]
	}
	return w.tab[engGo]
}
