//go:build camp

package main

import "github.com/pjbgf/sha1cd/cgo"

var cDVs = &dvAccess{
	name: "c",
	list: func() []dvEntry {
		var o []dvEntry
		for i := 0; ; i++ {
			t, k, b, bit, tt, dm := cgo.VerifEntry(i)
			if t == 0 {
				break
			}
			o = append(o, dvEntry{t, k, b, bit, tt, dm})
		}
		return o
	},
	set: func(i int, dm *[80]uint32) { cgo.VerifSetDm(i, dm) },
}
