//go:build crace

package main

import "github.com/pjbgf/sha1cd/cgo"

func init() { cTask, cEpoch, cRaces = cgo.VerifRaceTask, cgo.VerifRaceEpoch, cgo.VerifRaceTake }
