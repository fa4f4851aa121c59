//go:build race

package main

import "runtime"

// In this build the Go race detector watches the library. It sees the
// synchronisation the library does and the edges of package hb, and nothing of
// the scheduler's: two accesses count as ordered only if a real program would
// order them too.
const raceBuild = true

func raceEnable()  { runtime.RaceEnable() }
func raceDisable() { runtime.RaceDisable() }

func raceReports() int { return runtime.RaceErrors() }
