package cgo

// void verif_race_task(int t);
// void verif_race_epoch(void);
// int verif_race_take(void);
// long verif_race_count(void);
import "C"

// VerifRaceTask says which task the C code now runs for (-1: none).
func VerifRaceTask(t int) { C.verif_race_task(C.int(t)) }

// VerifRaceEpoch ends an epoch: everything so far is ordered before the rest.
func VerifRaceEpoch() { C.verif_race_epoch() }

// VerifRaceTake returns the number of races seen since it was last called.
func VerifRaceTake() int { return int(C.verif_race_take()) }

// VerifRaceCount returns the number of accesses looked at.
func VerifRaceCount() int { return int(C.verif_race_count()) }
