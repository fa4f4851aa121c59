package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// hooks of the C access recorder
var (
	cTask  = func(int) {}
	cEpoch = func() {}
	cRaces = func() int { return 0 }
)

var raceSeen, raceOff int

const libPath = "github.com/pjbgf/sha1cd"

// checkRaces turns new reports about the library into violations.
func (t *taskCtx) checkRaces(what string) {
	if n := cRaces(); n > 0 {
		t.w.viol(t, "race", what+": C code of two goroutines accesses the same memory without synchronisation")
	}
	if raceReports() == raceSeen {
		return
	}
	raceSeen = raceReports()
	f := os.Getenv("VERIFSIM_RACELOG")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f + "." + itoa(os.Getpid()))
	if err != nil || len(b) < raceOff {
		return
	}
	text := string(b[raceOff:])
	raceOff = len(b)
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		if msg, ok := libRace(rep); ok {
			t.w.viol(t, "race", what+": "+msg)
		} else {
			t.w.count("race:not-the-library", 1)
			if os.Getenv("VERIFSIM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, rep)
			}
		}
	}
}

// libRace says whether both accesses of a report were made by the library.
func libRace(rep string) (string, bool) {
	var parts []string
	for _, st := range strings.Split(rep, "\n\n") {
		lines := strings.Split(strings.TrimLeft(st, "\n"), "\n")
		h := strings.TrimSpace(lines[0])
		l := strings.ToLower(h)
		if !strings.Contains(l, "write at") && !strings.Contains(l, "read at") && !strings.Contains(l, "write by") && !strings.Contains(l, "read by") {
			continue
		}
		where := ""
		for i := 1; i+1 < len(lines); i += 2 {
			fn := strings.TrimSpace(lines[i])
			if strings.HasPrefix(fn, "main.") {
				break
			}
			if strings.HasPrefix(fn, libPath) {
				pos := strings.TrimSpace(lines[i+1])
				if j := strings.IndexByte(pos, ' '); j > 0 {
					pos = pos[:j]
				}
				if strings.Contains(pos, "zz_") {
					break
				}
				where = strings.Fields(h)[0] + " in " + strings.TrimPrefix(fn, libPath) + " at " + filepath.Base(pos)
				if strings.HasPrefix(h, "Previous") {
					where = "previous " + strings.Fields(h)[1] + " in " + strings.TrimPrefix(fn, libPath) + " at " + filepath.Base(pos)
				}
				break
			}
		}
		if where == "" {
			return "", false
		}
		parts = append(parts, where)
	}
	if len(parts) < 2 {
		return "", false
	}
	return "data race, " + strings.Join(parts[:2], ", "), true
}
