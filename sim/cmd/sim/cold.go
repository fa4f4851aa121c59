package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verifsim/ref"
	"verifsim/simrt"
)

// cold is set in a process whose first use of the library is the run itself.
var cold *Learned

// setupCold prepares a cold start: nothing of the library is called.
func setupCold(l *Learned) {
	caps.CGO = realC
	caps.Inst = simrt.Instrumented
	sigCol, colLayout = l.Sig, l.Layout
	ownShape = map[string]bool{ref.Magic + "/" + itoa(ref.EncLen): true}
	for _, s := range l.Shapes {
		ownShape[s] = true
	}
	for e := range caps.idx {
		for i := range caps.idx[e] {
			caps.idx[e][i] = -1
		}
	}
}

type coldStats struct {
	Checks   int
	Steps    int64
	Sw, Mid  int64
	Bytes    int64
	Faults   int
	Shape    uint64
	Counters map[string]int64
}

// runCold executes count runs, each in a process of its own.
func runCold(profile string, seed, start uint64, count int, out, learned, foreign string, maxSec int, logs bool) int {
	t0 := time.Now()
	s := summary{Profile: profile, Variant: caps.Variant, Seed: seed, Start: start}
	s.Counters = map[string]int64{}
	var hashes []byte
	if out != "" {
		os.MkdirAll(out, 0o755)
	}
	code := 0
	for i := 0; i < count; i++ {
		if time.Since(t0) > time.Duration(maxSec)*time.Second {
			break
		}
		idx := start + uint64(i)
		args := append(strings.Fields(os.Getenv("VERIFSIM_EXEC")), os.Args[0], "one", "-variant", caps.Variant, "-profile", profile,
			"-seed", fmt.Sprint(seed), "-start", fmt.Sprint(idx), "-learned", learned)
		if slowCPU {
			args = append(args, "-slow")
		}
		if foreign != "" {
			args = append(args, "-foreign", foreign)
		}
		cmd := exec.Command(args[0], args[1:]...)
		b, err := cmd.Output()
		progress.Add(1)
		rc := 0
		var stderr []byte
		if e, ok := err.(*exec.ExitError); ok {
			rc = e.ExitCode()
			stderr = e.Stderr
		} else if err != nil {
			die(err)
		}
		var st coldStats
		var v *Violation
		class := ""
		var lg, in uint64
		for _, l := range bytes.Split(b, []byte("\n")) {
			switch {
			case bytes.HasPrefix(l, []byte("COLD ")):
				json.Unmarshal(l[5:], &st)
			case bytes.HasPrefix(l, []byte("CLASS ")):
				class = string(l[6:])
			case bytes.HasPrefix(l, []byte("LOG ")):
				fmt.Sscanf(string(l), "LOG %x %x", &lg, &in)
			case bytes.HasPrefix(l, []byte("VIOL ")):
				v = new(Violation)
				json.Unmarshal(l[5:], v)
			}
		}
		if logs {
			fmt.Printf("RUN %d %016x %016x\n", idx, lg, in)
		}
		s.Runs++
		s.Checks += int64(st.Checks)
		s.Steps += st.Steps
		s.Switches += st.Sw
		s.Mid += st.Mid
		s.Bytes += st.Bytes
		for k, n := range st.Counters {
			s.Counters[k] += n
		}
		s.Counters["fault:cold-start"]++
		if st.Checks > 0 && st.Bytes > 0 {
			s.NonTriv++
		}
		var h [24]byte
		sh := hasher(st.Shape)
		sh.add(lg)
		binary.LittleEndian.PutUint64(h[:], uint64(sh))
		if st.Sw > 1 {
			binary.LittleEndian.PutUint64(h[8:], in)
		}
		binary.LittleEndian.PutUint64(h[16:], lg)
		hashes = append(hashes, h[:]...)
		switch {
		case rc == 0:
			if class != "" {
				s.Other++
				s.Counters["other:"+class]++
			}
			continue
		case rc == exitBlocked: // waiting for one-time initialisation
			s.Other++
			s.Counters["other:wait"]++
			continue
		case rc == exitTrouble:
			fmt.Fprintln(os.Stderr, string(stderr))
			return exitTrouble
		case rc == 137 || rc == 143 || rc < 0 && (bytes.Contains([]byte(err.Error()), []byte("killed")) || bytes.Contains([]byte(err.Error()), []byte("terminated"))):
			return exitTrouble
		case v == nil:
			v = &Violation{Class: "crash", Msg: crashLine(stderr)}
			if rc == exitHang {
				v.Class, v.Msg = "hang", "a call does not end"
			}
		}
		s.Violation = v
		s.BadRun = idx
		code = exitViol
		break
	}
	s.Sec = time.Since(t0).Seconds()
	if out != "" {
		writeJSON(filepath.Join(out, "summary.json"), s)
		os.WriteFile(filepath.Join(out, "hashes"), hashes, 0o644)
	}
	return code
}
