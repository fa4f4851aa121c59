// Command sim is the deterministic simulator. Subcommands:
//
//	run   -profile P -seed N -start I -count M -out DIR   simulated runs
//	exec  -plan FILE                                      replay one plan
//	min   -plan FILE -out FILE                            minimise a failing plan
//	emit  -seed N -count M                                saved states for other builds
//	bulk  -tier T -seed N -index I                        multi-gigabyte delivery
//	cold  like run, every run the first thing a new process does
//	info                                                  what this build offers
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/ref"
	"verifsim/simrt"
)

var slowCPU bool
var foreignBlobs []Blob

// exit codes: 0 clean, 1 violation, anything else trouble
const (
	exitViol    = 1
	exitTrouble = 3
	exitBlocked = 5
	exitHang    = 6
)

func die(v ...any) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(exitTrouble)
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	if len(os.Args) < 2 {
		die("usage")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	profile := fs.String("profile", "C01", "")
	variant := fs.String("variant", "v1", "")
	seed := fs.Uint64("seed", 1, "")
	start := fs.Uint64("start", 0, "")
	count := fs.Int("count", 100, "")
	outDir := fs.String("out", "", "")
	planFile := fs.String("plan", "", "")
	foreign := fs.String("foreign", "", "")
	tier := fs.String("tier", "quick", "")
	index := fs.Int("index", 0, "")
	maxSec := fs.Int("maxsec", 600, "")
	fs.BoolVar(&slowCPU, "slow", false, "")
	logs := fs.Bool("logs", false, "print one hash per run")
	verbose := fs.Bool("v", false, "")
	learnedFile := fs.String("learned", "", "")
	fs.Parse(os.Args[2:])
	caps.Variant = *variant
	if *foreign != "" {
		b, err := os.ReadFile(*foreign)
		if err != nil {
			die(err)
		}
		if err := json.Unmarshal(b, &foreignBlobs); err != nil {
			die(err)
		}
	}
	var pre *Plan
	if cmd == "exec" {
		pre = readPlan(*planFile)
	}
	var learned *Learned
	if *learnedFile != "" {
		b, err := os.ReadFile(*learnedFile)
		if err != nil {
			die(err)
		}
		learned = new(Learned)
		if err := json.Unmarshal(b, learned); err != nil {
			die(err)
		}
	}
	switch {
	case pre != nil && pre.Cold != nil:
		setupCold(pre.Cold)
	case cmd == "one" && learned != nil:
		setupCold(learned)
	case cmd == "min" || cmd == "cold":
		if cmd == "min" {
			if p := readPlan(*planFile); p.Cold != nil {
				break
			}
		} else {
			break
		}
		setup()
	default:
		setup()
	}
	go watchdog()
	switch cmd {
	case "learn":
		l := Learned{Sig: sigCol, Layout: colLayout}
		for k := range ownShape {
			l.Shapes = append(l.Shapes, k)
		}
		sort.Strings(l.Shapes)
		json.NewEncoder(os.Stdout).Encode(l)
	case "cold":
		os.Exit(runCold(*profile, *seed, *start, *count, *outDir, *learnedFile, *foreign, *maxSec, *logs))
	case "info":
		json.NewEncoder(os.Stdout).Encode(map[string]any{"caps": caps, "arch": runtime.GOARCH, "sigcol": sigCol,
			"go_list": len(orig[0]), "c_list": len(orig[1]), "bulk": len(bulkPlans(*tier, *seed, *profile))})
	case "run":
		os.Exit(run(*profile, *seed, *start, *count, *outDir, *maxSec, *logs))
	case "exec":
		p := pre
		curPlan = p
		w, rec := runPlan(p)
		if *verbose {
			for i := range rec {
				p.Phases[i].Sched.Fixed = true
				p.Phases[i].Sched.Trace = rec[i]
			}
			json.NewEncoder(os.Stdout).Encode(p)
		}
		report(w)
	case "one": // the plan of one seed, executed with its schedule recorded
		cold = learned
		p := genPlan(*profile, runSeed(*seed, *start))
		curPlan = p
		if *outDir != "" { // in case the process does not survive
			writeJSON(*outDir, p)
		}
		w, rec := runPlan(p)
		fix(p, rec)
		if *outDir != "" {
			writeJSON(*outDir, p)
		}
		if cold != nil {
			b, _ := json.Marshal(coldStats{w.checks, w.steps, w.sw, w.mid, w.bytes, w.faults, uint64(w.shape), counters})
			fmt.Printf("COLD %s\n", b)
			if len(w.viols) > 0 {
				fmt.Printf("CLASS %s\n", w.viols[0].Class)
			}
		}
		report(w)
	case "min":
		os.Exit(minimise(readPlan(*planFile), *outDir, *maxSec))
	case "emit":
		json.NewEncoder(os.Stdout).Encode(emit(*seed, *count))
	case "bulk":
		ps := bulkPlans(*tier, *seed, *profile)
		if *index >= len(ps) {
			return
		}
		curPlan = ps[*index]
		t0 := time.Now()
		if *outDir != "" {
			writeJSON(*outDir, ps[*index])
		}
		w, _ := runPlan(ps[*index])
		fmt.Printf("STATS {\"bytes\":%d,\"sec\":%.2f}\n", w.bytes, time.Since(t0).Seconds())
		report(w)
	default:
		die("unknown command", cmd)
	}
}

func runSeed(seed, i uint64) uint64 { return newRNG(seed, i, 0x5eed).Uint64() }

var curPlan *Plan

func fix(p *Plan, rec [][]Dec) {
	for i := range p.Phases {
		p.Phases[i].Sched.Fixed = true
		if i < len(rec) {
			p.Phases[i].Sched.Trace = rec[i]
		}
	}
}

func readPlan(f string) *Plan {
	b, err := os.ReadFile(f)
	if err != nil {
		die(err)
	}
	var wrap struct {
		Plan json.RawMessage `json:"plan"`
	}
	if json.Unmarshal(b, &wrap) == nil && len(wrap.Plan) > 0 {
		b = wrap.Plan
	}
	p := new(Plan)
	if err := json.Unmarshal(b, p); err != nil {
		die(err)
	}
	return p
}

func writeJSON(f string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(f, append(b, '\n'), 0o644)
	}
	if err != nil {
		die(err)
	}
}

func report(w *World) {
	fmt.Printf("LOG %016x %016x\n", uint64(w.log), uint64(w.inter))
	if len(w.viols) > 0 && isRelevant(w.plan.Profile, w.viols[0].Class) {
		b, _ := json.Marshal(w.viols[0])
		fmt.Printf("VIOL %s\n", b)
		os.Exit(exitViol)
	}
	fmt.Println("OK")
}

type summary struct {
	Profile   string           `json:"profile"`
	Variant   string           `json:"variant"`
	Seed      uint64           `json:"seed"`
	Start     uint64           `json:"start"`
	Runs      int              `json:"runs"`
	Checks    int64            `json:"checks"`
	Steps     int64            `json:"steps"`
	Switches  int64            `json:"switches"`
	Mid       int64            `json:"mid_call_switches"`
	Bytes     int64            `json:"bytes"`
	NonTriv   int              `json:"nontrivial"`
	Counters  map[string]int64 `json:"counters"`
	NxSeen    int              `json:"block_offsets_seen"`
	DVHits    int              `json:"vectors_hit"`
	DVMask    int              `json:"vectors_masked"`
	HitBy     [32]int          `json:"hits_by_vector"`
	MaxCall   int64            `json:"max_steps_in_call"`
	MaxPerBlk int64            `json:"max_steps_per_block"`
	Sec       float64          `json:"sec"`
	Violation *Violation       `json:"violation,omitempty"`
	BadRun    uint64           `json:"bad_run"`
	Other     int              `json:"other_property_broken"`
	Clobbers  int64            `json:"clobbers"`
	Caps      capset           `json:"caps"`
	Sample    *Plan            `json:"sample,omitempty"`
}

func run(profile string, seed, start uint64, count int, out string, maxSec int, logs bool) int {
	t0 := time.Now()
	s := summary{Profile: profile, Variant: caps.Variant, Seed: seed, Start: start, Caps: caps}
	var hashes []byte
	var prog *os.File
	if out != "" {
		os.MkdirAll(out, 0o755)
		var err error
		if prog, err = os.Create(filepath.Join(out, "progress")); err != nil {
			die(err)
		}
	}
	counters = map[string]int64{}
	code := 0
	for i := 0; i < count; i++ {
		if i&15 == 0 && time.Since(t0) > time.Duration(maxSec)*time.Second {
			break
		}
		idx := start + uint64(i)
		p := genPlan(profile, runSeed(seed, idx))
		curPlan = p
		if prog != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], idx)
			prog.WriteAt(b[:], 0)
		}
		w, rec := runPlan(p)
		s.Runs++
		s.Checks += int64(w.checks)
		s.Steps += w.steps
		s.Switches += w.sw
		s.Mid += w.mid
		s.Bytes += w.bytes
		if w.checks > 0 && w.bytes > 0 && (w.faults > 0 || w.sw > 1) {
			s.NonTriv++
			if s.Sample == nil {
				fix(p, rec)
				s.Sample = p
			}
		}
		var b [24]byte
		h := w.shape
		h.add(uint64(w.log))
		binary.LittleEndian.PutUint64(b[:], uint64(h))
		binary.LittleEndian.PutUint64(b[8:], uint64(w.inter))
		if w.sw <= 1 {
			binary.LittleEndian.PutUint64(b[8:], 0)
		}
		binary.LittleEndian.PutUint64(b[16:], uint64(w.log))
		hashes = append(hashes, b[:]...)
		if logs {
			fmt.Printf("RUN %d %016x %016x\n", idx, uint64(w.log), uint64(w.inter))
		}
		if len(w.viols) > 0 && !isRelevant(profile, w.viols[0].Class) {
			s.Other++
			counters["other:"+w.viols[0].Class]++
		} else if len(w.viols) > 0 {
			s.Violation = &w.viols[0]
			s.BadRun = idx
			code = exitViol
			break
		}
		if i&63 == 63 {
			runtime.GC()
		}
	}
	s.Counters = counters
	s.Clobbers = simrt.Clobbers
	for _, n := range nxSeen {
		if n > 0 {
			s.NxSeen++
		}
	}
	for i := 0; i < 32; i++ {
		s.HitBy[i] = ref.HitBy[i]
		if ref.HitBy[i] > 0 {
			s.DVHits++
		}
		if maskSeen[i] > 0 {
			s.DVMask++
		}
	}
	s.MaxCall, s.MaxPerBlk = maxUse[0], maxUse[1]
	s.Sec = time.Since(t0).Seconds()
	if out != "" {
		writeJSON(filepath.Join(out, "summary.json"), s)
		os.WriteFile(filepath.Join(out, "hashes"), hashes, 0o644)
	} else if !logs {
		s.Sample = nil
		json.NewEncoder(os.Stdout).Encode(s)
	}
	return code
}

// watchdog looks for a process that stopped making progress. A token holder
// that waits on a real channel or lock can never go on, because every other
// task is parked by the simulator: that is a call waiting for a stalled
// goroutine. Anything else that takes too long is trouble, not a violation.
func watchdog() {
	last, same := int64(-1), 0
	var cpu0 time.Duration
	limit := 45 * time.Second
	if slowCPU {
		limit *= 2
	}
	var mark time.Duration
	for {
		time.Sleep(time.Second)
		p := progress.Load()
		if p != last {
			last, same = p, 0
			cpu0 = cpuTime()
			continue
		}
		if curSched != nil && curSched.cur != nil && curSched.cur.inCall && cpuTime()-cpu0 > limit {
			// a minute of computation on a few kilobytes
			fmt.Println("HANG a call does not end")
			os.Exit(exitHang)
		}
		same++
		if same < 8 {
			continue
		}
		busy := cpuTime()-mark > 200*time.Millisecond
		if same%4 == 0 {
			mark = cpuTime()
		}
		// the stack of code that is computing cannot be had: it may be
		// assembly, which nothing can stop
		if curSched != nil && same%4 == 0 && !busy && same > 8 {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			for _, g := range strings.Split(string(buf[:n]), "\n\n") {
				if !strings.Contains(g, "main.(*sched).start") || !strings.Contains(g, "sha1cd") {
					continue
				}
				if strings.Contains(g, "main.(*sched).next") || strings.Contains(g, "main.(*sched).slow") {
					continue // parked by the scheduler
				}
				head := g[:strings.IndexByte(g, '\n')]
				for _, k := range []string{"[chan send", "[chan receive", "[select", "[sync.", "[semacquire", "[sleep"} {
					if strings.Contains(head, k) {
						fmt.Printf("BLOCKED %s\n", head[strings.IndexByte(head, '['):])
						os.Exit(exitBlocked)
					}
				}
			}
		}
		if same > 600 {
			fmt.Fprintln(os.Stderr, "watchdog: no progress")
			os.Exit(exitTrouble)
		}
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// setup learns what the library under test offers.
func setup() {
	caps.CGO = realC
	caps.Inst = simrt.Instrumented
	caps.CList = cDVs != nil
	// the identifiers of the library's own saved states
	ownShape = map[string]bool{ref.Magic + "/" + itoa(ref.EncLen): true}
	func() {
		defer func() { recover() }()
		h := newHash(engGo)
		h.Write(shattered1)
		if b, err, ok := marshal(h); ok && err == nil && len(b) >= len(ref.Magic) {
			if s := string(b[:len(ref.Magic)]); s != ref.Magic {
				sigCol = s
			}
			ownShape[string(b[:len(ref.Magic)])+"/"+itoa(len(b))] = true
			m := ref.NewState(nil)
			m.Write(shattered1)
			colLayout = sigCol != "" && m.Col && string(b[len(ref.Magic):]) == string(m.Encode()[len(ref.Magic):])
		}
	}()
	func() {
		defer func() { recover() }()
		orig[0] = goDVs.list()
		if cDVs != nil {
			orig[1] = cDVs.list()
		}
	}()
	for e := 0; e < 2; e++ {
		for i := range caps.idx[e] {
			caps.idx[e][i] = -1
		}
		for i, d := range orig[e] {
			if d.Bit < 32 {
				caps.idx[e][d.Bit] = i
			}
		}
		if ok := probe(e); e == 0 {
			caps.GoLive = ok
		} else {
			caps.CLive = ok
		}
	}
	caps.Screens = [2]bool{caps.GoLive && screens(engGo), caps.CLive && screens(engC)}
	// run every engine once so that one-time initialisation is behind us
	for _, g := range []bool{true, false} {
		forceGeneric = g
		func() {
			defer func() { recover() }()
			for e := 0; e < 2; e++ {
				oneShot(e, shattered2)
				h := newHash(e)
				h.Write(shattered1)
				h.(crHash).CollisionResistantSum(nil)
			}
		}()
	}
	forceGeneric = false
	for i := range ref.HitBy {
		ref.HitBy[i] = 0
	}
}

// probe finds out whether rewritten differences reach the engine. They do if
// any vector's synthetic attack is recognised; if none is, the list handed out
// is a copy and amplification is switched off.
func probe(e int) (live bool) {
	acc := goDVs
	if e == engC {
		acc = cDVs
	}
	if acc == nil || len(orig[e]) < 32 {
		return false
	}
	for i := range caps.idx[e] {
		if caps.idx[e][i] < 0 {
			return false
		}
	}
	defer func() {
		if recover() != nil {
			live = false
		}
	}()
	for dv := 0; dv < 32 && !live; dv++ {
		r := newRNG(uint64(dv), 0x9b)
		blk, ok := ref.Craft(r, []int{dv}, nil, nil)
		if !ok {
			continue
		}
		dm := ref.SyntheticDm(r, ref.IV, blk[:], -1, ref.Cuts(dv))
		acc.set(caps.idx[e][dv], &dm)
		caps.ListLive[e] = acc.list()[caps.idx[e][dv]].Dm == dm
		for _, g := range []bool{true, false} {
			forceGeneric = g
			if _, col := oneShot(e, blk[:]); col {
				live = true
			}
		}
		forceGeneric = false
		acc.set(caps.idx[e][dv], &orig[e][caps.idx[e][dv]].Dm)
	}
	return live
}

// screens finds out whether an engine tries a vector only on blocks that meet its
// bit conditions. One that does not is just as right, as no block of a published
// attack fails them, but a difference of zero would mean nothing to it.
func screens(e int) (ok bool) {
	acc := goDVs
	if e == engC {
		acc = cDVs
	}
	defer func() {
		forceGeneric = false
		if recover() != nil {
			ok = false
		}
	}()
	var none [80]uint32
	for dv := 0; dv < 32; dv += 3 {
		i := caps.idx[e][dv]
		acc.set(i, &none)
		defer acc.set(i, &orig[e][i].Dm)
		r := newRNG(uint64(dv), 0x9c)
		data := make([]byte, 64*30)
		r.Bytes(data)
		for c := range ref.UBC[dv] {
			if blk, ok := ref.CraftNot(r, []int{dv}, c, nil, nil); ok {
				if w := ref.Expand(ref.Words(blk[:])); ref.Mask(&w)>>uint(dv)&1 == 0 {
					data = append(data, blk[:]...)
				}
			}
		}
		var want bool
		for k := 0; k+64 <= len(data); k += 64 {
			w := ref.Expand(ref.Words(data[k:]))
			want = want || ref.Mask(&w)>>uint(dv)&1 == 1
		}
		for _, g := range []bool{true, false} {
			forceGeneric = g
			if _, col := oneShot(e, data); col && !want {
				return false
			}
			blk, _ := ref.Craft(r, []int{dv}, nil, nil)
			if _, col := oneShot(e, blk[:]); !col {
				return false
			}
		}
		acc.set(i, &orig[e][i].Dm)
	}
	return true
}

// emit saves states of real-attack and innocent streams for other builds.
func emit(seed uint64, n int) []Blob {
	var out []Blob
	r := newRNG(seed, 0xe1)
	for i := 0; i < n; i++ {
		var st Stream
		if r.P(1, 2) {
			st.Segs = append(st.Segs, Seg{K: "real", DV: r.N(4)})
		}
		st.Segs = append(st.Segs, Seg{K: "rand", N: r.N(400), Seed: r.Uint64()})
		w := newWorld(&Plan{Streams: []Stream{st}})
		d := w.streams[0]
		pos := r.N(len(d) + 1)
		if r.P(1, 3) {
			pos = len(d)
		}
		forceGeneric = r.P(1, 3)
		h := newHash(engGo)
		k := r.N(pos + 1)
		h.Write(d[:k])
		h.Write(d[k:pos])
		forceGeneric = false
		b, err, ok := marshal(h)
		if err != nil || !ok {
			continue
		}
		out = append(out, Blob{From: caps.Variant, Data: b, Stream: st, Pos: pos})
	}
	return out
}
