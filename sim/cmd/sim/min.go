package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

// attempt executes a plan and returns the class of violation ("" for none)
// with the schedule it took. In a child process it survives crashes.
type attempt func(p *Plan) (string, *Violation, [][]Dec)

func inProcess(p *Plan) (string, *Violation, [][]Dec) {
	w, rec := runPlan(clonePlan(p))
	if len(w.viols) == 0 {
		return "", nil, rec
	}
	return w.viols[0].Class, &w.viols[0], rec
}

func inChild(p *Plan) (string, *Violation, [][]Dec) {
	f, err := os.CreateTemp("", "plan*.json")
	if err != nil {
		die(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	writeJSON(f.Name(), p)
	args := append(strings.Fields(os.Getenv("VERIFSIM_EXEC")), os.Args[0], "exec", "-v", "-variant", caps.Variant, "-plan", f.Name())
	if slowCPU {
		args = append(args, "-slow")
	}
	cmd := exec.Command(args[0], args[1:]...)
	out, err := cmd.Output()
	q := new(Plan)
	var rec [][]Dec
	for _, l := range bytes.Split(out, []byte("\n")) {
		if bytes.HasPrefix(l, []byte("{")) && json.Unmarshal(l, q) == nil {
			for _, ph := range q.Phases {
				rec = append(rec, ph.Sched.Trace)
			}
		}
		if bytes.HasPrefix(l, []byte("VIOL ")) {
			v := new(Violation)
			json.Unmarshal(l[5:], v)
			return v.Class, v, rec
		}
		if bytes.HasPrefix(l, []byte("BLOCKED")) {
			return "wait", &Violation{Class: "wait", Msg: "a call waits for a stalled goroutine: " + string(l[8:])}, rec
		}
		if bytes.HasPrefix(l, []byte("HANG")) {
			return "hang", &Violation{Class: "hang", Msg: string(l[5:])}, rec
		}
	}
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() != exitTrouble {
		return "crash", &Violation{Class: "crash", Msg: crashLine(e.Stderr)}, rec
	}
	return "", nil, rec
}

func crashLine(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return "process died"
}

// minimise shrinks a failing plan while the same class of violation persists.
func minimise(p *Plan, out string, maxSec int) int {
	end := time.Now().Add(time.Duration(maxSec) * time.Second)
	var try attempt = inChild
	class, v, rec := try(p)
	if class == "" {
		fmt.Println("NOREPRO")
		return exitTrouble
	}
	inproc := class != "deadlock" && class != "steps" && class != "wait" && class != "hang" && class != "fault" && class != "crash" && class != "memory" && class != "race" && p.Bulk == nil && p.Cold == nil
	if inproc {
		try = inProcess
	}
	if p.Bulk != nil {
		writeJSON(out, map[string]any{"plan": p, "violation": v})
		return exitViol
	}
	best := clonePlan(p)
	if len(rec) == len(best.Phases) {
		fix(best, rec)
	}
	test := func(q *Plan) bool {
		if time.Now().After(end) {
			return false
		}
		c, _, _ := try(q)
		if c == class {
			best = q
			return true
		}
		return false
	}
	if c, _, _ := try(best); c != class { // the recorded schedule does not reproduce: keep the seeded one
		best = clonePlan(p)
	}
	for round := 0; round < 6; round++ {
		changed := false
		// phases, tasks
		for i := len(best.Phases) - 1; i >= 0 && len(best.Phases) > 1; i-- {
			q := clonePlan(best)
			q.Phases = append(q.Phases[:i], q.Phases[i+1:]...)
			changed = test(q) || changed
		}
		for i := range best.Phases {
			for j := len(best.Phases[i].Tasks) - 1; j >= 0; j-- {
				if len(best.Phases[i].Tasks[j].Ops) == 0 {
					continue
				}
				q := clonePlan(best)
				q.Phases[i].Tasks[j].Ops = nil
				changed = test(q) || changed
			}
		}
		// trailing empty tasks
		for i := range best.Phases {
			for n := len(best.Phases[i].Tasks); n > 1 && len(best.Phases[i].Tasks[n-1].Ops) == 0; n-- {
				q := clonePlan(best)
				q.Phases[i].Tasks = q.Phases[i].Tasks[:n-1]
				if !test(q) {
					break
				}
				changed = true
			}
		}
		// operations, by halving chunks
		for i := range best.Phases {
			for j := range best.Phases[i].Tasks {
				for size := len(best.Phases[i].Tasks[j].Ops); size >= 1; size /= 2 {
					for k := len(best.Phases[i].Tasks[j].Ops) - size; k >= 0; k -= size {
						if k+size > len(best.Phases[i].Tasks[j].Ops) {
							continue
						}
						q := clonePlan(best)
						ops := q.Phases[i].Tasks[j].Ops
						q.Phases[i].Tasks[j].Ops = append(ops[:k:k], ops[k+size:]...)
						changed = test(q) || changed
					}
				}
			}
		}
		// schedule: fewer decisions
		for i := range best.Phases {
			for size := len(best.Phases[i].Sched.Trace); size >= 1; size /= 2 {
				for k := len(best.Phases[i].Sched.Trace) - size; k >= 0; k -= size {
					if k+size > len(best.Phases[i].Sched.Trace) {
						continue
					}
					q := clonePlan(best)
					tr := q.Phases[i].Sched.Trace
					q.Phases[i].Sched.Trace = append(tr[:k:k], tr[k+size:]...)
					changed = test(q) || changed
				}
			}
			for k := range best.Phases[i].Sched.Trace {
				for _, v := range []int64{inf, 1, best.Phases[i].Sched.Trace[k].Q / 2} {
					if k < len(best.Phases[i].Sched.Trace) && v > 0 && v != best.Phases[i].Sched.Trace[k].Q && best.Phases[i].Sched.Trace[k].Q > 0 {
						q := clonePlan(best)
						q.Phases[i].Sched.Trace[k].Q = v
						if v == inf && best.Phases[i].Sched.Trace[k].Q == inf {
							continue
						}
						if test(q) {
							changed = true
							break
						}
					}
				}
			}
		}
		// arguments
		for i := range best.Phases {
			for j := range best.Phases[i].Tasks {
				for k := range best.Phases[i].Tasks[j].Ops {
					at := func(q *Plan) *Op { return &q.Phases[i].Tasks[j].Ops[k] }
					fields := func(o *Op) []*int { return []*int{&o.A, &o.B, &o.C, &o.D} }
					for f := 0; f < 4; f++ {
						for _, div := range []int{0, 2} {
							v := *fields(at(best))[f]
							n := 0
							if div == 2 {
								n = v / 2
							}
							if v == n {
								continue
							}
							q := clonePlan(best)
							*fields(at(q))[f] = n
							if test(q) {
								changed = true
							}
						}
					}
					for x := len(at(best).F) - 1; x >= 0; x-- {
						q := clonePlan(best)
						o := at(q)
						o.F = append(o.F[:x:x], o.F[x+1:]...)
						if len(at(best).F) > 1 && test(q) {
							changed = true
							continue
						}
						for _, d := range []int{0, 1, at(best).F[x] / 2, at(best).F[x] - 1} {
							if v := at(best).F[x]; d != v && (v > 1 && d < v && d >= 0 || v < 0) {
								q := clonePlan(best)
								at(q).F[x] = d
								if test(q) {
									changed = true
									break
								}
							}
						}
					}
				}
			}
		}
		// streams
		for i := range best.Streams {
			for k := len(best.Streams[i].Segs) - 1; k >= 0; k-- {
				q := clonePlan(best)
				q.Streams[i].Segs = append(q.Streams[i].Segs[:k:k], q.Streams[i].Segs[k+1:]...)
				if test(q) {
					changed = true
					continue
				}
				for _, n := range []int{0, 64, best.Streams[i].Segs[k].N / 2} {
					if v := best.Streams[i].Segs[k].N; n < v {
						q := clonePlan(best)
						q.Streams[i].Segs[k].N = n
						if test(q) {
							changed = true
							break
						}
					}
				}
			}
			if len(best.Streams[i].Flips) > 0 {
				q := clonePlan(best)
				q.Streams[i].Flips = nil
				changed = test(q) || changed
			}
		}
		if best.Junk != 0 {
			q := clonePlan(best)
			q.Junk = 0
			changed = test(q) || changed
		}
		if best.HW0 == 0 {
			q := clonePlan(best)
			q.HW0 = 1
			changed = test(q) || changed
		}
		if len(best.Foreign) > 0 {
			q := clonePlan(best)
			q.Foreign = nil
			changed = test(q) || changed
		}
		if !changed || time.Now().After(end) {
			break
		}
	}
	// the result must fail in a fresh process too
	c, v2, _ := inChild(best)
	if c != class {
		best = p
		c, v2, _ = inChild(best)
		if c == "" {
			fmt.Println("NOREPRO")
			return exitTrouble
		}
	}
	writeJSON(out, map[string]any{"plan": best, "violation": v2})
	return exitViol
}
