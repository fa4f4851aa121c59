package main

// A Plan is one run written out: streams, phases of concurrent tasks, their
// operations and the schedule. Executing a plan is a pure function of the plan
// and the code under test. Executing any mutilated plan is well defined too
// (operations on absent things do nothing), which is what minimisation needs.
type Plan struct {
	Profile string   `json:"profile"`
	Variant string   `json:"variant"`
	Seed    uint64   `json:"seed"`
	Streams []Stream `json:"streams"`
	Phases  []Phase  `json:"phases"`
	Foreign []Blob   `json:"foreign,omitempty"`
	Junk    uint64   `json:"junk,omitempty"`
	HW0     int      `json:"hw0"` // 1: start on the accelerated engine
	Bulk    *Bulk    `json:"bulk,omitempty"`
	Cold    *Learned `json:"cold,omitempty"`
}

// Learned is what a run from a cold start must know of the library without
// having called it: a cold run is the first thing its process does with it.
type Learned struct {
	Sig    string   `json:"sig"`
	Layout bool     `json:"layout"`
	Shapes []string `json:"shapes"`
}

// Stream describes the bytes one client has to hash.
type Stream struct {
	Segs  []Seg    `json:"segs"`
	Flips [][2]int `json:"flips,omitempty"` // (offset, bit) flipped in transit
}

// Seg is a piece of a stream.
type Seg struct {
	K    string `json:"k"`
	N    int    `json:"n,omitempty"`
	DV   int    `json:"dv,omitempty"`
	DV2  int    `json:"dv2,omitempty"` // 1+index of another vector whose conditions hold too
	Near int    `json:"near,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// Phase is a set of tasks that run concurrently; a barrier ends it.
type Phase struct {
	Tasks []TaskPlan `json:"tasks"`
	Sched SchedPlan  `json:"sched"`
}

// TaskPlan is one client's script.
type TaskPlan struct {
	Ops []Op `json:"ops"`
}

// Op is one step of a client; the meaning of the integers depends on K.
type Op struct {
	K string `json:"k"`
	S int    `json:"s,omitempty"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	D int    `json:"d,omitempty"`
	F []int  `json:"f,omitempty"`
}

// SchedPlan says how the phase is interleaved: by a seeded strategy, or, when
// Trace is present, exactly as recorded.
type SchedPlan struct {
	Mode  int    `json:"mode"`
	Seed  uint64 `json:"seed,omitempty"`
	MaxQ  int    `json:"maxq,omitempty"`
	Est   int    `json:"est,omitempty"`
	Fixed bool   `json:"fixed,omitempty"`
	Trace []Dec  `json:"trace,omitempty"`
}

// Dec is one scheduling decision: task T runs for Q yields. Q<0: T runs alone
// to the end of its script while every other task stays stalled.
type Dec struct {
	T int   `json:"t"`
	Q int64 `json:"q"`
}

// Bulk is a multi-gigabyte delivery.
type Bulk struct {
	Engine int     `json:"engine"` // 0 Go accelerated, 1 Go portable, 2 C
	Head   []byte  `json:"head,omitempty"`
	Zeros  []int64 `json:"zeros"` // writes of that many zero bytes
	Tail   []byte  `json:"tail,omitempty"`
	One    bool    `json:"one,omitempty"`  // use the one-shot function
	Real   int     `json:"real,omitempty"` // the stream begins with published attack Real-1
	Late   int     `json:"late,omitempty"` // a synthetic attack of vector Late-1 follows the zeros
}

// Blob is a saved state produced by another build of the library.
type Blob struct {
	From   string `json:"from"`
	Data   []byte `json:"data"`
	Stream Stream `json:"stream"`
	Pos    int    `json:"pos"`
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Phase int    `json:"phase"`
	Task  int    `json:"task"`
	Op    int    `json:"op"`
	OpK   string `json:"opk"`
}

func clonePlan(p *Plan) *Plan {
	q := *p
	q.Streams = make([]Stream, len(p.Streams))
	for i, s := range p.Streams {
		q.Streams[i] = Stream{append([]Seg(nil), s.Segs...), append([][2]int(nil), s.Flips...)}
	}
	q.Phases = make([]Phase, len(p.Phases))
	for i, ph := range p.Phases {
		q.Phases[i].Sched = ph.Sched
		q.Phases[i].Sched.Trace = append([]Dec(nil), ph.Sched.Trace...)
		q.Phases[i].Tasks = make([]TaskPlan, len(ph.Tasks))
		for j, t := range ph.Tasks {
			ops := make([]Op, len(t.Ops))
			for k, o := range t.Ops {
				ops[k] = o
				ops[k].F = append([]int(nil), o.F...)
			}
			q.Phases[i].Tasks[j].Ops = ops
		}
	}
	q.Foreign = append([]Blob(nil), p.Foreign...)
	return &q
}
