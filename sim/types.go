package main

import "encoding/json"

// The wire types mirror inrepo/zzsim.

type Sched struct {
	Seed     uint64   `json:"seed"`
	RandSeed uint64   `json:"rand_seed"`
	Mode     int      `json:"mode"`
	Mean     int64    `json:"mean"`
	Budget   uint64   `json:"budget"`
	Mem      uint64   `json:"mem,omitempty"`
	Alloc    uint64   `json:"alloc,omitempty"`
	CPUs     int      `json:"cpus"`
	Wall     int64    `json:"wall,omitempty"`
	Pid      int      `json:"pid,omitempty"`
	Record   bool     `json:"record,omitempty"`
	Replay   bool     `json:"replay,omitempty"`
	Preempts []uint64 `json:"preempts,omitempty"`
	Picks    []uint16 `json:"picks,omitempty"`
}

type Fault struct {
	Op     string `json:"op"`
	Target string `json:"target,omitempty"`
	Nth    int    `json:"nth"`
	Kind   string `json:"kind"`
	Arg    int64  `json:"arg,omitempty"`
}

type Scenario struct {
	Kind   string            `json:"kind"`
	Tool   string            `json:"tool,omitempty"` // release: the release tool instead of addchain
	Sched  Sched             `json:"sched"`
	Args   []string          `json:"args,omitempty"`
	Stdin  []byte            `json:"stdin,omitempty"`
	Chunks []int             `json:"chunks,omitempty"`
	Files  map[string][]byte `json:"files,omitempty"`
	Faults []Fault           `json:"faults,omitempty"`
	Events bool              `json:"events,omitempty"`
	Lab    json.RawMessage   `json:"lab,omitempty"`
}

type Event struct {
	Step uint64
	Op   string
	Name string
	N    int64
	Err  int
}

type Result struct {
	Outcome string            `json:"outcome"`
	Status  int               `json:"status"`
	Stdout  []byte            `json:"stdout,omitempty"`
	Stderr  []byte            `json:"stderr,omitempty"`
	Files   map[string][]byte `json:"files,omitempty"`
	Fired   []int             `json:"fired,omitempty"`
	Seen    []int             `json:"seen,omitempty"`

	Violations []string        `json:"violations,omitempty"`
	Probes     map[string]int  `json:"probes,omitempty"`
	Data       json.RawMessage `json:"data,omitempty"`
	Err        string          `json:"err,omitempty"`
	Leaked     bool            `json:"leaked,omitempty"`

	Steps, Preempts, Decisions, Switches, Goroutines, TimerJumps uint64
	Nanos                                                        int64
	SchedHash, OSHash, Calls                                     uint64
	Truncated                                                    bool
	RecPreempt                                                   []uint64 `json:",omitempty"`
	RecPicks                                                     []uint16 `json:",omitempty"`
	Events                                                       []Event  `json:",omitempty"`
}

// Outcome is a run as seen from outside the process.
type Outcome struct {
	Class  string // ok, crash, deadlock, steps, memory, race, watchdog
	Res    *Result
	Code   int
	Stderr string // real stderr: runtime traces
	Millis int    // real time
}

func clone[T any](x T) T {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var y T
	if err := json.Unmarshal(b, &y); err != nil {
		panic(err)
	}
	return y
}

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{seed} }

func mix(xs ...uint64) uint64 {
	var h uint64 = 0x1234567
	for _, x := range xs {
		r := Rng{h ^ x}
		h = r.U64()
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a value in [lo,hi].
func (r *Rng) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P reports true with probability a/b.
func (r *Rng) P(a, b int) bool { return r.N(b) < a }

func pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }
