//go:build go1.21

package zzsim

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
)

// Sched is the scheduler part of a scenario.
type Sched struct {
	Seed     uint64   `json:"seed"`
	RandSeed uint64   `json:"rand_seed"`
	Mode     int      `json:"mode"`
	Mean     int64    `json:"mean"`
	Budget   uint64   `json:"budget"`
	Mem      uint64   `json:"mem,omitempty"`
	Alloc    uint64   `json:"alloc,omitempty"`
	CPUs     int      `json:"cpus"`
	Wall     int64    `json:"wall,omitempty"`
	Pid      int      `json:"pid,omitempty"`
	Record   bool     `json:"record,omitempty"`
	Replay   bool     `json:"replay,omitempty"`
	Preempts []uint64 `json:"preempts,omitempty"`
	Picks    []uint16 `json:"picks,omitempty"`
}

// Scenario is one simulated run.
type Scenario struct {
	Kind   string            `json:"kind"` // cli, c12, ...
	Sched  Sched             `json:"sched"`
	Args   []string          `json:"args,omitempty"`
	Stdin  []byte            `json:"stdin,omitempty"`
	Chunks []int             `json:"chunks,omitempty"`
	Files  map[string][]byte `json:"files,omitempty"`
	Faults []Fault           `json:"faults,omitempty"`
	Events bool              `json:"events,omitempty"`
	Lab    json.RawMessage   `json:"lab,omitempty"`
}

// Result is what a simulated run produced.
type Result struct {
	Outcome string            `json:"outcome"` // exit, return, lab, error
	Status  int               `json:"status"`
	Stdout  []byte            `json:"stdout,omitempty"`
	Stderr  []byte            `json:"stderr,omitempty"`
	Files   map[string][]byte `json:"files,omitempty"`
	Fired   []int             `json:"fired,omitempty"`
	Seen    []int             `json:"seen,omitempty"`

	Violations []string        `json:"violations,omitempty"`
	Probes     map[string]int  `json:"probes,omitempty"`
	Data       json.RawMessage `json:"data,omitempty"`
	Err        string          `json:"err,omitempty"`
	Leaked     bool            `json:"leaked,omitempty"`

	Steps, Preempts, Decisions, Switches, Goroutines, TimerJumps uint64
	Nanos                                                        int64
	SchedHash, OSHash, Calls                                     uint64
	Truncated                                                    bool
	RecPreempt                                                   []uint64 `json:",omitempty"`
	RecPicks                                                     []uint16 `json:",omitempty"`
	Events                                                       []Event  `json:",omitempty"`
}

func simConfig(s *Sched) *runtime.SimConfig {
	c := &runtime.SimConfig{Seed: s.Seed, RandSeed: s.RandSeed, Mode: s.Mode, Mean: s.Mean, Budget: s.Budget,
		Mem: s.Mem, Alloc: s.Alloc, CPUs: s.CPUs, Wall: s.Wall, GCAt: 192 << 20, Replay: s.Replay, ReplayPreempt: s.Preempts, ReplayPicks: s.Picks}
	if c.CPUs <= 0 {
		c.CPUs = 4
	}
	if s.Record {
		c.RecPreempt = make([]uint64, 0, 1<<20)
		c.RecPicks = make([]uint16, 0, 1<<20)
	}
	return c
}

func (r *Result) fill(s runtime.SimStats) {
	r.Steps, r.Preempts, r.Decisions, r.Switches = s.Steps, s.Preempts, s.Decisions, s.Switches
	r.Goroutines, r.TimerJumps, r.Nanos = s.Goroutines, s.TimerJumps, s.Nanos
	r.SchedHash, r.Truncated = s.Hash, s.Truncated
	r.RecPreempt, r.RecPicks = s.RecPreempt, s.RecPicks
}

func emit(r *Result) {
	b, err := json.Marshal(r)
	if err != nil {
		b, _ = json.Marshal(&Result{Outcome: "error", Err: err.Error()})
	}
	b = append(b, '\n')
	for len(b) > 0 {
		n, err := syscall.Write(1, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			syscall.Exit(99)
		}
		b = b[n:]
	}
}

// Main runs the scenarios given on the real stdin, one JSON document per line.
func Main(orig func()) {
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	n := 0
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		var sc Scenario
		if err := json.Unmarshal(line, &sc); err != nil {
			emit(&Result{Outcome: "error", Err: "scenario: " + err.Error()})
			return
		}
		if sc.Kind == "cli" {
			runCLI(&sc, orig) // does not return
		}
		lab := labs[sc.Kind]
		if lab == nil {
			emit(&Result{Outcome: "error", Err: "unknown kind " + sc.Kind})
			return
		}
		r := &Result{Outcome: "lab"}
		lab(&sc, r)
		emit(r)
		n++
		if r.Leaked {
			syscall.Exit(0)
		}
		if n%16 == 0 {
			runtime.GC()
		}
	}
}

var labs = map[string]func(*Scenario, *Result){}

func newKernelFor(sc *Scenario) *Kernel {
	k := NewKernel()
	k.stdin = sc.Stdin
	k.chunks = sc.Chunks
	k.pid = sc.Sched.Pid
	names := make([]string, 0, len(sc.Files))
	for n := range sc.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		k.PutFile(n, sc.Files[n])
	}
	k.faults = append([]Fault(nil), sc.Faults...)
	return k
}

func (r *Result) fillOS(k *Kernel, events bool) {
	r.Stdout = append([]byte(nil), k.out[:k.outN]...)
	r.Stderr = append([]byte(nil), k.err[:k.errN]...)
	r.OSHash, r.Calls = k.hash, k.calls
	r.Fired, r.Seen = nil, nil
	for _, f := range k.faults {
		r.Fired = append(r.Fired, f.fired)
		r.Seen = append(r.Seen, f.seen)
	}
	for _, nd := range k.nodes {
		if nd.live && !nd.dir {
			if r.Files == nil {
				r.Files = map[string][]byte{}
			}
			r.Files[nd.path] = nd.data
		}
	}
	if events {
		r.Events = k.log[:k.nlog]
	}
}

func runCLI(sc *Scenario, orig func()) {
	k := newKernelFor(sc)
	cfg := simConfig(&sc.Sched)
	os.Args = append([]string{"addchain"}, sc.Args...)
	finish := func(outcome string, code int) {
		st := runtime.SimStop()
		syscall.SimOS = nil
		syscall.SimExit = nil
		r := &Result{Outcome: outcome, Status: code}
		r.fill(st)
		r.fillOS(k, sc.Events)
		emit(r)
		syscall.Exit(0)
	}
	syscall.SimExit = func(code int) { finish("exit", code) }
	syscall.SimOS = k
	runtime.SimStart(cfg)
	orig()
	finish("return", 0)
}

func violf(r *Result, format string, a ...interface{}) {
	if len(r.Violations) < 20 {
		r.Violations = append(r.Violations, fmt.Sprintf(format, a...))
	}
}

func probe(r *Result, name string, n int) {
	if n == 0 {
		return
	}
	if r.Probes == nil {
		r.Probes = map[string]int{}
	}
	r.Probes[name] += n
}

// drain lets the remaining goroutines of the run finish. It reports false if
// some are still blocked.
func drain() bool {
	for i := 0; i < 100000; i++ {
		if runtime.SimLive() <= 1 {
			return true
		}
		runtime.Gosched()
	}
	return false
}

var _ = strings.Contains
