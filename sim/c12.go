package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
)

type op12 struct {
	K string `json:"k"`
	N int64  `json:"n,omitempty"`
}

type alg12 struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Var  int    `json:"var,omitempty"`
	Real int    `json:"real,omitempty"`
	Cat  bool   `json:"cat,omitempty"`
	Dup  int    `json:"dup,omitempty"`
	Pre  []op12 `json:"pre,omitempty"`
	Post []op12 `json:"post,omitempty"`
	StrY int    `json:"stry,omitempty"`
}

type call12 struct {
	N    string  `json:"n"`
	Algs []alg12 `json:"algs"`
}

type spec12 struct {
	Limit   int        `json:"limit"`
	Log     string     `json:"log"`
	LogNs   int64      `json:"log_ns,omitempty"`
	Shared  bool       `json:"shared"`
	Callers [][]call12 `json:"callers"`
}

func genSched(r *Rng) Sched {
	return Sched{
		Seed: r.U64(), RandSeed: r.U64(), Mode: r.N(4),
		Mean: pick(r, int64(0), 1, 2, 3, 7, 20, 60, 200, 1000, 5000),
		CPUs: pick(r, 1, 2, 3, 4, 8, 16), Wall: int64(1600000000 + r.N(300000000)), Pid: r.In(2, 60000),
	}
}

func genOps(r *Rng, heavy int) []op12 {
	var l []op12
	for n := r.N(heavy + 1); n > 0; n-- {
		switch r.N(5) {
		case 0, 1:
			l = append(l, op12{"y", int64(r.In(1, 12))})
		case 2:
			top := 36 // nanoseconds: about a minute
			if r.P(1, 24) {
				top = 50 // days
			}
			l = append(l, op12{"s", int64(r.N(1 << uint(r.In(1, top))))})
		default:
			l = append(l, op12{K: "r"})
		}
	}
	return l
}

func genN(r *Rng, bits int) string {
	b := r.In(1, bits)
	x := new(big.Int)
	for i := 0; i < b; i += 32 {
		x.Lsh(x, 32).Or(x, new(big.Int).SetUint64(r.U64()&0xffffffff))
	}
	if r.P(1, 4) { // long runs of ones
		x.Lsh(big.NewInt(1), uint(b)).Sub(x, big.NewInt(1))
	}
	x.SetBit(x, b-1, 1)
	x.Rsh(x, uint(x.BitLen()-b))
	return x.Text(16)
}

func genCall12(r *Rng, kind string, size int) call12 {
	c := call12{}
	bits := 40
	switch kind {
	case "real":
		bits = pick(r, 4, 8, 12, 16, 24)
	case "cat":
		bits = pick(r, 4, 8, 12, 16, 40, 64)
	case "wide":
		bits = pick(r, 130, 260, 260, 520, 520, 700, 700, 1100)
	}
	c.N = genN(r, bits)
	if kind == "wide" && r.P(2, 3) {
		x, _ := new(big.Int).SetString(c.N, 16)
		c.N = x.SetBit(x, bits-1-r.N(8), 1).Text(16)
	}
	k := r.N(size + 1)
	same, one := r.P(1, 3), r.N(1<<16)
	if kind == "wide" {
		same = r.P(3, 4)
	}
	for i := 0; i < k; i++ {
		a := alg12{Name: fmt.Sprintf("alg%d", i)}
		if r.P(1, 8) {
			a.Name = "same"
		}
		heavy := 4
		if size > 20 {
			heavy = 2
		}
		a.Pre, a.Post = genOps(r, heavy), genOps(r, heavy)
		if r.P(1, 6) {
			a.StrY = r.In(1, 5)
		}
		if (kind == "real" || kind == "cat" || kind == "wide") && !r.P(1, 6) {
			a.Kind, a.Real, a.Cat = "real", r.N(1<<16), kind != "real"
			if same {
				a.Real = one + r.N(8)
			}
		} else {
			a.Kind = pick(r, "chain", "chain", "chain", "chain", "err", "invalid", "wrong", "empty")
			a.Var = r.N(30)
			if i > 0 && r.P(1, 10) {
				a.Kind, a.Dup = "dup", r.N(i)
			}
		}
		c.Algs = append(c.Algs, a)
	}
	return c
}

func init() {
	props["C12"] = &Prop{
		ID: "C12", Level: "exploration", NeedRace: true, SelfN: 400,
		Count: func(tier string) int {
			if tier == "thorough" {
				return 3000000
			}
			return 24000
		},
		Gen: func(r *Rng, i int, tier string) *Case {
			kind := pick(r, "ctl", "ctl", "ctl", "ctl", "conc", "conc", "real", "big", "cat")
			if i%32 == 7 || i%32 == 14 {
				kind = "wide"
			}
			race := i%4 == 3
			sp := spec12{Log: pick(r, "none", "none", "yield", "stall", "error", "short")}
			sp.LogNs = int64(r.In(1, 40))
			if sp.Log == "stall" {
				sp.LogNs = int64(r.N(1 << uint(r.In(1, 34))))
			}
			s := genSched(r)
			s.Budget = 40_000_000
			size := pick(r, 2, 3, 5, 8, 12)
			callers := 1
			switch kind {
			case "conc":
				callers = r.In(2, 4)
				size = pick(r, 2, 4, 6)
				sp.Shared = r.P(1, 2)
			case "real", "cat", "wide":
				size = r.In(2, 6)
				callers = pick(r, 1, 1, 2)
				s.Budget = 1_000_000_000
				if kind == "wide" {
					size = r.In(2, 4)
					if s.Mean > 0 {
						s.Mean *= pick(r, int64(20), 200, 1000)
					}
				}
			case "big":
				size = r.In(20, 250)
				if r.P(1, 6) {
					size = r.In(250, pick(r, 270, 600, 1300))
					s.Budget *= 5
				}
				if s.Mean == 1 {
					s.Mean = 5
				}
			}
			maxk := 0
			for j := 0; j < callers; j++ {
				var l []call12
				n := pick(r, 1, 1, 1, 2, 3)
				if kind != "ctl" && kind != "conc" {
					n = 1
				}
				for ; n > 0; n-- {
					c := genCall12(r, kind, size)
					if len(c.Algs) > maxk {
						maxk = len(c.Algs)
					}
					l = append(l, c)
				}
				sp.Callers = append(sp.Callers, l)
			}
			switch r.N(10) {
			case 0:
				sp.Limit = 0 // default: NumCPU
			case 1:
				sp.Limit = 1
			case 2:
				sp.Limit = maxk + r.N(3)
			case 3:
				sp.Limit = r.In(1, 3000)
			default:
				sp.Limit = r.In(1, maxk/2+2)
			}
			if r.P(1, 40) {
				sp.Limit = pick(r, 1<<16, 1<<31-1, 1<<31, 1<<40, 1<<63-1)
			}
			lab, _ := json.Marshal(sp)
			return &Case{Kind: kind, Race: race, Sc: &Scenario{Kind: "c12", Sched: s, Lab: lab}}
		},
		Exec: func(w *worker, c *Case) *Verdict {
			v := &Verdict{}
			bin := w.plain
			if c.Race {
				bin = w.race
			}
			o := w.runBin(bin, c.Sc)
			v.absorb(o, c.Sc, 0)
			v.Sample = map[string]interface{}{"case": c.Index, "kind": c.Kind, "race_build": c.Race, "sched_seed": c.Sc.Sched.Seed, "spec": c.Sc.Lab}
			v.Trivial = o.Res != nil && o.Res.Goroutines == 0
			if c.Race {
				v.probe("race_detector_runs", 1)
			}
			switch o.Class {
			case "ok":
				if len(o.Res.Violations) > 0 {
					m := o.Res.Violations[0]
					v.fail(strings.SplitN(m, ":", 2)[0], "%s", strings.Join(o.Res.Violations, "; "))
					if v.Class == "race" {
						v.Trace = raceTrace(o.Stderr)
					}
				}
			case "deadlock", "steps", "crash", "memory":
				v.fail(o.Class, "%s %s", crashLine(o.Stderr), crashSite(o.Stderr))
				v.Trace = o.Stderr
			}
			return v
		},
		Scheds: func(c *Case) []*Sched { return []*Sched{&c.Sc.Sched} },
		Shrink: shrink12,
		Rule:   "a case is a seeded workload (callers, calls, algorithms with yields, virtual sleeps, target reads, outcomes; limit; logger behaviour) with a seeded schedule; a case is non-trivial if at least one worker goroutine ran; distinct by digest of everything observed, including the interleaving hash",
		Real:   []string{"alg/exec", "alg/ensemble and all algorithms it lists", "chain.go, program.go", "log, sync, channels, Go runtime (scheduling decision replaced)"},
		Stub:   []string{"controlled chain algorithms and the log writer are harness code", "clock, randomness, NumCPU"},
		Assume: []string{"preemption happens between statements of repository code and at blocking operations; finer races are left to the race detector build", "solo reference results come from exec.Execute on fresh instances outside the simulation"},
	}
}

func raceTrace(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		return s[i:]
	}
	return s
}

func shrink12(c *Case) []*Case {
	var sp spec12
	json.Unmarshal(c.Sc.Lab, &sp)
	var out []*Case
	try := func(f func(s *spec12)) {
		s := clone(sp)
		f(&s)
		lab, _ := json.Marshal(s)
		if string(lab) == string(c.Sc.Lab) {
			return
		}
		x := clone(c)
		x.Sc.Lab = lab
		out = append(out, x)
	}
	for i := range sp.Callers {
		if len(sp.Callers) > 1 {
			try(func(s *spec12) { s.Callers = append(s.Callers[:i], s.Callers[i+1:]...) })
		}
		for j := range sp.Callers[i] {
			if len(sp.Callers[i]) > 1 {
				try(func(s *spec12) { s.Callers[i] = append(s.Callers[i][:j], s.Callers[i][j+1:]...) })
			}
			n := len(sp.Callers[i][j].Algs)
			for size := n / 2; size >= 1; size /= 2 {
				for at := 0; at+size <= n; at += size {
					try(func(s *spec12) {
						cl := &s.Callers[i][j]
						cl.Algs = append(cl.Algs[:at], cl.Algs[at+size:]...)
						for q := range cl.Algs {
							if cl.Algs[q].Kind == "dup" {
								cl.Algs[q] = alg12{Name: cl.Algs[q].Name, Kind: "chain"}
							}
						}
					})
				}
			}
		}
	}
	if sp.Log != "none" {
		try(func(s *spec12) { s.Log, s.LogNs = "none", 0 })
	}
	for _, l := range []int{1, 2, 3, 4} {
		if sp.Limit > l {
			try(func(s *spec12) { s.Limit = l })
		}
	}
	for i := range sp.Callers {
		for j := range sp.Callers[i] {
			if sp.Callers[i][j].N != "7" {
				try(func(s *spec12) { s.Callers[i][j].N = "7" })
			}
			for q := range sp.Callers[i][j].Algs {
				a := sp.Callers[i][j].Algs[q]
				if len(a.Pre)+len(a.Post) > 0 || a.StrY > 0 {
					try(func(s *spec12) {
						x := &s.Callers[i][j].Algs[q]
						x.Pre, x.Post, x.StrY = nil, nil, 0
					})
				}
				if len(a.Pre) > 0 {
					try(func(s *spec12) { x := &s.Callers[i][j].Algs[q]; x.Pre = x.Pre[:len(x.Pre)-1] })
				}
				if len(a.Post) > 0 {
					try(func(s *spec12) { x := &s.Callers[i][j].Algs[q]; x.Post = x.Post[:len(x.Post)-1] })
				}
				if a.Kind != "chain" {
					try(func(s *spec12) { x := &s.Callers[i][j].Algs[q]; x.Kind, x.Real = "chain", 0 })
				}
				if a.Var != 0 && a.Kind != "real" {
					try(func(s *spec12) { s.Callers[i][j].Algs[q].Var = 0 })
				}
			}
		}
	}
	return out
}
