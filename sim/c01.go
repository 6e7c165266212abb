package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
)

// Mirrors inrepo/zzsim/c01.go.

type call01 struct {
	N      string `json:"n"`
	Alg    int    `json:"alg"`
	Direct bool   `json:"direct,omitempty"`
	Trials int    `json:"trials,omitempty"`
	Kind   int    `json:"kind,omitempty"`
}

type spec01 struct {
	Callers [][]call01 `json:"callers"`
	Fresh   bool       `json:"fresh,omitempty"`
	Reverse bool       `json:"reverse,omitempty"`
	Reuse   bool       `json:"reuse,omitempty"`
	Spoil   bool       `json:"spoil,omitempty"`
}

type out01 struct {
	Name, Err, Bad string
	Len            int
	Chain          string
}

// catalogueSize is at least the number of configurations that fit any target.
const catalogueSize = 3200

// runsTarget makes a number with few long runs of ones.
func runsTarget(r *Rng, bits int) *big.Int {
	x := new(big.Int)
	one := big.NewInt(1)
	l := 0
	for k := r.In(1, 4); k > 0; k-- {
		if l == 0 || r.P(2, 3) {
			l = r.In(1, bits)
			if r.P(1, 2) {
				l = r.In(1, 1+bits/2)
			}
		}
		m := new(big.Int).Lsh(one, uint(l))
		m.Sub(m, one)
		x.Or(x, m.Lsh(m, uint(r.N(max(1, bits-l)))))
	}
	return x
}

// genTarget makes targets of many shapes.
func genTarget(r *Rng, bits int) string {
	x, _ := new(big.Int).SetString(genN(r, bits), 16)
	one := big.NewInt(1)
	switch r.N(12) {
	case 0: // power of two and neighbours
		x.Lsh(one, uint(r.N(bits)))
		x.Add(x, big.NewInt(int64(r.N(5)-2)))
	case 1: // sparse
		x.SetInt64(0)
		for k := r.In(1, 5); k > 0; k-- {
			x.SetBit(x, r.N(bits), 1)
		}
	case 2: // runs of ones
		x = runsTarget(r, bits)
	case 3: // repeated pattern
		w := r.In(1, min(16, bits))
		p := new(big.Int).SetUint64(r.U64() & (1<<uint(w) - 1))
		x.SetInt64(0)
		for i := 0; i+w <= bits; i += w {
			x.Lsh(x, uint(w)).Or(x, p)
		}
	case 4: // small multiple of a large power of two
		x.SetUint64(1 + r.U64()&31)
		x.Lsh(x, uint(r.N(max(1, bits-5))))
	case 5: // 2^k - c, like the primes people use
		x.Lsh(one, uint(r.In(max(1, bits-8), bits)))
		x.Sub(x, big.NewInt(int64(r.N(1<<uint(r.In(1, 20))))))
	case 6: // product of small factors
		x.SetInt64(1)
		for x.BitLen() < bits-4 {
			x.Mul(x, big.NewInt(int64(r.In(2, 7))))
		}
	}
	if x.Sign() <= 0 {
		x.SetInt64(1)
	}
	return x.Text(16)
}

const (
	sys01Targets = 48 // every configuration meets the targets 1 to 48
	sys01Per     = 100
)

func sys01(tier string) int {
	n := sys01Targets
	if tier == "thorough" {
		n = 300
	}
	return n * catalogueSize / sys01Per
}

func gen01(r *Rng, i int, tier string) *Case {
	kind := "small targets"
	callers := pick(r, 1, 2, 2, 3, 4)
	sp := spec01{Callers: make([][]call01, callers)}
	const budget = 2_000_000_000
	wide := false
	put := func(k int, c call01) {
		sp.Callers[k%callers] = append(sp.Callers[k%callers], c)
	}
	if i < sys01(tier) {
		for k := 0; k < sys01Per; k++ {
			j := i*sys01Per + k
			put(k, call01{N: fmt.Sprintf("%x", j/catalogueSize+1), Alg: j % catalogueSize, Direct: r.P(1, 4)})
		}
	} else {
		bits := pick(r, 7, 9, 12, 16, 32, 64, 64, 128)
		n := r.In(callers, 24)
		if (i-sys01(tier))%16 == 3 {
			bits = pick(r, 256, 256, 384, 521)
			if tier == "thorough" {
				bits = pick(r, 256, 384, 521, 1024)
			}
			n = r.In(callers, 6)
		}
		algs := 0
		if (i-sys01(tier))%32 == 5 {
			// Long runs of ones, and runs of lengths that do not fit a byte.
			bits = pick(r, 300, 520, 520, 700, 1100)
			n = r.In(callers, 6)
			if bits > 600 {
				n = callers
			}
			algs = 3
		}
		if (i-sys01(tier))%16 == 9 {
			// Long chains of small numbers.
			bits = pick(r, 8, 9, 9)
			n = r.In(12, 24)
			algs = 2
		}
		if (i-sys01(tier))%32 == 21 {
			bits = pick(r, 700, 1024)
			n = callers
			algs = pick(r, 1, 2, 4)
		}
		wide = bits > 200
		kind = fmt.Sprintf("up to %d bits", bits)
		var ns []string
		for k := r.In(1, 4); k > 0; k-- {
			t := genTarget(r, bits)
			if algs == 3 && r.P(2, 3) {
				t = runsTarget(r, bits).Text(16)
			}
			ns = append(ns, t)
		}
		at := r.N(1 << 16)
		same := r.P(1, 3)
		for k := 0; k < n; k++ {
			c := call01{N: ns[r.N(len(ns))], Alg: r.N(1 << 16), Direct: r.P(1, 4), Kind: algs}
			if algs == 0 && r.P(1, 3) {
				c.Kind = pick(r, 1, 2, 3)
			}
			if same { // few objects, many users
				c.Alg = at + r.N(3)
			}
			if r.P(1, 8) {
				c.Trials = 1
			}
			put(k, c)
		}
	}
	sched := func() Sched {
		s := genSched(r)
		s.Budget = budget
		if wide && s.Mean > 0 {
			s.Mean *= 1000
		}
		return s
	}
	a, b := sched(), sched()
	sp.Reuse, sp.Spoil = r.P(1, 4), r.P(1, 4)
	lab, _ := json.Marshal(sp)
	// The second run repeats the calls one after the other in another order
	// with objects of their own.
	sq := spec01{Callers: [][]call01{nil}, Fresh: true, Reverse: r.P(1, 2)}
	for _, l := range sp.Callers {
		sq.Callers[0] = append(sq.Callers[0], l...)
	}
	lab2, _ := json.Marshal(sq)
	return &Case{Kind: kind, Runs: []*Scenario{{Kind: "c01", Sched: a, Lab: lab}, {Kind: "c01", Sched: b, Lab: lab2}}}
}

func exec01(w *worker, c *Case) *Verdict {
	v := &Verdict{}
	v.Sample = map[string]interface{}{"case": c.Index, "kind": c.Kind, "calls": c.Runs[0].Lab}
	var flat [2][]out01
	var calls [2][]call01
	for k, sc := range c.Runs {
		o := w.run(sc)
		v.absorb(o, sc, k)
		if v.Infra != "" {
			return v
		}
		switch o.Class {
		case "ok":
		case "deadlock", "steps", "crash", "memory":
			v.fail(o.Class, "%s %s", crashLine(o.Stderr), crashSite(o.Stderr))
			v.Trace = o.Stderr
			return v
		default:
			return v
		}
		var d [][]out01
		var sp spec01
		if json.Unmarshal(o.Res.Data, &d) != nil || json.Unmarshal(sc.Lab, &sp) != nil {
			v.Infra = "C01: no data"
			return v
		}
		for i, l := range d {
			flat[k] = append(flat[k], l...)
			calls[k] = append(calls[k], sp.Callers[i]...)
		}
		for _, m := range o.Res.Violations {
			v.fail(strings.SplitN(m, ":", 2)[0], "%s", clip(m))
		}
	}
	for k := range flat {
		for i, o := range flat[k] {
			cl := calls[k][i]
			if o.Err != "" {
				v.fail("error", "%s on 0x%s fails: %s", o.Name, cl.N, o.Err)
			} else if o.Bad != "" {
				v.fail("chain", "%s on 0x%s: %s; the chain is %s", o.Name, cl.N, clip(o.Bad), clip(o.Chain))
			}
			v.dig(o.Chain)
		}
		v.probe("chains", len(flat[k]))
	}
	if len(c.Runs) == 2 {
		for i := range flat[0] {
			a, b := flat[0][i], flat[1][i]
			if a.Chain != b.Chain {
				v.fail("differs", "%s on 0x%s gives %s in one run and %s in another", a.Name, calls[0][i].N, clip(a.Chain), clip(b.Chain))
			}
			if a.Len > 100 {
				v.probe("long_chains", 1)
			}
		}
	}
	return v
}

func shrink01(c *Case) []*Case {
	var out []*Case
	var sp, sq spec01
	if len(c.Runs) != 2 || json.Unmarshal(c.Runs[0].Lab, &sp) != nil || json.Unmarshal(c.Runs[1].Lab, &sq) != nil {
		return nil
	}
	try := func(f func(s *spec01)) {
		s := clone(sp)
		f(&s)
		var keep [][]call01
		for _, l := range s.Callers {
			if len(l) > 0 {
				keep = append(keep, l)
			}
		}
		if len(keep) == 0 {
			return
		}
		s.Callers = keep
		q := spec01{Callers: [][]call01{nil}, Fresh: sq.Fresh, Reverse: sq.Reverse}
		for _, l := range keep {
			q.Callers[0] = append(q.Callers[0], l...)
		}
		x := clone(c)
		x.Runs[0].Lab, _ = json.Marshal(s)
		x.Runs[1].Lab, _ = json.Marshal(q)
		out = append(out, x)
	}
	for i := range sp.Callers {
		if len(sp.Callers) > 1 {
			try(func(s *spec01) { s.Callers[i] = nil })
		}
		n := len(sp.Callers[i])
		for size := (n + 1) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= n; at += size {
				try(func(s *spec01) { s.Callers[i] = append(s.Callers[i][:at:at], s.Callers[i][at+size:]...) })
			}
		}
		for j, cl := range sp.Callers[i] {
			if cl.Trials > 0 {
				try(func(s *spec01) { s.Callers[i][j].Trials = 0 })
			}
			if cl.Direct {
				try(func(s *spec01) { s.Callers[i][j].Direct = false })
			}
		}
	}
	if sp.Reuse {
		try(func(s *spec01) { s.Reuse = false })
	}
	if sp.Spoil {
		try(func(s *spec01) { s.Spoil = false })
	}
	if len(sp.Callers) > 1 {
		try(func(s *spec01) {
			var l []call01
			for _, x := range s.Callers {
				l = append(l, x...)
			}
			s.Callers = [][]call01{l}
		})
	}
	return out
}

func init() {
	props["C01"] = &Prop{
		ID: "C01", Level: "exploration", SelfN: 100,
		Count: func(tier string) int {
			if tier == "thorough" {
				return sys01(tier) + 200000
			}
			return sys01(tier) + 6000
		},
		Gen: gen01, Exec: exec01, Scheds: runScheds, Shrink: shrink01,
		Rule:   "a case is a set of algorithm executions, run once by 1-4 concurrent callers that share algorithm and target objects and once one after the other with objects of their own, each under its own schedule, map and randomness seeds; distinct by digest of everything observed",
		Real:   []string{"alg/binary, alg/contfrac, alg/dict, alg/heuristic, alg/opt, alg/ensemble, alg/exec, chain.go, program.go, internal/bigint, internal/bigints, internal/bigvector", "Go runtime (scheduling decision and map seeds replaced)"},
		Stub:   []string{"clock, randomness, map iteration seeds, NumCPU"},
		Assume: []string{"the configurations of sim/inrepo/zzsim/algs.go stand for those the library exports, within the target sizes listed there", "targets are sampled, apart from 1 to 48 (thorough: 300) with every configuration"},
	}
}
