//go:build go1.21

package zzsim

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"runtime"
	"sort"
	"time"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
)

func init() { labs["c12"] = labC12 }

// Op12 is a step of a controlled algorithm: y(ield) N times, s(leep) N ns,
// r(ead) the target.
type Op12 struct {
	K string `json:"k"`
	N int64  `json:"n,omitempty"`
}

// Alg12 describes an algorithm.
type Alg12 struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // chain, err, invalid, wrong, empty, real, dup
	Var  int    `json:"var,omitempty"`
	Real int    `json:"real,omitempty"` // index into the ensemble
	Cat  bool   `json:"cat,omitempty"`  // or the catalogue
	Dup  int    `json:"dup,omitempty"`  // same instance as this earlier algorithm
	Pre  []Op12 `json:"pre,omitempty"`
	Post []Op12 `json:"post,omitempty"`
	StrY int    `json:"stry,omitempty"` // yields inside String
}

// Call12 is one Execute call.
type Call12 struct {
	N    string  `json:"n"`
	Algs []Alg12 `json:"algs"`
}

// Spec12 is a C12 run: each caller performs its calls in order.
type Spec12 struct {
	Limit    int        `json:"limit"` // 0: the default, NumCPU
	Log      string     `json:"log"`   // none, yield, stall, error, short
	LogNs    int64      `json:"log_ns,omitempty"`
	Shared   bool       `json:"shared"` // callers share the executor
	Callers  [][]Call12 `json:"callers"`
	Deadline int64      `json:"deadline,omitempty"`
}

// callState holds what the run observes. Fields are written without
// synchronisation from norace functions: only one goroutine runs at a time and
// the monitor must not create happens-before edges.
type callState struct {
	inprog, maxprog int
	started, ended  int
	dirty           bool
	returned        bool
	late            int
	orig            *big.Int
	shared          *big.Int
}

type ctlAlg struct {
	spec  Alg12
	real  alg.ChainAlgorithm
	st    *callState
	err   error
	chain addchain.Chain
	live  bool // perform ops
}

func (a *ctlAlg) String() string {
	if a.live {
		yields(a.spec.StrY)
	}
	return a.spec.Name
}

//go:norace
func yields(n int) {
	for i := 0; i < n; i++ {
		runtime.SimY()
	}
}

//go:norace
func (a *ctlAlg) enter() {
	a.st.started++
	a.st.inprog++
	if a.st.inprog > a.st.maxprog {
		a.st.maxprog = a.st.inprog
	}
	if a.st.returned {
		a.st.late++
	}
}

//go:norace
func (a *ctlAlg) leave() {
	a.st.inprog--
	a.st.ended++
	if a.st.returned {
		a.st.late++
	}
}

func (a *ctlAlg) ops(n *big.Int, l []Op12) {
	for _, o := range l {
		switch o.K {
		case "y":
			yields(int(o.N))
		case "s":
			time.Sleep(time.Duration(o.N))
		case "r":
			// Read the shared target; under the race detector this
			// conflicts with any write to it.
			if n.Cmp(a.st.orig) != 0 {
				a.setDirty()
			}
		}
	}
}

//go:norace
func (a *ctlAlg) setDirty() { a.st.dirty = true }

func (a *ctlAlg) FindChain(n *big.Int) (addchain.Chain, error) {
	if a.live {
		a.enter()
		defer a.leave()
		a.ops(n, a.spec.Pre)
	}
	var c addchain.Chain
	var err error
	if a.real != nil {
		c, err = a.real.FindChain(n)
	} else if a.err != nil {
		err = a.err
	} else {
		c = makeChain(n, a.spec)
	}
	if a.live {
		a.ops(n, a.spec.Post)
	}
	return c, err
}

func makeChain(n *big.Int, s Alg12) addchain.Chain {
	switch s.Kind {
	case "empty":
		return addchain.Chain{}
	case "invalid":
		return addchain.Int64s(1, 2, 7, 9)
	}
	m := new(big.Int).Set(n)
	if s.Kind == "wrong" {
		m.Add(m, big.NewInt(1))
	}
	seen := map[string]bool{}
	var vs []*big.Int
	add := func(x *big.Int) {
		if k := x.String(); !seen[k] {
			seen[k] = true
			vs = append(vs, new(big.Int).Set(x))
		}
	}
	x := big.NewInt(1)
	add(x)
	for i := m.BitLen() - 2; i >= 0; i-- {
		x = new(big.Int).Lsh(x, 1)
		add(x)
		if m.Bit(i) == 1 {
			x = new(big.Int).Add(x, big.NewInt(1))
			add(x)
		}
	}
	for i := 2; i <= s.Var+1; i++ {
		if e := big.NewInt(int64(i)); e.Cmp(m) < 0 {
			add(e)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Cmp(vs[j]) < 0 })
	return addchain.Chain(vs)
}

type expect12 struct {
	err   string
	chain addchain.Chain
	prog  addchain.Program
}

func (e *expect12) diff(r exec.Result, n *big.Int, a alg.ChainAlgorithm) string {
	if r.Target == nil || r.Target.Cmp(n) != 0 {
		return fmt.Sprintf("target is %v, want %v", r.Target, n)
	}
	if r.Algorithm != a {
		return fmt.Sprintf("algorithm is %v, want %v", r.Algorithm, a)
	}
	es := ""
	if r.Err != nil {
		es = r.Err.Error()
	}
	if es != e.err {
		return fmt.Sprintf("error is %q, want %q", es, e.err)
	}
	if len(r.Chain) != len(e.chain) {
		return fmt.Sprintf("chain is %v, want %v", r.Chain, e.chain)
	}
	for i := range r.Chain {
		if r.Chain[i] == nil || r.Chain[i].Cmp(e.chain[i]) != 0 {
			return fmt.Sprintf("chain is %v, want %v", r.Chain, e.chain)
		}
	}
	if len(r.Program) != len(e.prog) {
		return fmt.Sprintf("program is %v, want %v", r.Program, e.prog)
	}
	for i := range r.Program {
		if r.Program[i] != e.prog[i] {
			return fmt.Sprintf("program is %v, want %v", r.Program, e.prog)
		}
	}
	return ""
}

type logWriter struct {
	kind  string
	ns    int64
	n     int
	fired int
}

//go:norace
func (w *logWriter) fire() { w.fired++ }

//go:norace
func (w *logWriter) count() int { w.n++; return w.n }

func (w *logWriter) Write(p []byte) (int, error) {
	c := w.count()
	switch w.kind {
	case "yield":
		yields(int(w.ns))
	case "stall":
		w.fire()
		time.Sleep(time.Duration(w.ns))
	case "error":
		w.fire()
		yields(3)
		return 0, errors.New("log device failed")
	case "short":
		if c%2 == 0 {
			w.fire()
			return len(p) / 2, io.ErrShortWrite
		}
	}
	return len(p), nil
}

type call12 struct {
	n, orig *big.Int
	as      []alg.ChainAlgorithm
	want    []expect12
	st      *callState
	rs      []exec.Result
	ok      bool
}

// cachedSolo memoises solo results of real algorithms within one process.
var soloCache = map[string]expect12{}

func buildCall(c Call12, ci int) *call12 {
	n, ok := new(big.Int).SetString(c.N, 16)
	if !ok {
		panic("bad n")
	}
	k := &call12{n: n, orig: new(big.Int).Set(n)}
	k.st = &callState{orig: k.orig, shared: n}
	var ens, ensSolo []algConf
	mk := func(i int, s Alg12, live bool) alg.ChainAlgorithm {
		a := &ctlAlg{spec: s, st: k.st, live: live}
		if s.Kind == "err" {
			a.err = fmt.Errorf("algorithm %d of call %d failed", i, ci)
		}
		if s.Kind == "real" {
			// The solo reference uses an instance of its own.
			p := &ensSolo
			if live {
				p = &ens
			}
			if *p == nil {
				*p = catalogue()
				if !s.Cat {
					*p = (*p)[:len(ensemble.Ensemble())]
				}
			}
			a.real, _ = pickAlg(*p, n, s.Real, 0)
		}
		return a
	}
	for i, s := range c.Algs {
		if s.Kind == "dup" && s.Dup < i {
			k.as = append(k.as, k.as[s.Dup])
			k.want = append(k.want, k.want[s.Dup])
			continue
		}
		k.as = append(k.as, mk(i, s, true))
		key := ""
		if s.Kind == "real" {
			key = fmt.Sprintf("%s/%d/%v", c.N, s.Real, s.Cat)
			if e, ok := soloCache[key]; ok {
				k.want = append(k.want, e)
				continue
			}
		}
		r := exec.Execute(new(big.Int).Set(n), mk(i, s, false))
		e := expect12{chain: r.Chain, prog: r.Program}
		if r.Err != nil {
			e.err = r.Err.Error()
		}
		if key != "" {
			if len(soloCache) > 4096 {
				soloCache = map[string]expect12{}
			}
			soloCache[key] = e
		}
		k.want = append(k.want, e)
	}
	return k
}

//go:norace
func (k *call12) begin() { k.st.returned = false }

//go:norace
func (k *call12) finish(rs []exec.Result) {
	k.st.returned = true
	k.rs = append([]exec.Result(nil), rs...)
	k.ok = true
}

func labC12(sc *Scenario, r *Result) {
	var sp Spec12
	if err := json.Unmarshal(sc.Lab, &sp); err != nil {
		r.Err = err.Error()
		return
	}
	cfg := simConfig(&sc.Sched)
	races0 := raceErrors()
	var calls [][]*call12
	ci := 0
	for _, cs := range sp.Callers {
		var l []*call12
		for _, c := range cs {
			l = append(l, buildCall(c, ci))
			ci++
		}
		calls = append(calls, l)
	}
	var ws []*logWriter
	newExec := func() *exec.Parallel {
		ex := exec.NewParallel()
		if sp.Limit != 0 {
			ex.SetConcurrency(sp.Limit)
		}
		if sp.Log != "" && sp.Log != "none" {
			w := &logWriter{kind: sp.Log, ns: sp.LogNs}
			ws = append(ws, w)
			ex.SetLogger(log.New(w, "", 0))
		}
		return ex
	}
	limit := sp.Limit
	if limit == 0 {
		limit = cfg.CPUs
	}

	runtime.SimStart(cfg)
	// inFlight[i] are the results observed at the instant a call returned.
	viol := make([][]string, len(calls))
	run := func(i int, ex *exec.Parallel) {
		for _, k := range calls[i] {
			k.begin()
			rs := ex.Execute(k.n, k.as)
			k.finish(rs)
			viol[i] = append(viol[i], k.check(limit, "at return")...)
		}
	}
	var shared *exec.Parallel
	if sp.Shared || len(calls) == 1 {
		shared = newExec()
	}
	if len(calls) == 1 {
		run(0, shared)
	} else {
		done := make(chan int, len(calls))
		for i := range calls {
			i := i
			ex := shared
			if ex == nil {
				ex = newExec()
			}
			go func() {
				run(i, ex)
				done <- i
			}()
		}
		for range calls {
			<-done
		}
	}
	if !drain() {
		r.Leaked = true
		probe(r, "goroutines_leaked", 1)
	}
	st := runtime.SimStop()
	r.fill(st)
	maxp := 0
	for i, l := range calls {
		r.Violations = append(r.Violations, viol[i]...)
		for _, k := range l {
			// Late writes into the result or the target.
			r.Violations = append(r.Violations, k.check(limit, "after all goroutines ended")...)
			if k.st.maxprog > maxp {
				maxp = k.st.maxprog
			}
			if k.st.maxprog == limit && limit < len(k.as) {
				probe(r, "limit_saturated", 1)
			}
		}
	}
	probe(r, "max_in_progress", maxp)
	for _, w := range ws {
		probe(r, "fault: logger "+w.kind, w.fired)
	}
	for _, l := range calls {
		for _, k := range l {
			for i, a := range k.as {
				c := a.(*ctlAlg)
				for _, o := range append(append([]Op12{}, c.spec.Pre...), c.spec.Post...) {
					if o.K == "s" {
						probe(r, "fault: stalled algorithm", 1)
					}
				}
				if k.want[i].err != "" {
					probe(r, "fault: failing algorithm ("+c.spec.Kind+")", 1)
				}
			}
		}
	}
	if len(r.Violations) > 8 {
		r.Violations = r.Violations[:8]
	}
	if n := raceErrors() - races0; n > 0 {
		violf(r, "race: the race detector reported %d data race(s)", n)
	}
}

//go:norace
func (k *call12) check(limit int, when string) []string {
	var v []string
	add := func(f string, a ...interface{}) { v = append(v, fmt.Sprintf(f, a...)) }
	if k.st.maxprog > limit {
		add("limit: %d algorithms were in progress at once, the limit is %d", k.st.maxprog, limit)
	}
	if k.st.inprog != 0 {
		add("barrier: Execute returned while %d algorithm(s) were still running (%s)", k.st.inprog, when)
	}
	if k.st.late != 0 {
		add("barrier: an algorithm ran after Execute returned (%s)", when)
	}
	if k.st.dirty {
		add("target: an algorithm saw a modified target")
	}
	if k.n.Cmp(k.orig) != 0 {
		add("target: the caller's target is now %v, it was %v (%s)", k.n, k.orig, when)
	}
	if len(k.rs) != len(k.as) {
		add("results: %d results for %d algorithms (%s)", len(k.rs), len(k.as), when)
		return v
	}
	for i := range k.rs {
		if d := k.want[i].diff(k.rs[i], k.orig, k.as[i]); d != "" {
			add("results: slot %d: %s (%s)", i, d, when)
			break
		}
	}
	return v
}
