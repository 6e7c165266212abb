package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Case is one generated test case: a workload, a schedule and a fault plan.
type Case struct {
	Prop  string          `json:"property"`
	Index int             `json:"index"`
	Seed  uint64          `json:"seed"`
	Kind  string          `json:"kind"`
	Race  bool            `json:"race,omitempty"`
	Sc    *Scenario       `json:"scenario,omitempty"`
	Runs  []*Scenario     `json:"runs,omitempty"`
	Spec  json.RawMessage `json:"spec,omitempty"`
	// Prefix lists scenarios to run first in the same process, for
	// violations that need state left behind by earlier calls.
	Prefix []Past `json:"prefix,omitempty"`
}

// Verdict is the judgement of one case.
type Verdict struct {
	Class                                                               string // "" when the property held
	Msg                                                                 string
	Trace                                                               string
	Infra                                                               string // trouble of the check itself
	Key                                                                 string // identifies the failing input for known findings
	Known                                                               string
	Digest                                                              uint64
	Runs                                                                int
	Steps, Preempts, Decisions, Switches, Goroutines, TimerJumps, Calls uint64
	Nanos                                                               int64
	Fired                                                               map[string]int
	Probes                                                              map[string]int
	Hashes                                                              []uint64
	Recs                                                                map[int]*Result // recordings by schedule index
	Sample                                                              interface{}
	Trivial                                                             bool
}

func (v *Verdict) fail(class, f string, a ...interface{}) {
	if v.Class == "" {
		v.Class, v.Msg = class, fmt.Sprintf(f, a...)
	}
}

func (v *Verdict) probe(k string, n int) {
	if n == 0 {
		return
	}
	if v.Probes == nil {
		v.Probes = map[string]int{}
	}
	v.Probes[k] += n
}

func (v *Verdict) dig(xs ...interface{}) {
	h := v.Digest
	for _, x := range xs {
		for _, b := range []byte(fmt.Sprintf("%v|", x)) {
			h = (h ^ uint64(b)) * 1099511628211
		}
	}
	v.Digest = h
}

// absorb adds the statistics of a run.
func (v *Verdict) absorb(o *Outcome, sc *Scenario, schedIndex int) {
	v.Runs++
	v.dig(o.Class)
	if o.Class == "harness" || o.Class == "watchdog" || o.Class == "killed" {
		if v.Infra == "" {
			v.Infra = o.Class + ": " + crashLine(o.Stderr)
		}
		return
	}
	r := o.Res
	if r == nil {
		v.dig(o.Code)
		if sc.Sched.Record {
			if rec := parseRec(o.Stderr); rec != nil {
				if v.Recs == nil {
					v.Recs = map[int]*Result{}
				}
				v.Recs[schedIndex] = rec
			}
		}
		return
	}
	v.dig(r.Outcome, r.Status, string(r.Stdout), string(r.Stderr), r.Violations, r.Steps, r.SchedHash, r.OSHash, r.Nanos, r.Fired, string(r.Data))
	v.Steps += r.Steps
	if n := o.Millis; n > v.Probes["max_real_ms"] {
		v.probe("max_real_ms", n-v.Probes["max_real_ms"])
	}
	if n := int(r.Steps); n > v.Probes["max_steps"] {
		v.probe("max_steps", n-v.Probes["max_steps"])
	}
	v.Preempts += r.Preempts
	v.Decisions += r.Decisions
	v.Switches += r.Switches
	v.Goroutines += r.Goroutines
	v.TimerJumps += r.TimerJumps
	v.Nanos += r.Nanos
	v.Calls += r.Calls
	for i, n := range r.Fired {
		if n > 0 && i < len(sc.Faults) {
			f := sc.Faults[i]
			t := f.Target
			if strings.HasPrefix(t, "/") {
				t = "file"
			}
			if v.Fired == nil {
				v.Fired = map[string]int{}
			}
			v.Fired[f.Kind+" "+f.Op+" "+t] += n
		}
	}
	for k, n := range r.Probes {
		if strings.HasPrefix(k, "max_") {
			if v.Probes == nil {
				v.Probes = map[string]int{}
			}
			if n > v.Probes[k] {
				v.Probes[k] = n
			}
			continue
		}
		if strings.HasPrefix(k, "fault: ") {
			if v.Fired == nil {
				v.Fired = map[string]int{}
			}
			v.Fired[strings.TrimPrefix(k, "fault: ")] += n
			continue
		}
		v.probe(k, n)
	}
	if r.Decisions > 0 {
		v.Hashes = append(v.Hashes, r.SchedHash)
	}
	if sc.Sched.Record {
		if v.Recs == nil {
			v.Recs = map[int]*Result{}
		}
		v.Recs[schedIndex] = r
	}
}

func parseRec(stderr string) *Result {
	i := strings.Index(stderr, "SIMREC ")
	if i < 0 {
		return nil
	}
	line := stderr[i+7:]
	if j := strings.IndexByte(line, '\n'); j >= 0 {
		line = line[:j]
	}
	parts := strings.SplitN(line, "/", 2)
	if len(parts) != 2 {
		return nil
	}
	r := &Result{}
	for _, f := range strings.Fields(parts[0]) {
		x, _ := strconv.ParseUint(f, 10, 64)
		r.RecPreempt = append(r.RecPreempt, x)
	}
	for _, f := range strings.Fields(parts[1]) {
		x, _ := strconv.ParseUint(f, 10, 64)
		r.RecPicks = append(r.RecPicks, uint16(x))
	}
	return r
}

// execCase runs a case, after its prefix if it has one.
func execCase(p *Prop, w *worker, c *Case) *Verdict {
	if len(c.Prefix) > 0 {
		w.fresh()
		for _, q := range c.Prefix {
			bin := w.plain
			if q.Race {
				bin = w.race
			}
			w.runBin(bin, q.Sc)
		}
	}
	return judge(p, w, c)
}

// judge runs a case and sets aside violations recorded as known findings.
func judge(p *Prop, w *worker, c *Case) *Verdict {
	v := p.Exec(w, c)
	if v.Class == "" || v.Infra != "" || v.Key == "" {
		return v
	}
	for _, k := range knownFindings {
		if k.Status == "finding" && k.Property == p.ID && k.Class == v.Class && k.Key == v.Key {
			v.Known, v.Class, v.Msg = k.What, "", ""
		}
	}
	return v
}

var knownFindings = loadKnown()

// Prop is the check of one property.
type Prop struct {
	ID       string
	Level    string
	NeedRace bool
	NeedRel  bool // needs the release tool
	SelfN    int  // cases in the determinism self-test
	Count    func(tier string) int
	Gen      func(r *Rng, i int, tier string) *Case
	Exec     func(w *worker, c *Case) *Verdict
	Scheds   func(c *Case) []*Sched
	Shrink   func(c *Case) []*Case
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
	Report   func(cov map[string]interface{})
	Pre      func(w *worker) error // sanity of the reference model, run once
}

var props = map[string]*Prop{}

type agg struct {
	mu                                                     sync.Mutex
	cases                                                  int
	runs                                                   int
	steps, preempts, decisions, switches, gs, jumps, calls uint64
	nanos                                                  int64
	fired                                                  map[string]int
	probes                                                 map[string]int
	hashes                                                 map[uint64]struct{}
	digests                                                map[uint64]struct{}
	kinds                                                  map[string]int
	samples                                                []interface{}
	known                                                  map[string]int
	expect                                                 map[int]uint64
	diverged                                               int
}

func newAgg() *agg {
	return &agg{fired: map[string]int{}, probes: map[string]int{}, hashes: map[uint64]struct{}{}, digests: map[uint64]struct{}{}, kinds: map[string]int{}, known: map[string]int{}}
}

func (a *agg) add(c *Case, v *Verdict) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.cases++
	if d, ok := a.expect[c.Index]; ok && v.Class == "" && d != v.Digest {
		a.diverged = c.Index + 1
	}
	a.kinds[c.Kind]++
	if v.Known != "" {
		a.known[v.Known]++
	}
	a.runs += v.Runs
	a.steps += v.Steps
	a.preempts += v.Preempts
	a.decisions += v.Decisions
	a.switches += v.Switches
	a.gs += v.Goroutines
	a.jumps += v.TimerJumps
	a.calls += v.Calls
	a.nanos += v.Nanos
	for k, n := range v.Fired {
		a.fired[k] += n
	}
	for k, n := range v.Probes {
		if strings.HasPrefix(k, "max_") {
			if n > a.probes[k] {
				a.probes[k] = n
			}
		} else {
			a.probes[k] += n
		}
	}
	for _, h := range v.Hashes {
		if len(a.hashes) < 4<<20 {
			a.hashes[h] = struct{}{}
		}
	}
	if !v.Trivial {
		if len(a.digests) < 4<<20 {
			a.digests[v.Digest] = struct{}{}
		}
	}
	if v.Sample != nil && len(a.samples) < 8 && (a.cases%17 == 1 || len(a.samples) < 3) {
		a.samples = append(a.samples, v.Sample)
	}
}

func workers() int {
	if s := os.Getenv("VSIM_WORKERS"); s != "" {
		if n, _ := strconv.Atoi(s); n > 0 {
			return n
		}
	}
	return 8
}

type failure struct {
	c    *Case
	v    *Verdict
	hist []Past
}

// runCases executes cases [lo,hi) and returns the first failure by index.
func runCases(p *Prop, lo, hi int, gen func(i int) *Case, plain, race string, a *agg, deadline time.Time) (*failure, error, int) {
	var mu sync.Mutex
	next := lo
	var first *failure
	var infra error
	done := 0
	var wg sync.WaitGroup
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(plain, race)
			defer w.close()
			for {
				mu.Lock()
				if next >= hi || first != nil || infra != nil || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				from := next
				next += chunk
				mu.Unlock()
				w.fresh()
				for i := from; i < from+chunk && i < hi; i++ {
					mu.Lock()
					stop := (first != nil && first.c.Index < i) || infra != nil || time.Now().After(deadline)
					mu.Unlock()
					if stop {
						return
					}
					c := gen(i)
					hist := w.hist[:len(w.hist):len(w.hist)]
					v := judge(p, w, c)
					if v.Infra == "" {
						a.add(c, v)
					}
					mu.Lock()
					done++
					if v.Infra != "" && infra == nil {
						infra = fmt.Errorf("case %d (%s): %s", i, c.Kind, v.Infra)
						dumpCase(c, "infra")
					}
					if v.Class != "" && v.Infra == "" {
						if first == nil || i < first.c.Index {
							first = &failure{c, v, hist}
						}
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return first, infra, done
}

func dumpCase(c *Case, tag string) string {
	dir := filepath.Join(buildDir(), "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", c.Prop, tag, c.Seed, c.Index))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": c.Prop, "case": c}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// minimise shrinks a failing case while the violation class stays the same.
func minimise(p *Prop, c *Case, class string, plain, race string, budget time.Duration) *Case {
	w := newWorker(plain, race)
	defer w.close()
	end := time.Now().Add(budget)
	tries := 0
	test := func(x *Case) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		w.fresh()
		v := execCase(p, w, x)
		return v.Infra == "" && v.Class == class
	}
	seen := map[string]bool{}
	shrinkAll := func() {
		for changed := true; changed && time.Now().Before(end); {
			changed = false
			for _, x := range p.Shrink(c) {
				j, _ := json.Marshal(x)
				if seen[string(j)] {
					continue
				}
				seen[string(j)] = true
				if test(x) {
					c, changed = x, true
					break
				}
			}
		}
	}
	schedAll := func() {
		for i := range p.Scheds(c) {
			// The calmest schedule first.
			x := clone(c)
			*p.Scheds(x)[i] = calm(*p.Scheds(x)[i])
			if test(x) {
				c = x
			}
		}
	}
	for n := len(c.Prefix) / 2; n >= 1; {
		ok := false
		for at := 0; at < len(c.Prefix); at += n {
			x := clone(c)
			to := at + n
			if to > len(x.Prefix) {
				to = len(x.Prefix)
			}
			x.Prefix = append(x.Prefix[:at:at], x.Prefix[to:]...)
			if test(x) {
				c, ok = x, true
				break
			}
		}
		if !ok || n > len(c.Prefix) {
			n /= 2
		}
	}
	schedAll()
	shrinkAll()
	schedAll()
	for i := range p.Scheds(c) {
		s := p.Scheds(c)[i]
		if s.Replay {
			continue
		}
		x := clone(c)
		p.Scheds(x)[i].Record = true
		w.fresh()
		v := execCase(p, w, x)
		rec := v.Recs[i]
		if v.Class != class || rec == nil || rec.Truncated {
			continue
		}
		x = clone(c)
		sx := p.Scheds(x)[i]
		sx.Replay, sx.Record = true, false
		sx.Preempts, sx.Picks = rec.RecPreempt, rec.RecPicks
		if !test(x) {
			continue
		}
		c = x
		// ddmin over preemptions.
		for n := 2; ; {
			s := p.Scheds(c)[i]
			if len(s.Preempts) == 0 || time.Now().After(end) {
				break
			}
			size := (len(s.Preempts) + n - 1) / n
			ok := false
			for at := 0; at < len(s.Preempts); at += size {
				x := clone(c)
				sx := p.Scheds(x)[i]
				to := at + size
				if to > len(sx.Preempts) {
					to = len(sx.Preempts)
				}
				sx.Preempts = append(append([]uint64{}, sx.Preempts[:at]...), sx.Preempts[to:]...)
				if test(x) {
					c, ok = x, true
					break
				}
			}
			if ok {
				if n > 2 {
					n--
				}
				continue
			}
			if size <= 1 {
				break
			}
			n *= 2
		}
		// Cut, then zero, the picks.
		for len(p.Scheds(c)[i].Picks) > 0 && time.Now().Before(end) {
			x := clone(c)
			sx := p.Scheds(x)[i]
			sx.Picks = sx.Picks[:len(sx.Picks)/2]
			if !test(x) {
				break
			}
			c = x
		}
		for len(p.Scheds(c)[i].Picks) > 0 && time.Now().Before(end) {
			x := clone(c)
			sx := p.Scheds(x)[i]
			sx.Picks = sx.Picks[:len(sx.Picks)-1]
			if !test(x) {
				break
			}
			c = x
		}
		for j := 0; j < len(p.Scheds(c)[i].Picks) && j < 400; j++ {
			if p.Scheds(c)[i].Picks[j] == 0 {
				continue
			}
			x := clone(c)
			p.Scheds(x)[i].Picks[j] = 0
			if test(x) {
				c = x
			}
		}
	}
	shrinkAll()
	logf("minimised with %d runs", tries)
	return c
}

// calm is the FIFO schedule without preemption.
func calm(s Sched) Sched {
	s.Replay, s.Record = true, false
	s.Preempts, s.Picks = nil, nil
	return s
}

type replayFile struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	Trace    string `json:"trace,omitempty"`
	Case     *Case  `json:"case"`
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // finding, fixed
	Class    string `json:"class,omitempty"`
	Key      string `json:"key,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func seedEnv() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 3
)

func strHash(s string) uint64 {
	var h uint64 = 1469598103934665603
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func check(id, tier string) int {
	p := props[id]
	if p == nil {
		logf("no check for %s", id)
		return exitError
	}
	seed := seedEnv()
	logf("property %s tier %s seed %d", id, tier, seed)
	t0 := time.Now()
	b, err := prepare()
	if err != nil {
		logf("prepare: %v", err)
		return exitError
	}
	plain, err := buildSim(false)
	if err != nil {
		logf("%v", err)
		return exitError
	}
	race := ""
	if p.NeedRace {
		if race, err = buildSim(true); err != nil {
			logf("%v", err)
			return exitError
		}
	}
	if p.NeedRel {
		if _, err = buildTool("simrel", "./internal/tools/release", false); err != nil {
			logf("%v", err)
			return exitError
		}
	}
	buildS := time.Since(t0).Seconds()
	count := p.Count(tier)
	gen := func(i int) *Case {
		s := mix(seed, strHash(id), uint64(i))
		// Systematic cases have the lowest numbers; they and the random ones
		// take turns, so a slow machine gets to both.
		k := i
		if i < count {
			k = i / 2
			if i%2 == 1 {
				k += (count + 1) / 2
			}
		}
		c := p.Gen(newRng(s), k, tier)
		c.Prop, c.Index, c.Seed = id, i, s
		return c
	}
	if p.Pre != nil {
		w := newWorker(plain, race)
		err := p.Pre(w)
		w.close()
		if err != nil {
			logf("self-check of the reference model: %v", err)
			return exitError
		}
	}
	// Determinism self-test: the same cases in fresh processes, twice, at two
	// worker counts.
	total := count
	nself := p.SelfN
	if tier == "thorough" {
		nself *= 10
	}
	if nself > total {
		nself = total
	}
	det, err := selfTest(p, gen, total, nself, plain, race)
	if err != nil {
		logf("determinism self-test: %v", err)
		return exitError
	}
	deadline := time.Now().Add(420 * time.Second)
	if tier == "thorough" {
		deadline = time.Now().Add(24 * time.Hour)
	}
	if s := os.Getenv("VSIM_SECONDS"); s != "" {
		n, _ := strconv.Atoi(s)
		deadline = time.Now().Add(time.Duration(n) * time.Second)
		total = 1 << 40
	}
	a := newAgg()
	a.expect = det.digests
	tRun := time.Now()
	var fail *failure
	var infra error
	done := 0
	if det.fail != nil {
		fail, done = det.fail, 1
		a.add(fail.c, fail.v)
	} else {
		fail, infra, done = runCases(p, 0, total, gen, plain, race, a, deadline)
	}
	runS := time.Since(tRun).Seconds()
	code := exitOK
	violations := 0
	if fail != nil {
		violations = 1
		code = report(p, fail, plain, race, det.digests)
	} else if a.diverged != 0 {
		logf("case %d diverged from the self-test: the simulator is not deterministic here", a.diverged-1)
		return exitError
	} else if infra != nil {
		logf("check trouble: %v", infra)
		return exitError
	}
	cov := map[string]interface{}{
		"evaluations": a.runs, "distinct_nontrivial": len(a.digests), "rule": p.Rule, "samples": a.samples,
		"cases": done, "cases_by_kind": a.kinds, "simulated_runs_per_hour": int(float64(a.runs) / runS * 3600),
		"seeds_per_hour": int(float64(done) / runS * 3600), "simulated_seconds": float64(a.nanos) / 1e9,
		"steps": a.steps, "preemptions": a.preempts, "scheduling_decisions": a.decisions, "context_switches": a.switches,
		"goroutines": a.gs, "virtual_timer_jumps": a.jumps, "virtual_syscalls": a.calls,
		"faults_fired": a.fired, "probes": a.probes,
		"distinct_interleavings": len(a.hashes), "interleaving_measure": "hash of the sequence (goroutine switched to, step) over runs with at least one scheduling choice",
		"real_components": p.Real, "stub_components": p.Stub,
		"determinism_selftest": map[string]interface{}{"cases": det.cases, "runs": det.runs, "processes": det.procs, "worker_counts": det.counts, "divergences": 0},
		"instrumented_files":   b.files, "yield_points": b.yields, "build_s": buildS, "run_s": runS,
	}
	if p.Report != nil {
		p.Report(cov)
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(js, '\n'), 0o644); err != nil {
		logf("evidence: %v", err)
		return exitError
	}
	kn := make([]string, 0)
	for k := range a.known {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	logf("%s: %d cases, %d runs in %.1fs (+%.1fs build), %d distinct interleavings, faults %v", id, done, a.runs, runS, buildS, len(a.hashes), a.fired)
	ks := make([]string, 0)
	for k, n := range a.probes {
		ks = append(ks, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ks)
	logf("probes: %s", strings.Join(ks, " "))
	return code
}

type detInfo struct {
	cases, runs, procs int
	counts             []int
	digests            map[int]uint64
	fail               *failure // a violation met on the way
}

func selfTest(p *Prop, gen func(int) *Case, total, n int, plain, race string) (*detInfo, error) {
	chunks := (n + chunk - 1) / chunk
	if m := (total + chunk - 1) / chunk; chunks > m {
		chunks = m
	}
	info := &detInfo{counts: []int{workers(), 3}, digests: map[int]uint64{}}
	stride := (total/chunk + chunks - 1) / chunks
	if stride < 1 {
		stride = 1
	}
	var mu sync.Mutex
	for round, nw := range info.counts {
		var wg sync.WaitGroup
		ch := make(chan int)
		var first error
		for k := 0; k < nw; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w := newWorker(plain, race)
				defer w.close()
				for from := range ch {
					mu.Lock()
					skip := first != nil || info.fail != nil
					mu.Unlock()
					if skip {
						continue
					}
					w.fresh()
					for i := from; i < from+chunk && i < total; i++ {
						c := gen(i)
						hist := w.hist[:len(w.hist):len(w.hist)]
						v := judge(p, w, c)
						mu.Lock()
						info.runs += v.Runs
						if round == 0 {
							info.cases++
						}
						stop := first != nil || info.fail != nil
						if v.Infra != "" {
							if first == nil {
								first = fmt.Errorf("case %d: %s", i, v.Infra)
							}
							stop = true
						} else if v.Class != "" {
							if info.fail == nil || i < info.fail.c.Index {
								info.fail = &failure{c, v, hist}
							}
							stop = true
						} else {
							if d, ok := info.digests[i]; ok && d != v.Digest {
								if first == nil {
									first = fmt.Errorf("case %d diverged between two runs", i)
									dumpCase(gen(i), "diverge")
								}
							}
							info.digests[i] = v.Digest
						}
						mu.Unlock()
						if stop {
							break
						}
					}
				}
				mu.Lock()
				info.procs += w.procs
				mu.Unlock()
			}()
		}
		for k := 0; k < chunks; k++ {
			if from := k * stride * chunk; from < total {
				ch <- from
			}
		}
		close(ch)
		wg.Wait()
		if first != nil && info.fail == nil {
			return nil, first
		}
		if info.fail != nil {
			break
		}
	}
	return info, nil
}

func report(p *Prop, f *failure, plain, race string, _ map[int]uint64) int {
	logf("case %d (%s) violates %s: %s: %s", f.c.Index, f.c.Kind, p.ID, f.v.Class, f.v.Msg)
	w := newWorker(plain, race)
	defer w.close()
	// A violation counts only if it reproduces in a fresh process.
	v := execCase(p, w, clone(f.c))
	if v.Class != f.v.Class && len(f.hist) > 0 {
		logf("not reproduced on its own; replaying the %d scenarios before it in its process", len(f.hist))
		x := clone(f.c)
		x.Prefix = f.hist
		v = execCase(p, w, clone(x))
		f.c = x
	}
	if v.Infra != "" || v.Class != f.v.Class {
		logf("the violation did not reproduce in a fresh process (%q %q); this is trouble of the check", v.Class, v.Infra)
		dumpCase(f.c, "unstable")
		return exitError
	}
	budget := 60 * time.Second
	if s := os.Getenv("VSIM_MINIMISE"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	m := clone(f.c)
	if v.Class == "steps" {
		// Shorter runs while minimising; the result is confirmed in full.
		cutBudgets(p, m, 0)
	}
	c := minimise(p, m, f.v.Class, plain, race, budget)
	if v.Class == "steps" {
		full := uint64(0)
		for _, s := range p.Scheds(f.c) {
			full = max(full, s.Budget)
		}
		cutBudgets(p, c, full)
	}
	w.fresh()
	v = execCase(p, w, clone(c))
	if v.Class != f.v.Class {
		c = f.c
		w.fresh()
		v = execCase(p, w, clone(c))
	}
	rf := replayFile{Property: p.ID, Class: v.Class, Message: v.Msg, Trace: v.Trace, Case: c}
	js, _ := json.MarshalIndent(rf, "", " ")
	dir := filepath.Join(buildDir(), "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, f.c.Seed))
	if err := os.WriteFile(path, js, 0o644); err != nil {
		logf("%v", err)
		return exitError
	}
	logf("minimised: %s: %s", v.Class, v.Msg)
	if v.Trace != "" {
		t := v.Trace
		if len(t) > 3000 {
			t = t[:3000]
		}
		logf("%s", t)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return exitViolation
}

// cutBudgets sets the step budgets of a case, by default to a fraction.
func cutBudgets(p *Prop, c *Case, to uint64) {
	for _, s := range p.Scheds(c) {
		if to != 0 {
			s.Budget = to
		} else if s.Budget /= 20; s.Budget < 20_000_000 {
			s.Budget = 20_000_000
		}
	}
}

func replay(path string) int {
	d, err := os.ReadFile(path)
	if err != nil {
		logf("%v", err)
		return exitError
	}
	var rf replayFile
	if err := json.Unmarshal(d, &rf); err != nil {
		logf("%v", err)
		return exitError
	}
	p := props[rf.Property]
	if p == nil {
		logf("no check for %q", rf.Property)
		return exitError
	}
	if _, err := prepare(); err != nil {
		logf("%v", err)
		return exitError
	}
	plain, err := buildSim(false)
	race := ""
	if err == nil && p.NeedRace {
		race, err = buildSim(true)
	}
	if err == nil && p.NeedRel {
		_, err = buildTool("simrel", "./internal/tools/release", false)
	}
	if err != nil {
		logf("%v", err)
		return exitError
	}
	w := newWorker(plain, race)
	defer w.close()
	v := execCase(p, w, rf.Case)
	if v.Infra != "" {
		logf("trouble: %s", v.Infra)
		return exitError
	}
	if v.Class == "" {
		fmt.Printf("property %s held on this replay\n", rf.Property)
		return exitOK
	}
	fmt.Printf("class: %s\n%s\n%s\n", v.Class, v.Msg, v.Trace)
	if rf.Class != "" && (v.Class != rf.Class || v.Msg != rf.Message) {
		fmt.Printf("note: the file recorded %s: %s\n", rf.Class, rf.Message)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return exitViolation
}
