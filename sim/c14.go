package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// spec14 is a session: searches of one expression under different schedules
// and settings, then the other commands on the printed script.
type spec14 struct {
	Expr     string  `json:"expr"`
	N        string  `json:"n"` // hex
	Add      float64 `json:"add"`
	Double   float64 `json:"double"`
	Searches int     `json:"searches"`
	// Prior: the last run is a search of the same expression for other costs,
	// which comes first and leaves its files behind.
	Prior bool `json:"prior,omitempty"`
}

// genExpr returns an expression with a known positive value.
func genExpr(r *Rng, bits int) (string, *big.Int) {
	n := new(big.Int)
	n.SetString(genN(r, bits), 16)
	lit := func(x *big.Int) string {
		switch r.N(4) {
		case 0:
			return "0x" + x.Text(16)
		case 1:
			if x.BitLen() < 200 {
				return "0b" + x.Text(2)
			}
		}
		return x.Text(10)
	}
	sp := func() string { return strings.Repeat(" ", pick(r, 0, 0, 0, 1, 1, 2)) }
	join := func(xs ...string) string {
		var b strings.Builder
		for i, x := range xs {
			if i > 0 {
				b.WriteString(sp())
			}
			b.WriteString(x)
		}
		return b.String()
	}
	small := func() *big.Int { return big.NewInt(int64(r.In(1, 40))) }
	switch r.N(8) {
	case 0: // 2^k - c
		k := r.In(6, max(bits, 6))
		c := small()
		v := new(big.Int).Lsh(big.NewInt(1), uint(k))
		return join("2", "^", strconv.Itoa(k), "-", lit(c)), v.Sub(v, c)
	case 1: // 2^k + c
		k := r.In(1, max(bits-1, 1))
		c := small()
		v := new(big.Int).Lsh(big.NewInt(1), uint(k))
		return join("2", "^", strconv.Itoa(k), "+", lit(c)), v.Add(v, c)
	case 2: // a*b + c
		a, b, c := new(big.Int), small(), small()
		a.SetString(genN(r, max(bits-6, 1)), 16)
		v := new(big.Int).Mul(a, b)
		return join(lit(a), "*", lit(b), "+", lit(c)), v.Add(v, c)
	case 3: // 2^a - 2^b - c, as in prime moduli
		a := r.In(8, max(bits, 8))
		b := r.In(1, a-2)
		c := big.NewInt(int64(r.N(2)))
		v := new(big.Int).Lsh(big.NewInt(1), uint(a))
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(b)))
		v.Sub(v, c)
		return join("2", "^", strconv.Itoa(a), "-", "2", "^", strconv.Itoa(b), "-", lit(c)), v
	case 4: // n*b/b
		b := small()
		return join(lit(new(big.Int).Mul(n, b)), "/", lit(b)), n
	}
	return sp() + lit(n) + sp(), n
}

func floatArg(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

// benign returns faults a correct program absorbs without any effect on its
// result: interrupted and short reads and writes, and stalls.
func benign(r *Rng, target string) []Fault {
	var l []Fault
	for n := r.N(4); n > 0; n-- {
		switch r.N(5) {
		case 0:
			l = append(l, Fault{Op: "read", Target: target, Nth: r.In(1, 6), Kind: "EINTR"})
		case 1:
			l = append(l, Fault{Op: "read", Target: target, Nth: r.In(1, 6), Kind: "SHORT", Arg: int64(r.In(1, 30))})
		case 2:
			l = append(l, Fault{Op: "write", Target: "stdout", Nth: r.In(1, 20), Kind: "EINTR"})
		case 3:
			l = append(l, Fault{Op: "write", Target: "stdout", Nth: r.In(1, 20), Kind: "SHORT", Arg: int64(r.In(1, 10))})
		default:
			l = append(l, Fault{Op: pick(r, "read", "write"), Nth: r.In(1, 20), Kind: "STALL", Arg: int64(r.N(1 << uint(r.In(1, 38))))})
		}
	}
	return l
}

func chunks(r *Rng) []int {
	var l []int
	if r.P(1, 2) {
		for n := r.In(1, 40); n > 0; n-- {
			l = append(l, r.In(1, pick(r, 1, 3, 20, 200)))
		}
	}
	return l
}

func exited(o *Outcome) (int, bool) {
	if o.Class != "ok" || o.Res == nil {
		return 0, false
	}
	return o.Res.Status, o.Res.Outcome == "exit" || o.Res.Outcome == "return"
}

// failRun records an abnormal end of a run. It reports whether the run ended
// by itself.
func (v *Verdict) ended(o *Outcome, sc *Scenario) bool {
	switch o.Class {
	case "ok":
		return true
	case "deadlock", "steps", "crash", "memory":
		v.fail(o.Class, "%v: %s %s", sc.Args, crashLine(o.Stderr), crashSite(o.Stderr))
		v.Trace = o.Stderr
	}
	return false
}

func logValue(stderr, key string) (string, bool) {
	found, val := false, ""
	for _, l := range strings.Split(stderr, "\n") {
		if l = strings.TrimPrefix(l, "addchain: "); strings.HasPrefix(l, key+": ") {
			val, found = strings.TrimPrefix(l, key+": "), true
		}
	}
	return val, found
}

type soloRes struct {
	Name    string
	Doubles int
	Adds    int
	Err     string
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func init() {
	props["C14"] = &Prop{
		ID: "C14", Level: "exploration", SelfN: 100,
		Count: func(tier string) int {
			if tier == "thorough" {
				return 60000
			}
			return 1800
		},
		Gen: func(r *Rng, i int, tier string) *Case {
			sp := spec14{Add: 1, Double: 1, Searches: 2}
			bits := pick(r, 4, 6, 8, 12, 16, 24, 32, 48, 64, 100)
			if tier == "thorough" {
				bits = pick(r, 4, 8, 12, 16, 24, 32, 64, 128, 256)
			}
			if i%60 == 59 && i >= 160 {
				bits = pick(r, 160, 200, 256, 256, 384)
			}
			var n *big.Int
			small := 160
			if tier == "thorough" {
				small = 4096
			}
			if i < small {
				n = big.NewInt(int64(i + 1))
				sp.Expr = strconv.Itoa(i + 1)
			} else {
				for n == nil || n.Sign() <= 0 {
					sp.Expr, n = genExpr(r, bits)
				}
			}
			sp.N = n.Text(16)
			if r.P(3, 4) {
				ws := []float64{1, 2, 3, 0.5, 1.5, 0.001, 0.1, 1e6, 1e-9, 7.25, 0.8, 1.2, 5, 10, 100, 1e18}
				sp.Add, sp.Double = ws[r.N(len(ws))], ws[r.N(len(ws))]
				if r.P(1, 5) { // any magnitude
					m := []float64{5e-324, 1e-300, 1e300, 3e-7, 123456.789, 0.30000000000000004, 16777217, 9007199254740993}
					sp.Add = m[r.N(len(m))]
					if r.P(1, 2) {
						sp.Double = sp.Add * (1 + float64(r.N(9)))
					}
				} else if r.P(1, 4) { // any digits
					sp.Add = float64(r.In(1, 1<<30)) / float64(r.In(1, 1<<20))
					sp.Double = sp.Add * (float64(r.In(1, 1<<20)) / float64(1<<19))
				}
			}
			if r.P(1, 4) {
				sp.Searches = 3
			}
			c := &Case{Kind: fmt.Sprintf("bits<=%d", bits)}
			if i < small {
				c.Kind = "small"
			}
			for k := 0; k < sp.Searches; k++ {
				s := genSched(r)
				s.Mean = pick(r, int64(0), 3, 20, 200, 1000, 5000, 50000)
				if n.BitLen() > 40 {
					s.Mean = pick(r, int64(0), 1000, 5000, 50000)
				}
				s.Budget = 3_000_000_000
				if n.BitLen() > 128 {
					s.Budget *= 4
				}
				s.Mem = 3 << 30
				var args []string
				args = append(args, "search")
				if r.P(1, 5) {
					args = append(args, "-v")
				}
				if p := pick(r, 0, 1, 2, 3, 4, 7, 16, 64, 500, 100000, r.In(1, 700)); p > 0 {
					args = append(args, "-p", strconv.Itoa(p))
				}
				if sp.Add != 1 || r.P(1, 5) {
					args = append(args, "-add", floatArg(sp.Add))
				}
				if sp.Double != 1 || r.P(1, 5) {
					args = append(args, "-double", floatArg(sp.Double))
				}
				args = append(args, sp.Expr)
				sc := &Scenario{Kind: "cli", Sched: s, Args: args}
				if r.P(1, 3) {
					sc.Faults = benign(r, "stdin")
				}
				c.Runs = append(c.Runs, sc)
			}
			add := func(file bool, args ...string) {
				s := genSched(r)
				s.Budget = 400_000_000
				s.Mem = 2 << 30
				sc := &Scenario{Kind: "cli", Sched: s, Args: args, Files: map[string][]byte{}}
				t := "stdin"
				if file {
					sc.Args = append(sc.Args, "in.acc")
					t = "/work/in.acc"
				} else {
					sc.Chunks = chunks(r)
				}
				sc.Faults = benign(r, t)
				c.Runs = append(c.Runs, sc)
			}
			add(r.P(1, 3), "eval")
			add(r.P(1, 3), "fmt")
			add(r.P(1, 3), "fmt", "-b")
			if n.Cmp(big.NewInt(1)) > 0 {
				switch t := pick(r, "", "listing", "chain", "ops", "script"); t {
				case "":
					add(r.P(1, 3), "gen")
				default:
					add(r.P(1, 3), "gen", "-type", t)
				}
			}
			if sp.Prior = n.BitLen() <= 40 && r.P(1, 8); sp.Prior {
				s := genSched(r)
				s.Mean = pick(r, int64(0), 200, 5000)
				s.Budget, s.Mem = 3_000_000_000, 3<<30
				costs := []float64{1, 2, 0.5, 3, 10, 100, 1e-9, 1e6}
				c.Runs = append(c.Runs, &Scenario{Kind: "cli", Sched: s, Args: []string{"search",
					"-add", floatArg(costs[r.N(len(costs))]), "-double", floatArg(costs[r.N(len(costs))]), sp.Expr}})
			}
			c.Spec, _ = json.Marshal(sp)
			return c
		},
		Exec:   exec14,
		Scheds: runScheds,
		Shrink: shrink14,
		Rule:   "a case is a seeded session: searches of one expression under different schedules, -p, -v, CPU counts, clocks, pids and random seeds, then eval, fmt, fmt -b and gen on the printed script with chunked, interrupted, short and stalled I/O; non-trivial if a search switched between at least two goroutines; distinct by digest of everything observed",
		Real:   []string{"the whole addchain command: cmd/addchain, internal/calc, internal/cli, alg/*, acc/*, internal/gen", "flag, log, os, text/tabwriter, text/template, github.com/google/subcommands", "Go runtime (scheduling decision replaced)"},
		Stub:   []string{"kernel: file system, standard streams, clock, randomness, NumCPU, pid"},
		Assume: []string{"the minimum is recomputed from every ensemble algorithm executed alone through exec.Execute", "targets up to 100 bits in the quick tier, up to 256 bits in the thorough tier, one case in sixty up to 384 bits"},
	}
}

func runScheds(c *Case) []*Sched {
	var l []*Sched
	if c.Sc != nil {
		l = append(l, &c.Sc.Sched)
	}
	for _, s := range c.Runs {
		l = append(l, &s.Sched)
	}
	return l
}

func exec14(w *worker, c *Case) *Verdict {
	v := &Verdict{Trivial: true}
	var sp spec14
	json.Unmarshal(c.Spec, &sp)
	n, _ := new(big.Int).SetString(sp.N, 16)
	v.Sample = map[string]interface{}{"case": c.Index, "expr": sp.Expr, "add": sp.Add, "double": sp.Double, "searches": func() (l [][]string) {
		for _, s := range c.Runs {
			l = append(l, s.Args)
		}
		return
	}()}
	var script, quiet string
	haveQuiet := false
	var cost string
	// The runs of a session share a disk: what one leaves the next finds.
	disk := map[string][]byte{}
	run := func(sc *Scenario) *Outcome {
		if len(disk) > 0 {
			sc = clone(sc)
			if sc.Files == nil {
				sc.Files = map[string][]byte{}
			}
			for name, data := range disk {
				if _, ok := sc.Files[name]; !ok {
					sc.Files[name] = data
				}
			}
		}
		o := w.run(sc)
		if o.Res != nil {
			disk = map[string][]byte{}
			for name, data := range o.Res.Files {
				if name != "/work/in.acc" {
					disk[name] = data
				}
			}
			if len(disk) > 0 {
				v.probe("runs_leaving_files", 1)
			}
		}
		return o
	}
	rest := len(c.Runs)
	if sp.Prior {
		rest--
		sc := c.Runs[rest]
		o := run(sc)
		v.absorb(o, sc, rest)
		if v.Infra != "" || !v.ended(o, sc) {
			return v
		}
		v.probe("prior_searches", 1)
	}
	for k := 0; k < sp.Searches; k++ {
		sc := c.Runs[k]
		o := run(sc)
		v.absorb(o, sc, k)
		if v.Infra != "" || !v.ended(o, sc) {
			return v
		}
		if o.Res.Goroutines > 1 {
			v.Trivial = false
		}
		st, ok := exited(o)
		if !ok || st != 0 {
			v.fail("search-fails", "%q exits with status %d: %s", sc.Args, st, clip(string(o.Res.Stderr)))
			return v
		}
		out, errs := string(o.Res.Stdout), string(o.Res.Stderr)
		verbose := sc.Args[1] == "-v"
		cv, ok := logValue(errs, "cost")
		if !ok {
			v.fail("no-cost", "%q reports no cost: %s", sc.Args, clip(errs))
			return v
		}
		if k == 0 {
			script, cost = out, cv
		} else {
			if out != script {
				v.fail("not-reproducible", "%q prints a different script than %q:\n%s\n--- versus\n%s", sc.Args, c.Runs[0].Args, clip(out), clip(script))
				return v
			}
			if cv != cost {
				v.fail("not-reproducible", "%q reports cost %s, %q reports %s", sc.Args, cv, c.Runs[0].Args, cost)
				return v
			}
		}
		if !verbose {
			if haveQuiet && errs != quiet {
				v.fail("not-reproducible", "%q: standard error differs between runs:\n%s\n--- versus\n%s", sc.Args, clip(errs), clip(quiet))
				return v
			}
			quiet, haveQuiet = errs, true
		} else {
			v.probe("verbose_searches", 1)
		}
	}
	v.probe("searches_compared", sp.Searches)
	// The script, by the reference model.
	_, ev, _, err := refLoad(script, 100000)
	if err != nil {
		v.fail("script", "the printed script does not load by the reference model: %v\n%s", err, clip(script))
		return v
	}
	if ev.end().Cmp(n) != 0 {
		v.fail("wrong-target", "the printed script for %q ends at %x, want %x\n%s", sp.Expr, ev.end(), n, clip(script))
		return v
	}
	d, a := ev.counts()
	want := sp.Double*float64(d) + sp.Add*float64(a)
	got, err := strconv.ParseFloat(cost, 64)
	if err != nil || !close12(got, want) {
		v.fail("cost", "%q reports cost %s, the script has %d doublings and %d additions: %v", c.Runs[0].Args, cost, d, a, want)
		return v
	}
	// The minimum over the algorithms executed alone.
	lab, _ := json.Marshal(sp.N)
	so := w.run(&Scenario{Kind: "solo", Lab: lab})
	if so.Class != "ok" {
		v.Infra = "solo: " + so.Class + " " + crashLine(so.Stderr)
		return v
	}
	var solo []soloRes
	json.Unmarshal(so.Res.Data, &solo)
	minc, at := math.Inf(1), -1
	for i, s := range solo {
		if s.Err != "" {
			v.fail("algorithm-error", "%s: %s", s.Name, s.Err)
			return v
		}
		if x := sp.Double*float64(s.Doubles) + sp.Add*float64(s.Adds); x < minc {
			minc, at = x, i
		}
	}
	if len(solo) == 0 || !close12(minc, got) {
		v.fail("not-minimal", "%q reports cost %s, algorithm %d alone gives %v", c.Runs[0].Args, cost, at, minc)
		return v
	}
	v.dig(minc, at, len(solo))
	if sp.Add != 1 || sp.Double != 1 {
		v.probe("weighted_costs", 1)
	}
	// The other commands on the script.
	for k := sp.Searches; k < rest; k++ {
		sc := clone(c.Runs[k])
		if sc.Args[len(sc.Args)-1] == "in.acc" {
			sc.Files = map[string][]byte{"in.acc": []byte(script)}
		} else {
			sc.Stdin = []byte(script)
		}
		o := run(sc)
		v.absorb(o, sc, k)
		if v.Infra != "" || !v.ended(o, sc) {
			return v
		}
		st, ok := exited(o)
		if !ok || st != 0 {
			v.fail("rejected", "%q rejects the script of %q: status %d %s\n%s", sc.Args, sp.Expr, st, clip(string(o.Res.Stderr)), clip(script))
			return v
		}
		out := string(o.Res.Stdout)
		var err error
		switch {
		case sc.Args[0] == "eval":
			err = refEvalDump(out, ev)
		case sc.Args[0] == "fmt":
			err = sameScript(out, ev)
		case len(sc.Args) > 2 && sc.Args[1] == "-type" && sc.Args[2] == "chain":
			err = checkChainOut(out, ev)
		case len(sc.Args) > 2 && sc.Args[1] == "-type" && sc.Args[2] == "ops":
			err = checkOpsOut(out, ev)
		case len(sc.Args) > 2 && sc.Args[1] == "-type" && sc.Args[2] == "script":
			err = sameScript(out, ev)
		default:
			err = checkListing(out, n)
		}
		if err != nil {
			v.fail("command-output", "%q on the script of %q: %v\n%s", sc.Args, sp.Expr, err, clip(out))
			return v
		}
	}
	return v
}

// sameScript checks that text loads to the same chain and operations.
func sameScript(text string, ev *refEval) error {
	_, e2, _, err := refLoad(text, 100000)
	if err != nil {
		return fmt.Errorf("the output does not load: %w", err)
	}
	if !sameChain(e2.Chain, ev.Chain) || !sameOps(e2.Ops, ev.Ops) {
		return fmt.Errorf("the output loads to another chain")
	}
	return nil
}

func close12(a, b float64) bool {
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= 1e-12*math.Max(math.Abs(a), math.Abs(b))
}

func shrink14(c *Case) []*Case {
	var sp spec14
	json.Unmarshal(c.Spec, &sp)
	var out []*Case
	put := func(f func(x *Case, s *spec14)) {
		x := clone(c)
		s := sp
		f(x, &s)
		x.Spec, _ = json.Marshal(s)
		out = append(out, x)
	}
	for k := range c.Runs {
		if k >= sp.Searches || k > 0 && sp.Searches > 1 {
			put(func(x *Case, s *spec14) {
				x.Runs = append(x.Runs[:k:k], x.Runs[k+1:]...)
				if k < sp.Searches {
					s.Searches--
				} else if sp.Prior && k == len(c.Runs)-1 {
					s.Prior = false
				}
			})
		}
		for j := range c.Runs[k].Faults {
			put(func(x *Case, s *spec14) {
				x.Runs[k].Faults = append(x.Runs[k].Faults[:j:j], x.Runs[k].Faults[j+1:]...)
			})
		}
		if len(c.Runs[k].Chunks) > 0 {
			put(func(x *Case, s *spec14) { x.Runs[k].Chunks = nil })
		}
	}
	n, _ := new(big.Int).SetString(sp.N, 16)
	for _, t := range []int64{1, 2, 3, 5, 7, 11, 23, 47, 100, 1000} {
		if n.Cmp(big.NewInt(t)) > 0 && (t > 1 || !hasGen(c)) {
			put(func(x *Case, s *spec14) {
				s.Expr, s.N = strconv.FormatInt(t, 10), strconv.FormatInt(t, 16)
				for k := 0; k < s.Searches; k++ {
					x.Runs[k].Args[len(x.Runs[k].Args)-1] = s.Expr
				}
				if s.Prior {
					l := x.Runs[len(x.Runs)-1].Args
					l[len(l)-1] = s.Expr
				}
			})
		}
	}
	return out
}

func hasGen(c *Case) bool {
	for _, s := range c.Runs {
		if s.Args[0] == "gen" {
			return true
		}
	}
	return false
}
