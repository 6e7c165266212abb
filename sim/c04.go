package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"
)

// progChain evaluates a program; ok reports that its elements are distinct.
func progChain(p [][2]int) (c []*big.Int, ops []refOp, ok bool) {
	c = []*big.Int{big.NewInt(1)}
	seen := map[string]bool{"1": true}
	for _, o := range p {
		v := new(big.Int).Add(c[o[0]], c[o[1]])
		if k := v.Text(62); seen[k] {
			return c, ops, false
		} else {
			seen[k] = true
		}
		c = append(c, v)
		ops = append(ops, refOp{o[0], o[1]})
	}
	return c, ops, true
}

// smallProgs lists all duplicate-free programs of exactly n operations, with
// the operands of an addition in either order.
func smallProgs(n int) [][][2]int {
	l := [][][2]int{{}}
	for k := 0; k < n; k++ {
		var m [][][2]int
		for _, p := range l {
			for i := 0; i <= k; i++ {
				for j := 0; j <= k; j++ {
					q := append(append([][2]int{}, p...), [2]int{i, j})
					if _, _, ok := progChain(q); ok {
						m = append(m, q)
					}
				}
			}
		}
		l = m
	}
	return l
}

// genProg generates a program biased towards the shapes that matter to
// decompilation: runs of doublings whose intermediate values are reused, long
// chains of values used once by the next operation, either operand order.
func genProg(r *Rng, n int) [][2]int {
	if n >= 20 && r.P(1, 8) {
		return genTwins(r)
	}
	var p [][2]int
	c := []*big.Int{big.NewInt(1)}
	seen := map[string]bool{"1": true}
	put := func(i, j int) bool {
		v := new(big.Int).Add(c[i], c[j])
		if k := v.Text(62); seen[k] {
			return false
		} else {
			seen[k] = true
		}
		if i != j && r.P(1, 2) {
			i, j = j, i
		}
		p = append(p, [2]int{i, j})
		c = append(c, v)
		return true
	}
	style := r.N(5)
	long := pick(r, 20, 20, 70, 140, 300)
	for try := 0; len(p) < n && try < 6*n+20; try++ {
		last := len(c) - 1
		switch k := r.N(10); {
		case k < 3 && style != 0: // run of doublings
			for s := r.In(1, pick(r, 2, 3, 6, 20, long)); s > 0 && len(p) < n; s-- {
				if !put(len(c)-1, len(c)-1) {
					break
				}
			}
		case k < 5 && style != 1: // add a recent or an inner value
			put(last, max(0, last-r.N(6)))
		case k < 7:
			put(last, r.N(len(c)))
		case k < 8: // branch: old operands only
			put(r.N(len(c)), r.N(len(c)))
		case k < 9: // double an old value
			i := r.N(len(c))
			put(i, i)
		default: // accumulate on the last value
			for s := r.In(1, 12); s > 0 && len(p) < n; s-- {
				if !put(len(c)-1, r.N(min(len(c), 3))) {
					break
				}
			}
		}
	}
	if style == 2 && len(p) > 2 {
		// End on a doubling run that shares its inside.
		put(len(c)-1, len(c)-1)
		put(len(c)-1, len(c)-1)
		put(len(c)-1, len(c)-2)
	}
	return p
}

// genTwins generates a program with values that are easily taken for each
// other: all sums of a few low parts and a few high parts, so of the same
// length, the same low or the same high bits, next to true runs of ones. Each
// is used more than once.
func genTwins(r *Rng) [][2]int {
	var p [][2]int
	c := []*big.Int{big.NewInt(1)}
	at := map[string]int{"1": 0}
	add := func(i, j int) int {
		v := new(big.Int).Add(c[i], c[j])
		if k, ok := at[v.Text(62)]; ok {
			return k
		}
		if i != j && r.P(1, 2) {
			i, j = j, i
		}
		at[v.Text(62)] = len(c)
		p, c = append(p, [2]int{i, j}), append(c, v)
		return len(c) - 1
	}
	shl := func(i, s int) int {
		for ; s > 0; s-- {
			i = add(i, i)
		}
		return i
	}
	m := pick(r, 4, 8, 8, 16, 16, 31, 32, 32, 53, 63, 64, 64, 65)
	run, l := 0, 1
	lows := []int{0}
	for l < m {
		k := min(l, m-l)
		if k < l && r.P(1, 2) {
			k = 1
		}
		if k < l {
			// ones(l+1) = 2*ones(l) + 1
			run, l = add(shl(run, 1), 0), l+1
			continue
		}
		run, l = add(shl(run, l), run), 2*l
		lows = append(lows, run)
	}
	lows = []int{run, pick(r, lows...), pick(r, lows...)}
	if r.P(1, 2) {
		lows = append(lows, shl(pick(r, lows...), 1))
	}
	two := add(0, 0)
	three := add(two, 0)
	five := add(three, two)
	seven := add(five, two)
	highs := []int{0, two, three, five, seven}
	for i := range highs {
		j := r.In(i, len(highs)-1)
		highs[i], highs[j] = highs[j], highs[i]
	}
	highs = highs[:r.In(2, 3)]
	s := m + pick(r, 0, 0, 0, 1, 2, r.N(20))
	var grid []int
	for _, h := range highs {
		h = shl(h, s)
		for _, x := range lows {
			grid = append(grid, add(h, x))
		}
		if r.P(1, 4) {
			grid = append(grid, h)
		}
	}
	for k := r.In(len(grid), 3*len(grid)); k > 0; k-- {
		add(pick(r, grid...), pick(r, append([]int{len(c) - 1, 0}, grid...)...))
	}
	return p
}

// checkIR expands the intermediate form and compares it with the program.
func checkIR(ir []LangInst, ops []refOp) error {
	have := map[int]bool{0: true} // values an instruction produces
	n := 1
	var got []refOp
	for k, i := range ir {
		bad := func(x int) error {
			if !have[x] {
				return fmt.Errorf("instruction %d reads value %d, which no instruction before it produces", k, x)
			}
			return nil
		}
		if err := bad(i.X); err != nil {
			return err
		}
		switch i.K {
		case "+":
			if err := bad(i.Y); err != nil {
				return err
			}
			got = append(got, refOp{i.X, i.Y})
			n++
		case "2":
			got = append(got, refOp{i.X, i.X})
			n++
		case "<":
			if i.S < 1 || i.S > 1<<20 {
				return fmt.Errorf("instruction %d shifts by %d", k, i.S)
			}
			x := i.X
			for s := uint64(0); s < i.S; s++ {
				got = append(got, refOp{x, x})
				x = n
				n++
			}
		default:
			return fmt.Errorf("instruction %d of unknown kind %s", k, i.K)
		}
		if i.Out != n-1 {
			return fmt.Errorf("instruction %d outputs value %d, its expansion ends at %d", k, i.Out, n-1)
		}
		have[i.Out] = true
	}
	if !sameOps(got, ops) {
		return fmt.Errorf("it expands to %v", got)
	}
	return nil
}

func opsPairs(l [][2]int) []refOp {
	r := make([]refOp, len(l))
	for i, o := range l {
		r[i] = refOp{o[0], o[1]}
	}
	return r
}

// judgeProg checks writing a program as a script and loading it back.
func (v *Verdict) judgeProg(sc *Scenario, res *Result, it *LangItem, o *LangOut) {
	name := clip(fmt.Sprint("program ", it.Prog))
	if o.Panic != "" {
		v.fail("panic", "%s: panic: %s", name, o.Panic)
		return
	}
	chain, ops, ok := progChain(it.Prog)
	if !ok {
		v.Infra = "C04: generated an invalid program"
		return
	}
	hard := it.File != "" && hardOn(sc, res, it.File)
	if o.Err != "" {
		if o.Stage == "write" && o.Hit > 0 || o.Stage == "save" && hard {
			v.probe("write_failure_reported", 1)
			if o.Stage == "write" && it.Out != nil && len(o.Text) > it.Out.ErrAt {
				v.Infra = "C04: the writer took too much"
			}
		} else {
			v.fail("refused", "%s: %s fails: %s", name, o.Stage, o.Err)
		}
		return
	}
	if err := checkIR(o.IR, ops); err != nil {
		v.fail("intermediate-form", "%s: the intermediate form %v: %v", name, o.IR, err)
		return
	}
	if !sameOps(opsPairs(o.Ops), ops) {
		v.fail("intermediate-form", "%s: the intermediate form expands to %v", name, o.Ops)
		return
	}
	text := o.Text
	if it.File == "" && it.Out != nil && it.Out.ErrAt >= 0 && len(text) > it.Out.ErrAt {
		v.fail("lost-output", "%s: the stream failed after %d bytes, writing reports success", name, it.Out.ErrAt)
		return
	}
	if o.Hit > 0 && (it.In == nil || it.In.ErrAt < 0) {
		v.fail("lost-output", "%s: a write failed, writing reports success", name)
		return
	}
	if hard && it.File != "" {
		// Save reported success, so nothing that failed may matter to it,
		// except for what only loading met.
		_, ev, _, err := refLoad(text, refLimit)
		if err != nil || !sameOps(ev.Ops, ops) {
			v.fail("lost-output", "%s: saving reports success under a failing system call, the file holds %q", name, clip(text))
			return
		}
	}
	_, ev, lax, err := refLoad(text, refLimit)
	if err != nil || lax {
		v.fail("script", "%s prints\n%s\nwhich does not load by the published grammar and semantics: %v", name, text, err)
		return
	}
	if !sameChain(ev.Chain, chain) || !sameOps(ev.Ops, ops) {
		v.fail("script", "%s prints\n%s\nwhose chain is %v with operations %v", name, clip(text), clip(fmt.Sprint(hexChain(ev.Chain))), clip(fmt.Sprint(ev.Ops)))
		return
	}
	if o.Err2 != "" {
		if o.Hit == 0 && !hard {
			v.fail("reload", "%s prints\n%s\nwhich fails to load: %s", name, clip(text), o.Err2)
		} else {
			v.probe("reload_failure_reported", 1)
		}
		return
	}
	if m := meaning(o.Chain2, o.Ops2, chain, ops); m != "" {
		v.fail("reload", "%s prints\n%s\nwhich loads as: %s", name, clip(text), m)
		return
	}
	v.probe("round_trips", 1)
}

var prog04 struct {
	sync.Mutex
	small [][][2]int
	n     int
}

// smallUpTo returns all programs of up to n operations.
func smallUpTo(n int) [][][2]int {
	prog04.Lock()
	defer prog04.Unlock()
	if prog04.n < n+1 {
		prog04.small, prog04.n = nil, n+1
		for k := 0; k <= n; k++ {
			prog04.small = append(prog04.small, smallProgs(k)...)
		}
	}
	return prog04.small
}

const progPer = 60

func small04(tier string) [][][2]int {
	if tier == "thorough" {
		return smallUpTo(6)
	}
	return smallUpTo(5)
}

func gen04(r *Rng, i int, tier string) *Case {
	one := func(kind string, sc *Scenario) *Case { return &Case{Kind: kind, Runs: []*Scenario{sc}} }
	small := small04(tier)
	if i*progPer < len(small) {
		part := small[i*progPer : min(len(small), (i+1)*progPer)]
		return one("all small programs", session(r, pick(r, 1, 1, 2, 3), len(part), func(c, k int) LangItem {
			return LangItem{Op: "prog", Prog: part[k], Again: r.P(1, 4)}
		}))
	}
	size := func() int {
		n := pick(r, 0, 1, 3, 6, 10, 20, 40, 80)
		if r.P(1, 24) {
			n = pick(r, 150, 300, 400)
		}
		if tier == "thorough" && r.P(1, 100) {
			n = pick(r, 800, 1200)
		}
		return r.In(n/2, n)
	}
	if r.P(1, 8) {
		p := genProg(r, max(1, size()))
		sc := scriptCLI(r, progScript(r, p))
		sc.Sched.Budget = wideBudget
		file := sc.Args[len(sc.Args)-1] == "in.acc"
		sc.Args = []string{"fmt", "-b"}
		if file {
			sc.Args = append(sc.Args, "in.acc")
		}
		faultPlan(r, sc)
		return one("fmt -b command", sc)
	}
	if r.P(1, 4) {
		files, names := map[string]bool{}, []string(nil)
		sc := session(r, pick(r, 1, 1, 2, 3), r.In(1, 5), func(c, k int) LangItem {
			f := fmt.Sprintf("c%df%d.acc", c, r.N(pick(r, 1, 2, 4)))
			if !files[f] {
				files[f] = true
				names = append(names, f)
			}
			return LangItem{Op: "prog", Prog: genProg(r, size()), File: f}
		})
		sc.Files = map[string][]byte{}
		for _, f := range names {
			if r.P(1, 2) {
				sc.Files[f] = []byte(strings.Repeat("previous = 1 + 1\n", r.In(1, 60)))
			}
			fileFaults(r, sc, f, true)
		}
		return one("save and load", history(r, sc))
	}
	nc := pick(r, 1, 1, 2, 3, 4)
	return one("write and load", history(r, session(r, nc, r.In(nc, 24), func(c, k int) LangItem {
		it := LangItem{Op: "prog", Prog: genProg(r, size())}
		if r.P(1, 3) {
			it.Out = genPlan(r, 8*len(it.Prog)+10, r.P(1, 2))
		}
		if r.P(1, 3) {
			it.In = genPlan(r, 8*len(it.Prog)+10, r.P(1, 4))
		}
		return it
	})))
}

// progScript spells a program as a script with one statement per operation.
func progScript(r *Rng, p [][2]int) string {
	if len(p) == 0 {
		return "return 1\n"
	}
	var b strings.Builder
	ref := func(i int) string {
		switch {
		case i == 0 && r.P(3, 4):
			return "1"
		case i == 0 || r.P(1, 4):
			return "[" + strconv.Itoa(i) + "]"
		}
		return "v" + strconv.Itoa(i)
	}
	for k, o := range p {
		if k == len(p)-1 {
			b.WriteString("return ")
		} else {
			fmt.Fprintf(&b, "v%d = ", k+1)
		}
		if o[0] == o[1] && r.P(1, 2) {
			fmt.Fprintf(&b, "2 * %s\n", ref(o[0]))
		} else {
			fmt.Fprintf(&b, "%s + %s\n", ref(o[0]), ref(o[1]))
		}
	}
	return b.String()
}

// judgeRebuild checks a run of fmt -b.
func (v *Verdict) judgeRebuild(sc *Scenario, r *Result) {
	src := string(sc.Stdin) + string(sc.Files["in.acc"])
	_, ev, _, err := refLoad(src, refLimit)
	if err != nil {
		return // only while minimising
	}
	if r.Status != 0 {
		if !hardFired(sc, r) {
			v.fail("refused", "fmt -b of %q exits with status %d: %s", clip(src), r.Status, clip(string(r.Stderr)))
		}
		return
	}
	out := string(r.Stdout)
	_, ev2, lax, err := refLoad(out, refLimit)
	if err != nil || lax || !sameChain(ev.Chain, ev2.Chain) || !sameOps(ev.Ops, ev2.Ops) {
		v.fail("script", "fmt -b of %q prints\n%s\nwhich does not load to the same chain (%v)", clip(src), clip(out), err)
		return
	}
	v.probe("rebuilt", 1)
}

func exec04(w *worker, c *Case) *Verdict {
	v := &Verdict{}
	sc := c.Runs[0]
	if sc.Kind == "cli" {
		v.Sample = map[string]interface{}{"case": c.Index, "kind": c.Kind, "args": sc.Args, "faults": sc.Faults, "input": clip(string(sc.Stdin) + string(sc.Files["in.acc"]))}
		o := w.run(sc)
		v.absorb(o, sc, 0)
		if v.Infra != "" || !v.ended(o, sc) {
			return v
		}
		v.judgeRebuild(sc, o.Res)
		return v
	}
	langRun(w, v, sc, 0, func(res *Result, i, j int, it *LangItem, o *LangOut) {
		if o.Late != "" {
			v.fail("changed-later", "program %s: %s once the session is over", clip(fmt.Sprint(it.Prog)), clip(o.Late))
		}
		v.judgeProg(sc, res, it, o)
		v.probe("programs", 1)
	})
	v.Sample = langSample(c)
	return v
}

func init() {
	props["C04"] = &Prop{
		ID: "C04", Level: "exploration", SelfN: 150,
		Count: func(tier string) int {
			n := (len(small04(tier)) + progPer - 1) / progPer
			if tier == "thorough" {
				return n + 300000
			}
			return n + 9000
		},
		Gen: gen04, Exec: exec04, Scheds: runScheds, Shrink: shrinkRuns,
		Rule: "a case is a session of 1-4 concurrent callers that decompile programs, write them as scripts to simulated streams or files and load those back, with a schedule and a fault plan; distinct by digest of everything observed",
		Real: langReal,
		Stub: langStub,
		Assume: []string{"every duplicate-free program of up to five operations (six in the thorough tier), and random ones of up to 400 (1200)",
			"the reference parser and evaluator (sim/ref.go) state the published grammar and semantics"},
	}
}
