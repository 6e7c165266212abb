package main

import (
	"fmt"
	"math/big"
	"strings"
)

const refLimit = 6000

// wideBudget bounds the steps of runs whose texts include long scripts; the
// longest run seen takes about a tenth of it.
const wideBudget = 2_000_000_000

// sysTokens are combined exhaustively in short sequences.
var sysTokens = []string{"1", "2", "*", "dbl", "dbl ", "(", ")", "[", "]", "+", " add ", "<<", " shl ", "=", "\n", "return", " ", "a", "b", "0", "3", "0x2", "010", "\t", "-"}

var sysPrefixes = []string{"", "return ", "a = 1+1\n", "a = 1 << 2\nb = a+[1]\nreturn "}

// sysText is the i-th systematic text of up to n tokens.
func sysText(i int) string {
	pre := sysPrefixes[i%len(sysPrefixes)]
	i /= len(sysPrefixes)
	var b strings.Builder
	b.WriteString(pre)
	for i > 0 {
		i--
		b.WriteString(sysTokens[i%len(sysTokens)])
		i /= len(sysTokens)
	}
	return b.String()
}

// sysCount is the number of systematic texts of up to n tokens.
func sysCount(n int) int {
	c, p := 1, 1
	for k := 0; k < n; k++ {
		p *= len(sysTokens)
		c += p
	}
	return c * len(sysPrefixes)
}

const sysPer = 80

func hexChain(c []*big.Int) []string {
	l := make([]string, len(c))
	for i, x := range c {
		l[i] = x.Text(16)
	}
	return l
}

// meaning compares a chain and operations reported by the code with the
// model.
func meaning(chain []string, ops [][2]int, want []*big.Int, wops []refOp) string {
	if len(chain) != len(want) {
		return fmt.Sprintf("chain of %d elements %v, want %d elements %v", len(chain), clip(fmt.Sprint(chain)), len(want), clip(fmt.Sprint(hexChain(want))))
	}
	for i, x := range want {
		if chain[i] != x.Text(16) {
			return fmt.Sprintf("chain element %d is %s, want %x", i, chain[i], x)
		}
	}
	if len(ops) != len(wops) {
		return fmt.Sprintf("%d operations, want %d", len(ops), len(wops))
	}
	for i, o := range wops {
		if got := ops[i]; got != [2]int{o.I, o.J} && got != [2]int{o.J, o.I} {
			return fmt.Sprintf("operation %d is %v, want %v", i, got, o)
		}
	}
	return ""
}

// judgeLoad checks the outcome of loading a text. excuse allows an error.
func (v *Verdict) judgeLoad(it *LangItem, o *LangOut, fileFault bool) {
	src := string(it.Src)
	name := fmt.Sprintf("%q", clip(src))
	if o.Panic != "" {
		v.fail("panic", "loading %s: panic: %s", name, o.Panic)
		return
	}
	c, odd, perr := refParse(src)
	if o.Stage == "parse" {
		switch {
		case perr != nil:
			v.probe("rejected_syntax", 1)
		case o.Hit > 0 || fileFault:
			v.probe("rejected_stream_failure", 1)
		case odd:
			v.probe("odd_literal", 1)
		default:
			v.fail("rejects", "parsing %s fails: %s; the grammar assigns %s", name, o.Err, sexp(c))
		}
		if o.Err2 == "" && perr != nil && !odd {
			v.fail("accepts", "loading %s yields a chain, the text is outside the grammar", name)
		}
		if perr != nil || o.Err2 != "" {
			return
		}
	} else {
		if perr != nil {
			if odd {
				return
			}
			v.fail("accepts", "parsing %s yields %s, the text is outside the grammar (%v)", name, o.Tree, perr)
			return
		}
		if o.Tree != sexp(c) {
			v.fail("tree", "parsing %s yields %s, the grammar assigns %s", name, clip(o.Tree), clip(sexp(c)))
			return
		}
	}
	if o.Part != "" {
		v.fail("repeat", "loading %s: %s", name, clip(o.Part))
		return
	}
	ev, err := refEvaluate(c, refLimit)
	if err == errBig {
		v.probe("model_limit", 1)
		return
	}
	lax := odd || ev.Lax
	if err != nil {
		v.probe("rejected_meaning", 1)
		if o.Err == "" || o.Err2 == "" {
			v.fail("accepts", "loading %s yields chain %v, although: %v", name, clip(fmt.Sprint(o.Chain, o.Chain2)), err)
		}
		return
	}
	if lax {
		v.probe("lax", 1)
	}
	if o.Err != "" {
		if !lax && o.Stage != "parse" {
			v.fail("rejects", "%s of %s fails: %s; its chain is %v", o.Stage, name, o.Err, clip(fmt.Sprint(hexChain(ev.Chain))))
		}
	} else if m := meaning(o.Chain, o.Ops, ev.Chain, ev.Ops); m != "" {
		v.fail("meaning", "evaluating %s: %s", name, m)
	}
	if o.Err2 != "" {
		if !lax && o.Hit == 0 && !fileFault {
			v.fail("rejects", "loading %s fails: %s; its chain is %v", name, o.Err2, clip(fmt.Sprint(hexChain(ev.Chain))))
		}
	} else if m := meaning(o.Chain2, o.Ops2, ev.Chain, ev.Ops); m != "" {
		v.fail("meaning", "loading %s: %s", name, m)
	} else {
		v.probe("loaded", 1)
		if o.Hit > 0 || fileFault {
			v.probe("loaded_despite_fault", 1)
		}
	}
}

// langText makes script text for language checks.
func langText(r *Rng) string {
	if r.P(1, 30) {
		return bigScript(r)
	}
	switch r.N(12) {
	case 0, 1, 2, 3:
		return boundShifts(render(r, genTree(r, pick(r, 1, 2, 4, 8, 20), false, true), false), 200, 500)
	case 4, 5:
		return boundShifts(render(r, genTree(r, pick(r, 1, 2, 4, 8), true, true), false), 200, 500)
	case 6:
		return boundShifts(render(r, genFree(r, pick(r, 0, 1, 3), true), false), 200, 500)
	case 7, 8:
		return boundShifts(mutate(r, render(r, genTree(r, pick(r, 1, 2, 4, 8), true, true), r.P(1, 2))), 200, 500)
	case 9, 10:
		return boundShifts(soup(r, pick(r, 3, 5, 8, 16)), 200, 500)
	}
	s := oddScript(r)
	if len(s) > 2000 {
		s = s[:2000]
	}
	return boundShifts(s, 200, 500)
}

// fileFaults plans faults on files given to the library.
func fileFaults(r *Rng, sc *Scenario, name string, write bool) {
	if r.P(1, 2) {
		return
	}
	for n := r.In(1, 3); n > 0; n-- {
		f := Fault{Target: "/work/" + name, Nth: r.In(1, pick(r, 1, 2, 3))}
		op := "read"
		if write && r.P(2, 3) {
			op = "write"
		}
		switch r.N(8) {
		case 0, 1:
			f.Op, f.Kind = op, "EINTR"
		case 2, 3:
			f.Op, f.Kind, f.Arg = op, "SHORT", int64(r.In(1, 40))
		case 4:
			f.Op, f.Kind = op, "EIO"
			if op == "write" {
				f.Kind, f.Arg = pick(r, "EIO", "ENOSPC", "TORN", "EDQUOT"), int64(r.N(60))
			}
		case 5:
			f.Op, f.Kind = "open", pick(r, "EACCES", "EMFILE", "EIO", "EINTR")
		case 6:
			f.Op, f.Kind = "close", pick(r, "EIO", "ENOSPC", "LOST")
			f.Arg = int64(r.N(60))
		default:
			f.Op, f.Kind, f.Arg = op, "STALL", int64(r.N(1<<30))
		}
		sc.Faults = append(sc.Faults, f)
	}
}

// hardOn reports a failing system call on a file.
func hardOn(sc *Scenario, res *Result, name string) bool {
	for i, n := range res.Fired {
		f := &sc.Faults[i]
		if n > 0 && !isBenign(f) && (f.Target == "" || f.Target == "/work/"+name) {
			return true
		}
	}
	return false
}

func session(r *Rng, callers int, n int, item func(c, i int) LangItem) *Scenario {
	l := make([][]LangItem, callers)
	for i := 0; i < n; i++ {
		c := i % callers
		l[c] = append(l[c], item(c, i))
	}
	sc := langScenario(r, l)
	sc.Sched.Budget = wideBudget
	return sc
}

func sysSessions(tier string) int {
	n := 3
	if tier == "thorough" {
		n = 4
	}
	return (sysCount(n) + sysPer - 1) / sysPer
}

// gen03 interleaves the systematic sessions with random ones.
func gen03(r *Rng, i int, tier string) *Case {
	one := func(kind string, sc *Scenario) *Case { return &Case{Kind: kind, Runs: []*Scenario{sc}} }
	if i < sysSessions(tier) {
		sc := session(r, pick(r, 1, 1, 1, 2, 4), sysPer, func(c, k int) LangItem {
			it := LangItem{Op: "load", Src: []byte(boundShifts(sysText(i*sysPer+k), 200, 500)), Again: r.P(1, 4)}
			if r.P(1, 2) {
				it.Type = "string"
			} else if r.P(1, 4) {
				it.In = genPlan(r, len(it.Src), r.P(1, 6))
			}
			return it
		})
		return one("systematic texts", sc)
	}
	if (i-sysSessions(tier))%1500 == 11 {
		src := megaText(r)
		if r.P(1, 2) {
			sc := &Scenario{Kind: "cli", Sched: genSched(r), Args: []string{"eval"}, Stdin: []byte(src)}
			sc.Sched.Budget = 2 * wideBudget
			if sc.Sched.Mean > 0 {
				sc.Sched.Mean *= 10000
			}
			return one("megabytes", sc)
		}
		sc := session(r, 1, 1, func(c, k int) LangItem {
			it := LangItem{Op: "load", Src: []byte(src)}
			if r.P(1, 3) {
				it.File, it.Put = "big.acc", true
			} else if r.P(1, 3) {
				it.Type = "string"
			} else if r.P(1, 2) {
				it.In = genPlan(r, len(src), r.P(1, 3))
			}
			return it
		})
		sc.Sched.Budget = 2 * wideBudget
		if sc.Sched.Mean > 0 {
			sc.Sched.Mean *= 10000
		}
		return one("megabytes", sc)
	}
	switch r.N(4) {
	case 0:
		sc := scriptCLI(r, langText(r))
		sc.Sched.Budget = wideBudget
		sc.Args = append([]string{"eval"}, sc.Args[len(sc.Args)-1:]...)
		if sc.Args[1] != "in.acc" {
			sc.Args = sc.Args[:1]
		}
		faultPlan(r, sc)
		return one("eval command", sc)
	case 1:
		n := r.In(1, 8)
		files, names := map[string]bool{}, []string(nil)
		sc := session(r, pick(r, 1, 1, 2, 3), n, func(c, k int) LangItem {
			// A caller has few files, so contents replace each other.
			f := fmt.Sprintf("c%df%d.acc", c, r.N(pick(r, 1, 2, 4)))
			if !files[f] {
				files[f] = true
				names = append(names, f)
			}
			return LangItem{Op: "load", Src: []byte(langText(r)), File: f, Put: true}
		})
		for _, f := range names {
			fileFaults(r, sc, f, false)
		}
		return one("files", history(r, sc))
	}
	nc := pick(r, 1, 1, 2, 3, 4)
	sc := session(r, nc, r.In(nc, 24), func(c, k int) LangItem {
		it := LangItem{Op: "load", Src: []byte(langText(r))}
		if r.P(1, 2) {
			it.In = genPlan(r, len(it.Src), r.P(1, 3))
		} else if r.P(1, 2) {
			it.Type = "string"
		}
		return it
	})
	return one("streams", history(r, sc))
}

// judgeEval checks a run of the eval command.
func (v *Verdict) judgeEval(sc *Scenario, r *Result) {
	src := string(sc.Stdin) + string(sc.Files["in.acc"])
	_, ev, lax, err := refLoad(src, refLimit)
	if err == errBig {
		v.probe("model_limit", 1)
		return
	}
	hard := hardFired(sc, r)
	name := fmt.Sprintf("eval of %q", clip(src))
	if r.Status != 0 {
		if err == nil && !lax && !hard {
			v.fail("rejects", "%s exits with status %d: %s", name, r.Status, clip(string(r.Stderr)))
		}
		v.probe("eval_rejects", 1)
		return
	}
	if err != nil {
		if !lax {
			v.fail("accepts", "%s exits with status 0, although: %v\n%s", name, err, clip(string(r.Stdout)))
		}
		return
	}
	v.probe("eval_accepts", 1)
	if e := refEvalDump(string(r.Stdout), ev); e != nil {
		v.fail("meaning", "%s: %v\n%s", name, e, clip(string(r.Stdout)))
	}
}

func exec03(w *worker, c *Case) *Verdict {
	v := &Verdict{}
	sc := c.Runs[0]
	if sc.Kind == "lang" {
		langRun(w, v, sc, 0, func(res *Result, i, j int, it *LangItem, o *LangOut) {
			if o.Late != "" {
				v.fail("changed-later", "%s of %q: %s once the session is over", it.Op, clip(string(it.Src)), clip(o.Late))
			}
			v.judgeLoad(it, o, it.File != "" && hardOn(sc, res, it.File))
			v.probe("texts", 1)
		})
		v.Sample = langSample(c)
		return v
	}
	v.Sample = map[string]interface{}{"case": c.Index, "kind": c.Kind, "args": sc.Args, "faults": sc.Faults, "input": clip(string(sc.Stdin) + string(sc.Files["in.acc"]))}
	o := w.run(sc)
	v.absorb(o, sc, 0)
	if v.Infra != "" || !v.ended(o, sc) {
		return v
	}
	v.judgeEval(sc, o.Res)
	return v
}

func init() {
	props["C03"] = &Prop{
		ID: "C03", Level: "exploration", SelfN: 150,
		Count: func(tier string) int {
			if tier == "thorough" {
				return sysSessions(tier) + 400000
			}
			return sysSessions(tier) + 9000
		},
		Gen: gen03, Exec: exec03, Scheds: runScheds, Shrink: shrinkRuns,
		Rule: "a case is a session of 1-4 concurrent callers loading texts from simulated streams or files, or a run of the eval command, with a schedule and a fault plan; distinct by digest of everything observed",
		Real: langReal,
		Stub: langStub,
		Assume: []string{"the reference parser and evaluator (sim/ref.go) state the published grammar and semantics",
			"texts up to 70 KB, and some with more than a megabyte of white space; shift amounts up to 200 each and 500 together",
			"a literal such as 08, which the grammar accepts and no base gives a value, and a bare index of an element that does not exist may be accepted or rejected"},
	}
}
