package main

import (
	"fmt"
	"strings"
)

// judgeGen checks one output of the generator.
func (v *Verdict) judgeGen(name, typ, src, out string) {
	_, ev, _, err := refLoad(src, refLimit)
	if err != nil {
		// Not a script of the language: what the generator does with it is
		// the business of C03 and C15.
		v.probe("accepted_outside_language", 1)
		return
	}
	v.probe("accepted_"+typ, 1)
	if len(ev.Shifts) > 0 {
		for _, o := range ev.Ops {
			if o.I != o.J && (ev.Shifts[o.I] || ev.Shifts[o.J]) {
				v.probe("accepted_reading_shift_intermediate", 1)
				break
			}
		}
	}
	switch typ {
	case "listing":
		if e := checkListing(out, ev.end()); e != nil {
			v.fail("listing", "%s of\n%s\nprints\n%s\nwhich computes something else: %v", name, clip(src), clip(out), e)
		}
	case "chain":
		if e := checkChainOut(out, ev); e != nil {
			v.fail("chain", "%s of\n%s\nprints\n%s\n%v", name, clip(src), clip(out), e)
		}
	case "ops":
		if e := checkOpsOut(out, ev); e != nil {
			v.fail("ops", "%s of\n%s\nprints\n%s\n%v", name, clip(src), clip(out), e)
		}
	case "script":
		_, ev2, _, err := refLoad(out, refLimit)
		if err != nil || !sameChain(ev.Chain, ev2.Chain) || !sameOps(ev.Ops, ev2.Ops) {
			v.fail("script", "%s of\n%s\nprints\n%s\nwhich does not load to the same chain (%v)", name, clip(src), clip(out), err)
		}
	}
}

var genTypes = []string{"listing", "listing", "listing", "chain", "ops", "script"}

// genText makes scripts for the generator: mostly valid, many that use inner
// values of shifts.
func genText(r *Rng) string {
	if r.P(1, 16) {
		return bigScript(r)
	}
	switch r.N(10) {
	case 0, 1, 2, 3, 4:
		return boundShifts(render(r, genTree(r, pick(r, 1, 2, 4, 8, 20, 40), false, true), r.P(1, 2)), 200, 500)
	case 5, 6, 7:
		if p := genProg(r, r.In(1, pick(r, 2, 4, 8, 20, 60))); len(p) > 0 {
			return progScript(r, p)
		}
		return "return 1\n"
	}
	return langText(r)
}

func gen06(r *Rng, i int, tier string) *Case {
	one := func(kind string, sc *Scenario) *Case { return &Case{Kind: kind, Runs: []*Scenario{sc}} }
	small := smallUpTo(map[string]int{"quick": 4, "thorough": 5}[tier])
	if i*progPer < len(small) {
		part := small[i*progPer : min(len(small), (i+1)*progPer)]
		return one("all small programs", session(r, pick(r, 1, 1, 2, 3), len(part), func(c, k int) LangItem {
			return LangItem{Op: "gen", Src: []byte(progScript(r, part[k])), Type: "listing", Again: r.P(1, 4)}
		}))
	}
	i -= (len(small) + progPer - 1) / progPer
	if i < len(oddScripts) {
		return one("odd scripts", session(r, 1, 4, func(c, k int) LangItem {
			return LangItem{Op: "gen", Src: []byte(oddScripts[i]), Type: []string{"listing", "chain", "ops", "script"}[k]}
		}))
	}
	if r.P(1, 3) {
		sc := scriptCLI(r, genText(r))
		sc.Sched.Budget = wideBudget
		file := sc.Args[len(sc.Args)-1] == "in.acc"
		sc.Args = []string{"gen"}
		if t := genTypes[r.N(len(genTypes))]; t != "listing" || r.P(1, 2) {
			sc.Args = append(sc.Args, "-type", t)
		}
		delete(sc.Files, "t.tmpl")
		if r.P(1, 3) {
			sc.Args = append(sc.Args, "-out", "out.txt")
			if r.P(1, 2) {
				sc.Files["out.txt"] = []byte(strings.Repeat("tmp\tprevious content\n", r.In(1, 40)))
			}
		}
		if file {
			sc.Args = append(sc.Args, "in.acc")
		}
		faultPlan(r, sc)
		return one("gen command", sc)
	}
	nc := pick(r, 1, 1, 2, 3, 4)
	return one("library", history(r, session(r, nc, r.In(nc, 16), func(c, k int) LangItem {
		it := LangItem{Op: "gen", Src: []byte(genText(r)), Type: genTypes[r.N(len(genTypes))]}
		if r.P(1, 4) {
			it.In = genPlan(r, len(it.Src), r.P(1, 4))
		}
		if r.P(1, 3) {
			it.Out = genPlan(r, pick(r, 20, 100, 1000), r.P(1, 2))
		}
		return it
	})))
}

func exec06(w *worker, c *Case) *Verdict {
	v := &Verdict{}
	sc := c.Runs[0]
	if sc.Kind == "lang" {
		langRun(w, v, sc, 0, func(res *Result, i, j int, it *LangItem, o *LangOut) {
			if o.Late != "" {
				v.fail("changed-later", "%s of %q: %s once the session is over", it.Op, clip(string(it.Src)), clip(o.Late))
			}
			src := string(it.Src)
			name := "gen -type " + it.Type
			switch {
			case o.Panic != "":
				v.fail("panic", "%s of %q: panic: %s", name, clip(src), o.Panic)
			case o.Err != "":
				v.probe("refused_"+o.Stage, 1)
			case it.Out != nil && o.Hit > 0 && it.Out.ErrAt >= 0 && (it.In == nil || it.In.ErrAt < 0):
				v.fail("lost-output", "%s of %q: a write failed, generating reports success", name, clip(src))
			default:
				v.judgeGen(name, it.Type, src, o.Text)
				if _, ev, _, err := refLoad(src, refLimit); err == nil {
					if m := meaning(o.Chain, o.Ops, ev.Chain, ev.Ops); m != "" {
						v.fail("data", "%s of %q: template data: %s", name, clip(src), m)
					}
				}
			}
		})
		v.Sample = langSample(c)
		return v
	}
	src := string(sc.Stdin) + string(sc.Files["in.acc"])
	v.Sample = map[string]interface{}{"case": c.Index, "kind": c.Kind, "args": sc.Args, "faults": sc.Faults, "input": clip(src)}
	o := w.run(sc)
	v.absorb(o, sc, 0)
	if v.Infra != "" || !v.ended(o, sc) {
		return v
	}
	if o.Res.Status != 0 {
		v.probe("command_refused", 1)
		return v
	}
	typ := "listing"
	for k, a := range sc.Args {
		if a == "-type" {
			typ = sc.Args[k+1]
		}
	}
	out := string(o.Res.Stdout)
	if f := sc.argOut(); f != "stdout" {
		if out != "" {
			v.fail("output", "%q writes to the standard output as well: %q", sc.Args, clip(out))
		}
		out = string(o.Res.Files[f])
	}
	v.judgeGen(fmt.Sprintf("%q", sc.Args), typ, src, out)
	return v
}

func init() {
	props["C06"] = &Prop{
		ID: "C06", Level: "exploration", SelfN: 150,
		Count: func(tier string) int {
			if tier == "thorough" {
				return 300000
			}
			return 10000
		},
		Gen: gen06, Exec: exec06, Scheds: runScheds, Shrink: shrinkRuns,
		Rule: "a case is a session of 1-4 concurrent callers generating output from scripts, or a run of the gen command, with a schedule and a fault plan; distinct by digest of everything observed",
		Real: langReal,
		Stub: langStub,
		Assume: []string{"listings, chain and ops outputs are read as documented by the interpreter in sim/ref.go, with z separate from x and with z aliased to x",
			"scripts up to about 40 statements, one in sixteen up to 700 statements, 300 live values or long shifts; shift amounts up to 700 each and 900 together"},
	}
}
