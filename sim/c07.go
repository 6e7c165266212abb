package main

import (
	"fmt"
	"strings"
)

func toLang(c []rstmt) []LangStmt {
	var conv func(e *node) *LangNode
	conv = func(e *node) *LangNode {
		if e == nil {
			return nil
		}
		return &LangNode{K: string(e.K), N: e.N, Name: e.Name, X: conv(e.X), Y: conv(e.Y), S: e.S}
	}
	l := make([]LangStmt, len(c))
	for i, s := range c {
		l[i] = LangStmt{s.Name, conv(s.E)}
	}
	return l
}

func fromLang(l []LangStmt) []rstmt {
	var conv func(e *LangNode) *node
	conv = func(e *LangNode) *node {
		if e == nil {
			return nil
		}
		return &node{K: e.K[0], N: e.N, Name: e.Name, X: conv(e.X), Y: conv(e.Y), S: e.S}
	}
	c := make([]rstmt, len(l))
	for i, s := range l {
		c[i] = rstmt{s.Name, conv(s.E)}
	}
	return c
}

// allExprs lists every expression of depth up to d over a few leaves.
func allExprs(d int, leaves []*node) []*node {
	l := append([]*node{}, leaves...)
	if d == 0 {
		return l
	}
	sub := allExprs(d-1, leaves)
	for _, x := range sub {
		l = append(l, &node{K: '2', X: x}, &node{K: '<', X: x, S: 3})
		for _, y := range sub {
			l = append(l, &node{K: '+', X: x, Y: y})
		}
	}
	return l
}

var (
	leaves1 = []*node{{K: 'o'}, {K: 'o', N: 2}, {K: 'i', Name: "a"}, {K: 'i', Name: "return"}, {K: 'i', Name: "add"}, {K: 'i', Name: "shl"}}
	leaves2 = []*node{{K: 'o'}, {K: 'i', Name: "b"}}
	trees2  = allExprs(2, leaves1[:3])
	trees3  = allExprs(2, leaves2)
	trees1  = allExprs(1, leaves1)
)

// systematic trees: all of depth two over three leaves, all of depth three
// with a fixed shape above every tree of depth two over two leaves.
func sysTree(i int) []rstmt {
	ret := func(e *node) []rstmt { return []rstmt{{"", e}} }
	if i < len(trees1) {
		return ret(trees1[i])
	}
	i -= len(trees1)
	if i < len(trees1) {
		return []rstmt{{"return", trees1[i]}, {"", &node{K: 'i', Name: "return"}}}
	}
	i -= len(trees1)
	if i < len(trees2) {
		return ret(trees2[i])
	}
	i -= len(trees2)
	n := len(trees3)
	if i < 2*n {
		if i%2 == 0 {
			return ret(&node{K: '2', X: trees3[i/2]})
		}
		return ret(&node{K: '<', X: trees3[i/2], S: 1})
	}
	i -= 2 * n
	return ret(&node{K: '+', X: trees3[i/n%n], Y: trees3[i%n]})
}

func sysTreeCount() int { return 2*len(trees1) + len(trees2) + 2*len(trees3) + len(trees3)*len(trees3) }

const treePer = 100

// known07 are the trees of recorded findings, run first.
var known07 = [][]rstmt{
	{{"", &node{K: '+', X: &node{K: 'i', Name: "dblx"}, Y: &node{K: 'o'}}}},
}

// judgePrint checks printing a tree and parsing it back.
func (v *Verdict) judgePrint(it *LangItem, o *LangOut) {
	name := clip(fmt.Sprintf("%q", it.Src))
	if it.Op == "tree" {
		name = clip(sexp(fromLang(it.Tree)))
	}
	if o.Panic != "" {
		v.fail("panic", "printing %s: panic: %s", name, o.Panic)
		return
	}
	switch {
	case o.Stage == "parse":
		v.probe("not_parsed", 1)
		return
	case o.Err != "":
		if o.Hit == 0 {
			v.fail("print", "printing %s fails: %s", name, o.Err)
		} else {
			v.probe("write_failure_reported", 1)
		}
		return
	case o.Hit > 0 && it.Out != nil && it.Out.ErrAt >= 0 && (it.In == nil || it.In.ErrAt < 0):
		v.fail("lost-output", "printing %s: a write failed, printing reports success", name)
		return
	}
	if it.Op == "tree" {
		if want := sexp(fromLang(it.Tree)); o.Tree != want {
			v.fail("tree-changed", "printing %s: %s", name, o.Tree)
			return
		}
	} else if strings.HasPrefix(o.Tree, "the printer") {
		v.fail("tree-changed", "printing %s: %s", name, o.Tree)
		return
	}
	if o.Err2 != "" {
		v.fail("rejected", "printing %s gives\n%s\nwhich the parser rejects: %s", name, clip(o.Text), o.Err2)
		return
	}
	if o.Tree2 != o.Tree {
		v.fail("identity", "printing %s gives\n%s\nwhich parses to %s, the tree was %s", name, clip(o.Text), clip(o.Tree2), clip(o.Tree))
		return
	}
	if o.Part != "" {
		v.fail("identity", "%s: %s", name, clip(o.Part))
		return
	}
	if o.Text2 != o.Text {
		v.fail("idempotence", "printing %s gives\n%s\nprinting that again gives\n%s", name, clip(o.Text), clip(o.Text2))
		return
	}
	c, _, err := refParse(o.Text)
	if err != nil || sexp(c) != o.Tree {
		v.fail("grammar", "printing %s gives\n%s\nwhich is not the tree %s by the published grammar (%v)", name, clip(o.Text), clip(o.Tree), err)
		return
	}
	v.probe("identities", 1)
}

// judgeBuild checks a script rebuilt from its intermediate form, as by fmt -b:
// the text is another tree, of the same chain.
func (v *Verdict) judgeBuild(it *LangItem, o *LangOut) {
	name := clip(fmt.Sprintf("%q", it.Src))
	switch {
	case o.Panic != "":
		v.fail("panic", "rebuilding %s: panic: %s", name, o.Panic)
		return
	case o.Err != "":
		v.probe("not_rebuilt", 1)
		return
	case o.Hit > 0 && it.Out != nil && it.Out.ErrAt >= 0 && (it.In == nil || it.In.ErrAt < 0):
		v.fail("lost-output", "rebuilding %s: a write failed, printing reports success", name)
		return
	case o.Hit > 0:
		return
	}
	if !v.sameMeaning("-b "+name, string(it.Src), o.Text) {
		return
	}
	if o.Err2 != "" {
		v.fail("rejected", "rebuilding %s gives\n%s\nwhich does not load: %s", name, clip(o.Text), o.Err2)
		return
	}
	v.probe("rebuilt", 1)
}

func gen07(r *Rng, i int, tier string) *Case {
	one := func(kind string, sc *Scenario) *Case { return &Case{Kind: kind, Runs: []*Scenario{sc}} }
	if i < len(known07) {
		return one("recorded finding", session(r, 1, 1, func(c, k int) LangItem { return LangItem{Op: "tree", Tree: toLang(known07[i])} }))
	}
	i -= len(known07)
	if n := sysTreeCount(); i*treePer < n {
		return one("systematic trees", session(r, pick(r, 1, 1, 2, 3), min(treePer, n-i*treePer), func(c, k int) LangItem {
			return LangItem{Op: "tree", Tree: toLang(sysTree(i*treePer + k)), Again: r.P(1, 4)}
		}))
	}
	if r.P(1, 4) {
		sc := scriptCLI(r, langText(r))
		sc.Sched.Budget = wideBudget
		file := sc.Args[len(sc.Args)-1] == "in.acc"
		sc.Args = []string{"fmt"}
		if r.P(1, 3) {
			sc.Args = append(sc.Args, "-b")
		}
		if file {
			sc.Args = append(sc.Args, "in.acc")
		}
		faultPlan(r, sc)
		return one("fmt command", sc)
	}
	nc := pick(r, 1, 1, 2, 3, 4)
	return one("library", history(r, session(r, nc, r.In(nc, 24), func(c, k int) LangItem {
		var it LangItem
		n := 0
		if r.P(1, 2) {
			it = LangItem{Op: "tree", Tree: toLang(genFree(r, pick(r, 0, 1, 3, 8), false))}
			n = 40
		} else {
			it = LangItem{Op: pick(r, "fmt", "fmt", "build"), Src: []byte(langText(r))}
			n = len(it.Src)
			if r.P(1, 4) {
				it.In = genPlan(r, n, r.P(1, 4))
			}
		}
		if r.P(1, 3) {
			it.Out = genPlan(r, n, r.P(1, 2))
		}
		return it
	})))
}

func exec07(w *worker, c *Case) *Verdict {
	v := &Verdict{}
	sc := c.Runs[0]
	if sc.Kind == "lang" {
		langRun(w, v, sc, 0, func(res *Result, i, j int, it *LangItem, o *LangOut) {
			if o.Late != "" {
				v.fail("changed-later", "%s of %q: %s once the session is over", it.Op, clip(string(it.Src)), clip(o.Late))
			}
			if it.Op == "build" {
				v.judgeBuild(it, o)
				return
			}
			v.judgePrint(it, o)
			if v.Class != "" && it.Op == "tree" && v.Key == "" {
				v.Key = sexp(fromLang(it.Tree))
			}
			if it.Op == "fmt" && v.Class == "" && o.Err == "" && o.Hit == 0 {
				v.sameMeaning(fmt.Sprintf("%q", clip(string(it.Src))), string(it.Src), o.Text)
			}
		})
		v.Sample = langSample(c)
		return v
	}
	src := string(sc.Stdin) + string(sc.Files["in.acc"])
	v.Sample = map[string]interface{}{"case": c.Index, "kind": c.Kind, "args": sc.Args, "faults": sc.Faults, "input": clip(src)}
	o := w.run(sc)
	v.absorb(o, sc, 0)
	if v.Infra != "" || !v.ended(o, sc) {
		return v
	}
	build := len(sc.Args) > 1 && sc.Args[1] == "-b"
	if o.Res.Status != 0 && build {
		v.probe("command_refused", 1)
		return v
	}
	if o.Res.Status != 0 {
		if _, odd, err := refParse(src); err == nil && !odd && !hardFired(sc, o.Res) {
			v.fail("rejected", "fmt of %q exits with status %d: %s", clip(src), o.Res.Status, clip(string(o.Res.Stderr)))
		}
		v.probe("command_refused", 1)
		return v
	}
	out := string(o.Res.Stdout)
	t, _, err := refParse(src)
	if err != nil {
		return v
	}
	t2, odd, err := refParse(out)
	if !build && (err != nil || odd || sexp(t) != sexp(t2)) {
		v.fail("identity", "fmt of %q prints\n%s\nwhich is another tree (%v)", clip(src), clip(out), err)
		return v
	}
	same := v.sameMeaning(fmt.Sprintf("%q", clip(src)), src, out)
	v.probe("formatted", 1)
	if hardFired(sc, o.Res) {
		return v
	}
	if build {
		if !same {
			return v
		}
		// The tool itself loads it.
		again := clone(sc)
		again.Faults, again.Args, again.Stdin = nil, []string{"eval"}, o.Res.Stdout
		o2 := w.run(again)
		v.absorb(o2, again, -1)
		if v.Infra != "" || !v.ended(o2, again) {
			return v
		}
		if o2.Res.Status != 0 {
			v.fail("rejected", "fmt -b of %q prints\n%s\nwhich eval rejects: %s", clip(src), clip(out), clip(string(o2.Res.Stderr)))
		}
		return v
	}
	// Format the output once more.
	again := clone(sc)
	again.Faults, again.Args, again.Stdin = nil, []string{"fmt"}, o.Res.Stdout
	o2 := w.run(again)
	v.absorb(o2, again, -1)
	if v.Infra != "" || !v.ended(o2, again) {
		return v
	}
	if o2.Res.Status != 0 || string(o2.Res.Stdout) != out {
		v.fail("idempotence", "fmt of %q prints\n%s\nformatting that again gives status %d and\n%s", clip(src), clip(out), o2.Res.Status, clip(string(o2.Res.Stdout)))
	}
	return v
}

// sameMeaning checks that formatting keeps the chain. It reports whether the
// source has one and it is kept.
func (v *Verdict) sameMeaning(name, src, out string) bool {
	_, ev, lax, err := refLoad(src, refLimit)
	if err != nil || lax {
		return false
	}
	_, ev2, _, err := refLoad(out, refLimit)
	if err != nil || !sameChain(ev.Chain, ev2.Chain) || !sameOps(ev.Ops, ev2.Ops) {
		v.fail("meaning", "formatting %s gives\n%s\nwith another chain (%v)", name, clip(out), err)
		return false
	}
	v.probe("chains_kept", 1)
	return true
}

func init() {
	props["C07"] = &Prop{
		ID: "C07", Level: "exploration", SelfN: 150,
		Count: func(tier string) int {
			n := len(known07) + (sysTreeCount()+treePer-1)/treePer
			if tier == "thorough" {
				return n + 300000
			}
			return n + 9000
		},
		Gen: gen07, Exec: exec07, Scheds: runScheds, Shrink: shrinkRuns,
		Rule: "a case is a session of 1-4 concurrent callers printing trees and parsing the text back over simulated streams, or a run of the fmt command (and one on its output), with a schedule and a fault plan; distinct by digest of everything observed",
		Real: langReal,
		Stub: langStub,
		Assume: []string{"identifiers of trees built by hand do not start with dbl, apart from the recorded finding; scripts use any identifier",
			"the reference parser (sim/ref.go) states the published grammar"},
	}
}
