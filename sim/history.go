package main

import (
	"encoding/json"
)

// tweak changes one character, keeping the length.
func tweak(r *Rng, src []byte) []byte {
	b := append([]byte(nil), src...)
	for n := 0; n < 20 && len(b) > 0; n++ {
		i := r.N(len(b))
		switch c := b[i]; {
		case c >= '0' && c <= '9':
			// Only downwards, so that shifts stay as small as they are.
			b[i] = '0' + byte(r.N(int(c-'0')+1))
		case c >= 'a' && c <= 'z':
			b[i] = byte('a' + r.N(26))
		case c == '+' || c == '<':
			continue
		default:
			continue
		}
		return b
	}
	return b
}

// history makes the items of a session depend on each other: inputs return,
// exactly or with one character changed, and unrelated calls happen between
// the judged ones.
func history(r *Rng, sc *Scenario) *Scenario {
	if r.P(1, 3) {
		return sc
	}
	var sp LangSpec
	if json.Unmarshal(sc.Lab, &sp) != nil {
		return sc
	}
	var seen []LangItem
	again, noise, twice := r.P(1, 2), r.P(1, 2), r.P(1, 2)
	for i := range sp.Callers {
		var l []LangItem
		for _, it := range sp.Callers[i] {
			if again && len(seen) > 0 && r.P(1, 4) {
				p := seen[r.N(len(seen))]
				if p.Op == it.Op {
					it.Src, it.Tree, it.Prog = p.Src, p.Tree, p.Prog
					if len(it.Src) > 0 && r.P(1, 2) {
						it.Src = tweak(r, it.Src)
					}
				}
			}
			if noise && r.P(1, 4) {
				n := LangItem{Op: pick(r, "load", "fmt", "build", "gen", "gen", "calc"), Src: it.Src, Noise: true}
				if n.Op == "calc" {
					n.Src = []byte(genCalc(r, false))
				} else if len(n.Src) == 0 || r.P(1, 2) {
					n.Src = []byte(langText(r))
				}
				if n.Op == "gen" {
					n.Type = pick(r, "listing", "chain", "ops", "script", templates[r.N(len(templates))])
				}
				if n.Op == "load" && r.P(1, 2) {
					n.Type = "string"
				}
				if r.P(1, 3) {
					n.In = genPlan(r, len(n.Src), r.P(1, 2))
				}
				if r.P(1, 3) {
					n.Out = genPlan(r, r.N(200), r.P(1, 2))
				}
				l = append(l, n)
			}
			it.Again = twice && r.P(1, 3)
			seen = append(seen, it)
			l = append(l, it)
		}
		sp.Callers[i] = l
	}
	sc.Lab, _ = json.Marshal(sp)
	return sc
}
