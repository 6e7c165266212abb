//go:build go1.21

package zzsim

import (
	"math/big"

	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/binary"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/alg/opt"
)

// algConf is an algorithm configuration with the largest targets, in bits, it
// is run on: configurations that try many continued fractions are meant for
// small targets only.
type algConf struct {
	a    alg.ChainAlgorithm
	bits int
	kind int
}

// Kinds of configurations; zero asks for any.
const (
	_ = iota
	kindEnsemble
	kindDirect // one sequence algorithm or the binary algorithm
	kindRuns
	kindDict
)

const anyBits = 1 << 20

// catalogue builds the algorithm configurations of the library. Like the
// ensemble, it shares the sequence algorithms between configurations.
func catalogue() []algConf {
	type seq struct {
		a      alg.SequenceAlgorithm
		direct int // bits of targets when used alone
		window int // bits of dictionary entries
	}
	h := func(hs ...heuristic.Heuristic) alg.SequenceAlgorithm {
		if len(hs) == 1 {
			return heuristic.NewAlgorithm(hs[0])
		}
		return heuristic.NewAlgorithm(heuristic.UseFirst(hs...))
	}
	seqs := []seq{
		{h(heuristic.DeltaLargest{}), 9, 7},
		{h(heuristic.Approximation{}), 9, 7},
		{h(heuristic.Halving{}, heuristic.DeltaLargest{}), anyBits, anyBits},
		{h(heuristic.Halving{}, heuristic.Approximation{}), anyBits, anyBits},
		{h(heuristic.Halving{}, heuristic.Halving{}, heuristic.Approximation{}, heuristic.DeltaLargest{}), anyBits, anyBits},
	}
	for _, s := range contfrac.Strategies {
		q := seq{contfrac.NewAlgorithm(s), anyBits, anyBits}
		switch s.(type) {
		case contfrac.TotalStrategy:
			q.direct, q.window = 5, 4
		case contfrac.DyadicStrategy:
			q.direct, q.window = 12, 8
		case contfrac.FermatStrategy:
			q.direct, q.window = 16, 10
		}
		seqs = append(seqs, q)
	}
	// Windows and runs around the sizes of machine words and bytes.
	wide := 0
	var l []algConf
	for _, a := range ensemble.Ensemble() {
		l = append(l, algConf{a, anyBits, kindEnsemble})
	}
	ens := len(l)
	l = append(l, algConf{binary.RightToLeft{}, anyBits, kindDirect})
	for _, q := range seqs {
		l = append(l, algConf{alg.AsChainAlgorithm(q.a), q.direct, kindDirect})
		runs := anyBits
		if q.window < 20 {
			runs = 1 << uint(min(q.direct, q.window)) >> 1
		}
		l = append(l, algConf{dict.NewRunsAlgorithm(q.a), runs, kindRuns})
		for k := uint(1); k <= 12; k++ {
			// A window is bounded by the target as well.
			bits := anyBits
			if int(k) > q.window {
				bits = q.window
			}
			ds := []dict.Decomposer{dict.FixedWindow{K: k}, dict.SlidingWindow{K: k}}
			for _, d := range ds {
				l = append(l, algConf{dict.NewAlgorithm(d, q.a), bits, kindDict})
			}
			for _, t := range []uint{0, 1, 3, 9, 20} {
				bits := bits
				if t == 0 || int(t) > q.window {
					bits = min(bits, q.window)
				}
				l = append(l, algConf{dict.NewAlgorithm(dict.Hybrid{K: k, T: t}, q.a), bits, kindDict})
			}
			l = append(l, algConf{dict.NewAlgorithm(dict.RunLength{T: k}, q.a), bits, kindDict})
		}
		l = append(l, algConf{dict.NewAlgorithm(dict.RunLength{T: 0}, q.a), min(anyBits, q.window), kindDict})
		l = append(l, algConf{dict.NewAlgorithm(dict.SlidingWindow{K: 64}, q.a), min(anyBits, q.window), kindDict})
		for _, k := range []uint{16, 31, 100} {
			l = append(l, algConf{dict.NewAlgorithm(dict.FixedWindow{K: k}, q.a), min(anyBits, q.window), kindDict})
			l = append(l, algConf{dict.NewAlgorithm(dict.Hybrid{K: k, T: 2 * k}, q.a), min(anyBits, q.window), kindDict})
		}
		if q.window < anyBits {
			continue
		}
		for _, k := range []uint{13, 15, 17, 20, 32, 33, 63, 65, 127, 128, 129, 255, 256, 257, 300} {
			for _, d := range []dict.Decomposer{
				dict.FixedWindow{K: k}, dict.SlidingWindow{K: k}, dict.RunLength{T: k},
				dict.Hybrid{K: 4, T: k}, dict.Hybrid{K: k, T: k + 3}, dict.Hybrid{K: k},
			} {
				if wide++; wide%3 == 0 {
					l = append(l, algConf{dict.NewAlgorithm(d, q.a), anyBits, kindDict})
				}
			}
		}
	}
	// Every configuration that the ensemble does not optimise, optimised.
	for _, c := range l[ens:] {
		if _, ok := c.a.(opt.Algorithm); !ok {
			l = append(l, algConf{opt.Algorithm{Algorithm: c.a}, c.bits, c.kind})
		}
	}
	return l
}

// pickAlg chooses configuration i among those of a kind, if it is not zero,
// meant for targets like n.
func pickAlg(l []algConf, n *big.Int, i, kind int) (alg.ChainAlgorithm, int) {
	bits := n.BitLen()
	fits := func(c algConf) bool {
		return c.bits >= bits && (kind == 0 || c.kind == kind)
	}
	fit := 0
	for _, c := range l {
		if fits(c) {
			fit++
		}
	}
	k := i % fit
	for j, c := range l {
		if !fits(c) {
			continue
		}
		if k == 0 {
			return c.a, j
		}
		k--
	}
	return nil, -1
}
