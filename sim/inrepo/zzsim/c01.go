//go:build go1.21

package zzsim

import (
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"

	"github.com/mmcloughlin/addchain/alg/exec"
)

func init() { labs["c01"] = labC01 }

// Call01 runs configuration Alg of the catalogue on the target.
type Call01 struct {
	N      string `json:"n"`
	Alg    int    `json:"alg"`
	Direct bool   `json:"direct,omitempty"` // FindChain only
	Trials int    `json:"trials,omitempty"` // repeat on the same objects
	Kind   int    `json:"kind,omitempty"`   // of configuration
}

// Spec01 is a C01 run: callers share the algorithm objects and, for equal
// targets, the target objects.
type Spec01 struct {
	Callers [][]Call01 `json:"callers"`
	Fresh   bool       `json:"fresh,omitempty"` // every call has objects of its own
	Reverse bool       `json:"reverse,omitempty"`
	Reuse   bool       `json:"reuse,omitempty"` // a caller has one target object, set anew for every call
	Spoil   bool       `json:"spoil,omitempty"` // a caller overwrites the slices it is given
}

// Out01 is the outcome of a call.
type Out01 struct {
	Name  string
	Err   string
	Bad   string // the chain or its operations are wrong
	Len   int
	Chain string
}

type done01 struct {
	t   *big.Int
	n   string
	out Out01
	all []exec.Result
	k   int // judged so far
}

// judge01 decides whether a result is an addition chain for n.
func judge01(r *exec.Result, n *big.Int, direct bool) string {
	c := r.Chain
	if len(c) == 0 {
		return "empty chain"
	}
	seen := map[string]int{}
	for i, x := range c {
		if x == nil {
			return fmt.Sprintf("element %d is nil", i)
		}
		k := x.Text(62)
		if j, ok := seen[k]; ok {
			return fmt.Sprintf("elements %d and %d are both %v", j, i, x)
		}
		seen[k] = i
	}
	if c[0].Cmp(big.NewInt(1)) != 0 {
		return fmt.Sprintf("the first element is %v", c[0])
	}
	if e := c[len(c)-1]; e.Cmp(n) != 0 {
		return fmt.Sprintf("the last element is %v", e)
	}
	t := new(big.Int)
	if direct {
	next:
		for k := 1; k < len(c); k++ {
			for i := k - 1; i >= 0; i-- {
				if j, ok := seen[t.Sub(c[k], c[i]).Text(62)]; ok && j < k {
					continue next
				}
			}
			return fmt.Sprintf("element %d, %v, is not the sum of two earlier elements", k, c[k])
		}
		return ""
	}
	if len(r.Program) != len(c)-1 {
		return fmt.Sprintf("%d operations for a chain of %d elements", len(r.Program), len(c))
	}
	for k, o := range r.Program {
		if o.I < 0 || o.J < 0 || o.I > k || o.J > k {
			return fmt.Sprintf("operation %d reads elements %d and %d", k, o.I, o.J)
		}
		if t.Add(c[o.I], c[o.J]).Cmp(c[k+1]) != 0 {
			return fmt.Sprintf("operation %d adds elements %d and %d, which gives %v, element %d is %v", k, o.I, o.J, t, k+1, c[k+1])
		}
	}
	if r.Target == nil || r.Target.Cmp(n) != 0 {
		return fmt.Sprintf("the result is for target %v", r.Target)
	}
	return ""
}

func hexes(c []*big.Int) string {
	var b []byte
	for _, x := range c {
		b = append(b, x.Text(16)...)
		b = append(b, ' ')
	}
	return string(b)
}

// take judges the results that have not been judged yet.
func (d *done01) take(r *Result, direct bool) {
	want, _ := new(big.Int).SetString(d.n, 16)
	if d.t.Cmp(want) != 0 {
		violf(r, "target: the caller's target %s is now %x", d.n, d.t)
	}
	for ; d.k < len(d.all); d.k++ {
		res := &d.all[d.k]
		if res.Err != nil {
			d.out.Err = res.Err.Error()
		} else if bad := judge01(res, want, direct); bad != "" {
			d.out.Bad = bad
		}
		h := hexes(res.Chain)
		if d.k == 0 {
			d.out.Chain = h
		} else if h != d.out.Chain && d.out.Bad == "" {
			violf(r, "repeat: %s on %s gives %s and later %s on the same objects", d.out.Name, d.n, d.out.Chain, h)
		}
		d.out.Len = len(res.Chain)
	}
}

func labC01(sc *Scenario, r *Result) {
	var sp Spec01
	if err := json.Unmarshal(sc.Lab, &sp); err != nil {
		r.Err = err.Error()
		return
	}
	shared := catalogue()
	targets := map[string]*big.Int{}
	ops := make([][]*done01, len(sp.Callers))
	for i, l := range sp.Callers {
		ops[i] = make([]*done01, len(l))
		for j, c := range l {
			t := targets[c.N]
			if t == nil || sp.Fresh {
				t, _ = new(big.Int).SetString(c.N, 16)
				targets[c.N] = t
			}
			ops[i][j] = &done01{t: t, n: c.N}
		}
	}
	var fresh []algConf
	runtime.SimStart(simConfig(&sc.Sched))
	do := func(i int) {
		l := sp.Callers[i]
		own := new(big.Int)
		for k := range l {
			j := k
			if sp.Reverse {
				j = len(l) - 1 - k
			}
			c, d := l[j], ops[i][j]
			cat := shared
			if sp.Fresh {
				if k%8 == 0 || fresh == nil {
					fresh = catalogue()
				}
				cat = fresh
			}
			if sp.Reuse {
				x, _ := new(big.Int).SetString(d.n, 16)
				d.t = own.Set(x)
			}
			a, _ := pickAlg(cat, d.t, c.Alg, c.Kind)
			for n := 0; n <= c.Trials; n++ {
				var res exec.Result
				if c.Direct {
					res.Chain, res.Err = a.FindChain(d.t)
				} else {
					res = exec.Execute(d.t, a)
				}
				d.out.Name = a.String()
				d.all = append(d.all, res)
				if sp.Reuse || sp.Spoil {
					d.take(r, c.Direct)
				}
				if sp.Spoil {
					for x := range res.Chain {
						res.Chain[x] = nil
					}
					for x := range res.Program {
						res.Program[x].I, res.Program[x].J = -1, -1
					}
				}
			}
		}
	}
	if len(sp.Callers) == 1 {
		do(0)
	} else {
		done := make(chan bool)
		for i := range sp.Callers {
			go func(i int) {
				do(i)
				done <- true
			}(i)
		}
		for range sp.Callers {
			<-done
		}
	}
	if !drain() {
		r.Leaked = true
	}
	r.fill(runtime.SimStop())
	data := make([][]Out01, len(ops))
	for i, l := range ops {
		for j, d := range l {
			if !sp.Reuse {
				d.take(r, sp.Callers[i][j].Direct)
			}
			data[i] = append(data[i], d.out)
		}
	}
	r.Data, _ = json.Marshal(data)
}
