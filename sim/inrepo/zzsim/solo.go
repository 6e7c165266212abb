//go:build go1.21

package zzsim

import (
	"encoding/json"
	"math/big"

	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
)

func init() { labs["solo"] = labSolo }

// SoloRes is the outcome of one algorithm executed alone.
type SoloRes struct {
	Name    string `json:"name"`
	Doubles int    `json:"doubles"`
	Adds    int    `json:"adds"`
	Err     string `json:"err,omitempty"`
}

// labSolo executes every algorithm of the ensemble alone, one after another,
// each on a fresh instance and a fresh target.
func labSolo(sc *Scenario, r *Result) {
	var hex string
	if err := json.Unmarshal(sc.Lab, &hex); err != nil {
		r.Err = err.Error()
		return
	}
	var out []SoloRes
	for i := range ensemble.Ensemble() {
		n, ok := new(big.Int).SetString(hex, 16)
		if !ok {
			r.Err = "bad number"
			return
		}
		res := exec.Execute(n, ensemble.Ensemble()[i])
		s := SoloRes{Name: res.Algorithm.String()}
		if res.Err != nil {
			s.Err = res.Err.Error()
		} else {
			for _, op := range res.Program {
				if op.I == op.J {
					s.Doubles++
				} else {
					s.Adds++
				}
			}
		}
		out = append(out, s)
	}
	r.Data, _ = json.Marshal(out)
}
