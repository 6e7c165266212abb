package main

import (
	"fmt"
	"strconv"
	"sync"
)

// digests prints the digest of every case in [lo,hi), to compare whole
// batches across runs, worker counts and process assignments.
func digests(id string, lo, hi int) int {
	p := props[id]
	if _, err := prepare(); err != nil {
		logf("%v", err)
		return exitError
	}
	plain, err := buildSim(false)
	race := ""
	if err == nil && p.NeedRace {
		race, err = buildSim(true)
	}
	if err != nil {
		logf("%v", err)
		return exitError
	}
	out := make([]string, hi-lo)
	var mu sync.Mutex
	next := lo
	var wg sync.WaitGroup
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(plain, race)
			defer w.close()
			for {
				mu.Lock()
				from := next
				next += chunk
				mu.Unlock()
				if from >= hi {
					return
				}
				w.fresh()
				for i := from; i < from+chunk && i < hi; i++ {
					s := mix(seedEnv(), strHash(id), uint64(i))
					c := p.Gen(newRng(s), i, "quick")
					c.Prop, c.Index, c.Seed = id, i, s
					v := p.Exec(w, c)
					out[i-lo] = fmt.Sprintf("%d %s race=%v %016x steps=%d dec=%d class=%s infra=%s", i, c.Kind, c.Race, v.Digest, v.Steps, v.Decisions, v.Class, v.Infra)
				}
			}
		}()
	}
	wg.Wait()
	for _, l := range out {
		fmt.Println(l)
	}
	return 0
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }
