// Command vsim is the orchestrator of the deterministic simulator.
package main

import (
	"fmt"
	"os"
)

func logf(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

func main() {
	if len(os.Args) < 2 {
		logf("usage: vsim setup | check ID | replay FILE")
		os.Exit(exitError)
	}
	switch os.Args[1] {
	case "setup":
		if _, err := prepare(); err != nil {
			logf("%v", err)
			os.Exit(exitError)
		}
		for _, race := range []bool{false, true} {
			if _, err := buildSim(race); err != nil {
				logf("%v", err)
				os.Exit(exitError)
			}
		}
		if _, err := buildTool("simrel", "./internal/tools/release", false); err != nil {
			logf("%v", err)
			os.Exit(exitError)
		}
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "digests":
		os.Exit(digests(os.Args[2], atoi(os.Args[3]), atoi(os.Args[4])))
	default:
		logf("unknown command %q", os.Args[1])
		os.Exit(exitError)
	}
}
