//go:build race && go1.21

package zzsim

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
