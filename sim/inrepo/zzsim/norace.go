//go:build !race && go1.21

package zzsim

func raceErrors() int { return 0 }
