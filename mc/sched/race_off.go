//go:build !race

package sched

const Race = false

func raceOff() {}
func raceOn()  {}

func RaceErrors() int { return 0 }
