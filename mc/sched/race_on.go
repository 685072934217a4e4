//go:build race

package sched

import "runtime"

// Race says that this build watches for data races.
const Race = true

// Handing over between threads must not order their accesses: the code under
// test does not see these operations.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
