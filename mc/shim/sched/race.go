//go:build race

package sched

import "runtime"

// RaceOn tells if the race detector is present
const RaceOn = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// RaceErrors is the number of races that have been reported
func RaceErrors() int { return runtime.RaceErrors() }
