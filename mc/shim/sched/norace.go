//go:build !race

package sched

// RaceOn tells if the race detector is present
const RaceOn = false

func raceDisable() {}
func raceEnable()  {}

// RaceErrors is the number of races that have been reported
func RaceErrors() int { return 0 }
