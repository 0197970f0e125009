//go:build race

package vrt

import "runtime"

// RaceBuild reports whether the race detector is on.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors returns the number of data races found so far.
func RaceErrors() int { return runtime.RaceErrors() }
