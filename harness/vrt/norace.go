//go:build !race

package vrt

// RaceBuild reports whether the race detector is on.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

// RaceErrors returns the number of data races found so far.
func RaceErrors() int { return 0 }
