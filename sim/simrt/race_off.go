//go:build !race

package simrt

const RaceBuild = false

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }
