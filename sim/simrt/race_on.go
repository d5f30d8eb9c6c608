//go:build race

package simrt

import "runtime"

const RaceBuild = true

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
