//go:build race

package kit

import "runtime"

// Races is the number of data races the race detector has reported.
func Races() int { return runtime.RaceErrors() }

// Detecting tells whether the race detector is on.
const Detecting = true
