//go:build !race

package kit

// Races is the number of data races the race detector has reported.
func Races() int { return 0 }

// Detecting tells whether the race detector is on.
const Detecting = false
