//go:build !race

package sched

// Race reports whether the race detector is built in.
const Race = false

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
