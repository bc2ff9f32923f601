//go:build race

package sched

import "runtime"

// Race reports whether the race detector is built in.
const Race = true

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
