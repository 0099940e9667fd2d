//go:build race

package sched

import "runtime"

const Race = true

// while hidden, synchronization of this goroutine creates no edge for the race detector
func hide()           { runtime.RaceDisable() }
func show()           { runtime.RaceEnable() }
func RaceErrors() int { return runtime.RaceErrors() }
