//go:build !race

package sched

const Race = false

func hide()           {}
func show()           {}
func RaceErrors() int { return 0 }
