//go:build !race

package sched

const Race = false

func raceOff()    {}
func raceOn()     {}
func Errors() int { return 0 }
