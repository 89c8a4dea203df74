//go:build race

package sched

import "runtime"

const Race = true

func raceOff()    { runtime.RaceDisable() }
func raceOn()     { runtime.RaceEnable() }
func Errors() int { return runtime.RaceErrors() }
