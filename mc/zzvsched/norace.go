//go:build !race && go1.21

package zzvsched

import "unsafe"

// Race tells whether the race detector is on.
const Race = false

func raceOff()                          {}
func raceOn()                           {}
func raceAcquire(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

// Races is the number of races reported so far.
func Races() int { return 0 }
