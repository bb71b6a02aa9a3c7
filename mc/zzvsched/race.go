//go:build race && go1.21

package zzvsched

import (
	"runtime"
	"unsafe"
)

// Race tells whether the race detector is on.
const Race = true

// the hand-overs of the scheduler must not order the memory accesses of the threads
//
//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Races is the number of races reported so far.
func Races() int { return runtime.RaceErrors() }
