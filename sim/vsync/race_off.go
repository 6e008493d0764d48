//go:build !race

package vsync

import "unsafe"

// RaceMode reports whether the happens-before monitor is compiled in.
const RaceMode = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return 0 }

// RaceWrite tells the monitor that b is being written.
func RaceWrite(b []byte) {}

// RaceRead tells the monitor that b is being read.
func RaceRead(b []byte) {}
