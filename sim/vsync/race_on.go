//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

// RaceMode reports whether the happens-before monitor is compiled in.
const RaceMode = true

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

// RaceWrite tells the monitor that b is being written.
func RaceWrite(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}

// RaceRead tells the monitor that b is being read.
func RaceRead(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
