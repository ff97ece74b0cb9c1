//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

const RaceMode = true

func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func RaceErrors() int              { return runtime.RaceErrors() }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
