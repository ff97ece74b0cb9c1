//go:build !race

package vsched

import "unsafe"

const RaceMode = false

func raceDisable()                 {}
func raceEnable()                  {}
func RaceErrors() int              { return 0 }
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
