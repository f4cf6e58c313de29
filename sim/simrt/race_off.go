//go:build !race

package simrt

import "unsafe"

// RaceEnabled tells whether the data race oracle is compiled in.
const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }
