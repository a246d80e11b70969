//go:build !race

package simrt

import "unsafe"

// RaceBuild tells whether the binary was built with the race detector.
const RaceBuild = false

func raceDisable()                 {}
func raceEnable()                  {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
func RaceErrors() int              { return 0 }
