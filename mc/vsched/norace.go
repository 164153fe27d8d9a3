//go:build !race

package vsched

import "unsafe"

// Raced is true if the race detector is enabled
const Raced = false

func raceDisable() {}
func raceEnable()  {}

func raceRelease(p unsafe.Pointer) {}
func raceAcquire(p unsafe.Pointer) {}
