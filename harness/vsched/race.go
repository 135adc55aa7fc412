//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

func raceOff()                 { runtime.RaceDisable() }
func raceOn()                  { runtime.RaceEnable() }
func raceAcquire(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceReleaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// Acquire, Release and ReleaseMerge are the ordering edges of modelled locks.
func Acquire(p *byte)      { raceAcquire(p) }
func Release(p *byte)      { raceRelease(p) }
func ReleaseMerge(p *byte) { raceReleaseMerge(p) }

// Races is the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }

const RaceBuild = true
