//go:build !race

package vsched

func raceOff()                 {}
func raceOn()                  {}
func raceAcquire(p *byte)      {}
func raceReleaseMerge(p *byte) {}

// Acquire, Release and ReleaseMerge are the ordering edges of modelled locks.
func Acquire(p *byte)      {}
func Release(p *byte)      {}
func ReleaseMerge(p *byte) {}

// Races is the number of data races reported so far.
func Races() int { return 0 }

const RaceBuild = false
