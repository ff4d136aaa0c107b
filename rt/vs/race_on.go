//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

func raceDisable()          { runtime.RaceDisable() }
func raceEnable()           { runtime.RaceEnable() }
func acquire(p *hbTok)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func releaseMerge(p *hbTok) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
