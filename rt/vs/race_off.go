//go:build !race

package vs

const RaceBuild = false

func raceDisable()          {}
func raceEnable()           {}
func acquire(p *hbTok)      {}
func releaseMerge(p *hbTok) {}
