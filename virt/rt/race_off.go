//go:build !race

package rt

const RaceEnabled = false

func raceOff()        {}
func raceOn()         {}
func RaceErrors() int { return 0 }
