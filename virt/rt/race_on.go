//go:build race

package rt

import "runtime"

const RaceEnabled = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

func RaceErrors() int { return runtime.RaceErrors() }
