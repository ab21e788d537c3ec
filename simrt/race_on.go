//go:build race

package zzsimrt

import "runtime"

const RaceEnabled = true

func raceDisable()    { runtime.RaceDisable() }
func raceEnable()     { runtime.RaceEnable() }
func RaceErrors() int { return runtime.RaceErrors() }
