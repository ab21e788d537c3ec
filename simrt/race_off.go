//go:build !race

package zzsimrt

const RaceEnabled = false

func raceDisable()    {}
func raceEnable()     {}
func RaceErrors() int { return 0 }
