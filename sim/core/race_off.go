//go:build !race

package core

const raceEnabled = false

func raceErrors() int { return 0 }
