//go:build race

package core

import "runtime"

const raceEnabled = true

func raceErrors() int { return runtime.RaceErrors() }
