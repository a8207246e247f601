//go:build race

package main

import "runtime"

const raceEnabled = true

// What the scheduler does to hand over control must not count as
// synchronisation of the code under test.
//
//go:norace
func raceIgnoreSync() { runtime.RaceDisable() }

//go:norace
func raceHeedSync() { runtime.RaceEnable() }
