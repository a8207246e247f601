//go:build !race

package main

const raceEnabled = false

func raceIgnoreSync() {}
func raceHeedSync()   {}
