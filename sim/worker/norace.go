//go:build !race

package main

const raceBuild = false

func raceOff()                 {}
func raceOn()                  {}
func (s *Sim) raceLock(*opx)   {}
func (s *Sim) raceUnlock(*opx) {}
func raceReports() string      { return "" }
func raceSettle()              {}
