//go:build !race

package main

const raceBuild = false

func raceEnable()  {}
func raceDisable() {}

func raceReports() int { return 0 }
