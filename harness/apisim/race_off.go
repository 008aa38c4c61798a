//go:build !race

package main

func raceDisable() {}
func raceEnable()  {}
