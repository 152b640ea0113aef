//go:build vsim && !race

package main

import "sync"

type quietMutex = sync.Mutex

func raceReads([]byte)  {}
func raceWrites([]byte) {}
func racePublish()      {}
func raceObtain()       {}
func appReads([]byte)   {}
func appWrites([]byte)  {}
