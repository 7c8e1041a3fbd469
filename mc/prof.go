package main

import (
	"os"
	"runtime/pprof"
)

func startProfile(path string) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	pprof.StartCPUProfile(f)
}

func stopProfile() { pprof.StopCPUProfile() }
