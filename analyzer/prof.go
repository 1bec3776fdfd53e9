package main

import (
	"os"
	"runtime/pprof"
	"time"
)

var profMachine *Machine

// profiling for development: VERIF_PROF=file,seconds
func init() {
	if p := os.Getenv("VERIF_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		go func() {
			time.Sleep(20 * time.Second)
			pprof.StopCPUProfile()
			f.Close()
			if profMachine != nil {
				for _, l := range profMachine.callStack() {
					println(l)
				}
			}
			panic("profile done")
		}()
	}
}
