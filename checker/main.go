package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
)

func main() {
	debug.SetGCPercent(400)
	a := os.Args[1:]
	if len(a) > 1 && a[0] == "debug" {
		P, err := loadProgram()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if a[1] == "live" {
			debugLive(P)
			return
		}
		if a[1] == "locks" {
			debugLocks(P)
			return
		}
		debugMain(P, a[1:])
		return
	}
	if p := os.Getenv("VERIF_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	var ids []string
	for _, x := range a {
		switch x {
		case "-quick":
			tier = "quick"
		case "-thorough":
			tier = "thorough"
		default:
			ids = append(ids, x)
		}
	}
	rc := runChecks(ids, tier)
	pprof.StopCPUProfile()
	os.Exit(rc)
}
