package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"syscall"
	"testing"
)

func setLimits(race bool) {
	if !race {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
}

func main() {
	indexPrims()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness drive ID | worker ... | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for id := range registry {
			fmt.Println(id)
		}
	case "drive":
		os.Exit(drive(os.Args[2]))
	case "worker":
		id := os.Args[2]
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		checks, _ := strconv.Atoi(os.Args[4])
		dir := os.Args[5]
		corpus := os.Args[6]
		shrink := os.Args[7]
		setLimits(registry[id].Race)
		workDir = dir
		testing.Init()
		flag.CommandLine.Parse(nil)
		flag.Set("rapid.seed", fmt.Sprint(seed))
		flag.Set("rapid.checks", fmt.Sprint(checks))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", shrink)
		os.Exit(worker(id, seed, checks, dir, corpus))
	case "replay":
		// replay FILE [quiet]: 0 the case passes, 1 it fails
		raw, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var cf caseFailure
		if err := json.Unmarshal(raw, &cf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p := registry[cf.Property]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", cf.Property)
			os.Exit(2)
		}
		setLimits(p.Race)
		if d, err := os.MkdirTemp("", "vf-replay"); err == nil {
			workDir = d
			defer os.RemoveAll(d)
		}
		n := 1
		if len(os.Args) > 3 {
			n, _ = strconv.Atoi(os.Args[3])
		}
		for i := 0; i < n; i++ {
			r := &Rec{}
			if err := runCase(p, remarshal(p, cf.Case), r); err != nil {
				fmt.Printf("FAILS: %v\ncase: %s\n", err, cf.Case)
				os.RemoveAll(workDir)
				os.Exit(1)
			}
		}
		fmt.Println("passes")
		os.RemoveAll(workDir)
		os.Exit(0)
	default:
		os.Exit(2)
	}
}

// workDir is this process's scratch directory.
var workDir = os.TempDir()
