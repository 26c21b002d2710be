package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func main() {
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.StringVar(&dumpDir, "dump", "", "directory for failed queries")
	flag.StringVar(&repoDir, "repo", repoDir, "repository")
	flag.StringVar(&verifDir, "verif", verifDir, "verif directory")
	ms := flag.Int("ms", 20000, "solver milliseconds per obligation")
	flag.Parse()
	if flag.NArg() < 1 {
		fmt.Println("usage: kvc [flags] unit <substring> | list | dump <fn>")
		os.Exit(2)
	}
	var err error
	tmpDir, err = os.MkdirTemp("", "kvc-")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	rc := 0
	if f := os.Getenv("KVC_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
			if d, err := time.ParseDuration(os.Getenv("KVC_STOP")); err == nil {
				time.AfterFunc(d, func() { pprof.StopCPUProfile(); os.Exit(3) })
			}
		}
	}
	func() {
		defer os.RemoveAll(tmpDir)
		rc = cmd(flag.Args(), *ms)
	}()
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func load() (*World, error) {
	P, err := loadProg(repoDir, verifDir+"/contracts", verifDir+"/kv", []string{"slices", "maps", "cmp"})
	if err != nil {
		return nil, err
	}
	return newWorld(P), nil
}

func cmd(args []string, ms int) int {
	t0 := time.Now()
	switch args[0] {
	case "check":
		return check(args[1], ms)
	case "unit", "list", "ssa":
	default:
		fmt.Println("unknown command")
		return 2
	}
	w, err := load()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if verbose {
		fmt.Printf("loaded in %.1fs; dropped %v\n", time.Since(t0).Seconds(), w.P.dropped)
	}
	for _, d := range w.P.dropped {
		fmt.Println("dropped:", d)
	}
	switch args[0] {
	case "list":
		for _, u := range w.units {
			fmt.Println(u.Name, u.Props)
		}
	case "ssa":
		for k, fn := range w.P.names {
			if strings.Contains(k, args[1]) {
				fmt.Println("====", k)
				fn.WriteTo(os.Stdout)
			}
		}
	case "unit":
		rc := 0
		for _, u := range w.units {
			match := false
			for _, a := range args[1:] {
				if a == "all" || strings.Contains(u.Name, a) {
					match = true
				}
			}
			if !match {
				continue
			}
			t1 := time.Now()
			es, err := w.runUnit(u)
			for _, e := range es {
				fmt.Printf("%s %v: %d obligations, %d facts, %d steps, exec %.1fs %v\n", u.Name, u.Props, len(e.obls), len(e.facts), e.steps, time.Since(t1).Seconds(), e.script)
			}
			if err != nil {
				fmt.Println("  ERROR:", err)
				rc = 1
				continue
			}
			for _, e := range es {
				discharge(e, e.obls, ms)
			}
			e := joinPaths(es)
			for _, o := range e.obls {
				if o.Result != "proved" {
					rc = 1
					fmt.Printf("  FAILED [%s] %s at %s (%s %s, %.1fs)\n", o.Kind, o.Name, o.Pos, o.Model, o.Solver, o.Time)
					if verbose {
						fmt.Println("     goal:", o.Goal)
						fmt.Println(o.Output)
					}
				} else if verbose {
					fmt.Printf("  ok [%s] %s at %s (%s %.1fs)\n", o.Kind, o.Name, o.Pos, o.Solver, o.Time)
				}
			}
			for _, o := range e.loopObl {
				if verbose {
					fmt.Println("  ", o.Name)
				}
			}
			if verbose {
				for t := range e.trusted {
					fmt.Println("  trusted:", t)
				}
				for t := range e.inlined {
					fmt.Println("  inlined:", t)
				}
			}
		}
		fmt.Printf("total %.1fs, solver runs %d\n", time.Since(t0).Seconds(), solveN)
		return rc
	}
	return 0
}
