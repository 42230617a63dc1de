package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	prop := flag.String("property", "", "property to decide, or a comma separated list, or all")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where known findings and evidence are")
	quiet := flag.Bool("n", false, "write no files")
	dbg := flag.String("dbg", "", "debug: interpret this function with opaque callees")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30) // collect more often above that
	if pf := os.Getenv("JSV_PROF"); pf != "" {
		if w, err := os.Create(pf); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sort.Slice(registry, func(i, j int) bool { return registry[i].ID < registry[j].ID })
	p, err := Load(*repo)
	if *dbg != "" {
		debug1(p, *dbg)
		return
	}
	ok, n := true, 0
	for _, ch := range registry {
		want := *prop == "all"
		for _, id := range strings.Split(*prop, ",") {
			want = want || id == ch.ID
		}
		if !want {
			continue
		}
		n++
		if !runCheck(p, err, ch, *verif, *tier, seed, *quiet) {
			ok = false
		}
	}
	if n == 0 {
		fmt.Println("no such property")
		os.Exit(2)
	}
	if !ok {
		os.Exit(1)
	}
}

func debug1(p *Prog, name string) {
	debugLoops = os.Getenv("DBG") != ""
	for _, f := range p.Funcs {
		if name != "all" && f.Name() != name {
			continue
		}
		func() {
			t := time.Now()
			in := NewInterp(p)
			in.MaxSteps = 300000
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(Undecided); ok {
						fmt.Println("UNDECIDED", FnName(f), u.Why[:min(len(u.Why), 150)], time.Since(t))
						return
					}
					panic(r)
				}
			}()
			in.Opaque = func(g *ssaFn) bool { return true }
			outs := in.Run(f, nil, nil, newState())
			fmt.Println(FnName(f), len(outs), in.steps, time.Since(t))
			if name != "all" {
				for _, o := range outs {
					fmt.Println("   ", keys(o.Ret), o.Panic)
				}
			}
		}()
	}
}
