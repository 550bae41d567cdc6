package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"sync/atomic"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	tier := flag.String("tier", "quick", "quick or thorough")
	first := flag.Bool("first", false, "stop after the first property that is violated")
	dbg := flag.Bool("debug", false, "print details, do not recover")
	flag.Parse()
	var ids []string
	for id := range rules {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if flag.NArg() > 0 && flag.Arg(0) != "all" {
		ids = flag.Args()
	}
	debug.SetGCPercent(400)
	var current atomic.Pointer[string]
	ruleStart.Store(time.Now().UnixNano())
	none := ""
	current.Store(&none)
	go watch(&current, *verif)
	code := 0
	if p := os.Getenv("AN_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, id := range ids {
		r := rules[id]
		if r == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		current.Store(&id)
		ruleStart.Store(time.Now().UnixNano())
		if runRule(r, *repo, *verif, *tier, *dbg) != 0 {
			code = 1
			if *first {
				break
			}
		}
	}
	if os.Getenv("AN_PROF") != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}
