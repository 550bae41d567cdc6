package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
)

// The analysis of a program it cannot simplify may grow without bound. It gives up, as
// undecided, before the sandbox does.
const (
	softMem  = 9 << 30
	hardMem  = 15 << 30
	softTime = 600 * time.Second
	hardTime = 780 * time.Second
)

var (
	exhausted atomic.Pointer[string]
	ruleStart atomic.Int64
)

// watch looks at memory and time until the process ends
func watch(current *atomic.Pointer[string], verif string) {
	debug.SetMemoryLimit(softMem - 1<<30)
	for {
		time.Sleep(500 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		d := time.Since(time.Unix(0, ruleStart.Load()))
		why := ""
		switch {
		case m.HeapAlloc > softMem:
			why = fmt.Sprintf("the analysis outgrew its memory (%d MB)", m.HeapAlloc>>20)
		case d > softTime:
			why = fmt.Sprintf("the analysis outgrew its time (%d s)", int(d.Seconds()))
		}
		if why == "" {
			exhausted.Store(nil)
			continue
		}
		exhausted.Store(&why)
		if m.HeapAlloc > hardMem || d > hardTime {
			id := *current.Load()
			rp := filepath.Join(verif, "evidence", id+".violations.txt")
			os.WriteFile(rp, []byte("rule:      undecided\nconstruct: analysis\nat:        -\n"+why+"\n"), 0o644)
			fmt.Printf("  -: [undecided] analysis: %s\nVIOLATION property=%s replay=%s\n", why, id, rp)
			os.Exit(1)
		}
	}
}
