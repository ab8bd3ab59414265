package core

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"
	"syscall"
	"time"
)

func cpuSeconds() float64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// libFrame matches a stack frame inside the code under test.
var libFrame = regexp.MustCompile(`(?m)^github\.com/ixtendio/gofre[/.]`)

// libTop matches a goroutine whose innermost frame is inside the code under
// test: it waits on something of its own.
var libTop = regexp.MustCompile(`\Agoroutine [^\n]*\n(runtime\.[^\n]*\n\t[^\n]*\n)*github\.com/ixtendio/gofre[/.]`)
var gHeader = regexp.MustCompile(`(?m)^goroutine \d+ \[([^\]]+)\]:`)

// WatchStuck ends the worker when one case makes no progress: the verdict is a
// violation only when the library itself burns CPU without end, or one of its
// goroutines stays blocked on a lock or a channel; anything else is
// inconclusive. A case that normally takes well under a second is given a
// budget of minutes.
func (r *Run) WatchStuck(save string) {
	limit := 75 * time.Second
	if r.Tier == "thorough" {
		limit = 240 * time.Second
	}
	last := int64(-1)
	since := time.Now()
	cpu0 := cpuSeconds()
	collected := false
	for {
		time.Sleep(time.Second)
		cur, beat := r.Current()
		if beat != last {
			last, since, cpu0, collected = beat, time.Now(), cpuSeconds(), false
			continue
		}
		// the runtime notes since when a goroutine waits only when it collects
		if !collected && time.Since(since) > 4*time.Second {
			collected = true
			runtime.GC() // with the time of the collection before
			runtime.GC()
		}
		if time.Since(since) < limit {
			continue
		}
		used := cpuSeconds() - cpu0
		buf := make([]byte, 8<<20)
		dump := string(buf[:runtime.Stack(buf, true)])
		why := ""
		var stk string
		for _, g := range strings.Split(dump, "\n\n") {
			h := gHeader.FindStringSubmatch(g)
			if h == nil || !libFrame.MatchString(g) {
				continue
			}
			st := h[1]
			switch {
			case (strings.HasPrefix(st, "running") || strings.HasPrefix(st, "runnable")) && used > 45:
				why = fmt.Sprintf("no answer after %.0fs of CPU time", used)
			case (strings.HasPrefix(st, "sync.") || strings.HasPrefix(st, "semacquire")) && strings.Contains(st, "minute"):
				why = "blocked for ever on a lock"
			case strings.HasPrefix(st, "chan ") && strings.Contains(st, "minute") && libTop.MatchString(g) && !strings.Contains(g, "HttpSSEResponse"):
				why = "blocked for ever on a channel of its own"
			}
			if why != "" {
				stk = trim(g, 4000)
				break
			}
		}
		if why != "" {
			r.Violate("stuck", "the library does not terminate: "+why, map[string]any{"case": cur, "stack": stk})
			_ = r.Snap(false).Save(save)
			os.Exit(21)
		}
		fmt.Fprintln(os.Stderr, "watchdog: no progress in case", cur)
		fmt.Fprintln(os.Stderr, trim(dump, 20000))
		_ = r.Snap(false).Save(save)
		os.Exit(22)
	}
}
