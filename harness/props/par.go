package props

import (
	"runtime"
	"sync"
	"sync/atomic"

	"verif/harness/core"
)

// parallel runs n independent cases over the cores; which worker runs a case
// does not influence it.
func parallel(r *core.Run, what string, n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.TooMany() {
					return
				}
				r.Begin("%s #%d", what, i)
				f(i)
				r.Begin("%s #%d done", what, i)
			}
		}()
	}
	wg.Wait()
}
