package props

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"
)

// logCache is a cache of the application: it records what it is asked, waits
// at the places where another request could come in between, and fails when
// it is told to.
type logCache struct {
	mu      sync.Mutex
	live    map[string]time.Duration // keys with a positive lifetime
	added   map[string][]time.Duration
	order   []string
	removed map[string]int
	failAdd error
	meet    *meet
}

func newLogCache(m *meet) *logCache {
	return &logCache{live: map[string]time.Duration{}, added: map[string][]time.Duration{}, removed: map[string]int{}, meet: m}
}

func (c *logCache) pause() {
	if c.meet != nil {
		c.meet.wait()
	}
}

func (c *logCache) Add(key string, d time.Duration) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.failAdd != nil {
		return c.failAdd
	}
	c.added[key] = append(c.added[key], d)
	c.order = append(c.order, key)
	if d > 0 {
		c.live[key] = d
	} else {
		delete(c.live, key)
	}
	return nil
}

func (c *logCache) Remove(key string) {
	c.pause()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.removed[key]++
	delete(c.live, key)
}

func (c *logCache) Contains(key string) bool {
	c.mu.Lock()
	_, ok := c.live[key]
	c.mu.Unlock()
	c.pause()
	return ok
}

func (c *logCache) fail(err error) {
	c.mu.Lock()
	c.failAdd = err
	c.mu.Unlock()
}

// lifetimes gives the lifetimes a key was added with.
func (c *logCache) lifetimes(key string) []time.Duration {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]time.Duration(nil), c.added[key]...)
}

func (c *logCache) adds() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.order)
}

// expire drops a key, as time does.
func (c *logCache) expire(key string) {
	c.mu.Lock()
	delete(c.live, key)
	c.mu.Unlock()
}

// guessable looks for structure in values that should be random, in the order
// they were made. It reports repeated values, less variety than bits, positions
// that depend on one another or on the value before, and counters.
func guessable(vals []string, bits float64) string {
	if len(vals) < 500 {
		return ""
	}
	seen := map[string]bool{}
	n := math.MaxInt
	for _, v := range vals {
		if seen[v] {
			return fmt.Sprintf("the value %q was issued twice among %d", v, len(vals))
		}
		seen[v] = true
		n = min(n, len(v))
	}
	if n == 0 {
		return "an empty value"
	}
	// the entropy of each position
	total := 0.0
	varies := []int{}
	for p := 0; p < n; p++ {
		cnt := map[byte]int{}
		for _, v := range vals {
			cnt[v[p]]++
		}
		h := 0.0
		for _, c := range cnt {
			q := float64(c) / float64(len(vals))
			h -= q * math.Log2(q)
		}
		if h > 1 {
			varies = append(varies, p)
		}
		total += h
	}
	if total < bits {
		return fmt.Sprintf("the values have at most %.0f bits of variety", total)
	}
	// positions that say something about each other
	free := 0.0
	var groups []int
	for i, p := range varies {
		dependent := false
		for _, q := range varies[:i] {
			joint := map[[2]byte]int{}
			a, b := map[byte]int{}, map[byte]int{}
			for _, v := range vals {
				joint[[2]byte{v[p], v[q]}]++
				a[v[p]]++
				b[v[q]]++
			}
			ent := func(c []int) float64 {
				h := 0.0
				for _, x := range c {
					f := float64(x) / float64(len(vals))
					h -= f * math.Log2(f)
				}
				return h
			}
			hj := ent(values(joint))
			ha, hb := ent(values(a)), ent(values(b))
			// the finite sample lowers the joint entropy a little
			if ha+hb-hj > 0.7*math.Min(ha, hb) && float64(len(joint)) < 0.5*float64(len(vals)) {
				dependent = true
			}
		}
		if dependent {
			groups = append(groups, p)
			continue
		}
		cnt := map[byte]int{}
		for _, v := range vals {
			cnt[v[p]]++
		}
		h := 0.0
		for _, c := range cnt {
			f := float64(c) / float64(len(vals))
			h -= f * math.Log2(f)
		}
		free += h
	}
	if free < bits {
		return fmt.Sprintf("the values have only %.0f bits that do not depend on the others (positions %v follow from others)", free, groups)
	}
	// positions that follow from the value before
	free = 0
	for p := 0; p < n; p++ {
		h := entropyAt(vals, p)
		for q := 0; q < n && h > 0; q++ {
			joint, prev, cur := map[[2]byte]int{}, map[byte]int{}, map[byte]int{}
			for k := 1; k < len(vals); k++ {
				joint[[2]byte{vals[k-1][q], vals[k][p]}]++
				prev[vals[k-1][q]]++
				cur[vals[k][p]]++
			}
			m := float64(len(vals) - 1)
			if hp, hc := entropy(values(prev), m), entropy(values(cur), m); hp > 1 && hp+hc-entropy(values(joint), m) > 0.7*math.Min(hp, hc) && float64(len(joint)) < 0.5*m {
				h = 0
			}
		}
		free += h
	}
	if free < bits {
		return fmt.Sprintf("the values have only %.0f bits that do not follow from the value before", free)
	}
	// a counter or a clock: neighbours in time share long prefixes or are ordered
	shared, ordered := 0, 0
	for k := 1; k < len(vals); k++ {
		a, b := vals[k-1], vals[k]
		s := 0
		for p := 0; p < n; p++ {
			if a[p] == b[p] {
				s++
			}
		}
		if s*2 > n {
			shared++
		}
		if a < b {
			ordered++
		}
	}
	if shared*10 > len(vals) {
		return "consecutive values are nearly the same"
	}
	if f := float64(ordered) / float64(len(vals)); f > 0.75 || f < 0.25 {
		return "consecutive values are ordered"
	}
	return ""
}

func entropy(counts []int, n float64) float64 {
	h := 0.0
	for _, x := range counts {
		f := float64(x) / n
		h -= f * math.Log2(f)
	}
	return h
}

func entropyAt(vals []string, p int) float64 {
	cnt := map[byte]int{}
	for _, v := range vals {
		cnt[v[p]]++
	}
	return entropy(values(cnt), float64(len(vals)))
}

// seedable tells whether gen repeats its values once the application seeds the
// generator that is not meant for secrets.
func seedable(gen func(n int) []string) string {
	defer rand.Seed(time.Now().UnixNano())
	var runs [2][]string
	for k := range runs {
		rand.Seed(42)
		runs[k] = gen(20)
	}
	for k := range runs[0] {
		if k < len(runs[1]) && runs[0][k] == runs[1][k] {
			return fmt.Sprintf("the value %q comes again when the generator of math/rand is seeded again", runs[0][k])
		}
	}
	return ""
}

func values[K comparable](m map[K]int) []int {
	var v []int
	for _, x := range m {
		v = append(v, x)
	}
	sort.Ints(v)
	return v
}

var _ = strings.Join
