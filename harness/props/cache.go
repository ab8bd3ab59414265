package props

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/ixtendio/gofre/cache"

	"verif/harness/core"
)

func init() { register("C26", true, runC26) }

type cacheIn struct {
	op        byte // 'a', 'r', 'c'
	d         time.Duration
	call, ret time.Duration // since the start, on the monotonic clock
}

// cacheState says when the key expires: somewhere in [lo, hi].
type cacheState struct {
	present bool
	lo, hi  time.Duration
}

func addSat(a, b time.Duration) time.Duration {
	s := a + b
	if b > 0 && s < a {
		return math.MaxInt64
	}
	return s
}

var cacheModel = porcupine.Model{
	Init: func() interface{} { return cacheState{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s, in := state.(cacheState), input.(cacheIn)
		switch in.op {
		case 'a':
			return true, cacheState{true, addSat(in.call, in.d), addSat(in.ret, in.d)}
		case 'r':
			return true, cacheState{}
		}
		if output.(bool) {
			// it was there at some moment of the call before the expiration
			return s.present && in.call < s.hi, s
		}
		return !s.present || in.ret >= s.lo, s
	},
	DescribeOperation: func(input, output interface{}) string {
		in := input.(cacheIn)
		switch in.op {
		case 'a':
			return fmt.Sprintf("[%v,%v] Add(%v)", in.call, in.ret, in.d)
		case 'r':
			return fmt.Sprintf("[%v,%v] Remove", in.call, in.ret)
		}
		return fmt.Sprintf("[%v,%v] Contains = %v", in.call, in.ret, output)
	},
}

func genKeys(rng *rand.Rand, n int) []string {
	base := []string{"", "a", "A", "a ", " a", "a\x00", "a\x00b", "\x00", "aa", "\u00e1", "a\u0301", "0", "00", "nil", strings.Repeat("k", 300), strings.Repeat("k", 299) + "j", "\xff", "a/b", "a.b", "key",
		// pairs with the same hash: FNV-1a, CRC-32, 31*h+c, sums
		"costarring", "liquid", "declinate", "macallums", "altarage", "zinke", "plumless", "buckeroo", "Aa", "BB", "AaAa", "BBBB", "ab", "ba"}
	rng.Shuffle(len(base), func(i, j int) { base[i], base[j] = base[j], base[i] })
	for len(base) < n {
		base = append(base, fmt.Sprintf("key-%d", len(base)))
	}
	return base[:n]
}

func genLifetime(rng *rand.Rand) time.Duration {
	switch rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return -time.Duration(1 + rng.Int63n(int64(time.Hour)))
	case 2:
		return pickDur(rng, -1, -time.Second, math.MinInt64)
	case 3:
		return pickDur(rng, time.Hour, 24*time.Hour*365*100, math.MaxInt64)
	case 4, 5:
		return time.Duration(rng.Int63n(int64(3 * time.Millisecond)))
	case 6:
		return time.Duration(rng.Int63n(int64(50 * time.Microsecond)))
	}
	return time.Minute
}

func pickDur(rng *rand.Rand, v ...time.Duration) time.Duration { return v[rng.Intn(len(v))] }

func runC26(r *core.Run) {
	r.Rule("sequential histories over many keys are predicted by a model; concurrent histories of up to 8 clients over a few keys are recorded (call and return on the monotonic clock) and checked with porcupine, per key, against a set of keys with expiration intervals. " +
		"Lifetimes are long, non-positive, or so short that they end within the history. Built with the race detector. A case is one history; it is non-trivial when operations of different kinds overlapped")
	r.Assume("the monotonic clock of the process")
	r.Require("histories", 1500)
	r.Require("overlapping", 1000)
	r.Require("expired_seen", 200)
	r.Require("contains_true", 2000)
	r.Require("contains_false", 2000)
	c26Serial(r)
	c26Expiry(r)
	c26Concurrent(r)
}

func c26Serial(r *core.Run) {
	parallel(r, "sequential", r.N(400, 8000), func(i int) {
		rng := r.Rand("c26s", i)
		c := cache.NewInMemory()
		nk := 2 + rng.Intn(60)
		keys := genKeys(rng, nk)
		type ent struct {
			present bool
			lo, hi  time.Duration
		}
		m := map[string]ent{}
		start := time.Now()
		var last []string
		for s := 0; s < 300; s++ {
			k := keys[rng.Intn(len(keys))]
			if rng.Intn(3) == 0 {
				k = keys[rng.Intn(min(3, len(keys)))]
			}
			switch x := rng.Intn(10); {
			case x < 3:
				d := genLifetime(rng)
				if rng.Intn(2) == 0 {
					d = time.Hour
				}
				t0 := time.Since(start)
				err := c.Add(k, d)
				t1 := time.Since(start)
				if err != nil {
					r.Violate("add-error", "Add fails: "+err.Error(), nil)
				}
				m[k] = ent{true, addSat(t0, d), addSat(t1, d)}
				last = append(last, fmt.Sprintf("Add(%q,%v)", clip(k), d))
			case x < 5:
				c.Remove(k)
				delete(m, k)
				last = append(last, fmt.Sprintf("Remove(%q)", clip(k)))
			default:
				t0 := time.Since(start)
				got := c.Contains(k)
				t1 := time.Since(start)
				e := m[k]
				last = append(last, fmt.Sprintf("Contains(%q)=%v", clip(k), got))
				det := map[string]any{"history": tailOf(last, 30)}
				if got && (!e.present || t0 >= e.hi) {
					r.Violate("stale", fmt.Sprintf("Contains is true for a key that %s", map[bool]string{true: "has expired", false: "was never added, or removed"}[e.present]), det)
					return
				}
				if !got && e.present && t1 < e.lo {
					r.Violate("lost", "Contains is false for a key that was added and did not expire", det)
					return
				}
				if got {
					r.Count("contains_true", 1)
				} else {
					r.Count("contains_false", 1)
				}
				if e.present && t0 >= e.hi {
					r.Count("expired_seen", 1)
				}
			}
		}
		r.Case(fmt.Sprint("seq", i), true)
	})
	// very many keys
	c := cache.NewInMemory()
	n := r.N(400000, 2000000)
	rng := r.Rand("c26many", 0)
	name := make([]string, n)
	for k := range name {
		name[k] = fmt.Sprintf("%x-%d", rng.Uint64(), k)
	}
	for k := 0; k < n; k++ {
		c.Add(name[k], time.Hour)
	}
	for k := 0; k < n; k += 2 {
		c.Remove(name[k])
	}
	for k := 0; k < n; k++ {
		if c.Contains(name[k]) != (k%2 == 1) {
			r.Violate("many", fmt.Sprintf("with %d keys, Contains is wrong for key %d", n, k), nil)
			return
		}
	}
	r.Count("keys", int64(n))
}

func tailOf(l []string, n int) []string {
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return l
}

// c26Expiry waits for keys to expire, with other keys around them.
func c26Expiry(r *core.Run) {
	parallel(r, "expiry", r.N(400, 3000), func(i int) {
		rng := r.Rand("c26x", i)
		c := cache.NewInMemory()
		keys := genKeys(rng, 4)
		d := time.Duration(1+rng.Intn(3000)) * time.Microsecond
		c.Add(keys[1], time.Hour)
		// re-adding replaces the lifetime, longer or shorter
		re := rng.Intn(3)
		switch re {
		case 1:
			c.Add(keys[0], time.Hour)
		case 2:
			c.Add(keys[0], -1)
		}
		t0 := time.Now()
		c.Add(keys[0], d)
		t1 := time.Now()
		for k := 0; ; k++ {
			b := time.Now()
			got := c.Contains(keys[0])
			e := time.Now()
			if got && b.Sub(t1) >= d {
				r.Violate("not-expired", fmt.Sprintf("a key with the lifetime %v is contained %v later", d, b.Sub(t1)), map[string]any{"added_before_with": re})
				return
			}
			if !got && e.Sub(t0) < d {
				r.Violate("expired-early", fmt.Sprintf("a key with the lifetime %v is gone after %v", d, e.Sub(t0)), map[string]any{"added_before_with": re})
				return
			}
			if !got {
				r.Count("expired_seen", 1)
				break
			}
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
			}
		}
		if !c.Contains(keys[1]) || c.Contains(keys[2]) {
			r.Violate("neighbour", "the expiration of a key influences another key", nil)
		}
		// and again
		c.Add(keys[0], time.Hour)
		if !c.Contains(keys[0]) {
			r.Violate("re-add", "an expired key that is added again is not contained", nil)
		}
		c.Remove(keys[0])
		if c.Contains(keys[0]) {
			r.Violate("re-remove", "a removed key is contained", nil)
		}
		r.Case(fmt.Sprint("exp", i), true)
	})
}

func c26Concurrent(r *core.Run) {
	n := r.N(2500, 40000)
	var next atomic.Int64
	var outer sync.WaitGroup
	for w := 0; w < 3; w++ {
		outer.Add(1)
		go func() {
			defer outer.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.TooMany() {
					return
				}
				c26History(r, i)
			}
		}()
	}
	outer.Wait()
}

func c26History(r *core.Run, i int) {
	r.Begin("history %d", i)
	rng := r.Rand("c26c", i)
	var c cache.Cache = cache.NewInMemory()
	clients := 2 + rng.Intn(7)
	keys := genKeys(rng, 1+rng.Intn(3))
	per := 10 + rng.Intn(25)
	short := i%3 == 0 // lifetimes that end meanwhile
	type op struct {
		key string
		in  cacheIn
	}
	plans := make([][]op, clients)
	yields := make([][]int, clients)
	for k := range plans {
		for j := 0; j < per; j++ {
			o := op{key: keys[rng.Intn(len(keys))]}
			switch x := rng.Intn(10); {
			case x < 3:
				o.in.op = 'a'
				o.in.d = time.Hour
				if rng.Intn(3) == 0 {
					o.in.d = pickDur(rng, 0, -1, -time.Hour)
				}
				if short && rng.Intn(2) == 0 {
					o.in.d = time.Duration(rng.Intn(300)) * time.Microsecond
				}
			case x < 5:
				o.in.op = 'r'
			default:
				o.in.op = 'c'
			}
			plans[k] = append(plans[k], o)
			yields[k] = append(yields[k], rng.Intn(4))
		}
	}
	start := time.Now()
	logs := make([][]porcupine.Operation, clients)
	byKey := make([][]string, clients)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for k := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for j, o := range plans[k] {
				switch yields[k][j] {
				case 0:
					runtime.Gosched()
				case 1:
					for z := 0; z < 200; z++ {
						_ = z
					}
				}
				in := o.in
				var out any
				in.call = time.Since(start)
				switch in.op {
				case 'a':
					if err := c.Add(o.key, in.d); err != nil {
						r.Violate("add-error", "Add fails: "+err.Error(), nil)
					}
				case 'r':
					c.Remove(o.key)
				default:
					out = c.Contains(o.key)
				}
				in.ret = time.Since(start)
				logs[k] = append(logs[k], porcupine.Operation{ClientId: k, Input: in, Output: out, Call: int64(in.call), Return: int64(in.ret)})
				byKey[k] = append(byKey[k], o.key)
			}
		}()
	}
	close(gate)
	wg.Wait()
	r.Count("histories", 1)
	overlap := false
	for _, key := range keys {
		var ops []porcupine.Operation
		for k := range logs {
			for j, o := range logs[k] {
				if byKey[k][j] == key {
					ops = append(ops, o)
				}
			}
		}
		for a := range ops {
			for b := range ops {
				if ops[a].ClientId < ops[b].ClientId && ops[a].Call < ops[b].Return && ops[b].Call < ops[a].Return && ops[a].Input.(cacheIn).op != ops[b].Input.(cacheIn).op {
					overlap = true
					r.Count("overlaps", 1)
				}
			}
			if v, ok := ops[a].Output.(bool); ok {
				if v {
					r.Count("contains_true", 1)
				} else {
					r.Count("contains_false", 1)
				}
			}
		}
		r.Count("operations", int64(len(ops)))
		res := porcupine.CheckOperationsTimeout(cacheModel, ops, 20*time.Second)
		switch res {
		case porcupine.Illegal:
			var h []string
			for _, o := range ops {
				h = append(h, fmt.Sprintf("client %d: %s", o.ClientId, cacheModel.DescribeOperation(o.Input, o.Output)))
			}
			r.Violate("not-linearizable", "a concurrent history of one key is not linearizable", map[string]any{"key": key, "history": h, "clients": clients})
		case porcupine.Unknown:
			r.Count("checker_gave_up", 1)
		}
	}
	if overlap {
		r.Count("overlapping", 1)
	}
	r.Case(fmt.Sprint("conc", i), overlap)
}
