// Package core is the framework shared by all the monitors: the seeded
// generator, the counters of what was observed, the violations with their
// replay files, and the evidence file.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one execution of one check.
type Run struct {
	ID    string
	Tier  string
	Seed  int64
	Dir   string // /verif
	scale int    // the part of the workload to run

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	samples    []any
	counters   map[string]int64
	sets       map[string]map[string]struct{}
	mins       map[string]int64
	violations []Violation
	vsigs      map[string]int
	rule       string
	assume     []string
	start      time.Time
	current    atomic.Value // string: the case being executed
	beat       atomic.Int64
}

// Violation is one observed breach.
type Violation struct {
	Sig    string `json:"signature"`
	What   string `json:"what"`
	Detail any    `json:"detail"`
}

// New reads the environment of the check.
func New(id string) *Run {
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	r := &Run{ID: id, Tier: tier, Seed: seed, Dir: dir,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, sets: map[string]map[string]struct{}{},
		mins: map[string]int64{}, vsigs: map[string]int{}, start: time.Now()}
	r.current.Store("")
	r.scale, _ = strconv.Atoi(os.Getenv("VH_SCALE"))
	return r
}

// Rand returns a generator for one case: it depends only on the seed, the
// property and the case number, so any case can be replayed alone.
func (r *Run) Rand(stream string, n int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d|%d", r.ID, stream, n, r.Seed)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// N scales a number of cases to the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		quick = thorough
	}
	if r.scale > 1 && quick > 40 {
		return quick/r.scale + 1
	}
	return quick
}

// Rule documents how cases are made and counted.
func (r *Run) Rule(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rule = s
}

// Assume documents what the verdict relies on.
func (r *Run) Assume(s ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.assume = append(r.assume, s...)
}

// Begin announces the case that is about to run (for crash and hang reports).
func (r *Run) Begin(format string, a ...any) {
	r.current.Store(fmt.Sprintf(format, a...))
	r.beat.Add(1)
}

// Case counts one evaluated case. key identifies it; only non-trivial cases
// enter the distinct count.
func (r *Run) Case(key string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(key))
	v := h.Sum64()
	r.mu.Lock()
	r.evals++
	r.beat.Add(1)
	if nontrivial {
		r.distinct[v] = struct{}{}
	}
	r.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Seen adds a value to a named set of distinct observations.
func (r *Run) Seen(set, val string) {
	r.mu.Lock()
	m := r.sets[set]
	if m == nil {
		m = map[string]struct{}{}
		r.sets[set] = m
	}
	m[val] = struct{}{}
	r.mu.Unlock()
}

// Require makes the run inconclusive when a counter (or the size of a set)
// stays under a minimum: a monitor that saw nothing decides nothing.
func (r *Run) Require(name string, min int64) { r.mins[name] = min }

// Sample keeps the first few cases for the evidence file.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 8 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Violate records a violation. Violations with the same signature are kept
// once, with a count.
func (r *Run) Violate(sig, what string, detail any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.vsigs[sig]++
	if r.vsigs[sig] == 1 && len(r.violations) < 50 {
		r.violations = append(r.violations, Violation{sig, what, detail})
	}
}

// Violated tells if something was already found.
func (r *Run) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) > 0
}

// TooMany tells the workload that going on adds nothing.
func (r *Run) TooMany() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, c := range r.vsigs {
		n += c
	}
	return n > 200
}

// Guard runs f and returns what it panicked with, and the stack.
func Guard(f func()) (p any, stack string) {
	done := false
	defer func() {
		if !done {
			p = recover()
			if p == nil {
				p = "panic(nil) or runtime.Goexit"
			}
			stack = string(debug.Stack())
		}
	}()
	f()
	done = true
	return nil, ""
}

// Try runs f and records an unexpected panic as a violation.
func (r *Run) Try(what string, detail any, f func()) bool {
	p, st := Guard(f)
	if p != nil {
		r.Violate("panic:"+what, fmt.Sprintf("%s panicked: %v", what, p), map[string]any{"case": detail, "stack": trim(st, 4000)})
		return false
	}
	return true
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Snapshot is what the worker leaves for the supervisor.
type Snapshot struct {
	ID, Tier    string
	Seed        int64
	Evals       int64
	Distinct    int64
	Rule        string
	Samples     []any
	Counters    map[string]int64
	SetSizes    map[string]int64
	Assumptions []string
	Violations  []Violation
	VCounts     map[string]int
	Missing     []string
	WallS       float64
	Done        bool
}

// Snap captures the current state.
func (r *Run) Snap(done bool) Snapshot {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := Snapshot{ID: r.ID, Tier: r.Tier, Seed: r.Seed, Evals: r.evals, Distinct: int64(len(r.distinct)), Rule: r.rule,
		Samples: append([]any(nil), r.samples...), Counters: map[string]int64{}, SetSizes: map[string]int64{},
		Assumptions: r.assume, Violations: append([]Violation(nil), r.violations...), VCounts: map[string]int{},
		WallS: time.Since(r.start).Seconds(), Done: done}
	for k, v := range r.counters {
		s.Counters[k] = v
	}
	for k, v := range r.sets {
		s.SetSizes[k] = int64(len(v))
	}
	for k, v := range r.vsigs {
		s.VCounts[k] = v
	}
	for k, min := range r.mins {
		got, ok := s.Counters[k]
		if !ok {
			got = s.SetSizes[k]
		}
		if got < min && r.scale <= 1 {
			s.Missing = append(s.Missing, fmt.Sprintf("%s=%d < %d", k, got, min))
		}
	}
	sort.Strings(s.Missing)
	return s
}

// Current returns the announced case and the heart beat.
func (r *Run) Current() (string, int64) { return r.current.Load().(string), r.beat.Load() }

// Save writes a snapshot.
func (s Snapshot) Save(path string) error {
	b, err := json.MarshalIndent(s, "", " ")
	if err != nil {
		// a detail that cannot be marshalled must not hide the verdict
		for i := range s.Violations {
			s.Violations[i].Detail = fmt.Sprintf("%+v", s.Violations[i].Detail)
		}
		for i := range s.Samples {
			s.Samples[i] = fmt.Sprintf("%+v", s.Samples[i])
		}
		if b, err = json.MarshalIndent(s, "", " "); err != nil {
			return err
		}
	}
	return os.WriteFile(path, b, 0o644)
}

// Known reads the signatures listed as known (not repaired) findings of a
// property: lines "known: property=<id> sig=<signature> -- <text>".
func Known(dir, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		pre := "known: property=" + id + " sig="
		if strings.HasPrefix(l, pre) {
			rest := l[len(pre):]
			sig, text, _ := strings.Cut(rest, " -- ")
			out[strings.TrimSpace(sig)] = text
		}
	}
	return out
}
