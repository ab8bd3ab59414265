// vh runs one check: it executes the workload in a child process and turns
// what the monitors, the race detector and the runtime reported into a
// verdict. Usage: vh <property>
//
//go:debug panicnil=1
//go:debug randseednop=0
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh <property>")
		os.Exit(2)
	}
	if os.Args[1] == "list" {
		for _, id := range props.IDs() {
			fmt.Println(id)
		}
		return
	}
	id := os.Args[1]
	p, ok := props.Get(id)
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	if os.Getenv("VH_WORKER") != "" {
		worker(id, p)
		return
	}
	os.Exit(supervise(id, p))
}

func worker(id string, p props.Prop) {
	save := os.Getenv("VH_WORKER")
	r := core.New(id)
	go r.WatchStuck(save)
	p.Run(r)
	if err := r.Snap(true).Save(save); err != nil {
		fmt.Fprintln(os.Stderr, "cannot save:", err)
		os.Exit(23)
	}
	os.Exit(0)
}

var raceBlock = regexp.MustCompile(`(?s)WARNING: DATA RACE\n(.*?)\n==================`)
var frameLine = regexp.MustCompile(`(?m)^  (\S+)\(\)`)

// pass is one execution of the worker.
type pass struct {
	snap         core.Snapshot
	inconclusive string
	stderr       string
	races        int
}

// execute runs the worker of a property with a binary and reads what it left.
func execute(bin, id, dir string, limit time.Duration, env ...string) (ps pass) {
	ps.snap.Counters = map[string]int64{}
	tmp, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		ps.inconclusive = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	snapPath := filepath.Join(tmp, "snap.json")
	raceLog := filepath.Join(tmp, "race")
	cmd := exec.Command(bin, id)
	cmd.Env = append(append(os.Environ(), "VH_WORKER="+snapPath, "VERIF_DIR="+dir, "TMPDIR="+tmp,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+raceLog, "GOTRACEBACK=all", "GOMAXPROCS=8"), env...)
	cmd.Dir = tmp
	var stderr bytes.Buffer
	cmd.Stderr = &limited{b: &stderr, max: 4 << 20}
	cmd.Stdout = os.Stderr
	if err := cmd.Start(); err != nil {
		ps.inconclusive = err.Error()
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timeout := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timeout = true
		_ = cmd.Process.Kill()
		err = <-done
	}
	s := &ps.snap
	if b, e := os.ReadFile(snapPath); e == nil {
		_ = json.Unmarshal(b, s)
	}
	if s.VCounts == nil {
		s.VCounts = map[string]int{}
	}
	if s.Counters == nil {
		s.Counters = map[string]int64{}
	}
	s.ID = id
	code := cmd.ProcessState.ExitCode()
	ps.stderr = stderr.String()
	switch {
	case timeout:
		ps.inconclusive = "the workload did not end within its watchdog"
	case code == 22 || code == 23:
		ps.inconclusive = "worker ended with " + strconv.Itoa(code)
	case code == 21:
	case code != 0:
		// the runtime ended the worker: a fatal error or a panic in a goroutine nobody guards
		if why, ok := crash(ps.stderr); ok {
			add(s, "crash:"+why, "the process crashed: "+why, map[string]any{"stderr": tail(ps.stderr, 8000)})
		} else {
			ps.inconclusive = "the worker crashed outside the code under test, exit code " + strconv.Itoa(code)
		}
	}
	// race detector reports
	logs, _ := filepath.Glob(raceLog + ".*")
	seen := map[string]bool{}
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, m := range raceBlock.FindAllStringSubmatch(string(b)+"\n==================", -1) {
			ps.races++
			k := raceKey(m[1])
			if seen[k] {
				continue
			}
			seen[k] = true
			if strings.Contains(m[1], "github.com/ixtendio/gofre") {
				add(s, "race:"+k, "data race: "+k, map[string]any{"report": m[1]})
			} else if ps.inconclusive == "" {
				ps.inconclusive = "data race outside the code under test: " + k
				fmt.Fprintln(os.Stderr, m[1])
			}
		}
	}
	if ps.inconclusive == "" && len(s.Violations) == 0 {
		switch {
		case !s.Done:
			ps.inconclusive = "the workload did not end"
		case len(s.Missing) > 0:
			ps.inconclusive = "too little was observed: " + strings.Join(s.Missing, ", ")
		case s.Evals == 0 || s.Distinct == 0:
			ps.inconclusive = "nothing was observed"
		}
	}
	return
}

func supervise(id string, p props.Prop) int {
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	start := time.Now()
	limit := 700 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 3 * time.Hour
	}
	ps := execute(os.Args[0], id, dir, limit)
	s, inconclusive, errOut := ps.snap, ps.inconclusive, ps.stderr
	s.Counters["race_reports"] = int64(ps.races)
	// a part of the workload once more, under the race detector
	if bin := os.Getenv("VH_RACE_BIN"); bin != "" && inconclusive == "" && len(s.Violations) == 0 {
		scale := "8"
		if strings.Contains(" C01 C02 C03 C04 C05 C06 C07 C19 ", " "+id+" ") {
			scale = "25" // millions of cases each
		}
		rs := execute(bin, id, dir, limit/4, "VH_SCALE="+scale)
		for _, v := range rs.snap.Violations {
			add(&s, v.Sig, v.What, v.Detail)
		}
		s.Counters["race_reports"] = int64(rs.races)
		s.Counters["race_pass_evaluations"] = rs.snap.Evals
		if inconclusive = rs.inconclusive; inconclusive != "" {
			inconclusive = "under the race detector: " + inconclusive
			errOut = rs.stderr
		}
	}

	known := core.Known(dir, id)
	var fresh []core.Violation
	for _, v := range s.Violations {
		if text, ok := known[v.Sig]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, text, v.Sig)
			continue
		}
		fresh = append(fresh, v)
	}
	writeEvidence(dir, p, s, len(fresh), inconclusive, time.Since(start).Seconds())
	if len(fresh) > 0 {
		rd := filepath.Join(dir, "evidence", "replay")
		_ = os.MkdirAll(rd, 0o755)
		for i, v := range fresh {
			f := filepath.Join(rd, fmt.Sprintf("%s-%d.json", id, i))
			b, err := json.MarshalIndent(map[string]any{"property": id, "seed": s.Seed, "tier": s.Tier, "violation": v,
				"occurrences": s.VCounts[v.Sig], "replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", s.Seed, s.Tier, id)}, "", " ")
			if err != nil {
				b = []byte(fmt.Sprintf("%+v", v))
			}
			_ = os.WriteFile(f, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
			fmt.Printf("  %s (x%d)\n", v.What, s.VCounts[v.Sig])
			if i >= 4 {
				fmt.Printf("  … and %d more kinds\n", len(fresh)-i-1)
				break
			}
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", id, inconclusive)
		if len(errOut) > 6000 {
			fmt.Fprintln(os.Stderr, errOut[:3000], "…")
		}
		fmt.Fprintln(os.Stderr, tail(errOut, 3000))
		return 3
	}
	fmt.Printf("HELD property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", id, s.Evals, s.Distinct, time.Since(start).Seconds())
	return 0
}

func add(s *core.Snapshot, sig, what string, detail any) {
	s.VCounts[sig]++
	s.Violations = append(s.Violations, core.Violation{Sig: sig, What: what, Detail: detail})
}

func raceKey(block string) string {
	var fr []string
	for _, part := range strings.Split(block, "\n\n") {
		if !strings.Contains(part, " at 0x") {
			continue
		}
		best := ""
		for _, m := range frameLine.FindAllStringSubmatch(part, -1) {
			if best == "" {
				best = m[1]
			}
			if strings.HasPrefix(m[1], "github.com/ixtendio/gofre") {
				best = m[1]
				break
			}
		}
		fr = append(fr, best)
	}
	return strings.Join(fr, " / ")
}

// crash tells whether the crash message of the worker is to be blamed on the
// code under test: the crashing goroutine has one of its frames.
func crash(out string) (string, bool) {
	i := strings.Index(out, "fatal error: ")
	if j := strings.Index(out, "panic: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return "", false
	}
	rest := out[i:]
	line, _, _ := strings.Cut(rest, "\n")
	if len(line) > 160 {
		line = line[:160]
	}
	if strings.Contains(line, "concurrent map") {
		return line, strings.Contains(rest, "github.com/ixtendio/gofre")
	}
	g := strings.Index(rest, "\ngoroutine ")
	if g < 0 {
		return line, false
	}
	first, _, _ := strings.Cut(rest[g+1:], "\n\n")
	return line, strings.Contains(first, "github.com/ixtendio/gofre")
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func writeEvidence(dir string, p props.Prop, s core.Snapshot, violations int, inconclusive string, wall float64) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	cov := map[string]any{
		"evaluations":         s.Evals,
		"distinct_nontrivial": s.Distinct,
		"rule":                s.Rule,
		"samples":             s.Samples,
		"observed":            s.Counters,
		"distinct_observed":   s.SetSizes,
		"race_detector":       p.Race || os.Getenv("VH_RACE_BIN") != "",
	}
	if inconclusive != "" {
		cov["inconclusive"] = inconclusive
	}
	if s.Samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{"property": s.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": s.Assumptions, "wall_s": wall, "violations": violations}
	if s.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(dir, "evidence", s.ID+".json"), append(b, '\n'), 0o644)
}
