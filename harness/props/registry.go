// Package props holds one monitored workload per property.
package props

import (
	"sort"

	"verif/harness/core"
)

// Prop is one check.
type Prop struct {
	Race  bool   // built with the race detector
	Level string // the evidence level
	Run   func(r *core.Run)
}

var all = map[string]Prop{}

func register(id string, race bool, f func(r *core.Run)) {
	all[id] = Prop{Race: race, Level: "exploration", Run: f}
}

// Get returns a check.
func Get(id string) (Prop, bool) {
	p, ok := all[id]
	return p, ok
}

// IDs lists the checks.
func IDs() []string {
	var ids []string
	for id := range all {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
