// Package checks holds one check per property.
package checks

import (
	"sort"

	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"
)

// Check decides one property.
type Check struct {
	ID  string
	Run func(p *load.Prog, r *rep.R)
}

// Only is the property that is decided, if it is a single one: explorations that serve several
// properties end when they find a violation of it.
var Only string

var all = map[string]*Check{}

func register(id string, run func(p *load.Prog, r *rep.R)) {
	all[id] = &Check{id, run}
}

// extend makes a check decide more.
func extend(id string, run func(p *load.Prog, r *rep.R)) {
	f := all[id].Run
	all[id].Run = func(p *load.Prog, r *rep.R) { f(p, r); run(p, r) }
}

// Get returns the check of a property.
func Get(id string) *Check { return all[id] }

// IDs returns the ids of all checks.
func IDs() []string {
	var r []string
	for k := range all {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
