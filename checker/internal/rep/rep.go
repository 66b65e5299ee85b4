// Package rep collects what a check analysed and what it found.
package rep

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation.
type Finding struct {
	Key   string // rule + construct; stable under edits elsewhere
	Pos   string
	Msg   string
	Trace []string
}

// R is the report of one property.
type R struct {
	Prop, Tier  string
	Seed        int
	Technique   string
	Explanation string
	Rules       []string
	Obligations int
	Discharged  int
	Counts      map[string]int
	Samples     []string
	Assumptions []string
	Findings    []Finding
	start       time.Time
	seen        map[string]bool
	cut         []string
}

// New starts a report.
func New(prop, tier string, seed int) *R {
	return &R{Prop: prop, Tier: tier, Seed: seed, Counts: map[string]int{}, start: time.Now(), seen: map[string]bool{}}
}

// Rule names a rule that is applied.
func (r *R) Rule(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, x := range r.Rules {
		if x == s {
			return
		}
	}
	r.Rules = append(r.Rules, s)
}

// Assume records an assumption.
func (r *R) Assume(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, x := range r.Assumptions {
		if x == s {
			return
		}
	}
	r.Assumptions = append(r.Assumptions, s)
}

// Cut records that an exploration was given up: what was explored of it is fine, the rest is not decided.
func (r *R) Cut(what string) {
	r.Assume("NOT EXHAUSTIVE: %s has too many abstract states; only those that were explored before the limit are decided", what)
	r.cut = append(r.cut, what)
}

// Masked records that another property is violated where this one is decided: what the code does
// after that violation is not followed.
func (r *R) Masked(prop, what string) {
	r.Assume("NOT EXHAUSTIVE: what follows a violation of %s (%s) is not decided", prop, what)
	r.cut = append(r.cut, "a violation of "+prop)
}

// Count adds to a named count.
func (r *R) Count(name string, n int) { r.Counts[name] += n }

// OK records a discharged obligation.
func (r *R) OK() { r.Obligations++; r.Discharged++ }

// Sample keeps a few of the obligations for the evidence.
func (r *R) Sample(f string, a ...interface{}) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(f, a...))
	}
}

// Fail records a violated obligation.
func (r *R) Fail(key, pos, f string, a ...interface{}) {
	r.FailTrace(key, pos, nil, f, a...)
}

// FailTrace records a violated obligation with the path that violates it.
func (r *R) FailTrace(key, pos string, trace []string, f string, a ...interface{}) {
	r.Obligations++
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Findings = append(r.Findings, Finding{Key: key, Pos: pos, Msg: fmt.Sprintf(f, a...), Trace: trace})
}

// Check records an obligation that holds iff ok.
func (r *R) Check(ok bool, key, pos, f string, a ...interface{}) bool {
	if ok {
		r.OK()
	} else {
		r.Fail(key, pos, f, a...)
	}
	return ok
}

// Floor fails the check if fewer instances than expected were analysed.
func (r *R) Floor(name string, min int) {
	r.Check(r.Counts[name] >= min, "floor:"+name, "-",
		"only %d %s were found, at least %d are expected: the rule would pass vacuously", r.Counts[name], name, min)
}

// Known is one entry of the known-findings file.
type Known struct{ Prop, Key, What string }

// ReadKnown reads the known-findings file.
func ReadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " | ", 3)
		if len(f) == 3 {
			r = append(r, Known{strings.TrimPrefix(f[0], "property="), f[1], f[2]})
		}
	}
	return r
}

// Finish prints the outcome, writes the evidence and returns the exit code.
func (r *R) Finish(verif string, known []Known) int {
	var fs []Finding
	code := 0
	for _, f := range r.Findings {
		k := false
		for _, kn := range known {
			if kn.Prop == r.Prop && kn.Key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, kn.What)
				k = true
			}
		}
		if !k {
			fs = append(fs, f)
		}
	}
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	replay := filepath.Join("evidence", r.Prop+".violation.txt")
	_ = os.Remove(filepath.Join(verif, replay))
	if len(fs) > 0 {
		code = 1
		var sb strings.Builder
		for _, f := range fs {
			fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", f.Pos, r.Prop, f.Key, f.Msg)
			for _, t := range f.Trace {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
		}
		fmt.Print(sb.String())
		_ = os.WriteFile(filepath.Join(verif, replay), []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	}
	cov := map[string]interface{}{
		"explanation": r.Explanation,
		"technique":   r.Technique,
		"rules":       r.Rules,
		"obligations": r.Obligations,
		"discharged":  r.Discharged,
		"samples":     r.Samples,
	}
	var ks []string
	for k := range r.Counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		cov["n_"+strings.ReplaceAll(k, " ", "_")] = r.Counts[k]
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "other",
		"coverage": cov, "assumptions": append([]string{}, r.Assumptions...),
		"wall_s": time.Since(r.start).Seconds(), "violations": len(fs),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 2
	}
	for _, c := range r.cut {
		fmt.Printf("INCOMPLETE property=%s the exploration of %s was cut off\n", r.Prop, c)
	}
	if code == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d\n", r.Prop, r.Obligations, r.Discharged)
	}
	return code
}
