package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

type evidence struct {
	c          *check
	tier       string
	seed       int64
	runs       int
	evals      int
	overruns   int
	stuck      int
	steps      int64
	switches   int64
	hits       map[string]int
	states     map[uint64]bool
	samples    []string
	known      map[string]int
	workS      float64
	violations int
	perPart    map[string]int
}

func newEvidence(c *check, tier string, seed int64) *evidence {
	return &evidence{c: c, tier: tier, seed: seed, hits: map[string]int{}, states: map[uint64]bool{}, known: map[string]int{}, perPart: map[string]int{}}
}

func (e *evidence) add(p *part, r *result) {
	e.runs += r.Runs
	e.perPart[p.Worker+"/"+p.Mode] += r.Runs
	e.evals += r.Evals
	e.overruns += r.Overruns
	e.stuck += r.Stuck
	e.steps += r.Steps
	e.switches += r.Switches
	for k, n := range r.Hits {
		e.hits[k] += n
	}
	for _, s := range r.States {
		e.states[s] = true
	}
	if len(e.samples) < 6 {
		e.samples = append(e.samples, r.Samples...)
	}
	for k, n := range r.Known {
		e.known[k] += n
	}
	if r.WallS > e.workS {
		e.workS = r.WallS
	}
}

// missing lists the probes of the check that stayed at zero.
func (e *evidence) missing() (out []string) {
	for _, p := range e.c.Probes {
		if e.hits[p] == 0 {
			out = append(out, p)
		}
	}
	return out
}

func (e *evidence) write(wall float64) {
	hits := make(map[string]int)
	faults := make(map[string]int)
	for k, n := range e.hits {
		if len(k) > 6 && k[:6] == "fault." {
			faults[k[6:]] = n
		} else {
			hits[k] = n
		}
	}
	if len(e.samples) == 0 {
		e.samples = []string{"(no sample)"}
	}
	sort.Strings(e.c.Stubs)
	perHour := 0
	if e.workS > 0 {
		perHour = int(float64(e.runs) / e.workS * 3600)
	}
	cov := map[string]interface{}{
		"evaluations":              e.evals,
		"distinct_nontrivial":      len(e.states),
		"rule":                     e.c.Rule,
		"samples":                  e.samples,
		"simulated_runs":           e.runs,
		"runs_by_part":             e.perPart,
		"runs_per_hour":            perHour,
		"seeds":                    fmt.Sprintf("run i uses the seed mixed from VERIF_SEED=%d, the check and i; %d runs", e.seed, e.runs),
		"simulated_time":           e.c.Time,
		"faults_injected":          faults,
		"probes":                   hits,
		"probes_never_hit":         append([]string{}, e.missing()...),
		"yield_points_passed":      e.steps,
		"task_switches":            e.switches,
		"runs_cut_by_choice_limit": e.overruns,
		"runs_cut_by_step_limit":   e.stuck,
		"distinct_measure":         e.c.Distinct,
		"components_real":          e.c.Real,
		"components_stubbed":       e.c.Stubs,
		"known_findings_hit":       e.known,
	}
	ev := map[string]interface{}{
		"property":    e.c.Prop,
		"tier":        e.tier,
		"seed":        e.seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": e.c.Assume,
		"wall_s":      wall,
		"violations":  e.violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die(3, "evidence: %v", err)
	}
	dir := filepath.Join(verifDir, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, e.c.Prop+".json"), b, 0o644); err != nil {
		die(3, "evidence: %v", err)
	}
}
