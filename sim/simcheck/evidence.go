package main

import (
	"time"

	"verifsim/scen"
)

// sampleRun is a run of the campaign, for people to look at.
func (c *check) sampleRun(race bool, n int) (any, error) {
	s := scen.Generate(c.id, c.seed, n)
	r, err := c.w.replay(race, []*scen.Scenario{s})
	if err != nil {
		return nil, err
	}
	out := map[string]any{"run": n, "race_detector": race, "scenario": describe(s)}
	if len(r.reports) == 1 {
		x := r.reports[0]
		outs := x.Outs
		if len(outs) > 6 {
			outs = outs[:6]
		}
		out["evaluations"] = x.Evals
		out["first_outcomes"] = outs
		out["scheduling_points"] = x.Sim.Points
		out["decisions"] = x.Sim.Decisions
		out["switches"] = x.Sim.Switches
		out["schedule_hash"] = x.Sim.Hash
		out["simulated_ns"] = x.Sim.NS
	}
	return out, nil
}

func (c *check) evidence() map[string]any {
	ev := map[string]any{"property": c.id, "tier": c.tier, "seed": c.seed, "level": "exploration", "violations": 0}
	if c.cli != nil {
		ev["coverage"] = c.cliCoverage()
		ev["assumptions"] = cliAssumptions
	} else {
		ev["coverage"] = c.libCoverage()
		ev["assumptions"] = libAssumptions
	}
	ev["wall_s"] = time.Since(c.start).Seconds()
	return ev
}

var libAssumptions = []string{
	"goroutines are interleaved at statement boundaries of the code under test (and at blocking operations); within a statement, only the race detector looks",
	"the Go runtime and standard library are themselves correct under the simulated scheduler; sequentially consistent memory except as the race detector reports",
	"the reference interpreter in sim/model is right about what paths select, for the generated class of paths and documents",
}

func (c *check) libCoverage() map[string]any {
	s := c.sum
	s.Merge(&c.raceSum)
	var samples []any
	if c.found == nil {
		if c.sum.Runs > 0 {
			for _, n := range []int{1, 7} {
				if x, err := c.sampleRun(false, n); err == nil {
					samples = append(samples, x)
				}
			}
		}
		if c.raceSum.Runs > 0 {
			if x, err := c.sampleRun(true, raceBase+2); err == nil {
				samples = append(samples, x)
			}
		}
	} else {
		samples = append(samples, map[string]any{"violation": c.found.Trace})
	}
	secs := time.Since(c.start).Seconds()
	return map[string]any{
		"evaluations":         s.Evals,
		"distinct_nontrivial": len(c.scheds),
		"rule": "Each run has a seed of its own, made from (seed, run number), which decides everything: documents with mostly unique values, paths built against them, tasks that evaluate, compile, " +
			"overwrite results and documents, and a schedule. evaluations counts calls of Eval checked. A run is non-trivial if its schedule had at least one " +
			"decision (two goroutines runnable); distinct by the hash of its sequence of context switches, each with the point where it happened.",
		"samples":                                 samples,
		"simulated_runs":                          s.Runs,
		"simulated_runs_under_race_detector":      c.raceSum.Runs,
		"runs_per_hour":                           int(float64(s.Runs) / secs * 3600),
		"simulated_seconds":                       float64(s.NS) / 1e9,
		"processes":                               c.procs,
		"values_selected":                         s.Values,
		"compilations":                            s.Compiles + s.Pools,
		"trees_and_listings_compared":             s.Layers,
		"evaluations_with_several_right_orders":   s.Unordered,
		"documents_of_long_lives":                 s.Grows,
		"most_bytes_more_after_a_second_half":     s.MaxGrowth,
		"arrays_objects_and_result_lists_watched": s.Pins,
		"evaluations_too_big_for_model":           s.Limits,
		"scheduling_points":                       s.Points,
		"scheduling_decisions":                    s.Decisions,
		"goroutines":                              s.Spawned,
		"longest_run_points":                      s.MaxPoints,
		"largest_share_of_steps_allowed_taken":    s.MaxRatio,
		"most_goroutines_in_a_run":                s.MaxTasks,
		"faults_injected": map[string]any{
			"preemptions_and_switches":         s.Switches,
			"clock_jumps":                      s.Jumps,
			"runs_with_clock_jumps":            s.Stalls,
			"random_values_for_map_order_etc":  s.Rands,
			"result_lists_overwritten":         s.Scribs,
			"documents_overwritten_after_call": s.Muts,
			"evaluations_after_changes":        s.Edits,
			"failing_evaluations":              s.Errs,
			"runs_with_a_starved_task":         s.Modes[4],
		},
		"runs_by_scheduler":       map[string]int{"in order": s.Modes[0], "random walk": s.Modes[1], "priorities (PCT)": s.Modes[2], "taking turns": s.Modes[3], "starvation": s.Modes[4]},
		"repeated_exactly":        c.reruns,
		"rejected":                c.rejected,
		"instrumented_statements": c.w.points,
		"real_components":         []string{"jsonpath", "jsonpath/mach", "jsonpath/paths", "Go runtime channels, maps, goroutines", "standard library"},
		"stub_components":         []string{"scheduler's choice of goroutine", "map order and other randomness", "clock and timers", "garbage collection off during a run"},
	}
}
