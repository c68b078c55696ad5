package main

import (
	"runtime"

	"verifsim/scen"
)

type (
	Report  = scen.Report
	Out     = scen.Out
	Summary struct{ scen.Summary }
	BadRun  = scen.BadRun
)

func SimStat(r runtime.SimResult) scen.SimStat {
	return scen.SimStat{Points: r.Points, Decisions: r.Decisions, Switches: r.Switches, Spawned: r.Spawned, Hash: r.Hash, NS: r.SimNS,
		Jumps: r.Jumps, Idle: r.Idle, Rands: r.Rands, Live: r.Live, Over: r.Over, Devs: r.Devs, DevsOver: r.DevsOver}
}

func (s *Summary) add(sc *scen.Scenario, n int, r *Report) {
	s.Summary.Add(n, r)
	s.MaxRatio = max(s.MaxRatio, float64(r.Sim.Points)/float64(sc.Sched.Cap))
	s.Modes[sc.Sched.Mode]++
	if sc.Sched.Stall > 0 {
		s.Stalls++
	}
	s.Tasks += len(sc.Tasks)
}
