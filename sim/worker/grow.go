package main

import (
	"runtime"
)

const (
	growRounds = 120
	growEnough = 4 << 20 // so much would not be kept on purpose
)

// grow lets the paths live long, and measures: memory must not go on growing round after round.
func (x *scenRun) grow() {
	w := x.s.Grow
	var first, last int64
	for round := 0; round <= growRounds; round++ {
		runtime.SimStart(x.s.Sched.Config())
		runtime.SimTasks(w.Tasks)
		done := make(chan int64, w.Tasks)
		for t := 0; t < w.Tasks; t++ {
			go x.life(round*w.N+t, (round+1)*w.N, w.Tasks, done)
		}
		runtime.SimWait()
		sim := runtime.SimStop()
		runtime.SimRandSeed(x.s.Sched.Rand | 1)
		x.report.Sim = SimStat(sim)
		if sim.Over || sim.Live > 0 || runtime.SimTimers() > 0 || len(done) < w.Tasks {
			x.report.Tainted = true
			return // another property's business
		}
		text := int64(0)
		for t := 0; t < w.Tasks; t++ {
			text += <-done
		}
		for i := 0; i < 4; i++ {
			runtime.GC()
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		x.report.Grows += w.N
		if round == 0 {
			first = int64(m.HeapAlloc)
			last = first
			continue
		}
		growth := int64(m.HeapAlloc) - first
		step := int64(m.HeapAlloc) - last
		last = int64(m.HeapAlloc)
		if round == 1 {
			x.report.Growth = max(growth, 1)
		}
		if limit := max(text/8, 32<<10); growth <= limit*int64(round+1)/2 || step < limit/4 {
			return // it may remember some, but not all
		}
		if round == growRounds || growth > growEnough {
			x.viol("growth", -1, -1, "after %d more documents, all different and dropped, of %d bytes in all, %d bytes more are in use: %s",
				round*w.N, text*int64(round), growth, x.s.Paths[0].Text)
		}
	}
}

// life evaluates the paths on documents from, from+step and so on, as long as they are less than end.
func (x *scenRun) life(from, end, step int, done chan int64) {
	var text int64
	defer func() {
		recover()
		done <- text
		runtime.SimTaskDone()
	}()
	for i := from; i < end; i += step {
		d := x.s.Grow.Doc(i)
		text += bytes(d)
		for _, p := range x.paths {
			if p != nil {
				p.Eval(d)
				x.report.Evals++
			}
		}
	}
}

// bytes is the size of the texts in a document.
func bytes(v any) int64 {
	n := int64(0)
	switch v := v.(type) {
	case string:
		return int64(len(v))
	case []any:
		for _, e := range v {
			n += bytes(e)
		}
	case map[string]any:
		for _, e := range v {
			n += bytes(e)
		}
	}
	return n
}
