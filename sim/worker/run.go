package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"weak"

	"github.com/forsyth/jsonpath"
	"verifsim/model"
	"verifsim/scen"
)

// evalRec is what one call of Eval did, as the calling task saw it.
type evalRec struct {
	op     int
	p, d   int
	edit   uint64
	edits  int // how often the document had been changed
	own    bool
	err    error
	n      int
	hashes []uint64
	list   *weak.Pointer[byte]
	kept   []any  // the result list, if it isn't overwritten
	text   string // what a path claims to be its source
	msg    string // diagnostic of Compile
	pool   int
	kind   string
}

type taskRec struct {
	evals  []evalRec
	panicv string
	at     int
	done   bool
}

type sentinel struct{ n int }

func decode(s string) any {
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		fatal("bad document in scenario: %v", err)
	}
	return v
}

func hashes(l []any) []uint64 {
	h := make([]uint64, len(l))
	for i, v := range l {
		h[i] = model.HashVal(v)
	}
	return h
}

// smash overwrites everything reachable in a document of the caller's.
func smash(v any) {
	switch v := v.(type) {
	case []any:
		for i, e := range v {
			smash(e)
			v[i] = "smashed"
			if i%4 == 0 {
				runtime.SimYield()
			}
		}
	case map[string]any:
		for _, e := range v {
			smash(e)
		}
		runtime.SimYield()
		for k := range v {
			v[k] = "smashed"
		}
		v["smashed"] = true
	}
}

type outKey struct {
	p, d  int
	edit  uint64
	edits int
}

type scenRun struct {
	s      *scen.Scenario
	docs   []any
	sums   []uint64
	paths  []*jsonpath.JSONPath
	outs   map[outKey]*model.Outcome
	report *Report
	pins   []pin
	layer  layers
}

func (x *scenRun) viol(kind string, task, op int, f string, a ...any) {
	if len(x.report.Viol) < 20 {
		x.report.Viol = append(x.report.Viol, scen.Violation{Kind: kind, Task: task, Op: op, Detail: fmt.Sprintf(f, a...)})
	}
}

func run(s *scen.Scenario, verbose bool) *Report {
	x := &scenRun{s: s, outs: map[outKey]*model.Outcome{}, report: &Report{}}
	r := x.report
	races := raceErrors()
	runtime.SimRandSeed(s.Sched.Rand | 1)
	defer runtime.SimRandSeed(0)
	for _, d := range s.Docs {
		v := decode(d)
		x.docs = append(x.docs, v)
		if s.Prop == "C17" {
			x.watch(v, fmt.Sprintf("document %d", len(x.docs)-1), -1, -1)
		}
		x.sums = append(x.sums, model.HashVal(v))
	}
	x.compile()
	if s.Grow != nil {
		x.grow()
		return r
	}
	if s.Prop == "C19" {
		x.layer.make(s)
	}
	recs := make([]*taskRec, len(s.Tasks))
	chans := make([]chan *taskRec, len(s.Tasks))
	owns := make([][]any, len(s.Tasks))
	for t, ops := range s.Tasks {
		chans[t] = make(chan *taskRec, 1)
		recs[t] = &taskRec{}
		for _, op := range ops {
			if op.K == scen.Eval && op.Own {
				v := decode(s.Docs[op.D])
				owns[t] = append(owns[t], v)
				if s.Prop == "C17" {
					x.watch(v, fmt.Sprintf("a copy of document %d", op.D), t, len(owns[t])-1)
				}
			} else {
				owns[t] = append(owns[t], nil)
			}
		}
	}
	timers := runtime.SimTimers()
	runtime.SimStart(s.Sched.Config())
	runtime.SimTasks(len(s.Tasks))
	for t := range s.Tasks {
		go x.task(s.Tasks[t], owns[t], recs[t], chans[t])
	}
	runtime.SimWait()
	sim := runtime.SimStop()
	r.Sim = SimStat(sim)
	timers = runtime.SimTimers() - timers
	runtime.SimRandSeed(s.Sched.Rand | 1)
	if n := raceErrors(); n > races {
		x.viol("race", -1, -1, "%d data races (see the detector's reports)", n-races)
		r.Tainted = true
	}
	for t := range s.Tasks {
		select {
		case <-chans[t]:
			recs[t].done = true
		default:
		}
	}
	if sim.Over || sim.Live > 0 || timers > 0 {
		r.Tainted = true
	}
	if sim.Over {
		n := 0
		for t := range recs {
			if !recs[t].done {
				n++
			}
		}
		x.viol("spin", -1, -1, "not over after %d steps: %d tasks unfinished", sim.Points, n)
		x.stats(recs, verbose)
		return r
	}
	stuck := false
	for t, rec := range recs {
		if !rec.done {
			stuck = true
			x.viol("deadlock", t, rec.at, "blocked for ever in operation %d of task %d", rec.at, t)
		}
	}
	if sim.Live > 0 && !stuck {
		x.viol("leak", -1, -1, "%d goroutines are still blocked or sleeping after every call has returned", sim.Live)
	} else if timers > 0 && !stuck {
		x.viol("leak", -1, -1, "%d timers are still set after every call has returned", timers)
	}
	for t, rec := range recs {
		if rec.done && rec.panicv != "" {
			x.viol("panic", t, rec.at, "%s", rec.panicv)
		}
	}
	for i, v := range x.docs {
		if model.HashVal(v) != x.sums[i] {
			x.viol("doc-modified", -1, -1, "document %d was changed", i)
		}
	}
	for t, rec := range recs {
		if rec.done {
			x.check(t, rec)
		}
	}
	if s.Prop == "C19" && !r.Tainted {
		x.layer.finish(x)
	}
	x.stats(recs, verbose)
	if s.Prop == "C17" && !stuck {
		// the paths, and the tasks' records, stay
		for _, rec := range recs {
			for i := range rec.evals {
				e := &rec.evals[i]
				if e.list != nil {
					x.pins = append(x.pins, pin{fmt.Sprintf("the result list of %s on document %d", x.s.Paths[e.p].Text, e.d), -1, -1, *e.list})
				}
				e.kept = nil
				e.err = nil // what an error holds is the caller's to keep
			}
		}
		clear(x.docs)
		for t := range owns {
			clear(owns[t])
		}
		x.outs = nil
		x.pinned()
		runtime.KeepAlive(recs)
		runtime.KeepAlive(x)
	}
	return r
}

func (x *scenRun) compile() {
	for i, p := range x.s.Paths {
		func() {
			defer func() {
				if e := recover(); e != nil {
					x.viol("panic", -1, -1, "compiling %q: %v", p.Text, e)
				}
			}()
			jp, err := jsonpath.Compile(p.Text)
			if err != nil {
				x.viol("rejected", -1, -1, "path %q: %v", p.Text, err)
			}
			x.paths = append(x.paths, jp)
		}()
		if len(x.paths) <= i {
			x.paths = append(x.paths, nil)
		}
	}
}

func (x *scenRun) task(ops []scen.Op, owns []any, rec *taskRec, ch chan *taskRec) {
	defer func() {
		if e := recover(); e != nil {
			rec.panicv = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
		ch <- rec
		runtime.SimTaskDone()
	}()
	for i, op := range ops {
		rec.at = i
		if !x.op(i, op, owns[i], rec) {
			return
		}
	}
	rec.at = len(ops)
}

// op performs one operation; nothing it uses is shared with another task except the paths and documents.
func (x *scenRun) op(i int, op scen.Op, own any, rec *taskRec) bool {
	switch op.K {
	case scen.Pool:
		text := scen.BadPool()[op.P]
		rec.evals = append(rec.evals, evalRec{op: i, kind: op.K, pool: op.P, msg: compileText(text)})
	case scen.String:
		p := x.paths[op.P]
		if p == nil {
			return true
		}
		rec.evals = append(rec.evals, evalRec{op: i, kind: op.K, p: op.P, text: p.String()})
	case scen.Compile, scen.Eval:
		p := x.paths[op.P]
		if op.K == scen.Compile || op.Fresh {
			var err error
			p, err = jsonpath.Compile(x.s.Paths[op.P].Text)
			if err != nil {
				rec.evals = append(rec.evals, evalRec{op: i, kind: scen.Compile, p: op.P, err: err})
				return true
			}
			rec.evals = append(rec.evals, evalRec{op: i, kind: scen.Compile, p: op.P, text: p.String()})
		}
		if p == nil {
			return true
		}
		eval := p.Eval
		if op.Via != "" {
			if eval = x.layer.eval(op); eval == nil {
				return true
			}
		}
		doc := x.docs[op.D]
		if op.Own {
			doc = own
		}
		for k := 0; k <= op.Rep; k++ {
			if op.Edit != 0 && k > 0 {
				scen.EditDoc(doc, op.Edit+uint64(k), runtime.SimYield)
			}
			l, err := eval(doc)
			e := evalRec{op: i, kind: scen.Eval, p: op.P, d: op.D, own: op.Own, err: err, n: len(l)}
			if op.Edit != 0 && k > 0 {
				e.edit, e.edits = op.Edit, k
			}
			e.hashes = hashes(l)
			if x.s.Prop == "C17" {
				if p, ok := weakly(l); ok {
					e.list = &p
				}
			}
			if op.Scrib {
				full := l[:cap(l)]
				for j := range full {
					full[j] = sentinel{j}
					if j%3 == 0 {
						runtime.SimYield()
					}
				}
				l = append(l, sentinel{-1}, sentinel{-2})
			} else if !op.Mut {
				e.kept = l
			}
			rec.evals = append(rec.evals, e)
			if op.Mut {
				smash(doc)
				break
			}
		}
	case scen.Print, scen.Listing, scen.Script, scen.Parse:
		rec.evals = append(rec.evals, evalRec{op: i, kind: op.K, p: op.P, text: x.layer.text(op)})
	default:
		fatal("operation %q", op.K)
	}
	return true
}

// doc makes a copy of the document an evaluation was given.
func (x *scenRun) doc(e *evalRec) any {
	return x.s.Edited(scen.Op{D: e.d, Edit: e.edit}, e.edits)
}

func (x *scenRun) outcome(e *evalRec) *model.Outcome {
	k := outKey{e.p, e.d, e.edit, e.edits}
	o := x.outs[k]
	if o == nil {
		o = model.Eval(x.s.Paths[e.p].AST, x.doc(e))
		x.outs[k] = o
		if o.Limit {
			x.report.Limits++
		}
	}
	return o
}

func (x *scenRun) check(t int, rec *taskRec) {
	for _, e := range rec.evals {
		switch e.kind {
		case scen.Pool:
			if table == nil {
				break
			}
			if e.msg != table[e.pool] {
				x.viol("compile-diff", t, e.op, "compiling %q: %q; alone: %q", scen.BadPool()[e.pool], e.msg, table[e.pool])
			} else if inconsistent(e.msg) {
				x.viol("compile-diff", t, e.op, "compiling %q: %s", scen.BadPool()[e.pool], e.msg)
			}
		case scen.Print, scen.Listing, scen.Script, scen.Parse:
			op := x.s.Tasks[t][e.op]
			if want := x.layer.want(op); e.text != want {
				x.viol("layer-diff", t, e.op, "%s of %d: %.300q; alone: %.300q", e.kind, e.p, e.text, want)
			}
		case scen.String, scen.Compile:
			if e.err != nil {
				x.viol("compile-diff", t, e.op, "compiling %q: %v", x.s.Paths[e.p].Text, e.err)
			} else if want := x.s.Paths[e.p].Text; e.text != want {
				x.viol("compile-diff", t, e.op, "path %q says it is %q", want, e.text)
			}
		case scen.Eval:
			o := x.outcome(&e)
			text := x.s.Paths[e.p].Text
			if e.err != nil && e.n > 0 {
				x.viol("partial", t, e.op, "%s on document %d: %d values and an error: %v", text, e.d, e.n, e.err)
			}
			if !e.own && e.kept != nil {
				h := hashes(e.kept)
				for i := range h {
					if h[i] != e.hashes[i] {
						x.viol("result-changed", t, e.op, "%s on document %d: value %d of %d in the result list has changed since the call returned", text, e.d, i, e.n)
						break
					}
				}
			}
			if o.Limit {
				break
			}
			switch {
			case o.Err && e.err == nil:
				x.viol("wrong-error", t, e.op, "%s on document %d: gave %d values; an error was due: %s", text, e.d, e.n, o.Why)
			case !o.Err && e.err != nil:
				x.viol("wrong-error", t, e.op, "%s on document %d: failed: %v; should give %d values", text, e.d, e.err, o.Tree.N)
			case o.Err:
				if o.Whys == 1 {
					if want, ok := x.solo(&e); ok && want != e.err.Error() {
						x.viol("error-text", t, e.op, "%s on document %d: failed with %q; alone: %q", text, e.d, e.err, want)
					}
				}
			default:
				if !o.Tree.Match(e.hashes) {
					how := "other values"
					if o.Tree.SameBag(e.hashes) {
						how = "the right values in an impossible order"
					}
					x.viol("wrong-result", t, e.op, "%s on document %d: %d values, %d expected: %s", text, e.d, e.n, o.Tree.N, how)
				}
			}
		}
	}
}

// solo returns the error of an evaluation with nothing else going on.
func (x *scenRun) solo(e *evalRec) (string, bool) {
	jp, err := jsonpath.Compile(x.s.Paths[e.p].Text)
	if err != nil {
		return "", false
	}
	doc := x.doc(e)
	ch := make(chan error, 1)
	sc := scen.Sched{Rand: x.s.Sched.Rand, Cap: x.s.Sched.Cap}
	runtime.SimStart(sc.Config())
	runtime.SimTasks(1)
	go func() {
		defer runtime.SimTaskDone()
		defer func() {
			if e := recover(); e != nil {
				ch <- nil
			}
		}()
		_, err := jp.Eval(doc)
		ch <- err
	}()
	runtime.SimWait()
	sim := runtime.SimStop()
	runtime.SimRandSeed(x.s.Sched.Rand | 1)
	if sim.Over || sim.Live > 0 || runtime.SimTimers() > 0 {
		x.report.Tainted = true
	}
	select {
	case err := <-ch:
		if err == nil {
			return "", false
		}
		return err.Error(), true
	default:
		return "", false
	}
}

func (x *scenRun) stats(recs []*taskRec, verbose bool) {
	r := x.report
	for t, rec := range recs {
		if !rec.done {
			continue
		}
		for _, e := range rec.evals {
			switch e.kind {
			case scen.Pool:
				r.Pools++
			case scen.Print, scen.Listing, scen.Script, scen.Parse:
				r.Layers++
			case scen.Compile:
				r.Compiles++
			case scen.Eval:
				r.Evals++
				if e.err != nil {
					r.Errs++
				}
				r.Values += e.n
				if verbose {
					o := Out{Task: t, Op: e.op, N: e.n, Bag: 1, List: 1}
					if e.err != nil {
						o.Err = e.err.Error()
					}
					for _, h := range e.hashes {
						o.Bag += scen.Mix(h)
						o.List = scen.Mix(o.List ^ h)
					}
					r.Outs = append(r.Outs, o)
				}
			}
			op := x.s.Tasks[t][e.op]
			if op.Scrib {
				r.Scribs++
			}
			if e.edits > 0 {
				r.Edits++
			}
			if op.Mut {
				r.Muts++
			}
		}
	}
	for _, o := range x.outs {
		r.Work += o.Work
		if o.Tree != nil && !o.Tree.Single() {
			r.Unordered++
		}
	}
}
