package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/scen"
)

// check is one invocation for one property.
type check struct {
	w     *world
	id    string
	seed  uint64
	tier  string
	start time.Time

	mu       sync.Mutex
	sum      scen.Summary
	raceSum  scen.Summary
	scheds   map[uint64]bool
	procs    int
	mishaps  int      // processes that ended badly, but did not again
	rejected []string // violations that are not the property's
	found    *finding
	failed   error
	doubts   []error // things that could not be repeated
	reruns   int
	samples  []any
	cli      *cliSum
}

// finding is a confirmed violation.
type finding struct {
	Property string           `json:"property"`
	Kind     string           `json:"kind"`
	Detail   string           `json:"detail"`
	Race     bool             `json:"race,omitempty"`
	Seed     uint64           `json:"seed"`
	Run      int              `json:"run"`
	Note     string           `json:"note,omitempty"`
	Scens    []*scen.Scenario `json:"scenarios,omitempty"`
	CLI      *cliCase         `json:"cli,omitempty"`
	Size     string           `json:"size,omitempty"`
	Trace    []string         `json:"trace,omitempty"`
}

// phase is a part of a campaign.
type phase struct {
	race  bool
	until time.Time
	chunk int
	base  int // first run number
}

const raceBase = 1 << 40

// fail notes trouble with the check itself.
func (c *check) fail(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.failed == nil {
		c.failed = err
	}
}

// doubt notes that something isn't repeatable: the search goes on, since what can be repeated is believed.
func (c *check) doubt(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.doubts = append(c.doubts, err)
}

func (c *check) over() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.failed != nil || c.found != nil || len(c.doubts) > 20
}

// protect calls a function, making a panic an error.
func protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v\n%s", r, debug.Stack())
		}
	}()
	return f()
}

func (c *check) runPhase(ph phase) {
	next := 0
	var mu sync.Mutex
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		next++
		return next - 1
	}
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(ph.until) && !c.over() {
				k := take()
				c.chunk(ph, ph.base+k*ph.chunk, k)
			}
		}()
	}
	wg.Wait()
}

// chunk runs a stretch of the campaign.
func (c *check) chunk(ph phase, from, k int) {
	end := from + ph.chunk
	for from < end && !c.over() {
		bin := c.w.worker
		if ph.race {
			bin = c.w.race
		}
		args := []string{"batch", c.id, fmt.Sprint(c.seed), fmt.Sprint(from), fmt.Sprint(end - from)}
		p, err := c.w.work(bin, args...)
		if err != nil {
			c.fail(err)
			return
		}
		c.mu.Lock()
		c.procs++
		c.mu.Unlock()
		var sum scen.Summary
		have := false
		if n := len(p.lines); n > 0 {
			if err := json.Unmarshal(p.lines[n-1], &sum); err != nil {
				c.fail(fmt.Errorf("summary: %v", err))
				return
			}
			have = true
		}
		if have {
			c.add(ph, &sum)
			if (k%97 == 3 || *repeat) && !sum.Stopped {
				// the same again must be exactly the same
				q, err := c.w.work(bin, args...)
				if err != nil {
					c.fail(err)
					return
				}
				var again scen.Summary
				got := len(q.lines) > 0 && json.Unmarshal(q.lines[len(q.lines)-1], &again) == nil
				again.MaxGrowth = sum.MaxGrowth // the allocator may round up differently
				if !got && q.external() && c.mishap(q.last, q.stderr) {
					from = end
					continue
				}
				if !got || !reflect.DeepEqual(sum, again) {
					c.doubt(fmt.Errorf("runs from %d are not repeatable", from))
					return
				}
				c.mu.Lock()
				c.reruns += sum.Runs
				c.mu.Unlock()
			}
		}
		kind, detail := p.died()
		switch {
		case kind != "":
			if p.last < 0 {
				c.fail(fmt.Errorf("worker died before its first run: %s", detail))
				return
			}
			if scen.Kinds(c.id)[kind] {
				c.candidate(ph, from, p.last, kind, p)
			} else {
				c.reject(p.last, kind, "of another property")
			}
			from = p.last + 1
		case !have:
			c.fail(fmt.Errorf("worker said nothing"))
			return
		case sum.Bad != nil:
			kinds := scen.Kinds(c.id)
			for _, v := range sum.Bad.Viol {
				if kinds[v.Kind] {
					kind = v.Kind
					break
				}
			}
			c.candidate(ph, from, sum.Bad.N, kind, nil)
			from = sum.Next
		case sum.Stopped:
			from = sum.Next
		default:
			from = end
		}
	}
}

func (c *check) add(ph phase, sum *scen.Summary) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, h := range sum.Hashes {
		c.scheds[h] = true
	}
	if ph.race {
		c.raceSum.Merge(sum)
	} else {
		c.sum.Merge(sum)
	}
}

func (c *check) reject(n int, kind, why string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.rejected) < 200 {
		c.rejected = append(c.rejected, fmt.Sprintf("run %d: %s: %s", n, kind, why))
	}
}

// mishap notes that a process was ended, perhaps by the machine it ran on, and that the same runs did well in another one.
// It returns false if that happens too often.
func (c *check) mishap(n int, what string) bool {
	c.mu.Lock()
	c.mishaps++
	ok := c.mishaps <= 5
	c.mu.Unlock()
	if len(what) > 200 {
		what = what[:200]
	}
	c.reject(n, "mishap", what)
	return ok
}

// candidate looks into a run that seems to violate the property.
// p is the process that ended badly, or nil.
func (c *check) candidate(ph phase, from, n int, kind string, p *proc) {
	kinds := map[string]bool{kind: true}
	l := []*scen.Scenario{scen.Generate(c.id, c.seed, n)}
	r, err := c.w.replay(ph.race, l)
	if err != nil {
		c.fail(err)
		return
	}
	v := r.find(kinds)
	if v == nil {
		// perhaps earlier runs in the same process are needed
		l = nil
		for i := from; i <= n; i++ {
			l = append(l, scen.Generate(c.id, c.seed, i))
		}
		if r, err = c.w.replay(ph.race, l); err != nil {
			c.fail(err)
			return
		}
		if v = r.find(kinds); v == nil {
			if p != nil && p.external() && c.mishap(n, kind+": "+p.stderr) {
				return
			}
			c.doubt(fmt.Errorf("run %d (after %d) showed a violation (%s) that does not recur", n, from, kind))
			return
		}
		l = l[:r.at+1]
	}
	f := &finding{Property: c.id, Kind: kind, Detail: v.Detail, Race: ph.race, Seed: c.seed, Run: n, Scens: l}
	if why, err := c.attribute(f, v); err != nil {
		c.fail(err)
		return
	} else if why != "" {
		c.reject(n, kind, why)
		return
	}
	c.mu.Lock()
	if c.found != nil {
		c.mu.Unlock()
		return
	}
	c.found = f
	c.mu.Unlock()
	fmt.Fprintf(os.Stderr, "simcheck: run %d: %s: %.300s\nsimcheck: minimising\n", n, kind, v.Detail)
	m := &minimiser{c: c, f: f, kinds: kinds, until: time.Now().Add(45 * time.Second)}
	if err := protect(m.run); err != nil {
		fmt.Fprintf(os.Stderr, "simcheck: cannot minimise: %v\n", err)
		f.Scens, f.Detail, f.Trace = l, v.Detail, nil
		for _, s := range l {
			f.Trace = append(f.Trace, describe(s)...)
		}
	}
}

// attribute decides whether a violation is one of this property, and not, for instance, of the
// meaning of the expressions: it returns a reason if not.
func (c *check) attribute(f *finding, v *scen.Violation) (string, error) {
	switch c.id {
	case "C01", "C03", "C07", "C09", "C19":
		switch f.Kind {
		case "race", "doc-modified", "result-changed", "compile-diff", "layer-diff":
			return "", nil
		}
		return c.alone(f, v)
	case "C08":
		return c.anyOrder(f, v)
	}
	return "", nil
}

// single makes a scenario of one operation only.
func single(s *scen.Scenario, op scen.Op) *scen.Scenario {
	t := s.Clone()
	if op.Edit != 0 { // on the document as it was then
		t.Docs[op.D] = scen.JSONText(s.Edited(op, op.Rep), scen.NewRng(1), false)
	}
	op = scen.Op{K: op.K, P: op.P, D: op.D}
	switch op.K { // nothing shared
	case scen.Print, scen.Listing, scen.Script:
		op.K = scen.Compile
	case scen.Parse:
		op.K = scen.Pool
	}
	t.Tasks = [][]scen.Op{{op}}
	t.Sched = scen.Sched{Rand: s.Sched.Rand, Cap: s.Sched.Cap}
	return t.Trim()
}

// versions returns the operations for each state of the document.
func versions(op scen.Op) []scen.Op {
	n := op.Rep
	if op.Edit == 0 {
		n = 0
	}
	o := op
	o.Edit, o.Rep = 0, 0
	l := []scen.Op{o}
	for j := 1; j <= n; j++ {
		op.Rep = j
		l = append(l, op)
	}
	return l
}

// blamed returns the operations that may be to blame.
func blamed(f *finding, v *scen.Violation) (*scen.Scenario, []scen.Op) {
	s := f.Scens[len(f.Scens)-1]
	if v.Task >= 0 && v.Task < len(s.Tasks) && v.Op >= 0 && v.Op < len(s.Tasks[v.Task]) {
		return s, versions(s.Tasks[v.Task][v.Op])
	}
	seen := map[scen.Op]bool{}
	var l []scen.Op
	for i := range s.Paths { // compiled before the tasks start
		l = append(l, scen.Op{K: scen.Compile, P: i})
	}
	for _, t := range s.Tasks {
		for _, op := range t {
			for _, o := range versions(scen.Op{K: op.K, P: op.P, D: op.D, Edit: op.Edit, Rep: op.Rep}) {
				if !seen[o] {
					seen[o] = true
					l = append(l, o)
				}
			}
		}
	}
	return s, l
}

// alone rejects what goes wrong even in a process of its own with nothing else going on: every time, for C07;
// with the plain schedule, for C01, C09 and C19; ever, for C03.
func (c *check) alone(f *finding, v *scen.Violation) (string, error) {
	s, ops := blamed(f, v)
	r := scen.NewRng(c.seed, uint64(f.Run))
	n := 12
	if len(ops) > 1 {
		n = 3
	}
	for _, op := range ops {
		bad, kind := 0, ""
		for i := 0; i < n; i++ {
			t := single(s, op)
			plain := i%3 == 0
			if i > 0 {
				sc := scen.GenSched(r)
				if plain {
					sc = scen.Sched{Rand: sc.Rand}
				}
				t.Sched = sc
				t.Sched.Cap = s.Sched.Cap
			}
			rep, err := c.w.replay(false, []*scen.Scenario{t})
			if err != nil {
				return "", err
			}
			for _, x := range rep.viol {
				switch x.Kind {
				case "leak", "doc-modified", "result-changed":
					continue
				}
				bad++
				kind = x.Kind
				if c.id == "C03" || plain && c.id != "C07" {
					return "the operation goes wrong alone, too: " + kind, nil
				}
				break
			}
			if c.id == "C07" && bad <= i {
				break // right at least once
			}
		}
		if bad == n {
			return "the operation always goes wrong alone, too: " + kind, nil
		}
	}
	return "", nil
}

// anyOrder rejects what is wrong in the same way with every order of members.
func (c *check) anyOrder(f *finding, v *scen.Violation) (string, error) {
	if f.Kind != "wrong-result" && f.Kind != "wrong-error" {
		return "", nil
	}
	s, ops := blamed(f, v)
	r := scen.NewRng(c.seed, uint64(f.Run), 8)
	for _, op := range ops {
		var first *scen.Out
		for i := 0; i < 24; i++ {
			t := single(s, op)
			if i > 0 {
				t.Sched.Rand = r.U64()>>1 | 1
				if i%2 == 1 {
					t.Sched = scen.GenSched(r)
					t.Sched.Cap = s.Sched.Cap
				}
			}
			rep, err := c.w.replay(false, []*scen.Scenario{t})
			if err != nil {
				return "", err
			}
			if len(rep.reports) == 0 || len(rep.reports[0].Outs) == 0 {
				return "", nil // it didn't end properly
			}
			if rep.find(map[string]bool{"wrong-result": true, "wrong-error": true}) == nil {
				return "", nil // right this time
			}
			o := &rep.reports[0].Outs[0]
			if first == nil {
				first = o
				continue
			}
			if o.Bag != first.Bag || (o.Err != "") != (first.Err != "") {
				return "", nil
			}
		}
	}
	return "the same for every order", nil
}

// poolTable finds out what each text of the pool gives with nothing else going on.
// It returns the texts for which that depends on what was compiled before.
func (c *check) poolTable() ([]int, error) {
	var tables [2][][]byte
	work := func(args ...string) ([][]byte, error) {
		p, err := c.w.work(c.w.worker, append([]string{"pool"}, args...)...)
		if err != nil {
			return nil, err
		}
		var l [][]byte
		if p.exit != 0 || len(p.lines) != 1 || json.Unmarshal(p.lines[0], &l) != nil || len(l) != len(scen.BadPool()) {
			return nil, fmt.Errorf("cannot compile the pool: exit %d: %s", p.exit, p.stderr)
		}
		return l, nil
	}
	for i, dir := range []string{"fwd", "rev"} {
		var err error
		if tables[i], err = work(dir); err != nil {
			return nil, err
		}
	}
	var differ []int
	for i := range tables[0] {
		if bytes.Equal(tables[0][i], tables[1][i]) {
			continue
		}
		differ = append(differ, i)
	}
	var again []int
	if len(differ) > 0 { // then others may differ from what they give alone, too
		for i := range tables[0] {
			again = append(again, i)
		}
	}
	// each of those in a process of its own
	errs := make([]error, 8)
	var wg sync.WaitGroup
	for t := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := t; k < len(again); k += len(errs) {
				i := again[k]
				l, err := work("one", strconv.Itoa(i))
				if err != nil {
					errs[t] = err
					return
				}
				tables[0][i] = l[i]
			}
		}()
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		return nil, err
	}
	b, err := json.Marshal(tables[0])
	if err != nil {
		return nil, err
	}
	c.w.pool = filepath.Join(c.w.tmp, "pool.json")
	return differ, os.WriteFile(c.w.pool, b, 0o666)
}

// poolOrder looks for a compilation that depends on former ones.
func (c *check) poolOrder() error {
	differ, err := c.poolTable()
	if err != nil || len(differ) == 0 || c.id != "C09" {
		return err
	}
	l := scen.BadPool()
	f := &finding{Property: c.id, Kind: "compile-diff", Seed: c.seed}
	ops := []scen.Op{}
	for i := range l {
		ops = append(ops, scen.Op{K: scen.Pool, P: i})
	}
	for try := 0; try < 2 && c.found == nil; try++ {
		s := &scen.Scenario{Prop: c.id, Name: "pool", Docs: []string{"null"}, Sched: scen.Sched{Rand: 1, Cap: 50000000}}
		s.Tasks = [][]scen.Op{slices.Clone(ops)}
		f.Scens = []*scen.Scenario{s}
		r, err := c.w.replay(false, f.Scens)
		if err != nil {
			return err
		}
		if v := r.find(map[string]bool{"compile-diff": true}); v != nil {
			f.Detail = v.Detail
			c.found = f
		}
		slices.Reverse(ops)
	}
	if c.found == nil {
		c.doubt(fmt.Errorf("what compiling %q gives varies, but not when it is repeated", l[differ[0]]))
		return nil
	}
	m := &minimiser{c: c, f: c.found, kinds: map[string]bool{"compile-diff": true}, until: time.Now().Add(20 * time.Second)}
	return protect(m.run)
}

// tags returns the build tags of a property's workers.
func tags(id string) string {
	if id == "C19" {
		return "layers"
	}
	return "plain"
}

// library runs the campaign of a property of the library.
func (c *check) library(budget time.Duration) error {
	c.w.tags = tags(c.id)
	race := 0.0
	switch c.id {
	case "C02":
		race = 1
	case "C01", "C09", "C19":
		race = 0.35
	}
	if race < 1 || c.id == "C02" {
		if err := c.w.buildWorker(); err != nil {
			return err
		}
	}
	if race > 0 {
		if err := c.w.buildRace(); err != nil {
			return err
		}
	}
	if err := c.poolOrder(); err != nil || c.found != nil {
		return err
	}
	t := time.Now()
	if race > 0 {
		c.runPhase(phase{race: true, until: t.Add(time.Duration(float64(budget) * race)), chunk: 40, base: raceBase})
	}
	if race < 1 && !c.over() {
		chunk := 150
		if c.id == "C09" {
			chunk = 300 // for what processes remember of what they compiled
		}
		c.runPhase(phase{until: t.Add(budget), chunk: chunk})
	}
	return c.failed
}

// describe writes a scenario for people.
func describe(s *scen.Scenario) []string {
	var l []string
	cut := func(s string) string {
		if len(s) > 300 {
			return s[:300] + "..."
		}
		return s
	}
	for i, d := range s.Docs {
		l = append(l, cut(fmt.Sprintf("document %d: %s", i, d)))
	}
	for i, p := range s.Paths {
		l = append(l, cut(fmt.Sprintf("path %d: %s", i, p.Text)))
	}
	if w := s.Grow; w != nil {
		l = append(l, fmt.Sprintf("%d documents at a time, each different, such as %s: %d tasks evaluate the paths on them in turn", w.N, cut(scen.JSONText(w.Doc(0), scen.NewRng(1), false)), w.Tasks))
	}
	for i, t := range s.Tasks {
		var w []string
		for _, op := range t {
			var x string
			switch op.K {
			case scen.Eval:
				x = fmt.Sprintf("eval path %d on document %d", op.P, op.D)
			case scen.Parse:
				x = fmt.Sprintf("parse %q as path and expression", scen.BadPool()[op.P])
			case scen.Pool:
				x = fmt.Sprintf("compile %q", scen.BadPool()[op.P])
			default:
				x = fmt.Sprintf("%s path %d", op.K, op.P)
			}
			if op.Own {
				x += " (a copy)"
			}
			switch op.Via {
			case "prog":
				x += ", the shared program"
			case "tree":
				x += ", a program made from the shared parse tree"
			}
			if op.Fresh {
				x += ", newly compiled"
			}
			if op.Scrib {
				x += ", overwriting the results"
			}
			if op.Mut {
				x += ", overwriting the document afterwards"
			}
			if op.Edit != 0 && op.Rep > 0 {
				x += fmt.Sprintf(", and %d times more, after changes to it", op.Rep)
			} else if op.Rep > 0 {
				x += fmt.Sprintf(", %d times", op.Rep+1)
			}
			w = append(w, x)
		}
		l = append(l, cut(fmt.Sprintf("task %d: %s", i+1, strings.Join(w, "; "))))
	}
	sc := s.Sched
	names := []string{"in order of creation, without preemption", "random walk", "random priorities", "in turns", "one task starved"}
	l = append(l, fmt.Sprintf("schedule: %s, seed %d, map order seed %d", names[sc.Mode], sc.Seed, sc.Rand))
	if sc.Stall > 0 {
		l = append(l, "clock jumps at random")
	}
	for i := 0; i+1 < len(sc.Devs); i += 2 {
		l = append(l, fmt.Sprintf("at decision %d: goroutine %d runs", sc.Devs[i], sc.Devs[i+1]))
	}
	return l
}
