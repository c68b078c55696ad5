package main

// The campaign, minimisation, replay and statistics of the properties of jpath.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/model"
	"verifsim/scen"
)

// cliSum counts what happened.
type cliSum struct {
	runs     int // of the command
	cases    int // checked
	limits   int
	values   int
	results  int
	inBytes  int64
	outBytes int64
	calls    int64
	points   uint64
	decs     uint64
	switches uint64
	ns       int64
	jumps    uint64
	spawned  uint64
	distinct map[uint64]bool
	fired    map[string]int
	fails    map[string]int // how runs stopped early
	reruns   int
	lines    int
	files    int
	concats  int
	maxRatio float64
	maxHeap  int64 // of long streams
	maxRise  int64
	streamed int64 // values of the longest
}

func (s *cliSum) fire(n int, f string, a ...any) {
	if n > 0 {
		s.fired[fmt.Sprintf(f, a...)] += n
	}
}

var cliAssumptions = []string{
	"the simulated kernel behaves like Linux for the calls jpath makes: open, read, write, close, fstat, stat, lseek, pread",
	"encoding/json and bufio are right: the reference for where values end in a stream is encoding/json given the whole stream at once",
	"when reading fails exactly where a number, string or literal (or with -l, the text of a line) ends, it may or may not count as completely read",
	"the reference interpreter in sim/model is right about what paths select, for the generated class of paths and values",
}

// plainOut is the case with no trouble in writing.
func (k *cliCase) plainOut() *cliCase {
	t := k.clone()
	t.OutAt, t.OutErr, t.OutSticky, t.OutPlan, t.KillAt, t.KillBytes, t.ErrErr = -1, 0, false, nil, 0, 0, 0
	return t
}

// only is the case with one input.
func (k *cliCase) only(i int) *cliCase {
	t := k.plainOut()
	t.Args = []int{i}
	t.MaxFD = 0
	return t
}

// tried is a case that was run and judged.
type tried struct {
	x    *cliExpect
	r    *cliRun
	viol []scen.Violation
	runs int
}

func (t *tried) find(kind string) *scen.Violation {
	for i := range t.viol {
		if t.viol[i].Kind == kind {
			return &t.viol[i]
		}
	}
	return nil
}

// try runs and judges a case, with whatever other runs that needs.
func (c *check) try(k *cliCase, base *cliRun, concat bool) (*tried, error) {
	t := &tried{x: k.bound(), runs: 1}
	var err error
	if t.r, err = c.w.jrun(k); err != nil {
		return nil, err
	}
	if c.id == "C12" && base == nil {
		if base, err = c.w.jrun(k.plainOut()); err != nil {
			return nil, err
		}
		t.runs++
	}
	if c.id == "C18" && k.long() >= 0 {
		if t.x.fail != "" && t.x.fail != "read" || t.x.limit {
			return t, nil
		}
		s := k.short()
		x := s.bound()
		if base, err = c.w.jrun(s); err != nil {
			return nil, err
		}
		t.runs++
		t.viol = s.judge(x, base, nil)
		for i := range t.viol {
			t.viol[i].Kind = "short-" + t.viol[i].Kind
		}
		if len(t.viol) == 0 {
			t.viol = k.judgeStream(t.r, base)
		}
		return t, nil
	}
	if c.id != "C12" {
		base = nil
	}
	t.viol = k.judge(t.x, t.r, base)
	if concat && !t.x.limit {
		l, n, err := c.concat(k, t)
		if err != nil {
			return nil, err
		}
		t.runs += n
		t.viol = append(t.viol, l...)
	}
	return t, nil
}

// concat compares the output for several files with those for each alone. There must be only one right output.
func (c *check) concat(k *cliCase, t *tried) ([]scen.Violation, int, error) {
	if len(k.Args) < 2 || t.r.abnormal() != nil || t.x.opt != nil {
		return nil, 0, nil
	}
	for _, o := range t.x.must {
		if !o.Tree.Single() {
			return nil, 0, nil
		}
	}
	var want []byte
	last := len(k.Args) - 1
	if t.x.file >= 0 {
		last = t.x.file
	}
	runs := 0
	for n := 0; n <= last; n++ {
		if k.Files[k.Args[n]].CloseErr != 0 {
			return nil, runs, nil
		}
		r, err := c.w.jrun(k.only(k.Args[n]))
		if err != nil {
			return nil, runs, err
		}
		runs++
		if r.abnormal() != nil {
			return nil, runs, nil
		}
		want = append(want, r.out...)
	}
	if !bytes.Equal(want, t.r.out) {
		n := 0
		for n < len(want) && n < len(t.r.out) && want[n] == t.r.out[n] {
			n++
		}
		return []scen.Violation{{Kind: "concat", Task: -1, Op: -1, Detail: fmt.Sprintf("the output is not the concatenation of the outputs for each file alone: after %d bytes, %.60q instead of %.60q", n, t.r.out[n:], want[n:])}}, runs, nil
	}
	return nil, runs, nil
}

func (c *check) cliKinds() map[string]bool {
	m := map[string]bool{}
	for _, k := range cliKinds[c.id] {
		m[k] = true
	}
	return m
}

const cliVariants = 6 // of each base run of C12

// command runs the campaign of a property of jpath.
func (c *check) command(budget time.Duration) error {
	c.cli = &cliSum{distinct: map[uint64]bool{}, fired: map[string]int{}, fails: map[string]int{}}
	if err := c.w.buildJpath(); err != nil {
		return err
	}
	if c.id == "C16" {
		if err := c.findBadPaths(); err != nil {
			return err
		}
	}
	until := time.Now().Add(budget)
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(until) && !c.over() {
				mu.Lock()
				n := next
				next++
				mu.Unlock()
				if err := c.cliCase(n); err != nil {
					c.fail(err)
				}
			}
		}()
	}
	wg.Wait()
	return c.failed
}

// cliCase does run number n.
func (c *check) cliCase(n int) error {
	k, r := genCLI(c.id, c.seed, n)
	if c.id != "C12" {
		t, err := c.try(k, nil, c.id == "C14" && r.P(40))
		if err != nil {
			return err
		}
		return c.tried(n, k, t)
	}
	x := k.bound()
	if x.limit {
		c.cliLimit()
		return nil
	}
	base, err := c.w.jrun(k)
	if err != nil {
		return err
	}
	if err := c.tried(n, k, &tried{x: x, r: base, viol: k.judge(x, base, base), runs: 1}); err != nil {
		return err
	}
	calls := len(base.events)
	for i := 0; i < cliVariants && !c.over(); i++ {
		v := k.outTrouble(r, len(base.out), calls)
		t, err := c.try(v, base, false)
		if err != nil {
			return err
		}
		if err := c.tried(n, v, t); err != nil {
			return err
		}
	}
	return nil
}

// findBadPaths fills badPaths.
func (c *check) findBadPaths() error {
	if err := c.w.buildWorker(); err != nil {
		return err
	}
	p, err := c.w.work(c.w.worker, "pool", "fwd")
	if err != nil {
		return err
	}
	var l [][]byte
	if p.exit != 0 || len(p.lines) != 1 || json.Unmarshal(p.lines[0], &l) != nil {
		return fmt.Errorf("cannot compile the pool: exit %d: %s", p.exit, p.stderr)
	}
	for i, s := range scen.BadPool() {
		if strings.HasPrefix(string(l[i]), "error: ") && !strings.ContainsRune(s, 0) {
			badPaths = append(badPaths, s)
		}
	}
	return nil
}

func (c *check) cliLimit() {
	c.mu.Lock()
	c.cli.limits++
	c.mu.Unlock()
}

// tried deals with the outcome of a case.
func (c *check) tried(n int, k *cliCase, t *tried) error {
	if n%211 == 5 || *repeat {
		again, err := c.w.jrun(k)
		if err != nil {
			return err
		}
		if !t.r.same(again) && !(again.hung && c.mishap(n, "no end")) {
			c.doubt(fmt.Errorf("run %d is not repeatable", n))
		}
		c.mu.Lock()
		c.cli.reruns++
		c.mu.Unlock()
	}
	c.cliCount(k, t)
	kinds := c.cliKinds()
	for _, v := range t.viol {
		if kinds[v.Kind] {
			return c.cliCandidate(n, k, v)
		}
	}
	if len(t.viol) > 0 {
		c.reject(n, t.viol[0].Kind, "of another property")
	}
	return nil
}

func (c *check) cliCount(k *cliCase, t *tried) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s, r := c.cli, t.r
	s.runs += t.runs
	s.cases++
	if t.x.limit {
		s.limits++
	}
	s.values += t.x.values
	s.results += len(t.x.must)
	s.outBytes += int64(len(r.out))
	s.calls += int64(len(r.events))
	s.points += r.sim.Points
	s.decs += r.sim.Decisions
	s.switches += r.sim.Switches
	s.spawned += r.sim.Spawned
	s.ns += r.sim.NS
	s.jumps += r.sim.Jumps
	if i := k.long(); i >= 0 {
		f := &k.Files[i]
		times := f.Times * k.opens(i)
		heap, rise := r.heap(int64(len(f.data())) * times)
		s.maxHeap, s.maxRise = max(s.maxHeap, heap), max(s.maxRise, rise)
		s.streamed = max(s.streamed, int64(t.x.values)*times)
	}
	s.maxRatio = max(s.maxRatio, float64(r.sim.Points)/float64(k.Sched.Cap))
	if k.Lines {
		s.lines++
	}
	if len(k.Args) > 0 {
		s.files += len(k.Args)
	}
	if t.x.fail != "" {
		s.fails[t.x.fail]++
	}
	faults := 0
	fire := func(f string, a ...any) { s.fire(1, f, a...); faults++ }
	short, rintr, wshort, wintr := 0, 0, 0, 0
	lastErr := uint64(0)
	for _, e := range r.events {
		switch e.kind {
		case 'r':
			s.inBytes += int64(e.b)
			switch syscall.Errno(e.c) {
			case 0:
				short++
			case syscall.EINTR:
				rintr++
			default:
				fire("read error %v", syscall.Errno(e.c))
			}
		case 'O':
			if e.c != 0 {
				fire("open error %v", syscall.Errno(e.c))
			}
		case 'C':
			if e.c != 0 {
				fire("close error %v", syscall.Errno(e.c))
			}
		case 'W':
			switch syscall.Errno(e.c) {
			case 0:
				wshort++
			case syscall.EINTR:
				wintr++
			default:
				if lastErr == 0 {
					if len(r.out) == 0 {
						fire("write error at the first byte")
					}
					if t.r.exit != 0 {
						fire("write error %v", syscall.Errno(e.c))
					}
				}
				lastErr = e.c
			}
		case 'K':
			fire("killed")
			if t := k.KillBytes; t > 0 && len(r.events) > 1 && r.events[len(r.events)-2].kind == 'W' {
				fire("killed in the middle of a write")
			}
		}
	}
	for _, i := range k.inputs() {
		if k.Files[i].Plan != nil {
			s.fire(short, "reads as planned (short)")
			faults += short
			break
		}
	}
	if k.OutPlan != nil {
		s.fire(wshort, "writes as planned (short)")
		faults += wshort
	}
	for _, i := range k.inputs() {
		if k.Files[i].Size != 0 {
			s.fire(1, "fstat gives another size")
			break
		}
	}
	if k.refused() {
		fire("arguments not acceptable")
	}
	s.fire(rintr, "reads interrupted")
	s.fire(wintr, "writes interrupted")
	faults += rintr + wintr
	for _, i := range k.inputs() {
		if d := k.Files[i].Damage; d != "" {
			if i := strings.IndexByte(d, ' '); i > 0 {
				switch d[:i] {
				case "byte":
					d = "a byte changed"
				case "truncated":
					d = "truncated"
				default:
					if d[0] >= '0' && d[0] <= '9' {
						d = "bytes lost"
					}
				}
			}
			fire("input damaged: %s", d)
		}
	}
	if t.x.fail == "eval" {
		fire("value that cannot be evaluated")
	}
	if k.ErrErr != 0 {
		fire("standard error fails")
	}
	if r.sim.Jumps > 0 {
		s.fire(int(r.sim.Jumps), "clock jumps")
	}
	if faults > 0 || r.sim.Decisions > 0 {
		s.distinct[r.hash()] = true
	}
}

// cliCandidate looks into a case that seems to violate the property.
func (c *check) cliCandidate(n int, k *cliCase, v scen.Violation) error {
	again, err := c.try(k, nil, v.Kind == "concat")
	if err != nil {
		return err
	}
	w := again.find(v.Kind)
	if w == nil {
		if (strings.HasPrefix(v.Detail, "no end after "+cliHang.String()) || strings.HasPrefix(v.Detail, "killed by killed") || strings.Contains(v.Detail, "out of memory")) && c.mishap(n, v.Kind+": "+v.Detail) {
			return nil
		}
		c.doubt(fmt.Errorf("run %d showed a violation (%s: %s) that does not recur", n, v.Kind, v.Detail))
		return nil
	}
	why, err := c.cliAttribute(k, again, v.Kind)
	if err != nil {
		return err
	}
	if why != "" {
		c.reject(n, v.Kind, why)
		return nil
	}
	f := &finding{Property: c.id, Kind: v.Kind, Detail: w.Detail, Seed: c.seed, Run: n, CLI: k}
	c.mu.Lock()
	if c.found != nil {
		c.mu.Unlock()
		return nil
	}
	c.found = f
	c.mu.Unlock()
	fmt.Fprintf(os.Stderr, "simcheck: run %d: %s: %.300s\nsimcheck: minimising\n", n, v.Kind, w.Detail)
	f.Trace = k.describe(again.r)
	if err := protect(func() error { return c.cliMinimise(f) }); err != nil {
		fmt.Fprintf(os.Stderr, "simcheck: cannot minimise: %v\n", err)
	}
	return nil
}

// cliMinimise makes the case of a finding smaller.
func (c *check) cliMinimise(f *finding) error {
	k := f.CLI
	m := &cliMin{c: c, kind: f.Kind, k: k, until: time.Now().Add(40 * time.Second)}
	before := cliSize(k)
	m.run()
	if why, err := c.cliAttribute(m.k, nil, f.Kind); err != nil {
		return err
	} else if why != "" {
		m.k = k
	}
	t, err := c.try(m.k, nil, f.Kind == "concat")
	if err != nil {
		return err
	}
	w := t.find(f.Kind)
	if w == nil {
		return fmt.Errorf("the minimised case does not reproduce the violation")
	}
	f.CLI, f.Detail = m.k, w.Detail
	f.Size = fmt.Sprintf("before: %s; after: %s; %d replays", before, cliSize(m.k), m.tries)
	f.Trace = m.k.describe(t.r)
	return nil
}

func (c *check) replayCLI(f *finding) (string, error) {
	t, err := c.try(f.CLI, nil, f.Kind == "concat")
	if err != nil {
		return "", err
	}
	if v := t.find(f.Kind); v != nil {
		return v.Detail, nil
	}
	return "", nil
}

// cliAttribute gives a reason if a violation is due to what the library does with a value
// even when it's the only one.
func (c *check) cliAttribute(k *cliCase, t *tried, kind string) (string, error) {
	switch kind {
	case "prefix":
		// if the output isn't decided by the input, it's for another reason
		p := k.plainOut()
		r := scen.NewRng(c.seed, 99)
		var first []byte
		for i := 0; i < 8; i++ {
			if i > 0 {
				p.Sched = scen.GenSched(r)
				p.bound()
			}
			o, err := c.w.jrun(p)
			if err != nil {
				return "", err
			}
			if i == 0 {
				first = o.out
			} else if !bytes.Equal(first, o.out) {
				return "the output varies without trouble in writing, too", nil
			}
		}
		return "", nil
	case "results", "status", "concat", "stream", "panic", "crash", "deadlock", "spin":
	default:
		return "", nil
	}
	// the build may be needed only now
	c.mu.Lock()
	if c.w.worker == "" {
		if err := c.w.buildWorker(); err != nil {
			c.mu.Unlock()
			return "", err
		}
	}
	c.mu.Unlock()
	s := &scen.Scenario{Prop: "C04", Paths: []scen.PathSpec{k.Path}}
	seen := map[string]bool{}
	for _, i := range k.inputs() {
		for _, d := range split(k.Files[i].data(), k.Lines) {
			if !seen[d] && len(seen) < 400 {
				seen[d] = true
				s.Docs = append(s.Docs, d)
			}
		}
	}
	if len(s.Docs) == 0 {
		s.Docs = []string{"null"}
	}
	var ops []scen.Op
	for i := range s.Docs {
		ops = append(ops, scen.Op{K: scen.Eval, D: i})
	}
	rng := scen.NewRng(c.seed, 98)
	bad := 0
	for i := 0; i < 6; i++ {
		var l []*scen.Scenario
		for _, op := range ops {
			t := *s
			t.Tasks = [][]scen.Op{{op}}
			t.Sched = scen.Sched{Rand: k.Sched.Rand}
			if i > 0 {
				t.Sched = scen.GenSched(rng)
			}
			t.Sched.Cap = k.Sched.Cap + 1000000
			l = append(l, t.Trim())
			if len(l) < 40 && op.D < len(s.Docs)-1 {
				continue
			}
			rep, err := c.w.replay(false, l)
			if err != nil {
				return "", err
			}
			if kind := rep.wrong(); kind != "" && rep.at >= 0 && rep.at < len(l) {
				// in a process of its own
				rep, err := c.w.replay(false, l[rep.at:rep.at+1])
				if err != nil {
					return "", err
				}
				if kind := rep.wrong(); kind != "" {
					bad++
					if i == 0 || bad > 2 {
						return "evaluation alone goes wrong, too: " + kind, nil
					}
				}
			}
			l = nil
		}
	}
	return "", nil
}

// split returns the complete values of the content.
func split(b []byte, lines bool) []string {
	var l []string
	if lines {
		for _, s := range bytes.Split(b, []byte("\n")) {
			if v := bytes.TrimSpace(s); len(v) > 0 && validJSON(v) {
				l = append(l, string(v))
			}
		}
		return l
	}
	return jsonPrefix(b)
}

func cliSize(k *cliCase) string {
	n, f := 0, 0
	for _, i := range k.inputs() {
		n += len(k.Files[i].data())
		f += len(k.Files[i].Plan)
	}
	return fmt.Sprintf("%d inputs, %d bytes, %d bytes of path, %d entries of plans", len(k.inputs()), n, len(k.Path.Text), f+len(k.OutPlan))
}

// cliMin makes a case smaller.
type cliMin struct {
	c     *check
	kind  string
	k     *cliCase
	until time.Time
	tries int
}

func (m *cliMin) left() bool { return time.Now().Before(m.until) && m.tries < 3000 }

func (m *cliMin) try(t *cliCase) bool {
	if !m.left() {
		return false
	}
	m.tries++
	r, err := m.c.try(t, nil, m.kind == "concat")
	if err != nil || r.find(m.kind) == nil {
		return false
	}
	m.k = t
	return true
}

// with tries the case changed by f.
func (m *cliMin) with(f func(t *cliCase)) bool {
	t := m.k.clone()
	f(t)
	return m.try(t)
}

func (m *cliMin) run() {
	for round := 0; round < 4 && m.left(); round++ {
		was := cliSize(m.k)
		m.with(func(t *cliCase) { t.Sched = scen.Sched{Rand: t.Sched.Rand} })
		m.with(func(t *cliCase) { t.Sched.Stall = 0 })
		for i := 0; i < len(m.k.Args) && len(m.k.Args) > 1; {
			if !m.with(func(t *cliCase) { t.Args = append(t.Args[:i:i], t.Args[i+1:]...) }) {
				i++
			}
		}
		m.with(func(t *cliCase) { t.MaxFD = 0 })
		m.with(func(t *cliCase) { t.OutPlan = nil })
		m.with(func(t *cliCase) { t.ErrErr = 0 })
		m.with(func(t *cliCase) { t.KillAt, t.KillBytes = 0, 0 })
		m.with(func(t *cliCase) { t.KillBytes = 0 })
		m.with(func(t *cliCase) { t.OutAt, t.OutErr = -1, 0 })
		for i := range m.k.Files {
			if m.k.Files[i].Plan != nil {
				m.with(func(t *cliCase) { t.Files[i].Plan = nil })
			}
			if m.k.Files[i].Mode != 0 {
				m.with(func(t *cliCase) { t.Files[i].Mode = 0 })
			}
			if m.k.Files[i].Size != 0 {
				m.with(func(t *cliCase) { t.Files[i].Size = 0 })
			}
			if m.k.Files[i].CloseErr != 0 {
				m.with(func(t *cliCase) { t.Files[i].CloseErr = 0 })
			}
			if m.k.Files[i].ReadAt >= 0 {
				m.with(func(t *cliCase) { t.Files[i].ReadAt, t.Files[i].ReadErr, t.Files[i].Sticky = -1, 0, false })
			}
			if m.k.Files[i].OpenErr != 0 {
				m.with(func(t *cliCase) { t.Files[i].OpenErr = 0 })
			}
		}
		m.path()
		for _, i := range m.k.inputs() {
			m.data(i)
		}
		m.plans()
		for m.k.KillAt > 1 && (m.with(func(t *cliCase) { t.KillAt /= 2 }) || m.with(func(t *cliCase) { t.KillAt-- })) {
		}
		for m.k.OutAt > 0 && (m.with(func(t *cliCase) { t.OutAt /= 2 }) || m.with(func(t *cliCase) { t.OutAt-- })) {
		}
		if cliSize(m.k) == was {
			break
		}
	}
	// files not named, except the standard input, don't matter
	t := m.k.clone()
	if len(t.Args) > 0 {
		to := map[int]int{}
		files := []cliFile{t.Files[0]}
		for i, a := range t.Args {
			if _, ok := to[a]; !ok {
				to[a] = len(files)
				files = append(files, t.Files[a])
			}
			t.Args[i] = to[a]
		}
		t.Files = files
		t.Files[0] = cliFile{ReadAt: -1}
	} else {
		t.Files = t.Files[:1]
	}
	m.try(t)
	m.schedule()
}

func (m *cliMin) path() {
	for i := 0; i < len(m.k.Path.AST) && m.left(); {
		if !m.with(func(t *cliCase) {
			p := append(append(model.Path{}, t.Path.AST[:i]...), t.Path.AST[i+1:]...)
			t.Path = scen.PathSpec{AST: p, Text: p.Text(model.Plain)}
		}) {
			i++
		}
	}
}

// data drops stretches of the content.
func (m *cliMin) data(i int) {
	cut := func(a, b int) bool {
		return m.with(func(t *cliCase) {
			f := &t.Files[i]
			d := f.data()
			f.set(append(append([]byte{}, d[:a]...), d[b:]...))
			if f.ReadAt >= int64(b) {
				f.ReadAt -= int64(b - a)
			} else if f.ReadAt > int64(a) {
				f.ReadAt = int64(a)
			}
			if f.Damage != "" {
				f.Damage = "damaged"
			}
		})
	}
	size := func() int { return len(m.k.Files[i].data()) }
	// whole lines and values first
	for again := true; again; {
		again = false
		d := m.k.Files[i].data()
		for a := 0; a < len(d) && m.left(); {
			b := bytes.IndexByte(d[a:], '\n')
			if b < 0 {
				break
			}
			b += a + 1
			if cut(a, b) {
				d = m.k.Files[i].data()
				again = size() > 0
			} else {
				a = b
			}
		}
		if len(d) > 3000 {
			break
		}
	}
	for k := size(); k >= 1 && m.left(); k /= 2 {
		for a := 0; a < size() && m.left(); {
			b := a + k
			if b > size() {
				b = size()
			}
			if !cut(a, b) {
				a = b
			}
		}
	}
}

func (m *cliMin) plans() {
	drop := func(get func(t *cliCase) *[]uint64) {
		for k := len(*get(m.k)); k >= 1; k /= 2 {
			for i := 0; i < len(*get(m.k)) && m.left(); {
				if !m.with(func(t *cliCase) {
					p := get(t)
					j := i + k
					if j > len(*p) {
						j = len(*p)
					}
					*p = append((*p)[:i:i], (*p)[j:]...)
					zero := true
					for _, x := range *p {
						if x > 0 {
							zero = false
						}
					}
					if zero {
						*p = nil
					}
				}) {
					i += k
				}
			}
		}
	}
	drop(func(t *cliCase) *[]uint64 { return &t.OutPlan })
	for _, i := range m.k.inputs() {
		drop(func(t *cliCase) *[]uint64 { return &t.Files[i].Plan })
	}
}

// schedule writes the schedule as a short list of deviations from the plain one, if it matters.
func (m *cliMin) schedule() {
	if m.k.Sched.Mode == 0 && m.k.Sched.Stall == 0 {
		return
	}
	m.until = time.Now().Add(10 * time.Second)
	m.tries = 0
	if m.with(func(t *cliCase) { t.Sched = scen.Sched{Rand: t.Sched.Rand} }) {
		return
	}
	t, err := m.c.try(m.k, nil, false)
	if err != nil || t.r.sim.DevsOver || len(t.r.sim.Devs) == 0 || len(t.r.sim.Devs) > 2*12000 {
		return
	}
	set := func(d []uint32) bool {
		return m.with(func(t *cliCase) {
			t.Sched = scen.Sched{Rand: t.Sched.Rand, Stall: t.Sched.Stall, Seed: t.Sched.Seed, Devs: d}
		})
	}
	devs := t.r.sim.Devs
	if !set(devs) {
		return
	}
	for k := len(devs) / 2; k >= 1 && m.left(); k /= 2 {
		for i := 0; i < len(devs) && m.left(); {
			j := i + 2*k
			if j > len(devs) {
				j = len(devs)
			}
			d := append(append([]uint32{}, devs[:i]...), devs[j:]...)
			if set(d) {
				devs = d
			} else {
				i = j
			}
		}
	}
}

// describe writes a case, and what happened, for people.
func (k *cliCase) describe(r *cliRun) []string {
	var l []string
	add := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		l = append(l, s)
	}
	cmd := "jpath"
	for _, a := range k.argv()[1:] {
		cmd += fmt.Sprintf(" %q", a)
	}
	add("%s", cmd)
	seen := map[int]bool{}
	for _, i := range k.inputs() {
		if seen[i] {
			continue
		}
		seen[i] = true
		f := &k.Files[i]
		n := f.Name
		if i == 0 {
			n = "standard input"
		}
		add("%s: %d bytes: %q", n, len(f.data()), f.data())
		if f.Times > 1 {
			add("    %d times over", f.Times)
		}
		if f.OpenErr != 0 {
			add("    cannot be opened: %v", syscall.Errno(f.OpenErr))
		}
		if f.ReadAt >= 0 {
			s := "once"
			if f.Sticky {
				s = "every time"
			}
			add("    reading fails after %d bytes, %s: %v", f.ReadAt, s, syscall.Errno(f.ReadErr))
		}
		if f.Plan != nil {
			add("    reads give at most (0: interrupted) %v, over and over", f.Plan)
		}
		if f.Size != 0 {
			add("    its size seems to be %d more", f.Size)
		}
		if f.CloseErr != 0 {
			add("    closing fails: %v", syscall.Errno(f.CloseErr))
		}
		if f.Damage != "" {
			add("    damaged: %s", f.Damage)
		}
	}
	if k.MaxFD != 0 {
		add("at most %d files can be open", k.MaxFD)
	}
	if k.OutPlan != nil {
		add("writes take at most (0: interrupted) %v, over and over", k.OutPlan)
	}
	if k.OutAt >= 0 {
		s := "once"
		if k.OutSticky {
			s = "every time"
		}
		add("writing fails after %d bytes, %s: %v", k.OutAt, s, syscall.Errno(k.OutErr))
	}
	if k.KillAt != 0 {
		add("killed during call %d, after %d bytes if it's a write", k.KillAt, k.KillBytes)
	}
	if k.ErrErr != 0 {
		add("standard error fails: %v", syscall.Errno(k.ErrErr))
	}
	sc := k.Sched
	add("schedule: mode %d, seed %d, map order seed %d", sc.Mode, sc.Seed, sc.Rand)
	for i := 0; i+1 < len(sc.Devs); i += 2 {
		add("    at decision %d: goroutine %d runs", sc.Devs[i], sc.Devs[i+1])
	}
	if r != nil {
		switch {
		case r.killed:
			add("killed; %d calls", len(r.events))
		case r.signal != 0:
			add("ended by signal: %v", r.signal)
		default:
			add("exit status %d; %d calls, %d steps", r.exit, len(r.events), r.sim.Points)
		}
		add("standard output (%d bytes): %q", len(r.out), r.out[:min(len(r.out), 500)])
		add("standard error: %q", r.err)
	}
	return l
}

func (c *check) cliCoverage() map[string]any {
	s := c.cli
	var samples []any
	if c.found != nil {
		samples = append(samples, map[string]any{"violation": c.found.Trace})
	} else {
		for _, n := range []int{1, 2, 7} {
			k, r := genCLI(c.id, c.seed, n)
			if c.id == "C12" {
				b, err := c.w.jrun(k)
				if err != nil {
					continue
				}
				k = k.outTrouble(r, len(b.out), len(b.events))
			}
			if o, err := c.w.jrun(k); err == nil {
				samples = append(samples, map[string]any{"run": n, "case": k.describe(o)})
			}
		}
	}
	fired := map[string]int{}
	for k, v := range s.fired {
		fired[k] = v
	}
	fired["preemptions_and_switches"] = int(s.switches)
	secs := time.Since(c.start).Seconds()
	rule := "Each run has a seed of its own, made from (seed, run number), which decides everything: a path, values made up for it, the inputs holding them, how reads and writes are divided and " +
		"interrupted, faults, and the schedule. evaluations counts runs of jpath judged. A run is non-trivial if a planned fault (short, interrupted " +
		"or failing call, damage, kill) took effect or the scheduler had a choice; distinct by the hash of its sequence of system calls with their results and of its context switches."
	if c.id == "C12" {
		rule += fmt.Sprintf(" Each undisturbed run is followed by %d with failing writes or kills.", cliVariants)
	}
	return map[string]any{
		"evaluations":                       s.cases,
		"distinct_nontrivial":               len(s.distinct),
		"rule":                              rule,
		"samples":                           samples,
		"simulated_runs":                    s.runs,
		"runs_per_hour":                     int(float64(s.runs) / secs * 3600),
		"simulated_seconds":                 float64(s.ns) / 1e9,
		"processes":                         s.runs + s.reruns,
		"input_values":                      s.values,
		"results_due":                       s.results,
		"bytes_read":                        s.inBytes,
		"bytes_written":                     s.outBytes,
		"system_calls_simulated":            s.calls,
		"runs_with_-l":                      s.lines,
		"files_named":                       s.files,
		"too_big_for_model":                 s.limits,
		"scheduling_points":                 s.points,
		"scheduling_decisions":              s.decs,
		"goroutines":                        s.spawned,
		"most_memory_in_use_in_long_stream": s.maxHeap,
		"most_growth_after_half_of_stream":  s.maxRise,
		"most_values_in_stream":             s.streamed,
		"most_of_step_limit_used":           s.maxRatio,
		"faults_injected":                   fired,
		"runs_stopping_early_by":            s.fails,
		"repeated_exactly":                  s.reruns,
		"rejected":                          c.rejected,
		"instrumented_statements":           c.w.points,
		"real_components":                   []string{"cmd/jpath", "jsonpath", "jsonpath/mach", "jsonpath/paths", "os, bufio, encoding/json, internal/poll", "Go runtime channels, maps, goroutines"},
		"stub_components":                   []string{"system calls on files, standard input, output and error", "scheduler's choice of goroutine", "map order and other randomness", "clock and timers", "garbage collection off"},
	}
}
