package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/scen"
)

// proc is a finished worker process.
type proc struct {
	lines  [][]byte // of JSON
	last   int      // run in progress at the end, or -1
	stderr string
	exit   int
	hung   bool
}

// limitBuf keeps the first part of what's written.
type limitBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limitBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if n := 64*1024 - l.b.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		l.b.Write(p[:n])
	}
	return len(p), nil
}

const hangTime = 120 * time.Second

// watch notices that a process makes no progress: that it uses a lot of processor time, or none, for long.
type watch struct {
	pid   int
	limit time.Duration
	from  time.Duration // processor time used when it last made progress
	used  time.Duration // since it was last looked at
	moved time.Time     // when that last changed
	fresh bool          // progress since it was last looked at
}

func newWatch(pid int, limit time.Duration) *watch {
	return &watch{pid: pid, limit: limit, moved: time.Now()}
}

// look sees how much time has been used.
func (w *watch) look() {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", w.pid))
	if err != nil {
		return
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	if t := time.Duration(u+s) * 10 * time.Millisecond; t != w.used {
		w.used, w.moved = t, time.Now()
	}
}

// progress notes progress.
func (w *watch) progress() { w.fresh = true }

// late says that there is none.
func (w *watch) late() bool {
	w.look()
	if w.fresh {
		w.from, w.moved, w.fresh = w.used, time.Now(), false
	}
	return w.used-w.from > w.limit || time.Since(w.moved) > w.limit
}

func (w *world) env() []string {
	e := []string{"GOMAXPROCS=1", "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "HOME=/", "PATH=" + os.Getenv("PATH")}
	if w.pool != "" {
		e = append(e, "SIMPOOL="+w.pool)
	}
	return e
}

func (w *world) work(bin string, args ...string) (*proc, error) {
	cmd := exec.Command(bin, args...)
	cmd.Env = w.env()
	cmd.Dir = w.tmp
	out, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	defer out.Close()
	cmd.ExtraFiles = []*os.File{pw}
	var eb limitBuf
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err = cmd.Start()
	pw.Close()
	if err != nil {
		return nil, err
	}
	p := &proc{last: -1}
	var mu sync.Mutex
	wt := newWatch(cmd.Process.Pid, hangTime)
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			mu.Lock()
			late := wt.late()
			mu.Unlock()
			if late {
				p.hung = true
				cmd.Process.Kill()
				return
			}
		}
	}()
	rd := bufio.NewReaderSize(out, 1<<16)
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 2 && l[0] == 'p' {
			p.last, _ = strconv.Atoi(string(bytes.TrimSpace(l[2:])))
			mu.Lock()
			wt.progress()
			mu.Unlock()
		} else if len(l) > 1 && l[len(l)-1] == '\n' {
			p.lines = append(p.lines, append([]byte(nil), l...))
		}
		if err != nil {
			break
		}
	}
	err = cmd.Wait()
	close(done)
	p.exit = cmd.ProcessState.ExitCode()
	p.stderr = eb.b.String()
	if p.exit == 3 || strings.Contains(p.stderr, "fatal error: sim:") {
		return p, fmt.Errorf("worker failed: %s", p.stderr)
	}
	return p, nil
}

// external is true if the process may have been ended by something that is not part of the simulation: a signal, want of memory or of time.
func (p *proc) external() bool {
	return p.hung || p.exit < 0 || strings.Contains(p.stderr, "out of memory")
}

// died says what kind of violation a process that ended badly shows, or "".
func (p *proc) died() (kind, detail string) {
	if p.hung {
		return "spin", "no progress for " + hangTime.String()
	}
	if p.exit == 0 {
		return "", ""
	}
	d := p.stderr
	if i := strings.Index(d, "\npanic: "); i > 0 {
		d = d[i:]
	} else if i := strings.Index(d, "\nfatal error: "); i > 0 {
		d = d[i:]
	}
	if len(d) > 3000 {
		d = d[:3000]
	}
	switch {
	case strings.Contains(p.stderr, "panic: "):
		return "panic", d
	case strings.Contains(p.stderr, "all goroutines are asleep"):
		return "deadlock", d
	}
	return "crash", fmt.Sprintf("exit status %d: %s", p.exit, d)
}

// replayed is the outcome of a list of scenarios run in a fresh process.
type replayed struct {
	reports []*scen.Report
	at      int // scenario of the violations
	viol    []scen.Violation
	race    string // what the race detector said
	crashed bool
}

func (w *world) replay(race bool, l []*scen.Scenario) (*replayed, error) {
	f, err := os.CreateTemp(w.tmp, "scen")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	b, err := json.Marshal(l)
	if err != nil {
		return nil, err
	}
	f.Write(b)
	f.Close()
	bin := w.worker
	if race {
		bin = w.race
	}
	p, err := w.work(bin, "replay", f.Name())
	if err != nil {
		return nil, err
	}
	r := &replayed{at: -1}
	for i, line := range p.lines {
		rep := &scen.Report{}
		if err := json.Unmarshal(line, rep); err != nil {
			return nil, fmt.Errorf("report: %v", err)
		}
		r.reports = append(r.reports, rep)
		for _, v := range rep.Viol {
			if r.at < 0 {
				r.at = i
			}
			if v.Kind == "race" {
				r.race = p.stderr
			}
			r.viol = append(r.viol, v)
		}
	}
	if k, d := p.died(); k != "" {
		r.crashed = true
		if r.at < 0 {
			r.at = p.last
		}
		r.viol = append(r.viol, scen.Violation{Kind: k, Task: -1, Op: -1, Detail: d})
	}
	return r, nil
}

// find returns a violation of one of the kinds.
func (r *replayed) find(kinds map[string]bool) *scen.Violation {
	for i := range r.viol {
		if kinds[r.viol[i].Kind] {
			return &r.viol[i]
		}
	}
	return nil
}

// wrong returns the kind of the first violation other than a leak, or "".
func (r *replayed) wrong() string {
	for _, v := range r.viol {
		if v.Kind != "leak" {
			return v.Kind
		}
	}
	return ""
}
