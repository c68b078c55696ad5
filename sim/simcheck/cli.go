package main

// Runs of the command jpath, one process each, in the simulated kernel.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"verifsim/scen"
)

// cliFile is an input of a run.
type cliFile struct {
	Name     string   `json:"name,omitempty"`
	Text     string   `json:"text,omitempty"`
	Raw      []byte   `json:"raw,omitempty"`   // if the content isn't UTF-8
	Times    int64    `json:"times,omitempty"` // how often the content comes, if more than once
	OpenErr  int      `json:"open_error,omitempty"`
	Mode     uint64   `json:"mode,omitempty"` // file type, if not a regular file
	ReadAt   int64    `json:"read_error_at"`  // or -1
	ReadErr  int      `json:"read_error,omitempty"`
	Sticky   bool     `json:"sticky,omitempty"`
	CloseErr int      `json:"close_error,omitempty"`
	Plan     []uint64 `json:"reads,omitempty"`
	Damage   string   `json:"damage,omitempty"` // what was done to the content, if something
	Size     int64    `json:"size,omitempty"`   // added to the size that fstat gives
}

func (f *cliFile) data() []byte {
	if f.Raw != nil {
		return f.Raw
	}
	return []byte(f.Text)
}

func (f *cliFile) set(b []byte) {
	f.Text, f.Raw = "", nil
	if utf8.Valid(b) {
		f.Text = string(b)
	} else {
		f.Raw = append([]byte{}, b...)
	}
}

// cliCase is a run of jpath.
type cliCase struct {
	Lines     bool          `json:"lines,omitempty"`   // -l
	Argv      []string      `json:"argv,omitempty"`    // arguments that aren't acceptable, instead of -l and path
	NoArgs    bool          `json:"no_args,omitempty"` // no arguments at all
	Path      scen.PathSpec `json:"path"`
	Files     []cliFile     `json:"files"` // the first is the standard input
	Args      []int         `json:"args"`  // files named
	KillAt    uint64        `json:"kill_at_call,omitempty"`
	KillBytes uint64        `json:"kill_bytes,omitempty"`
	MaxFD     uint64        `json:"max_files,omitempty"`
	OutAt     int64         `json:"write_error_at"` // or -1
	OutErr    int           `json:"write_error,omitempty"`
	OutSticky bool          `json:"write_error_sticky,omitempty"`
	OutPlan   []uint64      `json:"writes,omitempty"`
	ErrErr    int           `json:"stderr_error,omitempty"`
	Sched     scen.Sched    `json:"sched"`
}

func (k *cliCase) clone() *cliCase {
	c := *k
	c.Files = append([]cliFile{}, k.Files...)
	for i := range c.Files {
		c.Files[i].Plan = append([]uint64(nil), c.Files[i].Plan...)
	}
	c.Args = append([]int(nil), k.Args...)
	c.Argv = append([]string(nil), k.Argv...)
	c.OutPlan = append([]uint64(nil), k.OutPlan...)
	return &c
}

// inputs are the files read, in order.
func (k *cliCase) inputs() []int {
	if len(k.Args) == 0 {
		return []int{0}
	}
	return k.Args
}

// opens is how often input i is read.
func (k *cliCase) opens(i int) (n int64) {
	for _, j := range k.inputs() {
		if j == i {
			n++
		}
	}
	return n
}

// once is the case with each input named only once.
func (k *cliCase) once() *cliCase {
	t := k.clone()
	t.Args = nil
	seen := map[int]bool{}
	for _, i := range k.Args {
		if !seen[i] {
			t.Args = append(t.Args, i)
		}
		seen[i] = true
	}
	return t
}

// encode writes the case as the simulated kernel wants it.
func (k *cliCase) encode() []byte {
	var b []byte
	num := func(n uint64) { b = binary.LittleEndian.AppendUint64(b, n) }
	str := func(s []byte) { num(uint64(len(s))); b = append(b, s...) }
	bit := func(x bool) {
		if x {
			num(1)
		} else {
			num(0)
		}
	}
	nums := func(l []uint64) {
		num(uint64(len(l)))
		for _, n := range l {
			num(n)
		}
	}
	num(k.KillAt)
	num(k.KillBytes)
	num(k.MaxFD)
	num(uint64(k.OutAt))
	num(uint64(k.OutErr))
	bit(k.OutSticky)
	nums(k.OutPlan)
	num(uint64(k.ErrErr))
	num(uint64(len(k.Files)))
	for i := range k.Files {
		f := &k.Files[i]
		str([]byte(f.Name))
		str(f.data())
		num(uint64(max(f.Times, 1)))
		num(uint64(k.opens(i)))
		num(uint64(f.OpenErr))
		if f.Mode == 0 {
			num(syscall.S_IFREG)
		} else {
			num(f.Mode)
		}
		num(uint64(f.ReadAt))
		num(uint64(f.ReadErr))
		bit(f.Sticky)
		num(uint64(f.CloseErr))
		num(uint64(f.Size))
		nums(f.Plan)
	}
	return b
}

// cliEvent is a call to the simulated kernel.
type cliEvent struct {
	kind    byte
	a, b, c uint64
	n       int
}

// cliRun is what happened.
type cliRun struct {
	exit   int // -1 if by a signal
	signal syscall.Signal
	hung   bool
	out    []byte // accepted by standard output
	err    []byte // by standard error
	events []cliEvent
	sim    scen.SimStat
	killed bool
	real   string // written to the real standard output and error: by the runtime
}

// hash covers everything the program did.
func (r *cliRun) hash() uint64 {
	h := uint64(r.exit)<<8 ^ uint64(r.signal)
	for _, e := range r.events {
		if e.kind == 'M' {
			continue
		}
		h = scen.Mix(h*3 + uint64(e.kind)<<56 + e.a<<40 + e.b<<8 + e.c)
	}
	h = scen.Mix(h ^ r.sim.Hash)
	return scen.Mix(h ^ r.sim.Points)
}

// same compares two runs completely.
func (r *cliRun) same(s *cliRun) bool {
	return r.exit == s.exit && r.signal == s.signal && bytes.Equal(r.out, s.out) && bytes.Equal(r.err, s.err) && r.hash() == s.hash() && len(r.events) == len(s.events)
}

// outError reports whether a write to standard output failed.
func (r *cliRun) outError() syscall.Errno {
	for _, e := range r.events {
		if e.kind == 'W' && e.c != 0 && syscall.Errno(e.c) != syscall.EINTR {
			return syscall.Errno(e.c)
		}
	}
	return 0
}

// argv are the arguments of the command.
func (k *cliCase) argv() []string {
	args := []string{"jpath"}
	if k.refused() {
		args = append(args, k.Argv...)
	} else {
		if k.Lines {
			args = append(args, "-l")
		}
		args = append(args, k.Path.Text)
	}
	for _, a := range k.Args {
		args = append(args, k.Files[a].Name)
	}
	return args
}

// refused says that the arguments are not acceptable.
func (k *cliCase) refused() bool { return len(k.Argv) > 0 || k.NoArgs }

var cliSeq atomic.Int64

const cliHang = 60 * time.Second

// jrun runs the command.
func (w *world) jrun(k *cliCase) (*cliRun, error) {
	name := filepath.Join(w.tmp, fmt.Sprintf("case%d", cliSeq.Add(1)))
	if err := os.WriteFile(name, k.encode(), 0o666); err != nil {
		return nil, err
	}
	defer os.Remove(name)
	args := k.argv()
	conf := []string{}
	for _, n := range k.Sched.Config() {
		conf = append(conf, fmt.Sprint(n))
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	defer pr.Close()
	var real limitBuf
	cmd := &exec.Cmd{
		Path:        w.jpath,
		Args:        args,
		Dir:         w.tmp,
		Env:         []string{"JSIMK=" + name, "JSIM=" + strings.Join(conf, ","), "GOGC=off", "GOMEMLIMIT=1500MiB", "GOMAXPROCS=1", "GOTRACEBACK=single", "HOME=/", "PATH=/usr/bin:/bin"},
		ExtraFiles:  []*os.File{pw},
		Stdout:      &real,
		Stderr:      &real,
		SysProcAttr: &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL},
	}
	err = cmd.Start()
	pw.Close()
	if err != nil {
		return nil, err
	}
	r := &cliRun{}
	var hung atomic.Bool
	done := make(chan bool)
	go func() {
		wt := newWatch(cmd.Process.Pid, cliHang)
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			if wt.late() {
				hung.Store(true)
				cmd.Process.Kill()
				return
			}
		}
	}()
	log, err := io.ReadAll(pr)
	if err != nil {
		return nil, err
	}
	cmd.Wait()
	close(done)
	r.hung = hung.Load()
	r.real = string(real.b.String())
	st := cmd.ProcessState.Sys().(syscall.WaitStatus)
	r.exit = st.ExitStatus()
	if st.Signaled() {
		r.signal = st.Signal()
	}
	u64 := func(b []byte) uint64 { return binary.LittleEndian.Uint64(b) }
	for len(log) > 0 {
		if log[0] == 'R' {
			p := log[1:]
			n := len(p) / 8
			v := func(i int) uint64 {
				if i < n {
					return u64(p[8*i:])
				}
				return 0
			}
			r.sim = scen.SimStat{Points: v(1), Decisions: v(2), Switches: v(3), Spawned: v(4), Hash: v(5), NS: int64(v(6)), Jumps: v(7), Live: int32(v(8)), DevsOver: v(9) != 0}
			for i := uint64(0); i < 2*v(10); i++ {
				r.sim.Devs = append(r.sim.Devs, uint32(v(11+int(i))))
			}
			break
		}
		if len(log) < 33 {
			return nil, fmt.Errorf("bad event log")
		}
		e := cliEvent{kind: log[0], a: u64(log[1:]), b: u64(log[9:]), c: u64(log[17:]), n: int(u64(log[25:]))}
		log = log[33:]
		if len(log) < e.n {
			return nil, fmt.Errorf("bad event log")
		}
		switch e.kind {
		case 'W':
			r.out = append(r.out, log[:e.n]...)
		case 'E':
			r.err = append(r.err, log[:e.n]...)
		case 'K':
			r.killed = true
		}
		log = log[e.n:]
		r.events = append(r.events, e)
	}
	if strings.Contains(r.real, "fatal error: sim:") || strings.Contains(r.real, "simk:") || r.exit == 99 {
		return nil, fmt.Errorf("simulator: %s", r.real)
	}
	return r, nil
}
