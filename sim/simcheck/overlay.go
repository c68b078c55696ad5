package main

// Builds the simulated world: an overlay of the Go runtime, of package syscall, and of every
// package of the code under test (with scheduling points inserted), and the programs made with it.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// edit replaces the single occurrence of old by new in a file of GOROOT.
type edit struct {
	file, old, new string
}

var rtEdits = []edit{
	{"runtime/proc.go", "	// Check the global runnable queue once in a while to ensure fairness.\n",
		"	if sim.on {\n		gp, none := simfind(pp)\n		if gp != nil {\n			return gp, false, false\n		}\n		if !none {\n			goto top\n		}\n	}\n\n	// Check the global runnable queue once in a while to ensure fairness.\n"},
	{"runtime/proc.go", "	newg.goid = pp.goidcache\n", "	newg.goid = pp.goidcache\n	simnew(newg)\n"},
	{"runtime/coro.go", "	// Check if we're switching to ourselves. This", "	if sim.on && gnext.simid != 0 {\n		simran(gnext)\n	}\n\n	// Check if we're switching to ourselves. This"},
	{"runtime/proc.go", "func gdestroy(gp *g) {\n", "func gdestroy(gp *g) {\n	simgone(gp)\n"},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if sim.on {\n		return 0\n	}\n"},
	{"runtime/proc.go", "	fn()\n\n	// Check for C memory leaks", "	simautostart()\n	fn()\n	simreport(0)\n\n	// Check for C memory leaks"},
	{"runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := simcheaprandn(uint32(norder + 1))"},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n	if simranduse() {\n		return simrand()\n	}\n"},
	// threads come and go in real time
	{"runtime/rand.go", "mp.cheaprand = uint32(rand())\n", "mp.cheaprand = uint32(bootstrapRand())\n"},
	{"runtime/rand.go", "mp.cheaprand64 = rand()\n", "mp.cheaprand64 = bootstrapRand()\n"},
	{"runtime/rand.go", "	if len(startupRand) >= 16 &&\n", "	if sim.rands == 0 {\n		for i := range seed {\n			seed[i] = byte(i + 1)\n		}\n	} else if len(startupRand) >= 16 &&\n"},
	{"runtime/time_nofake.go", "func nanotime() int64 {\n", "func nanotime() int64 {\n	if simclock() {\n		return sim.now\n	}\n"},
	{"runtime/time.go", "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n", "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n	if simclock() {\n		d := sim.now - sim.start\n		return 1700000000 + d/1000000000, int32(d % 1000000000), sim.now\n	}\n"},
	{"runtime/runtime2.go", "	goid         uint64\n", "	goid         uint64\n	simid        uint32\n	simprio      uint32\n"},
	{"runtime/runtime.go", "func syscall_Exit(code int) {\n", "func syscall_Exit(code int) {\n	simreport(uint64(code))\n"},
}

var kernEdits = []edit{
	{"syscall/syscall_unix.go", "func Read(fd int, p []byte) (n int, err error) {\n", "func Read(fd int, p []byte) (n int, err error) {\n	if simkOwns(fd) {\n		return simkRead(fd, p)\n	}\n"},
	{"syscall/syscall_unix.go", "func Write(fd int, p []byte) (n int, err error) {\n", "func Write(fd int, p []byte) (n int, err error) {\n	if simkOwns(fd) {\n		return simkWrite(fd, p)\n	}\n"},
	{"syscall/syscall_unix.go", "func Pread(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pread(fd int, p []byte, offset int64) (n int, err error) {\n	if simkOwns(fd) {\n		return simkPread(fd, p, offset)\n	}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n	if simkOwns(fd) {\n		return simkClose(fd)\n	}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Fstat(fd int, stat *Stat_t) (err error) {\n", "func Fstat(fd int, stat *Stat_t) (err error) {\n	if simkOwns(fd) {\n		return simkFstat(fd, stat)\n	}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Seek(fd int, offset int64, whence int) (off int64, err error) {\n", "func Seek(fd int, offset int64, whence int) (off int64, err error) {\n	if simkOwns(fd) {\n		return simkSeek(fd, offset, whence)\n	}\n"},
	{"syscall/syscall_linux.go", "func Open(path string, mode int, perm uint32) (fd int, err error) {\n", "func Open(path string, mode int, perm uint32) (fd int, err error) {\n	if simk.on {\n		if fd, err, ok := simkOpen(path, mode); ok {\n			return fd, err\n		}\n	}\n"},
	{"syscall/syscall_linux_amd64.go", "func Stat(path string, stat *Stat_t) (err error) {\n", "func Stat(path string, stat *Stat_t) (err error) {\n	if simk.on {\n		if _, f := simkFind(path); f != nil {\n			return f.lookup(stat)\n		}\n	}\n"},
	{"syscall/syscall_linux_amd64.go", "func Lstat(path string, stat *Stat_t) (err error) {\n", "func Lstat(path string, stat *Stat_t) (err error) {\n	if simk.on {\n		if _, f := simkFind(path); f != nil {\n			return f.lookup(stat)\n		}\n	}\n"},
}

type world struct {
	repo    string // code under test
	sim     string // /verif/sim
	tmp     string
	goroot  string
	overlay string
	points  int // scheduling points inserted
	files   int
	worker  string
	race    string
	jpath   string
	pool    string
	tags    string // for the workers
}

func repoDir() string {
	if d := os.Getenv("SIM_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func newWorld(simdir string) (*world, error) {
	w := &world{repo: repoDir(), sim: simdir}
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		return nil, err
	}
	w.tmp = tmp
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, err
	}
	w.goroot = strings.TrimSpace(string(out))
	return w, w.makeOverlay()
}

func (w *world) close() {
	if w.tmp != "" && strings.Contains(w.tmp, "simcheck") {
		os.RemoveAll(w.tmp)
	}
}

func (w *world) makeOverlay() error {
	repl := map[string]string{}
	dir := filepath.Join(w.tmp, "ov")
	if err := os.MkdirAll(dir, 0o777); err != nil {
		return err
	}
	seq := 0
	put := func(target string, data []byte) error {
		seq++
		f := filepath.Join(dir, fmt.Sprintf("%d_%s", seq, filepath.Base(target)))
		repl[target] = f
		return os.WriteFile(f, data, 0o666)
	}
	texts := map[string]string{}
	for _, e := range append(append([]edit{}, rtEdits...), kernEdits...) {
		name := filepath.Join(w.goroot, "src", e.file)
		t, ok := texts[name]
		if !ok {
			b, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			t = string(b)
		}
		if strings.Count(t, e.old) != 1 {
			return fmt.Errorf("%s: cannot place simulation hook: %q found %d times", e.file, e.old, strings.Count(t, e.old))
		}
		texts[name] = strings.Replace(t, e.old, e.new, 1)
	}
	names := make([]string, 0)
	for n := range texts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if err := put(n, []byte(texts[n])); err != nil {
			return err
		}
	}
	for _, x := range [][2]string{{"runtime/zsim.go", "zsim.go.src"}, {"syscall/zsimk.go", "zsimk.go.src"}} {
		b, err := os.ReadFile(filepath.Join(w.sim, "rt", x[1]))
		if err != nil {
			return err
		}
		if err := put(filepath.Join(w.goroot, "src", x[0]), b); err != nil {
			return err
		}
	}
	err := filepath.WalkDir(w.repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); p != w.repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, n, err := instrument(p, src)
		if err != nil {
			return err
		}
		if n > 0 {
			w.points += n
			w.files++
			return put(p, out)
		}
		return nil
	})
	if err != nil {
		return err
	}
	w.overlay = filepath.Join(w.tmp, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	return os.WriteFile(w.overlay, b, 0o666)
}

// instrument inserts a scheduling point before every statement.
func instrument(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, 0, err
	}
	const call = "__simrt.SimYield();"
	var at []int
	add := func(p token.Pos) { at = append(at, fset.Position(p).Offset) }
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			skip := false
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					skip = true
				}
			}
			if !skip {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				add(n.Body.Lbrace + 1)
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				add(n.Body.Lbrace + 1)
			}
		}
		return true
	})
	if len(at) == 0 {
		return src, 0, nil
	}
	sort.Ints(at)
	var out bytes.Buffer
	imp := fset.Position(f.Name.End()).Offset
	out.Write(src[:imp])
	out.WriteString(`; import __simrt "runtime"`)
	last := imp
	for _, o := range at {
		out.Write(src[last:o])
		out.WriteString(call)
		last = o
	}
	out.Write(src[last:])
	return out.Bytes(), len(at), nil
}

func (w *world) gobuild(dir, out string, args ...string) error {
	a := append([]string{"build", "-overlay", w.overlay, "-o", out}, args...)
	cmd := exec.Command("go", a...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOEXPERIMENT=norandomizedheapbase64")
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(a, " "), err, b)
	}
	return nil
}

// modfile returns a copy of go.mod (and go.sum) of the simulation with the code under test at w.repo.
func (w *world) modfile() (string, error) {
	f := filepath.Join(w.tmp, "go.mod")
	b, err := os.ReadFile(filepath.Join(w.sim, "go.mod"))
	if err != nil {
		return "", err
	}
	s := strings.Replace(string(b), "=> /repo", "=> "+w.repo, 1)
	sum, err := os.ReadFile(filepath.Join(w.repo, "go.sum"))
	if err == nil {
		os.WriteFile(filepath.Join(w.tmp, "go.sum"), sum, 0o666)
	}
	return f, os.WriteFile(f, []byte(s), 0o666)
}

func (w *world) buildWorker() error {
	mod, err := w.modfile()
	if err != nil {
		return err
	}
	w.worker = filepath.Join(w.tmp, "worker")
	return w.gobuild(w.sim, w.worker, "-modfile", mod, "-tags", w.tags, "./worker")
}

func (w *world) buildRace() error {
	mod, err := w.modfile()
	if err != nil {
		return err
	}
	w.race = filepath.Join(w.tmp, "worker.race")
	return w.gobuild(w.sim, w.race, "-race", "-modfile", mod, "-tags", w.tags, "./worker")
}

func (w *world) buildJpath() error {
	// /repo's go.mod and go.sum must stay as they are
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(w.repo, n))
		if err != nil {
			if n == "go.sum" {
				continue
			}
			return err
		}
		dst := "repo.mod"
		if n == "go.sum" {
			dst = "repo.sum"
		}
		if err := os.WriteFile(filepath.Join(w.tmp, dst), b, 0o666); err != nil {
			return err
		}
	}
	w.jpath = filepath.Join(w.tmp, "jpath")
	return w.gobuild(w.repo, w.jpath, "-modfile", filepath.Join(w.tmp, "repo.mod"), "./cmd/jpath")
}
