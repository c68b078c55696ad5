// Command worker runs simulated scenarios against the library, in one process, and reports.
// It is built with the overlay of the runtime, and of the code under test, made by simcheck.
//
//	worker batch PROP SEED FROM COUNT   runs generated scenarios
//	worker replay FILE                  runs a list of scenarios (JSON), reporting each
//	worker pool fwd|rev|one I           compiles the pool of texts, one after another, or one of them
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"syscall"

	"github.com/forsyth/jsonpath"
	"verifsim/scen"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "worker: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	if !raceEnabled {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	if len(os.Args) < 2 {
		fatal("usage")
	}
	switch os.Args[1] {
	case "batch":
		num := func(i int) uint64 {
			v, err := strconv.ParseUint(os.Args[i], 10, 64)
			if err != nil {
				fatal("%v", err)
			}
			return v
		}
		batch(os.Args[2], num(3), int(num(4)), int(num(5)))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatal("%v", err)
		}
		var l []*scen.Scenario
		if err := json.Unmarshal(b, &l); err != nil {
			fatal("%v", err)
		}
		replay(l)
	case "pool":
		pool(os.Args[2:])
	default:
		fatal("usage")
	}
}

// table is what the pool's texts gave, each compiled with nothing else going on; "" means accepted.
var table []string

func loadTable() {
	f := os.Getenv("SIMPOOL")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var l [][]byte
	if err := json.Unmarshal(b, &l); err != nil {
		fatal("%v", err)
	}
	for _, s := range l {
		table = append(table, string(s))
	}
}

func pool(args []string) {
	l := scen.BadPool()
	out := make([][]byte, len(l)) // perhaps not UTF-8
	if args[0] == "one" {
		i, _ := strconv.Atoi(args[1])
		out[i] = []byte(compileText(l[i]))
		emit(out)
		return
	}
	for k := range l {
		i := k
		if args[0] == "rev" {
			i = len(l) - 1 - k
		}
		out[i] = []byte(compileText(l[i]))
	}
	emit(out)
}

// compileText returns what compiling a text gives: "" if accepted, otherwise the diagnostic.
func compileText(s string) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = "panic: " + fmt.Sprint(e)
		}
	}()
	p, err := jsonpath.Compile(s)
	q, why := must(s)
	if (err != nil) != (why != nil) {
		return fmt.Sprintf("Compile: %v; MustCompile: %v", err, why)
	}
	if err != nil {
		if p != nil {
			return "path and error: " + err.Error()
		}
		if t := fmt.Sprint(why); !strings.Contains(t, err.Error()) {
			return "error: " + err.Error() + "; MustCompile: " + t
		}
		return "error: " + err.Error()
	}
	if q.String() != s {
		return "wrong text: " + q.String()
	}
	if p.String() != s {
		return "wrong text: " + p.String()
	}
	return ""
}

// inconsistent says whether what compileText returned contradicts itself, alone or not: Compile and
// MustCompile disagree, a path comes with an error, or it says that it is another.
func inconsistent(msg string) bool {
	for _, s := range []string{"Compile: ", "path and error: ", "wrong text: "} {
		if strings.HasPrefix(msg, s) {
			return true
		}
	}
	i := strings.LastIndex(msg, "; MustCompile: ")
	return i >= 0 && strings.HasPrefix(msg, "error: ")
}

// must calls MustCompile, and returns what it gives or panics with.
func must(s string) (p *jsonpath.JSONPath, why any) {
	defer func() { why = recover() }()
	return jsonpath.MustCompile(s), nil
}

// reports is where they are written: not standard output, which the code under test may use.
const reports = 3

func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("%v", err)
	}
	b = append(b, '\n')
	for len(b) > 0 {
		n, err := syscall.Write(reports, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			fatal("%v", err)
		}
		b = b[n:]
	}
}

// progress tells simcheck which run is next, should this process not survive it.
func progress(n int) {
	var b [24]byte
	s := append(b[:0], 'p', ' ')
	s = strconv.AppendInt(s, int64(n), 10)
	s = append(s, '\n')
	syscall.Write(reports, s)
}

var allocs = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
var allocated uint64 // when last collected

// tidy collects garbage between runs, if it must or there is much; there is no collection within a run.
func tidy(must bool) {
	metrics.Read(allocs)
	n := allocs[0].Value.Uint64()
	if must || n-allocated > 200<<20 {
		runtime.GC()
		runtime.GC()
		allocated = n
	}
}

func batch(prop string, seed uint64, from, count int) {
	loadTable()
	kinds := scen.Kinds(prop)
	var sum Summary
	for n := from; n < from+count; n++ {
		progress(n)
		tidy((n-from)%20 == 0)
		s := scen.Generate(prop, seed, n)
		tidy(false)
		r := run(s, false)
		sum.add(s, n, r)
		bad := false
		for _, v := range r.Viol {
			if kinds[v.Kind] {
				bad = true
			}
		}
		if bad || r.Tainted {
			sum.Stopped = true
			sum.Next = n + 1
			if bad {
				sum.Bad = &BadRun{N: n, Viol: r.Viol, Sim: r.Sim}
			}
			break
		}
	}
	emit(sum)
}

func replay(l []*scen.Scenario) {
	loadTable()
	for i, s := range l {
		progress(i)
		tidy(i%20 == 0)
		r := run(s, true)
		emit(r)
		if r.Tainted {
			break
		}
	}
}
