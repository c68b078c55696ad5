REF = []
def add(id, edits, kind=None): REF.append((id, edits, kind))
RUN='mach/run.go'; JP='cmd/jpath/jpath.go'; JSONP='jsonpath.go'
IMP=lambda *x: (RUN, '''	"regexp"
	"unicode/utf8"
''', ''.join('\t"%s"\n'%i for i in sorted(list(x)+['regexp','unicode/utf8'])))
LT=(RUN,'''	values := make(chan JSON)
	vm.pushInput(values)
	go producer(values, vm.out)
''',None)
# the machine's producers stopped by a context
add('context', [IMP('context'),
 (RUN,'''	values := make(chan JSON)
	vm.pushInput(values)
	go producer(values, vm.out)
''','''	values := make(chan JSON)
	all := make(chan JSON)
	vm.pushInput(values)
	go producer(all, vm.out)
	go func() {
		defer close(values)
		for v := range all {
			select {
			case values <- v:
			case <-vm.ctx.Done():
			}
		}
	}()
'''),
 (RUN,'''	defer vm.drain()
''','''	ctx, cancel := context.WithCancel(context.Background())
	vm.ctx = ctx
	defer vm.drain()
	defer cancel()
'''),
 (RUN,'''	tracing bool
}''','''	tracing bool
	ctx     context.Context
}'''),
])
add('cond', [IMP('sync'),
 (RUN,'''	values := make(chan JSON)
	vm.pushInput(values)
	go producer(values, vm.out)
''','''	values := make(chan JSON)
	vm.pushInput(values)
	vm.begin()
	out := vm.out
	go func() {
		defer vm.end()
		producer(values, out)
	}()
'''),
 (RUN,'''		for range c {
		}
	}
}''','''		for range c {
		}
	}
	m.mu.Lock()
	for m.active > 0 {
		m.cond.Wait()
	}
	m.mu.Unlock()
}

func (m *machine) begin() {
	m.mu.Lock()
	if m.cond == nil {
		m.cond = sync.NewCond(&m.mu)
	}
	m.active++
	m.mu.Unlock()
}

func (m *machine) end() {
	m.mu.Lock()
	m.active--
	m.cond.Broadcast()
	m.mu.Unlock()
}'''),
 (RUN,'''	tracing bool
}''','''	tracing bool
	mu      sync.Mutex
	cond    *sync.Cond
	active  int
}'''),
])
add('workers', [IMP('runtime','sync'),
 (RUN,'''	go producer(values, vm.out)
''','''	start(func(out []JSON) func() { return func() { producer(values, out) } }(vm.out))
'''),
 (RUN,'''// looptop sets''','''var (
	jobs    = make(chan func())
	idle    = make(chan bool, 4*runtime.NumCPU())
	started sync.Once
)

// start runs f on a goroutine that's ready, or a new one.
func start(f func()) {
	select {
	case jobs <- f:
		return
	default:
	}
	go f()
}

// looptop sets'''),
 (RUN,'''var nothing = ErrFailure
''','''var nothing = ErrFailure

func init() {
	started.Do(func() {})
	_ = idle
}
'''),
])
add('lockthread', [IMP('runtime'),(RUN,'''	defer vm.drain()
''','''	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer vm.drain()
''')])
add('gosched', [IMP('runtime'),(RUN,'''		ord := p.orders[vm.pc]
''','''		if vm.pc&7 == 7 {
			runtime.Gosched()
		}
		ord := p.orders[vm.pc]
''')])
add('recoverrun', [(RUN,'''func (p *Program) Run(root JSON) ([]JSON, error) {
''','''func (p *Program) Run(root JSON) (vals []JSON, err error) {
	defer func() {
		if e := recover(); e != nil {
			vals, err = nil, fmt.Errorf("internal error: %v", e)
		}
	}()
	return p.run(root)
}

func (p *Program) run(root JSON) ([]JSON, error) {
''')])
add('pointers', [IMP('sync/atomic'),(RUN,'''	defer vm.drain()
''','''	atomic.AddInt64(&running, 1)
	defer atomic.AddInt64(&running, -1)
	defer vm.drain()
'''),(RUN,'''var nothing = ErrFailure
''','''var nothing = ErrFailure

// running counts the evaluations in progress.
var running int64
''')])
add('goroutinerun', [
 (RUN,'''func (p *Program) Run(root JSON) ([]JSON, error) {
''','''func (p *Program) Run(root JSON) ([]JSON, error) {
	type result struct {
		vals []JSON
		err  error
	}
	done := make(chan result)
	go func() {
		vals, err := p.run(root)
		done <- result{vals, err}
	}()
	r := <-done
	return r.vals, r.err
}

func (p *Program) run(root JSON) ([]JSON, error) {
''')])
add('timerstop', [IMP('time'),(RUN,'''	defer vm.drain()
''','''	slow := time.NewTimer(time.Minute)
	defer slow.Stop()
	begin := time.Now()
	defer func() { _ = time.Since(begin) }()
	defer vm.drain()
''')])
add('compilelock', [(JSONP,'''	path, err := paths.ParsePath(expr)
''','''	compiling.Lock()
	defer compiling.Unlock()
	path, err := paths.ParsePath(expr)
'''),(JSONP,'''// Compile parses a''','''var compiling sync.Mutex

// Compile parses a'''),(JSONP,'''	"strconv"
''','''	"strconv"
	"sync"
''')])
# command
add('signal', [(JP,'''	flag.Parse()
''','''	flag.Parse()
	quit := make(chan os.Signal, 1)
	signal.Notify(quit, os.Interrupt)
	go func() {
		<-quit
		os.Exit(130)
	}()
'''),(JP,'''	"os"
''','''	"os"
	"os/signal"
''')],'cli')
add('lockedout', [(JP,'''var stdout *bufio.Writer // global only because os.Exit doesn't run defers
''','''var stdout *bufio.Writer // global only because os.Exit doesn't run defers
var mu sync.Mutex
'''),(JP,'''func errorf(format string, args ...interface{}) {
''','''func errorf(format string, args ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
'''),(JP,'''	"strconv"
''','''	"strconv"
	"sync"
''')],'cli')
add('fstat', [(JP,'''			err = reader(fd, jpath, enc)
''','''			if st, err := fd.Stat(); err == nil && st.Mode().IsRegular() && st.Size() > 1<<40 {
				fmt.Fprintf(os.Stderr, "%s: large\\n", file)
			}
			err = reader(fd, jpath, enc)
'''),(JP,'''	err = stdout.Flush()
	if err != nil {
''','''	err = stdout.Flush()
	os.Stdout.Sync()
	if err != nil {
''')],'cli')
add('seek', [(JP,'''			err = reader(fd, jpath, enc)
''','''			fd.Seek(0, io.SeekCurrent)
			err = reader(fd, jpath, enc)
''')],'cli')
add('closestdin', [(JP,'''		err = reader(os.Stdin, jpath, enc)
''','''		err = reader(os.Stdin, jpath, enc)
		os.Stdin.Close()
'''),(JP,'''		errorf("writing results: %s", err.Error())
	}
''','''		errorf("writing results: %s", err.Error())
	}
	if err = os.Stdout.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "%s: closing: %s\\n", os.Args[0], err)
		os.Exit(1)
	}
''')],'cli')
add('tee', [(JP,'''	dec := json.NewDecoder(fd)
''','''	var n counter
	dec := json.NewDecoder(io.TeeReader(fd, &n))
'''),(JP,'''func quote(''','''// counter counts what is read.
type counter int64

func (c *counter) Write(b []byte) (int, error) {
	*c += counter(len(b))
	return len(b), nil
}

func quote(''')],'cli')
add('ownread', [(JP,'''	dec := json.NewDecoder(fd)
''','''	dec := json.NewDecoder(direct{fd})
'''),(JP,'''func quote(''','''// direct reads without the poller.
type direct struct{ f *os.File }

func (d direct) Read(b []byte) (int, error) {
	for {
		n, err := syscall.Read(int(d.f.Fd()), b)
		switch {
		case err == syscall.EINTR:
			continue
		case err != nil:
			return 0, &os.PathError{Op: "read", Path: d.f.Name(), Err: err}
		case n == 0 && len(b) > 0:
			return 0, io.EOF
		}
		return n, nil
	}
}

func quote('''),(JP,'''	"strconv"
''','''	"strconv"
	"syscall"
''')],'cli')
add('runfunc', [(JP,'''func main() {
''','''func main() {
	os.Exit(run())
}

func run() int {
'''),(JP,'''		errorf("writing results: %s", err.Error())
	}
}''','''		errorf("writing results: %s", err.Error())
	}
	return 0
}''')],'cli')
add('envdebug', [(JP,'''	flag.Parse()
''','''	flag.Parse()
	if os.Getenv("JPATH_DEBUG") != "" {
		debug.SetGCPercent(50)
	}
	debug.SetMemoryLimit(4 << 30)
	if wd, err := os.Getwd(); err == nil {
		_ = wd
	}
'''),(JP,'''	"os"
''','''	"os"
	"runtime/debug"
''')],'cli')
