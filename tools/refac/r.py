REF = []
def add(id, edits, props=None): REF.append((id, edits, props))
RUN='mach/run.go'; JP='cmd/jpath/jpath.go'; JSONP='jsonpath.go'
SYNC=(RUN, '''	"regexp"
	"unicode/utf8"
''','''	"regexp"
	"sync"
	"unicode/utf8"
''')
add('buffered', [(RUN,'	values := make(chan JSON)\n','	values := make(chan JSON, 16)\n')])
add('collect', [
 (RUN,'''	values  []<-chan JSON //''','''	values  [][]JSON //'''),
 (RUN,'''func (m *machine) pushInput(c <-chan JSON) {''','''func (m *machine) pushInput(c []JSON) {'''),
 (RUN,'''func (m *machine) topInput() <-chan JSON {
	return m.values[len(m.values)-1]
}''','''func (m *machine) nextInput() (JSON, bool) {
	n := len(m.values) - 1
	if len(m.values[n]) == 0 {
		return nil, false
	}
	v := m.values[n][0]
	m.values[n] = m.values[n][1:]
	return v, true
}'''),
 (RUN,'''func (m *machine) drain() {
	for _, c := range m.values {
		for range c {
		}
	}
}''','''func (m *machine) drain() {
	m.values = nil
}'''),
 (RUN,'''			js, more := <-vm.topInput()
''','''			js, more := vm.nextInput()
'''),
 (RUN,'''func looptop(vm *machine, producer func(chan<- JSON, []JSON), epc int) {''','''func looptop(vm *machine, producer func([]JSON) []JSON, epc int) {'''),
 (RUN,'''	values := make(chan JSON)
	vm.pushInput(values)
	go producer(values, vm.out)
	vm.out = []JSON{}
	js, more := <-values
''','''	vm.pushInput(producer(vm.out))
	vm.out = []JSON{}
	js, more := vm.nextInput()
'''),
 (RUN,'''func stepping(values chan<- JSON, vals []JSON) {
	defer close(values)
	for _, v := range vals {
		switch v := v.(type) {
		case []JSON:
			for _, el := range v {
				values <- el
			}
		case map[string]JSON:
			for _, el := range v {
				values <- el
			}
		}
	}
}''','''func stepping(vals []JSON) (values []JSON) {
	for _, v := range vals {
		switch v := v.(type) {
		case []JSON:
			values = append(values, v...)
		case map[string]JSON:
			for _, el := range v {
				values = append(values, el)
			}
		}
	}
	return values
}'''),
 (RUN,'''func walker(values chan<- JSON, vals []JSON) {''','''func walkAll(vals []JSON) (values []JSON) {
	for _, v := range vals {
		if IsStructure(v) {
			values = downAll(values, v)
		}
	}
	return values
}

func downAll(values []JSON, val JSON) []JSON {
	values = append(values, val)
	switch val := val.(type) {
	case map[string]JSON:
		for _, v := range val {
			if IsStructure(v) {
				values = downAll(values, v)
			}
		}
	case []JSON:
		for _, v := range val {
			if IsStructure(v) {
				values = downAll(values, v)
			}
		}
	}
	return values
}

func walker(values chan<- JSON, vals []JSON) {'''),
 (RUN,'''looptop(vm, walker, ord.pc())''','''looptop(vm, walkAll, ord.pc())'''),
])
PULL=[
 (RUN,'''	values  []<-chan JSON //''','''	values  []input //'''),
 (RUN,'''func (m *machine) pushInput(c <-chan JSON) {''','''type input struct {
	next func() (JSON, bool)
	stop func()
}

func (m *machine) pushInput(c input) {'''),
 (RUN,'''func (m *machine) topInput() <-chan JSON {''','''func (m *machine) topInput() input {'''),
 (RUN,'''		for range c {
		}
''','''		c.stop()
'''),
 (RUN,'''			js, more := <-vm.topInput()
''','''			js, more := vm.topInput().next()
'''),
 (RUN,'''	values := make(chan JSON)
	vm.pushInput(values)
	go producer(values, vm.out)
	vm.out = []JSON{}
	js, more := <-values
''','''	src := vm.out
	next, stop := iter.Pull(func(yield func(JSON) bool) {
		producer(yield, src)
	})
	vm.pushInput(input{next, stop})
	vm.out = []JSON{}
	js, more := next()
'''),
 (RUN,'''producer func(chan<- JSON, []JSON)''','''producer func(func(JSON) bool, []JSON)'''),
 (RUN,'''func stepping(values chan<- JSON, vals []JSON) {
	defer close(values)
	for _, v := range vals {
		switch v := v.(type) {
		case []JSON:
			for _, el := range v {
				values <- el
			}
		case map[string]JSON:
			for _, el := range v {
				values <- el
			}
		}
	}
}''','''func stepping(yield func(JSON) bool, vals []JSON) {
	for _, v := range vals {
		switch v := v.(type) {
		case []JSON:
			for _, el := range v {
				if !yield(el) {
					return
				}
			}
		case map[string]JSON:
			for _, el := range v {
				if !yield(el) {
					return
				}
			}
		}
	}
}'''),
 (RUN,'''func walker(values chan<- JSON, vals []JSON) {''','''func walkAll(yield func(JSON) bool, vals []JSON) {
	for _, v := range vals {
		if IsStructure(v) && !downAll(yield, v) {
			return
		}
	}
}

func downAll(yield func(JSON) bool, val JSON) bool {
	if !yield(val) {
		return false
	}
	switch val := val.(type) {
	case map[string]JSON:
		for _, v := range val {
			if IsStructure(v) && !downAll(yield, v) {
				return false
			}
		}
	case []JSON:
		for _, v := range val {
			if IsStructure(v) && !downAll(yield, v) {
				return false
			}
		}
	}
	return true
}

func walker(values chan<- JSON, vals []JSON) {'''),
 (RUN,'''looptop(vm, walker, ord.pc())''','''looptop(vm, walkAll, ord.pc())'''),
 (RUN,'''	"fmt"
	"math"
	"regexp"
''','''	"fmt"
	"iter"
	"math"
	"regexp"
'''),
]
add('pull', PULL)
add('iterative', [(RUN,'''func walkdown(values chan<- JSON, val JSON) {
	values <- val
	switch val := val.(type) {
	case map[string]JSON:
		// note object members, and walk down from each member that's an array or object
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	case []JSON:
		// elements
		for _, v := range val {
			if IsStructure(v) {
				walkdown(values, v)
			}
		}
	default:
		// bool, float64, string or nil
	}
}''','''func walkdown(values chan<- JSON, val JSON) {
	todo := []JSON{val}
	for len(todo) > 0 {
		val := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		values <- val
		switch val := val.(type) {
		case map[string]JSON:
			for _, v := range val {
				if IsStructure(v) {
					todo = append(todo, v)
				}
			}
		case []JSON:
			for i := len(val) - 1; i >= 0; i-- {
				if IsStructure(val[i]) {
					todo = append(todo, val[i])
				}
			}
		}
	}
}'''),])
add('prealloc', [(RUN,'''	vals := []JSON{}
	for _, el := range src {
		vals = f(el, vals)
	}
	return vals
''','''	vals := make([]JSON, 0, 2*len(src)+3)
	for i := 0; i < len(src); i++ {
		vals = f(src[i], vals)
	}
	return vals
'''),(RUN,'''		for _, el := range src {
			//fmt.Printf("el: %#v\\n", el)
			vals = append(vals, el)
		}
''','''		vals = append(vals, src...)
''')])
add('pool', [(RUN,'''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
	defer vm.drain()
''','''	vm := machines.Get().(*machine)
	*vm = machine{prog: p, root: root, out: []JSON{root}, stack: vm.stack[:0]}
	defer func() {
		vm.drain()
		stk := vm.stack
		for i := range stk {
			stk[i] = nil
		}
		*vm = machine{stack: stk}
		machines.Put(vm)
	}()
'''),(RUN,'''func (m *machine) push(val JSON) {''','''var machines = sync.Pool{New: func() interface{} { return &machine{} }}

func (m *machine) push(val JSON) {'''),SYNC])
add('recache', [(RUN,'''				re, err = regexp.Compile(b)
''','''				re, err = dynRE(b)
'''),(RUN,'''// call invokes''','''var (
	relock  sync.RWMutex
	recache = map[string]*regexp.Regexp{}
)

func dynRE(s string) (*regexp.Regexp, error) {
	relock.RLock()
	re := recache[s]
	relock.RUnlock()
	if re != nil {
		return re, nil
	}
	re, err := regexp.Compile(s)
	if err != nil {
		return nil, err
	}
	relock.Lock()
	defer relock.Unlock()
	if len(recache) > 50 {
		recache = map[string]*regexp.Regexp{}
	}
	recache[s] = re
	return re, nil
}

// call invokes'''),SYNC])
add('pathcache', [(JSONP,'''	path, err := paths.ParsePath(expr)
''','''	if p, ok := cache.Load(expr); ok {
		return p.(*JSONPath), nil
	}
	path, err := paths.ParsePath(expr)
'''),(JSONP,'''	return &JSONPath{expr: expr, prog: prog}, nil
''','''	p, _ := cache.LoadOrStore(expr, &JSONPath{expr: expr, prog: prog})
	return p.(*JSONPath), nil
'''),(JSONP,'''// Compile parses a''','''var cache sync.Map

// Compile parses a'''),(JSONP,'''	"strconv"

''','''	"strconv"
	"sync"

''')])
add('lazyonce', [('mach/program.go','''	orders []order     // program text
}
''','''	orders []order     // program text
	once   sync.Once
	depth  int
}

func (p *Program) need() int {
	p.once.Do(func() {
		for _, o := range p.orders {
			if o.op().IsLeaf() {
				p.depth++
			}
		}
	})
	return p.depth
}
'''),('mach/program.go','''	"regexp"
''','''	"regexp"
	"sync"
'''),(RUN,'''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
''','''	vm := &machine{prog: p, root: root, out: []JSON{root}, stack: make([]JSON, 0, p.need()), pc: 0, tracing: false}
''')])
add('quit', [
 (RUN,'''	tracing bool
}
''','''	quit    chan struct{}
	wg      sync.WaitGroup
	tracing bool
}
'''),SYNC,
 (RUN,'''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
''','''	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, quit: make(chan struct{}), tracing: false}
'''),
 (RUN,'''	for _, c := range m.values {
		for range c {
		}
	}
''','''	close(m.quit)
	m.wg.Wait()
'''),
 (RUN,'''	go producer(values, vm.out)
''','''	src := vm.out
	vm.wg.Add(1)
	go func() {
		defer vm.wg.Done()
		defer close(values)
		producer(func(v JSON) bool {
			select {
			case values <- v:
				return true
			case <-vm.quit:
				return false
			}
		}, src)
	}()
'''),
 ]+[e for e in PULL if 'func stepping' in e[1] or 'func walk' in e[1] or 'producer func' in e[1] or 'looptop(vm, walker' in e[1] or 'note object' in e[1] or e[1].startswith('		for _, v := range val {')])
# ---- jpath
add('readbytes', [(JP,'''	input := bufio.NewScanner(fd)
	input.Split(bufio.ScanLines)
	input.Buffer(nil, math.MaxInt) // JSON values have no limit on their length
	// Scan returns the incomplete line before a read error as if it were a whole one: ignore it
	for lno := 1; input.Scan() && input.Err() == nil; lno++ {
		var root interface{}
		err := json.Unmarshal(input.Bytes(), &root)
''','''	input := bufio.NewReader(fd)
	for lno := 1; ; lno++ {
		var root interface{}
		line, rerr := input.ReadBytes('\\n')
		if rerr != nil && rerr != io.EOF {
			return fmt.Errorf("read error: %w", rerr)
		}
		if rerr == io.EOF && len(line) == 0 {
			return nil
		}
		err := json.Unmarshal(line, &root)
'''),(JP,'''			return fmt.Errorf("%d: encoding results: %w", lno, err)
		}
	}
	if err := input.Err(); err != nil {
		return fmt.Errorf("read error: %w", err)
	}
	return nil
}
''','''			return fmt.Errorf("%d: encoding results: %w", lno, err)
		}
		if rerr == io.EOF {
			return nil
		}
	}
}
'''),(JP,'	"math"\n','')],'cli')
add('flusheach', [(JP,'''			return fmt.Errorf("%d: encoding results: %w", lno, err)
		}
''','''			return fmt.Errorf("%d: encoding results: %w", lno, err)
		}
		if err := stdout.Flush(); err != nil {
			return fmt.Errorf("%d: encoding results: %w", lno, err)
		}
'''),(JP,'''			return fmt.Errorf("#%d: encoding results: %w", off, err)
		}
''','''			return fmt.Errorf("#%d: encoding results: %w", off, err)
		}
		if err := stdout.Flush(); err != nil {
			return fmt.Errorf("#%d: encoding results: %w", off, err)
		}
''')],'cli')
add('helper', [(JP,'''			fd, err := os.Open(file)
			if err != nil {
				errorf("%s: cannot open: %s", file, err.Error())
			}
			err = reader(fd, jpath, enc)
			fd.Close()
			if err != nil {
				errorf("%s:%s", file, err.Error())
			}
''','''			if err := process(file, func(fd *os.File) error { return reader(fd, jpath, enc) }); err != nil {
				errorf("%s", err)
			}
'''),(JP,'''func quote(s''','''func process(file string, f func(*os.File) error) error {
	fd, err := os.OpenFile(file, os.O_RDONLY, 0)
	if err != nil {
		return fmt.Errorf("%s: cannot open: %w", file, err)
	}
	defer fd.Close()
	if err := f(fd); err != nil {
		return fmt.Errorf("%s:%w", file, err)
	}
	return nil
}

func quote(s''')],'cli')
add('bufin', [(JP,'''	dec := json.NewDecoder(fd)
''','''	dec := json.NewDecoder(bufio.NewReaderSize(fd, 100000))
''')],'cli')
add('pipeline', [(JP,'''	dec := json.NewDecoder(fd)
	// dec.UseNumber()
	for {
		var root interface{}
		off := dec.InputOffset()
		err := dec.Decode(&root)
		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			return fmt.Errorf("#%d: decoding JSON: %w", off, err)
		}
		results, err''','''	type item struct {
		root interface{}
		off  int64
		err  error
	}
	items := make(chan item, 3)
	quit := make(chan bool)
	done := make(chan bool)
	defer func() {
		close(quit)
		for range items {
		}
		<-done
	}()
	go func() {
		defer close(done)
		defer close(items)
		dec := json.NewDecoder(fd)
		for {
			var it item
			it.off = dec.InputOffset()
			it.err = dec.Decode(&it.root)
			select {
			case items <- it:
			case <-quit:
				return
			}
			if it.err != nil {
				return
			}
		}
	}()
	for {
		it := <-items
		root, off, err := it.root, it.off, it.err
		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			return fmt.Errorf("#%d: decoding JSON: %w", off, err)
		}
		results, err''')],'cli')
add('bigout', [(JP,'''	stdout = bufio.NewWriter(os.Stdout)
''','''	stdout = bufio.NewWriterSize(os.Stdout, 300000)
''')],'cli')
add('smallout', [(JP,'''	stdout = bufio.NewWriter(os.Stdout)
''','''	stdout = bufio.NewWriterSize(os.Stdout, 16)
''')],'cli')
add('marshal', [(JP,'''		err = enc.Encode(results)
		if err != nil {
			return fmt.Errorf("%d: encoding results: %w", lno, err)
		}
''','''		b, err := json.Marshal(results)
		if err == nil {
			_, err = stdout.Write(append(b, '\\n'))
		}
		if err != nil {
			return fmt.Errorf("%d: encoding results: %w", lno, err)
		}
''')],'cli')
