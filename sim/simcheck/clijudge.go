package main

// What a run of jpath should have done.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"
	"syscall"

	"verifsim/model"
	"verifsim/scen"
)

// cliExpect is what a run should deliver, if writing works.
type cliExpect struct {
	must   []*model.Outcome
	opt    *model.Outcome // may be delivered as well, at the end
	fail   string         // why it stops early: open, read, decode, eval; "" if it doesn't
	file   int            // the input where it fails
	line   int            // the line, for -l
	lo, hi int64          // otherwise, where the value that made it fail begins, or the one before it ends
	values int            // read
	limit  bool           // the model can't say
	work   int
}

type rootVal struct {
	v   any
	out *model.Outcome
}

// expect works out what is due. Values are those of the real decoder given the whole content at once.
func (k *cliCase) expect() *cliExpect {
	x := &cliExpect{file: -1}
	if k.refused() {
		x.fail = "start"
		return x
	}
	seen := map[any]*model.Outcome{}
	eval := func(v any) *model.Outcome {
		var key any = v // of something small, of which there may be many
		switch v := v.(type) {
		case []any:
			key = len(v) // not a number of JSON
			if len(v) > 0 {
				key = nil
			}
		case map[string]any:
			key = int64(len(v))
			if len(v) > 0 {
				key = nil
			}
		case nil:
			key = "null\x00"
		}
		o := seen[key]
		if o == nil {
			o = model.Eval(k.Path.AST, v)
			if key != nil {
				seen[key] = o
			}
		}
		if o.Limit {
			x.limit = true
		}
		x.work += o.Work + 10
		return o
	}
	// take notes the outcome for a value that was completely read, or says that the run stops
	take := func(v any) bool {
		x.values++
		o := eval(v)
		if o.Limit || o.Err {
			x.fail = "eval"
			return false
		}
		x.must = append(x.must, o)
		return true
	}
	maybe := func(v any) {
		if o := eval(v); !o.Limit && !o.Err {
			x.opt = o
		}
	}
	for n, i := range k.inputs() {
		f := &k.Files[i]
		x.file = n
		if i > 0 && f.OpenErr != 0 {
			x.fail = "open"
			return x
		}
		data := f.data()
		bad := f.ReadAt
		if bad < 0 || bad > int64(len(data)) {
			bad = -1
		}
		if k.Lines {
			at := 0
			for lno := 1; ; lno++ {
				x.line = lno
				end := bytes.IndexByte(data[at:], '\n')
				term := end >= 0
				if term {
					end += at
				} else {
					end = len(data)
				}
				if bad >= 0 && int64(end) >= bad {
					// blanks may be missing
					if got := data[min(int64(at), bad):bad]; len(bytes.TrimSpace(data[bad:end])) == 0 {
						var v any
						if json.Unmarshal(got, &v) == nil {
							maybe(v)
						}
					}
					x.fail = "read"
					return x
				}
				if !term && end == at {
					break
				}
				var v any
				if json.Unmarshal(data[at:end], &v) != nil {
					x.fail = "decode"
					return x
				}
				if !take(v) {
					return x
				}
				at = end + 1
				if !term {
					break
				}
			}
		} else {
			dec := json.NewDecoder(bytes.NewReader(data))
			for {
				var v any
				x.lo = dec.InputOffset()
				x.hi = x.lo
				for x.hi < int64(len(data)) && strings.IndexByte(" \t\r\n", data[x.hi]) >= 0 {
					x.hi++
				}
				err := dec.Decode(&v)
				end := dec.InputOffset()
				if bad >= 0 {
					if err == nil && end == bad {
						switch v.(type) {
						case []any, map[string]any:
						default:
							// who knows whether that was all of it
							maybe(v)
							x.fail = "read"
							return x
						}
					}
					if err == io.EOF || err == nil && end > bad {
						x.fail = "read"
						return x
					}
					if err != nil {
						x.fail = "decode"
						return x
					}
				}
				if err == io.EOF {
					break
				}
				if err != nil {
					x.fail = "decode"
					return x
				}
				if !take(v) {
					return x
				}
			}
		}
	}
	x.file = -1
	return x
}

// results parses the output: JSON arrays. If lines, there must be one per line.
func parseResults(out []byte, lines bool) (l [][]any, bad string) {
	add := func(v any) string {
		a, ok := v.([]any)
		if !ok {
			return fmt.Sprintf("result %d is not an array: %.60v", len(l)+1, v)
		}
		l = append(l, a)
		return ""
	}
	if lines {
		for len(out) > 0 {
			i := bytes.IndexByte(out, '\n')
			if i < 0 {
				return l, fmt.Sprintf("output line %d is not complete: %.60q", len(l)+1, out)
			}
			var v any
			if err := json.Unmarshal(out[:i], &v); err != nil {
				return l, fmt.Sprintf("output line %d is not one JSON value: %.60q: %v", len(l)+1, out[:i], err)
			}
			if s := add(v); s != "" {
				return l, s
			}
			out = out[i+1:]
		}
		return l, ""
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var v any
		err := dec.Decode(&v)
		if err == io.EOF {
			return l, ""
		}
		if err != nil {
			return l, fmt.Sprintf("output after %d results: %v", len(l), err)
		}
		if s := add(v); s != "" {
			return l, s
		}
	}
}

func hashList(l []any) []uint64 {
	h := make([]uint64, len(l))
	for i, v := range l {
		h[i] = model.HashVal(v)
	}
	return h
}

func brief(v any) string {
	b, _ := json.Marshal(v)
	if len(b) > 120 {
		return string(b[:120]) + "..."
	}
	return string(b)
}

func leaves(t *model.Node) []any {
	l := []any{}
	t.Leaves(func(v any) { l = append(l, v) })
	return l
}

func brief2(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

const (
	streamOut  = 7 << 20 // least number of bytes of results of a long stream
	streamTiny = 70000   // least number of values instead, if they are very small
	maxBacklog = 4 << 20 // of results
	maxHeap    = 6 << 20
	maxAfter   = 1 << 18 // of input read though nobody will see the results
	maxGrowth  = 1 << 17 // of the heap, in the second half, apart from what large values need
)

// long returns the index of the input that's a long stream, or -1.
func (k *cliCase) long() int {
	for _, i := range k.inputs() {
		if k.Files[i].Times > 1 {
			return i
		}
	}
	return -1
}

// short is the case with each content only once, and nothing wrong.
func (k *cliCase) short() *cliCase {
	t := k.plainOut().once()
	for i := range t.Files {
		f := &t.Files[i]
		f.Times, f.Plan, f.ReadAt, f.ReadErr, f.Sticky = 0, nil, -1, 0, false
	}
	return t
}

// heap gives the most memory in use in reading a long input of n bytes, and how much of it came after half.
func (r *cliRun) heap(n int64) (most, rise int64) {
	var got, half int64
	for _, e := range r.events {
		switch {
		case e.kind == 'r' && e.c == 0:
			got += int64(e.b)
		case e.kind == 'M':
			h := int64(e.b)
			if got <= n/2 {
				half = max(h, half)
			} else {
				rise = max(rise, h-half)
			}
			most = max(most, h)
		}
	}
	return most, rise
}

// judgeStream judges a run with a long stream; base is the run with each content once.
func (k *cliCase) judgeStream(r *cliRun, base *cliRun) (l []scen.Violation) {
	viol := func(kind, f string, a ...any) {
		l = append(l, scen.Violation{Kind: kind, Task: -1, Op: -1, Detail: fmt.Sprintf(f, a...)})
	}
	if v := r.abnormal(); v != nil {
		return []scen.Violation{*v}
	}
	if k.long() < 0 || base.exit != 0 || len(base.out) == 0 {
		return nil // not what this is about
	}
	in, opens := &k.Files[k.long()], k.opens(k.long())
	if !bytes.HasSuffix(in.data(), []byte("\n")) {
		return nil // the last value might run into the first
	}
	size, each := int64(len(in.data())), int64(len(base.out))
	// what's due when so much of the input has been read
	due := func(n int64) int64 { return n / size * each }
	mb := func(n int64) string { return fmt.Sprintf("%.1f MB", float64(n)/(1<<20)) }
	var got, put, half int64
	broken := int64(-1) // what had been read when writing failed
	backlog, heap := false, false
	limit, growth := int64(maxHeap), maxGrowth+8*size
	if strings.Contains(k.Path.Text, "@.re") || strings.Contains(k.Path.Text, "'re'") { // may well be cached, up to a point
		limit, growth = 2*limit, growth+2<<20
	}
	for _, e := range r.events {
		switch e.kind {
		case 'r':
			if b := due(got) - put; b > maxBacklog && !backlog && broken < 0 {
				viol("backlog", "%s of results are held back when %s of input have been read", mb(b), mb(got))
				backlog = true
			}
			if syscall.Errno(e.c) == 0 {
				got += int64(e.b)
			}
		case 'W':
			put += int64(e.b)
			if n := syscall.Errno(e.c); n != 0 && n != syscall.EINTR && broken < 0 {
				broken = got
			}
		case 'M':
			h := int64(e.b)
			if got <= size*in.Times*opens/2 {
				half = max(h, half)
			}
			if !heap && (h > limit || h-half > growth) {
				viol("memory", "%s of memory are in use when %s of input have been read and %s of results are due (%s half-way)", mb(h), mb(got), mb(due(got)), mb(half))
				heap = true
			}
		}
	}
	whole := due(size * in.Times * opens)
	if broken >= 0 {
		if r.exit == 0 {
			viol("status", "exit status 0 though writing failed")
		}
		if n := got - broken; n > maxAfter+4*size {
			viol("deaf", "%s more of input were read after writing had failed", mb(n))
		}
		whole = 0
	} else if in.ReadAt >= 0 {
		if r.exit == 0 {
			viol("status", "exit status 0 in spite of a read error")
		}
		// the last values may not be complete
		whole = due(in.ReadAt)
	} else if r.exit != 0 {
		viol("status", "exit status %d with nothing wrong: %.200s", r.exit, r.err)
	}
	for n, i := int64(0), 0; n < int64(len(r.out)); i++ {
		want := counted(base.out, i%int(in.Times)) // numbered anew each time it's opened
		m := min(each, int64(len(r.out))-n)
		if !bytes.Equal(r.out[n:n+m], want[:m]) {
			j := 0
			for r.out[n] == want[j] {
				n++
				j++
			}
			viol("stream", "after %d bytes of results, %.60q instead of %.60q, as the same value gave before", n, r.out[n:], want[j:])
			return l
		}
		n += m
	}
	if n := int64(len(r.out)); n < whole {
		viol("stream", "%d bytes of results, where %d are due", n, whole)
	}
	return l
}

var cliKinds = map[string][]string{
	"C10": {"results", "status", "spin", "deadlock", "panic", "crash"},
	"C11": {"results", "status", "silent", "spin", "deadlock", "panic", "crash"},
	"C12": {"prefix", "false-success", "spin", "deadlock", "panic", "crash"},
	"C13": {"results", "format", "line-number", "status", "silent", "spin", "deadlock", "panic", "crash"},
	"C14": {"results", "status", "silent", "unnamed", "handles", "write-open", "order", "concat", "spin", "deadlock", "panic", "crash"},
	"C15": {"position", "line-number", "unnamed", "unnamed-value", "silent", "spin", "deadlock", "panic", "crash"},
	"C18": {"backlog", "memory", "deaf", "stream", "status", "spin", "deadlock", "panic", "crash"},
	"C16": {"started", "silent", "status", "write-open", "spin", "deadlock", "panic", "crash"},
}

// abnormal says how the process ended if it didn't just exit.
func (r *cliRun) abnormal() *scen.Violation {
	tail := func() string {
		d := r.real
		if i := strings.Index(d, "panic: "); i > 0 {
			d = d[i:]
		} else if i := strings.Index(d, "fatal error: "); i > 0 {
			d = d[i:]
		}
		if len(d) > 2500 {
			d = d[:2500]
		}
		return d
	}
	v := func(kind, d string) *scen.Violation {
		return &scen.Violation{Kind: kind, Task: -1, Op: -1, Detail: d}
	}
	switch {
	case r.killed:
		return nil
	case r.hung:
		return v("spin", "no end after "+cliHang.String())
	case r.exit == 98:
		return v("spin", fmt.Sprintf("no end after %d steps", r.sim.Points))
	case strings.Contains(r.real, "all goroutines are asleep"):
		return v("deadlock", tail())
	case strings.Contains(r.real, "panic: "):
		return v("panic", tail())
	case strings.Contains(r.real, "fatal error: "):
		return v("crash", tail())
	case r.signal == syscall.SIGPIPE && r.outError() == syscall.EPIPE:
		return nil
	case r.signal != 0:
		return v("crash", "killed by "+r.signal.String()+"\n"+tail())
	}
	return nil
}

// number reports whether a number from lo to hi is in the text.
func number(text []byte, lo, hi int64) bool {
	for i := 0; i < len(text); {
		if text[i] < '0' || text[i] > '9' {
			i++
			continue
		}
		j := i
		for j < len(text) && text[j] >= '0' && text[j] <= '9' {
			j++
		}
		if n, err := strconv.ParseInt(string(text[i:j]), 10, 64); err == nil && lo <= n && n <= hi {
			return true
		}
		i = j
	}
	return false
}

// judgeRefusal judges a run with arguments that are not acceptable.
func (k *cliCase) judgeRefusal(r *cliRun) (l []scen.Violation) {
	viol := func(kind, f string, a ...any) {
		l = append(l, scen.Violation{Kind: kind, Task: -1, Op: -1, Detail: fmt.Sprintf(f, a...)})
	}
	for _, e := range r.events {
		switch e.kind {
		case 'X':
			viol("write-open", "the program tried to write other than on its output and error")
			return l
		case 'r':
			viol("started", "the program reads input though its arguments are not acceptable")
			return l
		case 'O':
			viol("started", "the program opens %s though its arguments are not acceptable", k.Files[e.b].Name)
			return l
		case 'W':
			viol("started", "the program writes %q on its output though its arguments are not acceptable", r.out)
			return l
		}
	}
	if r.killed {
		return l
	}
	if r.exit == 0 {
		viol("status", "exit status 0 in spite of unacceptable arguments")
	} else if len(bytes.TrimSpace(r.err)) == 0 && k.ErrErr == 0 {
		viol("silent", "nothing on standard error about unacceptable arguments")
	}
	return l
}

// judge compares a run with what is due; base is the run without trouble in writing, if there is one.
func (k *cliCase) judge(x *cliExpect, r *cliRun, base *cliRun) (l []scen.Violation) {
	viol := func(kind, f string, a ...any) {
		l = append(l, scen.Violation{Kind: kind, Task: -1, Op: -1, Detail: fmt.Sprintf(f, a...)})
	}
	if x.limit {
		return nil
	}
	if v := r.abnormal(); v != nil {
		return []scen.Violation{*v}
	}
	if k.refused() {
		return k.judgeRefusal(r)
	}
	// what must hold at every instant
	open := map[uint64]bool{}
	next := 0
	for _, e := range r.events {
		switch e.kind {
		case 'X':
			viol("write-open", "the program tried to write other than on its output and error")
		case 'O':
			if syscall.Errno(e.c) == syscall.EMFILE && k.Files[e.b].OpenErr == 0 {
				viol("handles", "cannot open file %d (%s): %d are still open", e.b, k.Files[e.b].Name, len(open))
			}
			if e.c == 0 {
				open[e.a] = true
			}
			if next < len(k.Args) && k.Args[next] == int(e.b) {
				next++
			} else if !has(k.Args[:next], int(e.b)) {
				if has(k.Args, int(e.b)) {
					viol("order", "%s is opened before its turn", k.Files[e.b].Name)
				} else {
					viol("order", "opened %s, which is not an argument", k.Files[e.b].Name)
				}
			}
		case 'C':
			delete(open, e.a)
		}
	}
	if base != nil {
		if !bytes.HasPrefix(base.out, r.out) {
			n := 0
			for n < len(r.out) && n < len(base.out) && r.out[n] == base.out[n] {
				n++
			}
			viol("prefix", "standard output got %d bytes that are no prefix of the correct %d: after %d bytes, %.60q instead of %.60q", len(r.out), len(base.out), n, r.out[n:], base.out[n:])
		}
		if !r.killed && r.exit == 0 && len(r.out) < len(base.out) {
			viol("false-success", "exit status 0, though standard output got only %d bytes of %d", len(r.out), len(base.out))
		}
	}
	if r.killed {
		return l
	}
	failed := r.outError()
	if failed != 0 {
		if r.exit == 0 && base == nil {
			viol("false-success", "exit status 0 after a write failed: %v", failed)
		}
		return l
	}
	closeErr := false
	for _, e := range r.events {
		if e.kind == 'C' && e.c != 0 {
			closeErr = true
		}
	}
	where := ""
	if x.fail != "" {
		where = x.fail + " failure"
		if len(k.Args) > 0 && x.file >= 0 {
			where += " in " + k.Files[k.Args[x.file]].Name
		}
		if k.Lines {
			where += fmt.Sprintf(" at line %d", x.line)
		}
	}
	switch {
	case x.fail != "" && r.exit == 0:
		viol("status", "exit status 0 in spite of %s", where)
	case x.fail == "" && r.exit != 0 && !closeErr:
		viol("status", "exit status %d with nothing wrong: %.200s", r.exit, r.err)
	}
	if x.fail != "" && r.exit != 0 && k.ErrErr == 0 {
		if len(bytes.TrimSpace(r.err)) == 0 {
			viol("silent", "nothing on standard error about %s", where)
		} else {
			if len(k.Args) > 0 && (x.fail == "open" || x.fail == "read") {
				if n := k.Files[k.Args[x.file]].Name; !bytes.Contains(r.err, []byte(n)) {
					viol("unnamed", "%s: the diagnostic doesn't name the file: %.200s", where, r.err)
				}
			}
			inValue := x.fail == "decode" || x.fail == "eval"
			if len(k.Args) > 0 && inValue {
				if n := k.Files[k.Args[x.file]].Name; !bytes.Contains(r.err, []byte(n)) {
					viol("unnamed-value", "%s: the diagnostic doesn't name the file: %.200s", where, r.err)
				}
			}
			if k.Lines && x.fail == "decode" && !number(r.err, int64(x.line), int64(x.line)) {
				viol("line-number", "%s: the diagnostic doesn't give the line: %.200s", where, r.err)
			}
			if k.Lines && x.fail == "eval" && !number(r.err, int64(x.line), int64(x.line)) {
				viol("position", "%s: the diagnostic doesn't give the line: %.200s", where, r.err)
			}
			if !k.Lines && inValue && !number(r.err, x.lo, x.hi) {
				viol("position", "%s: the diagnostic doesn't give the place, %d to %d: %.200s", where, x.lo, x.hi, r.err)
			}
		}
	}
	got, bad := parseResults(r.out, k.Lines)
	if bad != "" && k.Lines {
		if _, b := parseResults(r.out, false); b == "" {
			viol("format", "%s", bad)
			got, bad = nil, ""
			return l
		}
	}
	if bad != "" {
		viol("results", "%s", bad)
		return l
	}
	for i, g := range got {
		var o *model.Outcome
		if i < len(x.must) {
			o = x.must[i]
		} else if i == len(x.must) && x.opt != nil {
			o = x.opt
		} else {
			after := ""
			if where != "" {
				after = " (" + where + ")"
			}
			viol("results", "%d results where %d are due%s; result %d is %s", len(got), len(x.must), after, i+1, brief(g))
			return l
		}
		if !o.Tree.Match(hashList(g)) {
			viol("results", "result %d is %s where %s is due", i+1, brief(g), brief(leaves(o.Tree)))
			return l
		}
	}
	if len(got) < len(x.must) && !(closeErr && r.exit != 0) {
		if where != "" {
			where = " (" + where + ")"
		}
		viol("results", "%d results where %d are due%s: missing %s", len(got), len(x.must), where, brief(leaves(x.must[len(got)].Tree)))
	}
	return l
}

func has(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func validJSON(b []byte) bool { return json.Valid(b) }

// jsonPrefix returns the values of a stream, up to an error.
func jsonPrefix(b []byte) []string {
	var l []string
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var m json.RawMessage
		if dec.Decode(&m) != nil {
			return l
		}
		var v any
		if json.Unmarshal(m, &v) != nil {
			return l
		}
		l = append(l, string(m))
	}
}
