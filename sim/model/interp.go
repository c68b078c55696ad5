package model

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Node is an outcome: the ordered or partly ordered list of values selected.
// A leaf has Val; otherwise Kids come in the given order (Seq) or, if Any, in any order.
type Node struct {
	Leaf bool
	Val  any
	Hash uint64
	Any  bool
	Kids []*Node
	N    int // leaves
	H    uint64
}

func leaf(v any) *Node { return &Node{Leaf: true, Val: v, N: 1} }

func seq(kids []*Node) *Node {
	return join(kids, false)
}

func join(kids []*Node, any bool) *Node {
	out := &Node{Any: any}
	for _, k := range kids {
		if k == nil || k.N == 0 {
			continue
		}
		out.Kids = append(out.Kids, k)
		out.N += k.N
	}
	if len(out.Kids) == 1 {
		return out.Kids[0]
	}
	return out
}

// each replaces every leaf by the outcome of f for its value.
func (n *Node) each(f func(any) *Node) *Node {
	if n.N == 0 {
		return n
	}
	if n.Leaf {
		return f(n.Val)
	}
	kids := make([]*Node, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = k.each(f)
	}
	return join(kids, n.Any)
}

// Leaves calls f for each leaf.
func (n *Node) Leaves(f func(any)) {
	if n.N == 0 {
		return
	}
	if n.Leaf {
		f(n.Val)
		return
	}
	for _, k := range n.Kids {
		k.Leaves(f)
	}
}

// Single is true if only one order is possible.
func (n *Node) Single() bool {
	if n.N <= 1 {
		return true
	}
	if n.Any {
		return false
	}
	for _, k := range n.Kids {
		if !k.Single() {
			return false
		}
	}
	return true
}

// HashVal returns a hash of a value that doesn't depend on member order, but does on types.
func HashVal(v any) uint64 {
	switch v := v.(type) {
	case nil:
		return mix(11)
	case bool:
		if v {
			return mix(13)
		}
		return mix(17)
	case float64:
		return mix(19 ^ mix(math.Float64bits(v)))
	case int64:
		return mix(23 ^ mix(uint64(v)))
	case int:
		return mix(29 ^ mix(uint64(v)))
	case string:
		return mix(31 ^ hashStr(v))
	case []any:
		h := mix(37 + uint64(len(v)))
		for _, e := range v {
			h = mix(h*3 + HashVal(e))
		}
		return h
	case map[string]any:
		h := mix(41 + uint64(len(v)))
		for k, e := range v {
			h += mix(hashStr(k) ^ mix(HashVal(e)+5))
		}
		return mix(h)
	default:
		return mix(43 ^ hashStr(fmt.Sprintf("%T", v)))
	}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h + uint64(len(s)))
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// sum fills in the hashes.
func (n *Node) sum() uint64 {
	if n.H != 0 {
		return n.H
	}
	if n.Leaf {
		n.Hash = HashVal(n.Val)
		n.H = n.Hash | 1
		return n.H
	}
	h := uint64(7)
	for _, k := range n.Kids {
		if n.Any {
			h += mix(k.sum())
		} else {
			h = mix(h*3 + k.sum())
		}
	}
	n.H = mix(h+uint64(n.N)) | 1
	return n.H
}

// Match reports whether the list of value hashes is one of the possible outcomes.
func (n *Node) Match(got []uint64) bool {
	if len(got) != n.N {
		return false
	}
	n.sum()
	if n.N == 0 {
		return true
	}
	m := &matcher{got: got, memo: map[memoKey]bool{}}
	return m.match(n, 0)
}

// SameBag reports whether the list has the right values, in whatever order.
func (n *Node) SameBag(got []uint64) bool {
	if len(got) != n.N {
		return false
	}
	n.sum()
	c := map[uint64]int{}
	var f func(n *Node)
	f = func(n *Node) {
		if n.N == 0 {
			return
		}
		if n.Leaf {
			c[n.Hash]++
			return
		}
		for _, k := range n.Kids {
			f(k)
		}
	}
	f(n)
	for _, g := range got {
		c[g]--
		if c[g] < 0 {
			return false
		}
	}
	return true
}

type memoKey struct {
	n *Node
	o int
}

type matcher struct {
	got  []uint64
	memo map[memoKey]bool
	work int
}

func (m *matcher) match(n *Node, o int) bool {
	if n.N == 0 {
		return true
	}
	if n.Leaf {
		return m.got[o] == n.Hash
	}
	if !n.Any {
		for _, k := range n.Kids {
			if !m.match(k, o) {
				return false
			}
			o += k.N
		}
		return true
	}
	key := memoKey{n, o}
	if v, ok := m.memo[key]; ok {
		return v
	}
	used := make([]bool, len(n.Kids))
	v := m.perm(n, used, o, len(n.Kids))
	m.memo[key] = v
	return v
}

func (m *matcher) perm(n *Node, used []bool, o, left int) bool {
	if left == 0 {
		return true
	}
	m.work++
	if m.work > 200000 {
		return true // give up: never seen; the bag has been compared
	}
	var tried []uint64
next:
	for i, k := range n.Kids {
		if used[i] || !m.match(k, o) {
			continue
		}
		for _, h := range tried {
			if h == k.H {
				continue next // the same as one that failed
			}
		}
		used[i] = true
		if m.perm(n, used, o+k.N, left-1) {
			return true
		}
		used[i] = false
		tried = append(tried, k.H)
	}
	return false
}

// Outcome is what an evaluation may give.
type Outcome struct {
	Err   bool
	Errs  int   // how many evaluations of expressions failed
	Tree  *Node // if !Err
	Work  int   // candidates considered
	Why   string
	Whys  int  // different reasons for failure
	Limit bool // too much work to find out
	run   *run
}

type nothingT struct{}

// None is the value of an expression that has no value.
var None = nothingT{}

func isNone(v any) bool {
	_, ok := v.(nothingT)
	return ok
}

type run struct {
	root  any
	errs  int
	why   string
	work  int
	limit int
	res   map[string]*regexp.Regexp
	whys  map[string]bool
}

type tooMuch struct{}

// WorkLimit bounds the work of one evaluation by the model.
const WorkLimit = 100000

// Eval evaluates the path on the document.
func Eval(p Path, root any) *Outcome { return Start(root).Then(p) }

// Start is the outcome of the path without steps.
func Start(root any) *Outcome {
	r := &run{root: root, limit: WorkLimit, res: map[string]*regexp.Regexp{}, whys: map[string]bool{}}
	return &Outcome{Tree: leaf(root), run: r}
}

// Then is the outcome of a path that is longer by some steps.
func (o *Outcome) Then(steps Path) (out *Outcome) {
	r := *o.run
	r.whys = map[string]bool{}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(tooMuch); !ok {
				panic(e)
			}
			out = &Outcome{Limit: true, Work: r.work}
		}
	}()
	cur := o.Tree
	for _, s := range steps {
		cur = r.step(s, cur)
		if r.errs > 0 {
			return &Outcome{Err: true, Errs: r.errs, Work: r.work, Why: r.why, Whys: len(r.whys)}
		}
		if cur.N > WorkLimit {
			return &Outcome{Limit: true, Work: r.work}
		}
	}
	return &Outcome{Tree: cur, Work: r.work, run: &r}
}

func (r *run) count() {
	r.work++
	if r.work > r.limit {
		panic(tooMuch{})
	}
}

// spend counts work that is more than a step.
func (r *run) spend(n int) {
	r.work += n / 8
	if r.work > r.limit {
		panic(tooMuch{})
	}
}

func structure(v any) bool {
	switch v.(type) {
	case []any, map[string]any:
		return true
	}
	return false
}

func sortedKeys(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// members is the outcome of f on each member of a structure.
func members(v any, f func(any) *Node) *Node {
	switch v := v.(type) {
	case []any:
		kids := make([]*Node, 0, len(v))
		for _, e := range v {
			kids = append(kids, f(e))
		}
		return join(kids, false)
	case map[string]any:
		kids := make([]*Node, 0, len(v))
		for _, k := range sortedKeys(v) {
			kids = append(kids, f(v[k]))
		}
		return join(kids, true)
	}
	return &Node{}
}

// walk visits v and the structures below it.
func (r *run) walk(v any, f func(any) *Node) *Node {
	r.count()
	if !structure(v) {
		return &Node{}
	}
	self := f(v)
	below := members(v, func(m any) *Node { return r.walk(m, f) })
	return seq([]*Node{self, below})
}

func (r *run) step(s *Step, cur *Node) *Node {
	var f func(any) *Node
	switch s.Kind {
	case Wild:
		f = func(v any) *Node { return members(v, func(m any) *Node { r.count(); return leaf(m) }) }
	case Member, Select:
		f = func(v any) *Node {
			kids := []*Node{}
			for _, x := range s.Sels {
				kids = append(kids, r.sel(x, v, s.Kind == Select && !s.Dot))
			}
			return seq(kids)
		}
	case Exp:
		if !s.Nest {
			k := r.eval(s.Ex, nil)
			if isNone(k) {
				return &Node{}
			}
			f = func(v any) *Node { return r.key(k, v, !s.Dot) }
			break
		}
		f = func(v any) *Node {
			k := r.eval(s.Ex, v)
			if isNone(k) {
				return &Node{}
			}
			return r.key(k, v, !s.Dot)
		}
	case Filter:
		test := func(v any) *Node {
			r.count()
			x := r.eval(s.Ex, v)
			if !isNone(x) && truthy(x) {
				return leaf(v)
			}
			return &Node{}
		}
		if s.Nest {
			f = test
			break
		}
		f = func(v any) *Node { return members(v, test) }
	}
	if s.Nest {
		return cur.each(func(v any) *Node { return r.walk(v, f) })
	}
	return cur.each(f)
}

// sel applies one subscript.
func (r *run) sel(x *Sel, v any, neg bool) *Node {
	r.count()
	switch x.T {
	case "int":
		return r.key(x.I, v, neg)
	case "slice":
		a, ok := v.([]any)
		if !ok {
			return &Node{}
		}
		kids := []*Node{}
		for _, i := range SliceIndices(x, int64(len(a))) {
			r.count()
			kids = append(kids, leaf(a[i]))
		}
		return seq(kids)
	default:
		return r.key(x.S, v, neg)
	}
}

// SliceIndices returns the indices selected, as a Python slice.
func SliceIndices(x *Sel, l int64) []int64 {
	stride := int64(1)
	if x.Stride != nil {
		stride = *x.Stride
	}
	if stride == 0 || l == 0 {
		return nil
	}
	norm := func(p *int64, def, lo, hi int64) int64 {
		if p == nil {
			return def
		}
		v := *p
		if v < 0 {
			v += l
		}
		if v < lo {
			v = lo
		}
		if v > hi {
			v = hi
		}
		return v
	}
	var out []int64
	if stride > 0 {
		a, b := norm(x.Start, 0, 0, l), norm(x.End, l, 0, l)
		for i := a; i < b; i += stride {
			out = append(out, i)
			if stride >= l {
				break
			}
		}
		return out
	}
	a, b := norm(x.Start, l-1, -1, l-1), norm(x.End, -1, -1, l-1)
	for i := a; i > b; i += stride {
		out = append(out, i)
		if stride <= -l {
			break
		}
	}
	return out
}

// key applies a name or index.
func (r *run) key(k any, v any, neg bool) *Node {
	switch v := v.(type) {
	case []any:
		n, ok := k.(int64)
		if !ok {
			return &Node{}
		}
		if n < 0 && neg {
			n += int64(len(v))
		}
		if n >= 0 && n < int64(len(v)) {
			return leaf(v[n])
		}
	case map[string]any:
		if m, ok := v[keyText(k)]; ok {
			return leaf(m)
		}
	}
	return &Node{}
}

func keyText(k any) string {
	switch k := k.(type) {
	case string:
		return k
	case int64:
		return strconv.FormatInt(k, 10)
	case float64:
		return strconv.FormatInt(int64(k), 10)
	case nil:
		return "<nil>"
	default:
		return fmt.Sprint(k)
	}
}

func (r *run) fail(why string, a ...any) any {
	r.errs++
	why = fmt.Sprintf(why, a...)
	if r.why == "" {
		r.why = why
	}
	r.whys[why] = true
	return None
}

func (r *run) eval(e *Expr, cur any) any {
	r.count()
	kid := func(i int) any { return r.eval(e.Kids[i], cur) }
	switch e.Op {
	case "int":
		return e.I
	case "real":
		return e.F
	case "str":
		return e.S
	case "true":
		return true
	case "false":
		return false
	case "null":
		return nil
	case "root":
		return r.root
	case "cur":
		return cur
	case "re":
		return r.compile(e.S)
	case "dot":
		v := kid(0)
		if e.S == "length" {
			switch v := v.(type) {
			case []any:
				return int64(len(v))
			case map[string]any:
				return int64(len(v))
			case string:
				return int64(utf8.RuneCountInString(v))
			}
			return None
		}
		if o, ok := v.(map[string]any); ok {
			if m, ok := o[e.S]; ok {
				return m
			}
		}
		return None
	case "idx":
		v, k := kid(0), kid(1)
		if isNone(v) || isNone(k) {
			return None
		}
		switch v := v.(type) {
		case []any:
			n := toInt(k)
			if n < 0 {
				n += int64(len(v))
			}
			if n < 0 || n >= int64(len(v)) {
				return None
			}
			return v[n]
		case map[string]any:
			if m, ok := v[keyText(k)]; ok {
				return m
			}
		}
		return None
	case "neg":
		v := kid(0)
		if isNone(v) {
			return None
		}
		if f, ok := v.(float64); ok {
			return -f
		}
		return -toInt(v)
	case "not":
		return !truthy(kid(0))
	case "||":
		a, b := kid(0), kid(1)
		if !isNone(a) && truthy(a) {
			return a
		}
		return b
	case "&&":
		a, b := kid(0), kid(1)
		if isNone(a) || !truthy(a) {
			return a
		}
		return b
	case "==":
		a, b := kid(0), kid(1)
		return r.equal(a, b)
	case "!=":
		a, b := kid(0), kid(1)
		return !r.equal(a, b)
	case "+", "-", "*", "/", "%":
		a, b := kid(0), kid(1)
		if !arith(a) || !arith(b) {
			return None
		}
		return calc(e.Op, a, b)
	case "<", "<=", ">", ">=":
		a, b := kid(0), kid(1)
		if isNone(a) || isNone(b) {
			return None
		}
		return relate(e.Op, a, b)
	case "array":
		a := []any{}
		for i := range e.Kids {
			a = append(a, kid(i))
		}
		return a
	case "=~":
		a, b := kid(0), kid(1)
		if isNone(a) || isNone(b) {
			return None
		}
		var re *regexp.Regexp
		switch b := b.(type) {
		case *regexp.Regexp:
			re = b
		case string:
			re = r.compile(b)
			if re == nil {
				return r.fail("invalid regular expression %q", b)
			}
		default:
			return r.fail("match with %T %x", b, HashVal(b))
		}
		s, ok := a.(string)
		if !ok {
			return r.fail("match of %T %x", a, HashVal(a))
		}
		r.spend(len(s) * (1 + len(re.String())/8))
		return re.MatchString(s)
	case "in", "nin":
		a, b := kid(0), kid(1)
		if isNone(a) || isNone(b) {
			return None
		}
		l, ok := b.([]any)
		if !ok {
			return r.fail("in %T %x", b, HashVal(b))
		}
		found := false
		for _, v := range l {
			if r.equal(v, a) {
				found = true
				break
			}
		}
		return found == (e.Op == "in")
	case "call":
		args := make([]any, len(e.Kids))
		for i := range e.Kids {
			args[i] = kid(i)
		}
		return r.call(e.S, args)
	}
	panic("eval " + e.Op)
}

func (r *run) compile(s string) *regexp.Regexp {
	re, ok := r.res[s]
	if !ok {
		r.spend(len(s))
		re, _ = regexp.Compile(s)
		r.res[s] = re
	}
	return re
}

func arith(v any) bool {
	switch v.(type) {
	case int64, float64, bool:
		return true
	}
	return false
}

func toInt(v any) int64 {
	switch v := v.(type) {
	case bool:
		if v {
			return 1
		}
	case int64:
		return v
	case float64:
		return int64(v)
	case string:
		n, err := strconv.ParseInt(v, 10, 64)
		if err == nil {
			return n
		}
	}
	return 0
}

func toNum(v any) float64 {
	switch v := v.(type) {
	case bool:
		if v {
			return 1
		}
		return 0
	case int64:
		return float64(v)
	case float64:
		return v
	case string:
		if v == "" {
			return 0
		}
		f, err := strconv.ParseFloat(v, 64)
		if err == nil {
			return f
		}
	}
	return math.NaN()
}

func isFloat(v any) bool {
	_, ok := v.(float64)
	return ok
}

func calc(op string, a, b any) any {
	_, fa := a.(float64)
	_, fb := b.(float64)
	if fa || fb {
		x, y := toNum(a), toNum(b)
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		}
		if y == 0 {
			return None
		}
		if op == "/" {
			return x / y
		}
		return math.Mod(x, y)
	}
	x, y := toInt(a), toInt(b)
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	}
	if y == 0 {
		return None
	}
	if op == "/" {
		return x / y
	}
	return x % y
}

func relate(op string, a, b any) any {
	var lt, eq bool
	sa, oka := a.(string)
	sb, okb := b.(string)
	switch {
	case oka && okb:
		lt, eq = sa < sb, sa == sb
	case oka || okb:
		return false
	case !arith(a) || !arith(b):
		return false
	case !isFloat(a) && !isFloat(b):
		x, y := toInt(a), toInt(b)
		lt, eq = x < y, x == y
	default:
		x, y := toNum(a), toNum(b)
		lt, eq = x < y, x == y
		if math.IsNaN(x) || math.IsNaN(y) {
			return false
		}
	}
	switch op {
	case "<":
		return lt
	case "<=":
		return lt || eq
	case ">":
		return !lt && !eq
	}
	return !lt
}

func truthy(v any) bool {
	switch v := v.(type) {
	case nil, nothingT:
		return false
	case bool:
		return v
	case int64:
		return v != 0
	case float64:
		return v != 0 && !math.IsNaN(v)
	case string:
		return v != ""
	}
	return true
}

const (
	tUndef = iota
	tNull
	tNum
	tStr
	tBool
	tObj
)

func typeOf(v any) int {
	switch v.(type) {
	case nothingT:
		return tUndef
	case nil:
		return tNull
	case int64, float64:
		return tNum
	case string:
		return tStr
	case bool:
		return tBool
	}
	return tObj
}

// equal is JavaScript's abstract equality, except that structures are compared by value.
func (r *run) equal(a, b any) bool {
	r.count()
	ta, tb := typeOf(a), typeOf(b)
	if ta == tb {
		switch ta {
		case tUndef, tNull:
			return true
		case tNum:
			return eqNum(a, b)
		case tStr:
			return a.(string) == b.(string)
		case tBool:
			return a.(bool) == b.(bool)
		}
		switch a := a.(type) {
		case []any:
			b, ok := b.([]any)
			if !ok || len(a) != len(b) {
				return false
			}
			for i := range a {
				if !r.equal(a[i], b[i]) {
					return false
				}
			}
			return true
		case map[string]any:
			b, ok := b.(map[string]any)
			if !ok || len(a) != len(b) {
				return false
			}
			for k, v := range a {
				w, ok := b[k]
				if !ok {
					w = nil
				}
				if !r.equal(v, w) {
					return false
				}
			}
			return true
		}
		return false
	}
	switch {
	case ta == tNull && tb == tUndef || ta == tUndef && tb == tNull:
		return true
	case ta <= tNull || tb <= tNull:
		return false
	}
	if ta == tObj || tb == tObj {
		if tb == tObj {
			a, b = b, a
		}
		l, ok := a.([]any)
		if !ok {
			return false
		}
		// the cases that can be true of an array as a string
		switch len(l) {
		case 0:
			if s, ok := b.(string); ok {
				return s == ""
			}
			return toNum(b) == 0
		case 1:
			switch b := b.(type) {
			case string:
				return toStr(l[0]) == b
			case bool:
				return toInt(l[0]) == toInt(b)
			default:
				return eqNum(l[0], b)
			}
		}
		return false
	}
	if x, ok := asInt(a); ok {
		if y, ok := asInt(b); ok {
			return x == y
		}
	}
	return toNum(a) == toNum(b)
}

// asInt is the integer that v is, or represents.
func asInt(v any) (int64, bool) {
	switch v := v.(type) {
	case int64:
		return v, true
	case string:
		n, err := strconv.ParseInt(v, 10, 64)
		return n, err == nil
	}
	return 0, false
}

func eqNum(a, b any) bool {
	_, fa := a.(float64)
	_, fb := b.(float64)
	if fa || fb {
		return toNum(a) == toNum(b)
	}
	return toInt(a) == toInt(b)
}

func toStr(v any) string {
	switch v := v.(type) {
	case nothingT:
		return "undefined"
	case nil:
		return "null"
	case string:
		return v
	case bool, int64, float64:
		return fmt.Sprint(v)
	}
	return "[object Object]"
}

func (r *run) call(name string, args []any) any {
	want := func(n int) bool { return len(args) == n }
	one := map[string]bool{"abs": true, "avg": true, "ceil": true, "floor": true, "keys": true, "length": true, "prod": true, "sum": true, "to_number": true}
	two := map[string]bool{"contains": true, "ends_with": true, "starts_with": true, "tokenize": true}
	switch {
	case one[name] && !want(1), two[name] && !want(2):
		return r.fail("%s: wrong argument count", name)
	}
	str2 := func() (string, string, bool) {
		a, ok1 := args[0].(string)
		b, ok2 := args[1].(string)
		return a, b, ok1 && ok2
	}
	switch name {
	case "abs":
		switch n := args[0].(type) {
		case int64:
			if n < 0 {
				return -n
			}
			return n
		case float64:
			if n < 0 {
				return -n
			}
			return n
		}
		return None
	case "ceil", "floor":
		switch n := args[0].(type) {
		case int64:
			return n
		case float64:
			if name == "ceil" {
				return math.Ceil(n)
			}
			return math.Floor(n)
		}
		return None
	case "length":
		switch v := args[0].(type) {
		case string:
			return int64(utf8.RuneCountInString(v))
		case []any:
			return int64(len(v))
		case map[string]any:
			return int64(len(v))
		}
		return nil
	case "keys":
		o, ok := args[0].(map[string]any)
		if !ok {
			return None
		}
		r.spend(16 * len(o))
		l := []any{}
		for _, k := range sortedKeys(o) {
			l = append(l, k)
		}
		return l
	case "starts_with":
		a, b, ok := str2()
		if !ok {
			return None
		}
		return strings.HasPrefix(a, b)
	case "ends_with":
		a, b, ok := str2()
		if !ok {
			return None
		}
		return strings.HasSuffix(a, b)
	case "contains":
		switch a := args[0].(type) {
		case string:
			b, ok := args[1].(string)
			if !ok {
				return None
			}
			return strings.Contains(a, b)
		case []any:
			r.spend(len(a))
			for _, v := range a {
				if r.equal(v, args[1]) {
					return true
				}
			}
			return false
		}
		return None
	case "tokenize":
		a, b, ok := str2()
		if !ok {
			return None
		}
		re := r.compile(b)
		if re == nil {
			return None
		}
		r.spend(len(a) * (1 + len(b)/8))
		l := []any{}
		for _, s := range re.Split(a, -1) {
			l = append(l, s)
		}
		return l
	case "to_number":
		switch v := args[0].(type) {
		case int64, float64:
			return v
		case string:
			f, err := strconv.ParseFloat(v, 64)
			if err == nil {
				return f
			}
		}
		return None
	case "sum", "prod", "avg":
		l, ok := args[0].([]any)
		if !ok {
			return None
		}
		if len(l) == 0 {
			switch name {
			case "sum":
				return 0.0
			case "prod":
				return nil
			}
			return math.NaN()
		}
		r.spend(len(l))
		s, p := 0.0, 1.0
		for _, v := range l {
			if !arith(v) {
				return None
			}
			s += toNum(v)
			p *= toNum(v)
		}
		switch name {
		case "sum":
			return s
		case "prod":
			return p
		}
		return s / float64(len(l))
	case "min", "max":
		l := args
		if len(args) == 0 {
			return nil
		}
		if len(args) == 1 {
			a, ok := args[0].([]any)
			if !ok {
				return None
			}
			l = a
		}
		if len(l) == 0 {
			return nil
		}
		r.spend(len(l))
		switch l[0].(type) {
		case int64, float64:
			m := 0.0
			for i, v := range l {
				if !arith(v) {
					return None
				}
				x := toNum(v)
				if i == 0 || name == "min" && x < m || name == "max" && x > m {
					m = x
				}
			}
			return m
		case string:
			m := ""
			for i, v := range l {
				x, ok := v.(string)
				if !ok {
					return None
				}
				if i == 0 || name == "min" && x < m || name == "max" && x > m {
					m = x
				}
			}
			return m
		}
		return None
	}
	return r.fail("call of unknown function %s", name)
}
