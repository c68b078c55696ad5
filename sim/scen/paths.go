package scen

import (
	"strconv"
	"strings"

	"verifsim/model"
)

// PathGen makes paths that have something to select in a document.
type PathGen struct {
	R       *Rng
	Doc     any
	Filter  int  // weight of filters
	Nest    int  // percentage of steps that are recursive
	Err     int  // percentage of filters made to fail, perhaps
	Dyn     int  // percentage of filters with a dynamic regular expression
	Ordered bool // avoid steps over the members of objects with several
	MaxOut  int
	Alike   bool   // the document has structures that are almost the same
	Keys    int    // percentage of tests of the names of an object's members
	Lits    int    // percentage of tests of strings that are matches with a regular expression in the path
	Theme   string // the function that most tests use
	Salt    string // makes patterns unlike those of other runs
	n       int
}

func in64(v int64) *int64 { return &v }

// Path makes a path of up to n steps. An erroneous one is possible only if Err is not 0.
func (g *PathGen) Path(n int) model.Path {
	if g.MaxOut == 0 {
		g.MaxOut = 4000
	}
	var p model.Path
	cur := []any{g.Doc}
	so := model.Start(g.Doc)
	for i := 0; i < n; i++ {
		for try := 0; try < 8; try++ {
			s := g.step(cur)
			q := append(append(model.Path{}, p...), s)
			o := so.Then(model.Path{s})
			if o.Limit {
				continue
			}
			if o.Err {
				if g.Err == 0 {
					continue
				}
				return q
			}
			if g.Ordered && !o.Tree.Single() {
				continue
			}
			if o.Tree.N > g.MaxOut || o.Tree.N == 0 && !g.R.P(6) {
				continue
			}
			p, so = q, o
			cur = cur[:0:0]
			o.Tree.Leaves(func(v any) { cur = append(cur, v) })
			break
		}
	}
	return p
}

func (g *PathGen) some(cur []any) any {
	if len(cur) == 0 {
		return nil
	}
	return cur[g.R.N(len(cur))]
}

// anyKey chooses a member name that occurs in v or below.
func (g *PathGen) anyKey(v any, depth int) (string, bool) {
	switch v := v.(type) {
	case map[string]any:
		if len(v) == 0 {
			return "", false
		}
		ks := sortedKeys(v)
		k := ks[g.R.N(len(ks))]
		if depth > 0 && g.R.P(50) {
			if kk, ok := g.anyKey(v[k], depth-1); ok {
				return kk, true
			}
		}
		if g.R.P(6) {
			k = nearly(g.R, k)
		}
		return k, true
	case []any:
		if len(v) == 0 || depth <= 0 {
			return "", false
		}
		return g.anyKey(v[g.R.N(len(v))], depth-1)
	}
	return "", false
}

func plainName(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 || i > 0 && (c >= '0' && c <= '9' || c == '-')) {
			return false
		}
	}
	return true
}

func exprName(s string) bool {
	if !plainName(s) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			return false
		}
	}
	return s != "length"
}

func (g *PathGen) index(v any) int64 {
	n := 4
	if a, ok := v.([]any); ok {
		n = len(a)
	}
	switch g.R.Pick(60, 20, 10, 6, 5) {
	case 0:
		return int64(g.R.N(n + 1))
	case 1:
		return -int64(1 + g.R.N(n+1))
	case 2:
		return int64(g.R.N(3))
	case 3:
		if g.R.P(50) {
			return Of(g.R, extremes...)
		}
		return int64(n - g.R.N(3))
	default:
		return int64(n + g.R.N(3))
	}
}

// extremes are at the edges of the representations of integers.
var extremes = []int64{1<<63 - 1, 1<<63 - 2, 1 << 62, -(1 << 62), 1 << 40, -(1 << 40), 1<<31 - 1, 1 << 31, -(1 << 31), 1 << 32, -(1 << 32),
	1 << 24, 1<<23 - 1, 1 << 23, -(1 << 23), -(1 << 23) - 1, 1<<53 + 1, 1 << 16, 255, 256}

func (g *PathGen) slice(v any) *model.Sel {
	s := &model.Sel{T: "slice"}
	if g.R.P(70) {
		s.Start = in64(g.index(v))
	}
	if g.R.P(70) {
		s.End = in64(g.index(v))
	}
	if g.R.P(40) {
		s.Stride = in64(Of[int64](g.R, 1, 2, 3, -1, -2, 1, 2, -1))
		if g.R.P(8) {
			s.Stride = in64(Of(g.R, extremes...))
		} else if g.R.P(3) {
			s.Stride = in64(0)
		}
		if *s.Stride < 0 && s.Start != nil && s.End != nil && g.R.P(70) {
			s.Start, s.End = s.End, s.Start
		}
	}
	return s
}

func (g *PathGen) elem(v any, target any) *model.Sel {
	switch g.R.Pick(45, 30, 25) {
	case 0:
		if k, ok := g.anyKey(target, 3); ok {
			if g.R.P(30) && plainName(k) {
				return &model.Sel{T: "name", S: k}
			}
			return &model.Sel{T: "str", S: k}
		}
		fallthrough
	case 1:
		return &model.Sel{T: "int", I: g.index(v)}
	default:
		return g.slice(v)
	}
}

func (g *PathGen) step(cur []any) *model.Step {
	r := g.R
	v := g.some(cur)
	nest := r.P(g.Nest)
	target := v
	if nest { // look further down for names
		for i := 0; i < 3; i++ {
			if m := g.member(target); m != nil {
				target = m
			}
		}
	}
	switch r.Pick(25, 14, 22, 10, 2*g.Filter, 6) {
	case 0:
		k, ok := g.anyKey(v, map[bool]int{true: 4, false: 0}[nest])
		if !ok || !plainName(k) {
			if !ok {
				k = "a"
			}
			if !plainName(k) {
				return &model.Step{Kind: model.Select, Nest: nest, Sels: []*model.Sel{{T: "str", S: k}}}
			}
		}
		return &model.Step{Kind: model.Member, Nest: nest, Dot: true, Sels: []*model.Sel{{T: "name", S: k}}}
	case 1:
		return &model.Step{Kind: model.Wild, Nest: nest, Dot: r.P(50)}
	case 2:
		s := g.elem(v, target)
		if s.T == "int" && r.P(30) {
			return &model.Step{Kind: model.Select, Nest: nest, Dot: true, Sels: []*model.Sel{s}}
		}
		return &model.Step{Kind: model.Select, Nest: nest, Sels: []*model.Sel{s}}
	case 3:
		n := r.In(2, 4)
		st := &model.Step{Kind: model.Select, Nest: nest}
		for i := 0; i < n; i++ {
			st.Sels = append(st.Sels, g.elem(v, target))
		}
		return st
	case 4:
		var cand any
		if nest {
			cand = v
			if r.P(70) {
				if m := g.member(v); m != nil {
					cand = m
				}
			}
		} else {
			cand = g.member(v)
		}
		return &model.Step{Kind: model.Filter, Nest: nest, Ex: g.filter(cand)}
	default:
		return &model.Step{Kind: model.Exp, Nest: nest, Dot: r.P(30), Ex: g.engine(v, nest)}
	}
}

// member chooses a member of v.
func (g *PathGen) member(v any) any {
	switch v := v.(type) {
	case []any:
		if len(v) > 0 {
			return v[g.R.N(len(v))]
		}
	case map[string]any:
		if len(v) > 0 {
			ks := sortedKeys(v)
			return v[ks[g.R.N(len(ks))]]
		}
	}
	return nil
}

func sortedKeys(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func ex(op string, kids ...*model.Expr) *model.Expr { return &model.Expr{Op: op, Kids: kids} }
func num(n int64) *model.Expr {
	if n < 0 {
		return ex("neg", num(-n))
	}
	return &model.Expr{Op: "int", I: n}
}
func str(s string) *model.Expr { return &model.Expr{Op: "str", S: s} }
func re(s string) *model.Expr  { return &model.Expr{Op: "re", S: s} }
func call(f string, a ...*model.Expr) *model.Expr {
	return &model.Expr{Op: "call", S: f, Kids: a}
}
func dot(e *model.Expr, k string) *model.Expr {
	if exprName(k) {
		return &model.Expr{Op: "dot", S: k, Kids: []*model.Expr{e}}
	}
	return ex("idx", e, str(k))
}

// engine makes the expression of an expression selector.
func (g *PathGen) engine(v any, nest bool) *model.Expr {
	base := ex("root")
	if nest || g.R.P(10) {
		base = ex("cur")
	}
	if g.R.P(g.Err) {
		return g.failingOn(base, g.value(base, v))
	}
	if g.R.P(40) {
		return g.computed(base, v)
	}
	switch g.R.N(6) {
	case 4: // @ is null here, unless in a descent
		return ex("||", dot(ex("cur"), Of(g.R, "k", "id", "v")), g.simple(v))
	case 5:
		return ex("&&", ex("not", ex("cur")), g.simple(v))
	case 0:
		return num(int64(g.R.N(3)))
	case 1:
		if k, ok := g.anyKey(v, 0); ok {
			return str(k)
		}
		return str("a")
	case 2:
		return ex("-", &model.Expr{Op: "dot", S: "length", Kids: []*model.Expr{base}}, num(int64(1+g.R.N(2))))
	default:
		return ex("+", num(int64(g.R.N(2))), num(int64(g.R.N(2))))
	}
}

// value is the value that base probably has when a path has come to v.
func (g *PathGen) value(base *model.Expr, v any) any {
	if base.Op == "root" {
		return g.Doc
	}
	return v
}

// computed makes an expression that finds a key or an index by more than a constant.
func (g *PathGen) computed(base *model.Expr, v any) *model.Expr {
	r := g.R
	o, x := g.operand(base, g.value(base, v))
	n := num(int64(r.In(-2, 3)))
	switch r.N(10) {
	case 0: // anything in the document
		return o
	case 1:
		return ex("idx", call("keys", Of(r, base, o)), n)
	case 2:
		return call(Of(r, "abs", "floor", "ceil", "to_number", "length", "sum", "avg", "min", "max", "prod", "keys"), o)
	case 3:
		return ex(Of(r, "+", "-", "*", "%"), o, n)
	case 4:
		return ex(Of(r, "-", "%"), call("length", o), n)
	case 5:
		return ex("idx", call("tokenize", str(Of(r, "id,k,v,a", "a b", "k,,id")), str(Of(r, ",", " "))), n)
	case 6:
		return ex(Of(r, "&&", "||"), g.test(x), g.simple(v))
	case 7:
		return ex(Of(r, "&&", "||"), g.test(x), n)
	case 8:
		return call(Of(r, "abs", "floor", "length", "sum"), g.constant(x)) // often nothing at all
	default:
		return g.test(x)
	}
}

func (g *PathGen) simple(v any) *model.Expr {
	if k, ok := g.anyKey(v, 0); ok {
		return str(k)
	}
	return num(int64(g.R.N(3)))
}

// constant makes a literal near to value v.
func (g *PathGen) constant(v any) *model.Expr {
	switch v := v.(type) {
	case float64:
		if v != float64(int64(v)) || g.R.P(10) {
			e := &model.Expr{Op: "real", F: v}
			if v < 0 {
				e.F = -v
				return ex("neg", e)
			}
			return e
		}
		return num(int64(v) + int64(g.R.In(-1, 1)))
	case string:
		return str(v)
	case bool:
		return ex(strconv.FormatBool(v))
	case nil:
		return ex("null")
	}
	return num(int64(g.R.N(20)))
}

// operand makes an expression for something in or under v (the value of base), and returns it with its value.
func (g *PathGen) operand(base *model.Expr, v any) (*model.Expr, any) {
	for i := 0; i < 3; i++ {
		switch x := v.(type) {
		case map[string]any:
			if len(x) == 0 || i > 0 && g.R.P(30) || i == 0 && g.R.P(12) {
				return base, v
			}
			ks := sortedKeys(x)
			k := ks[g.R.N(len(ks))]
			base, v = dot(base, k), x[k]
		case []any:
			if len(x) == 0 || g.R.P(30) {
				return base, v
			}
			if g.R.P(7) { // anything
				k := g.index(x)
				if k != -k || k == 0 {
					base, v = ex("idx", base, num(k)), nil
				}
				return base, v
			}
			n := g.R.N(len(x))
			if g.R.P(15) { // from the end
				base, v = ex("idx", base, num(int64(n-len(x)))), x[n]
				continue
			}
			base, v = ex("idx", base, num(int64(n))), x[n]
		default:
			return base, v
		}
	}
	return base, v
}

func (g *PathGen) filter(cand any) *model.Expr {
	r := g.R
	if r.P(g.Err) {
		return g.failing(cand)
	}
	if r.P(g.Dyn) {
		return g.dynamic(cand)
	}
	if r.P(4) {
		return g.fixed()
	}
	e := g.test(cand)
	if r.P(12) {
		e = g.boolean(cand, r.In(1, 4))
	}
	for r.P(25) {
		f := g.test(cand)
		if r.P(20) {
			f = ex("not", f)
		}
		if r.P(50) {
			e, f = f, e
		}
		e = ex(Of(r, "&&", "||"), e, f)
	}
	return e
}

// of finds something of a type in or under the candidate or the document.
func (g *PathGen) of(cand any, is func(any) bool) *model.Expr {
	for i := 0; i < 12; i++ {
		base, v := ex("cur"), cand
		if g.R.P(20) {
			base, v = ex("root"), g.Doc
		}
		if o, x := g.operand(base, v); is(x) {
			return o
		}
	}
	return nil
}

// number makes an expression for one, of some depth.
func (g *PathGen) number(cand any, d int) *model.Expr {
	r := g.R
	if d <= 0 || r.P(20) {
		o := g.of(cand, func(v any) bool { _, ok := v.(float64); return ok })
		switch {
		case o != nil && r.P(70):
			return o
		case r.P(20):
			return &model.Expr{Op: "real", F: float64(r.N(60)) / 4}
		case r.P(5):
			return num(Of[int64](r, 1<<31, 1<<24+1, 1<<53+1, 1<<40))
		}
		return num(int64(r.In(-3, 30)))
	}
	d--
	switch r.N(9) {
	case 0:
		return ex(Of(r, "+", "-", "*", "/", "%"), g.number(cand, d), g.number(cand, d))
	case 1:
		return ex("neg", g.number(cand, d))
	case 2:
		return call(Of(r, "abs", "floor", "ceil"), g.number(cand, d))
	case 3, 4:
		o := g.text(cand, d)
		if r.P(50) {
			o = g.array(cand, d)
		} else if r.P(10) {
			o = ex("cur")
		}
		if r.P(50) {
			return call("length", o)
		}
		return &model.Expr{Op: "dot", S: "length", Kids: []*model.Expr{o}}
	case 5:
		return call(Of(r, "sum", "prod", "avg", "min", "max"), g.array(cand, d))
	case 6:
		a := []*model.Expr{g.number(cand, d), g.number(cand, d)}
		for r.P(30) {
			a = append(a, g.number(cand, d))
		}
		return call(Of(r, "min", "max"), a...)
	case 7:
		return call("to_number", g.text(cand, d))
	default:
		return ex("idx", g.array(cand, d), g.number(cand, d))
	}
}

// text makes an expression for a string.
func (g *PathGen) text(cand any, d int) *model.Expr {
	r := g.R
	if d <= 0 || r.P(40) {
		if o := g.of(cand, func(v any) bool { _, ok := v.(string); return ok }); o != nil && r.P(80) {
			return o
		}
		return str(Of(r, "", "s", "1", "12", "s1", "s2", "é", "2.5", "a", "id"))
	}
	d--
	switch r.N(4) {
	case 0:
		return ex("idx", call("tokenize", g.text(cand, d), g.separator(nil)), num(int64(r.In(-1, 2))))
	case 1:
		return ex("idx", call("keys", Of(r, ex("cur"), ex("root"))), num(int64(r.In(-1, 2))))
	case 2:
		return call(Of(r, "min", "max"), g.text(cand, d), g.text(cand, d))
	default:
		return ex(Of(r, "||", "&&"), g.text(cand, d), g.text(cand, d))
	}
}

// array makes an expression for an array.
func (g *PathGen) array(cand any, d int) *model.Expr {
	r := g.R
	if o := g.of(cand, func(v any) bool { _, ok := v.([]any); return ok }); o != nil && r.P(60) {
		return o
	}
	d--
	switch r.N(4) {
	case 0:
		return call("tokenize", g.text(cand, d), g.separator(nil))
	case 1:
		return call("keys", Of(r, ex("cur"), ex("root")))
	}
	a := ex("array")
	words := r.P(40)
	for i := r.N(5); i > 0; i-- {
		if words {
			a.Kids = append(a.Kids, g.text(cand, d))
		} else {
			a.Kids = append(a.Kids, g.number(cand, d))
		}
	}
	return a
}

// boolean makes a test of any kind.
func (g *PathGen) boolean(cand any, d int) *model.Expr {
	r := g.R
	d--
	cmp := Of(r, "==", "!=", "<", "<=", ">", ">=")
	switch r.N(9) {
	case 0, 1:
		return ex(cmp, g.number(cand, d), g.number(cand, d))
	case 2:
		return ex(cmp, g.text(cand, d), g.text(cand, d))
	case 3:
		return ex(Of(r, "==", "!="), g.array(cand, d), g.array(cand, d))
	case 4:
		return call(Of(r, "starts_with", "ends_with", "contains"), g.text(cand, d), g.text(cand, d))
	case 5:
		x := g.number(cand, d)
		if r.P(50) {
			x = g.text(cand, d)
		}
		if r.P(50) {
			return call("contains", g.array(cand, d), x)
		}
		return ex(Of(r, "in", "nin"), x, g.array(cand, d))
	case 6:
		return ex("=~", g.text(cand, d), re(g.literal("")))
	case 7:
		if d > 0 {
			return ex("not", g.boolean(cand, d))
		}
		return g.number(cand, d)
	default:
		if d > 0 {
			return ex(Of(r, "||", "&&"), g.boolean(cand, d), g.boolean(cand, d))
		}
		return ex("not", g.text(cand, d))
	}
}

// fixed makes an expression that is the same for every candidate.
func (g *PathGen) fixed() *model.Expr {
	r := g.R
	e := Of(r, ex("true"), ex("false"), ex("null"), num(0), num(1), num(-1), str(""), str("s"), ex("array"), ex("array", num(0)), ex("root"),
		ex("==", num(1), num(1)), ex("<", num(2), num(1)), ex("-", num(3), num(3)), &model.Expr{Op: "real", F: 0.5}, ex("neg", num(0)))
	for r.P(15) {
		e = ex("not", e)
	}
	if r.P(10) {
		e = ex(Of(r, "&&", "||"), e, g.fixed())
	}
	return e
}

func (g *PathGen) dynamic(cand any) *model.Expr {
	pat := dot(ex("cur"), "re")
	if g.R.P(40) {
		pat = g.rootPattern()
	}
	s := dot(ex("cur"), "s")
	if x, ok := cand.(string); ok && x != "" && g.R.P(70) {
		s = ex("cur")
	}
	return ex("=~", s, pat)
}

func (g *PathGen) rootPattern() *model.Expr {
	if o, ok := g.Doc.(map[string]any); ok {
		if _, ok := o["re"].(string); ok {
			return dot(ex("root"), "re")
		}
	}
	return str(g.pattern())
}

// pattern makes a valid regular expression, often one no other run has.
func (g *PathGen) pattern() string {
	p := Of(g.R, "^s", "1", "[0-9]+", "s[1-3]", "é", "[a-c]|1$", "s.")
	if g.R.P(50) {
		return p
	}
	return p + "|" + g.Salt + strconv.Itoa(g.R.N(4))
}

// literal makes a pattern, which may well match a string, often one no other run has.
func (g *PathGen) literal(s string) string {
	r := g.R
	p := Of(r, "^s", "1", "[0-9]", "s[1-5]", ".", "/|s")
	if r.P(50) {
		return p
	}
	plain := []byte{}
	for i := 0; i < len(s) && len(plain) < 12; i++ {
		if c := s[i]; c >= '0' && c <= '9' || c >= 'a' && c <= 'z' {
			plain = append(plain, c)
		} else if len(plain) > 0 {
			break
		}
	}
	if len(plain) > 0 {
		p = string(plain[:r.In(1, len(plain))])
	}
	l := []string{p}
	for r.P(50) {
		l = append(l, g.Salt+strconv.Itoa(r.N(20)))
	}
	if r.P(8) {
		l = append(l, strings.Repeat("q", r.In(10, 300)))
	}
	for i := range l {
		j := r.In(i, len(l)-1)
		l[i], l[j] = l[j], l[i]
	}
	return strings.Join(l, "|")
}

// separator makes one for tokenize.
func (g *PathGen) separator(v any) *model.Expr {
	if g.R.P(25) {
		return dot(ex("cur"), "re")
	}
	if g.R.P(15) {
		return g.rootPattern()
	}
	p := Of(g.R, ",", "[0-9]", "s", "", "1+", "(s|2)", ", *")
	if g.R.P(60) {
		p += "|" + g.Salt + strconv.Itoa(g.R.N(4))
	}
	return str(p)
}

// alike is the weight of comparisons of structures.
func (g *PathGen) alike() int {
	if g.Alike {
		return 60
	}
	return 4
}

// structure finds an array or object in the document, and an expression for it.
func (g *PathGen) structure(base *model.Expr, v any) (*model.Expr, any) {
	for i := 0; i < 4; i++ {
		e, m := g.operand1(base, v)
		switch m.(type) {
		case []any, map[string]any:
			base, v = e, m
		default:
			return base, v
		}
		if g.R.P(30) {
			break
		}
	}
	return base, v
}

func (g *PathGen) operand1(base *model.Expr, v any) (*model.Expr, any) {
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			return base, nil
		}
		ks := sortedKeys(x)
		k := ks[g.R.N(len(ks))]
		return dot(base, k), x[k]
	case []any:
		if len(x) == 0 {
			return base, nil
		}
		n := g.R.N(len(x))
		return ex("idx", base, num(int64(n))), x[n]
	}
	return base, nil
}

// compare makes a comparison of structures.
func (g *PathGen) compare(cand any) *model.Expr {
	r := g.R
	a, _ := g.structure(ex("cur"), cand)
	if r.P(50) {
		a = ex("cur")
	}
	b, bv := g.structure(ex("root"), g.Doc)
	switch r.N(6) {
	case 0, 1:
		return ex("==", a, b)
	case 2:
		return ex("!=", a, b)
	case 3:
		if _, ok := bv.([]any); ok {
			return ex(Of(r, "in", "nin"), a, b)
		}
		return ex("in", a, ex("array", b))
	case 4:
		if _, ok := bv.([]any); ok {
			return call("contains", b, a)
		}
		return ex("==", b, a)
	default:
		c, _ := g.structure(ex("cur"), cand)
		return ex("==", a, c)
	}
}

// function makes a test of the value of a function.
func (g *PathGen) function(o *model.Expr, v any) *model.Expr {
	r := g.R
	switch v := v.(type) {
	case string:
		t := call("tokenize", o, g.separator(v))
		n := call("length", o)
		if r.P(40) {
			n = &model.Expr{Op: "dot", S: "length", Kids: []*model.Expr{o}}
		}
		switch r.N(8) {
		case 6:
			return ex(Of(r, "==", ">", "<="), n, num(int64(len([]rune(v))-r.N(2))))
		case 7:
			return ex(Of(r, "==", "<"), ex("%", n, num(2)), num(1))
		case 0:
			return ex("==", ex("idx", t, num(int64(r.N(2)))), str(Of(r, "", "s", "1", "2", v)))
		case 1:
			return ex(">", call("length", t), num(int64(r.In(1, 2))))
		case 2:
			return call("contains", t, str(Of(r, "", "s", "1", "2")))
		case 3:
			return ex(">", call("to_number", o), num(int64(r.N(30))))
		case 4:
			return ex("==", call("to_number", ex("idx", t, num(1))), num(int64(r.N(30))))
		default:
			return ex("==", call(Of(r, "min", "max"), o, str("s"+strconv.Itoa(r.N(30)))), o)
		}
	case []any:
		f := call(Of(r, "min", "max", "sum", "prod", "avg", "max", "min"), o)
		switch r.N(4) {
		case 0:
			return ex(Of(r, ">", "<=", "=="), f, g.constant(g.member(v)))
		case 1:
			return ex("in", f, o)
		case 2:
			return ex("==", ex("idx", o, num(int64(r.N(3)))), f)
		default:
			return ex(Of(r, "==", "<"), call("min", o), call(Of(r, "max", "avg", "sum"), o))
		}
	case float64:
		return ex(Of(r, "==", "<"), call(Of(r, "min", "max"), o, num(int64(r.N(20))), num(int64(r.N(40)))), o)
	}
	return ex("not", call(Of(r, "length", "keys", "max"), o))
}

func (g *PathGen) failing(cand any) *model.Expr { return g.failingOn(ex("cur"), cand) }

// failingOn makes an expression that cannot be evaluated on everything, for the value cand of base.
func (g *PathGen) failingOn(base *model.Expr, cand any) *model.Expr {
	r := g.R
	o, v := g.operand(base, cand)
	switch r.N(9) {
	case 0:
		return call(Of(r, "nofn", "f", "Length", "len"), o)
	case 1:
		return call(Of(r, "abs", "length", "keys", "sum"), o, num(1))
	case 2:
		return ex("=~", o, str(Of(r, "[", "(", "a**b(", "s[", "\\")))
	case 3:
		return ex("=~", o, re(g.literal("s")))
	case 4:
		return ex(Of(r, "in", "nin"), g.constant(v), o)
	case 5:
		return ex("=~", dot(ex("cur"), "s"), dot(ex("cur"), Of(r, "re", "id", "v", "tags")))
	case 6:
		return ex("||", ex("==", o, g.constant(v)), ex("=~", o, str("s")))
	case 7:
		return ex("=~", o, o)
	default:
		return call("starts_with", o)
	}
}

// keys makes a test of the names of an object's members.
func (g *PathGen) keys(o *model.Expr, v map[string]any) *model.Expr {
	r := g.R
	k := sortedKeys(v)
	i := r.N(len(k))
	switch r.N(5) {
	case 0:
		return ex("==", ex("idx", call("keys", o), num(int64(i-r.N(2)*len(k)))), str(k[i]))
	case 1:
		a := ex("array")
		for _, x := range k {
			a.Kids = append(a.Kids, str(x))
		}
		return ex("==", call("keys", o), a)
	case 2:
		return ex(">=", ex("idx", call("keys", o), num(int64(r.N(len(k))))), str(k[r.N(len(k))]))
	case 3:
		return ex("in", str(k[i]), call("keys", o))
	default: // the value of the i'th member
		return ex("idx", o, ex("idx", call("keys", o), num(int64(i))))
	}
}

// Themes are the functions and operators that all tests of a scenario may use.
var Themes = []string{"length", "length", "tokenize", "to_number", "keys", "min", "max", "sum", "prod", "avg", "abs", "floor", "ceil", "starts_with", "ends_with", "contains", "=~", "=~", "=~", "+", "==", "in"}

// themed makes a test by the theme, or nil.
func (g *PathGen) themed(cand any) *model.Expr {
	r := g.R
	is := func(v any) bool { _, ok := v.(string); return ok }
	switch g.Theme {
	case "length":
		if r.P(20) {
			is = func(v any) bool { _, ok := v.([]any); return ok }
		}
	case "keys":
		is = func(v any) bool { _, ok := v.(map[string]any); return ok }
	case "min", "max", "sum", "prod", "avg":
		is = func(v any) bool { _, ok := v.([]any); return ok }
	case "abs", "floor", "ceil", "+":
		is = func(v any) bool { _, ok := v.(float64); return ok }
	case "==", "in":
		is = func(v any) bool { return v != nil }
	}
	o := g.of(cand, is)
	if o == nil {
		return nil
	}
	p := o
	if r.P(40) {
		if p = g.of(cand, is); p == nil {
			p = o
		}
	}
	f := func(o *model.Expr) *model.Expr { return call(g.Theme, o) }
	switch g.Theme {
	case "length":
		if r.P(40) {
			f = func(o *model.Expr) *model.Expr {
				return &model.Expr{Op: "dot", S: "length", Kids: []*model.Expr{o}}
			}
		}
	case "tokenize":
		sep := str(Of(r, "s", "1", "", "2", "-"))
		f = func(o *model.Expr) *model.Expr { return call("tokenize", o, sep) }
	case "starts_with", "ends_with", "contains":
		if r.P(60) {
			return call(g.Theme, o, str(Of(r, "s", "1", "s1", "2", "s2")))
		}
		return call(g.Theme, o, p)
	case "=~":
		pat := Of(r, "^s", "[0-9]$", "1", "2", "^.{3}$", "s[12]", "é")
		if r.P(60) { // compiled for each candidate
			return ex("=~", o, str(pat))
		}
		return ex("=~", o, re(pat))
	case "+":
		c := num(int64(r.N(9)))
		f = func(o *model.Expr) *model.Expr { return ex("+", o, c) }
	case "==":
		return ex(Of(r, "==", "!=", "<"), o, p)
	case "in":
		return ex(Of(r, "in", "nin"), o, ex("array", p, num(int64(r.N(9))), str("s"+strconv.Itoa(r.N(30)))))
	}
	if p == o && r.P(50) {
		return ex("==", f(o), f(o))
	}
	switch {
	case r.P(50):
		return ex(Of(r, "==", "<", ">="), f(o), f(p))
	case g.Theme == "keys" || g.Theme == "tokenize":
		return ex(Of(r, "==", "<"), ex("idx", f(o), num(int64(r.N(3)))), str(Of(r, "a", "b", "id", "s", "1", "")))
	}
	return ex(Of(r, "==", "<", ">="), f(o), num(int64(r.N(24))))
}

func (g *PathGen) test(cand any) *model.Expr {
	r := g.R
	if g.Theme != "" && r.P(80) {
		if e := g.themed(cand); e != nil {
			return e
		}
	}
	o, v := g.operand(ex("cur"), cand)
	if r.P(10) {
		o, v = g.operand(ex("root"), g.Doc)
	}
	if r.P(g.Keys) {
		for i := 0; i < 4; i++ {
			if x, ok := v.(map[string]any); ok && len(x) > 1 {
				return g.keys(o, x)
			}
			o, v = g.structure(ex("root"), g.Doc)
			if r.P(50) {
				o, v = ex("root"), g.Doc
			}
		}
	}
	if x, ok := v.(map[string]any); ok && len(x) > 0 && r.P(20) {
		return g.keys(o, x)
	}
	if r.P(g.Lits) {
		for i := 0; i < 10; i++ {
			if s, ok := v.(string); ok {
				return ex("=~", o, re(g.literal(s)))
			}
			o, v = g.operand(ex("cur"), cand)
		}
	}
	switch r.Pick(15, 30, 8, 8, 8, 8, 12, 8, 6, 14, g.alike()) {
	case 0:
		return o
	case 1:
		return ex(Of(r, "==", "!=", "<", "<=", ">", ">="), o, g.constant(v))
	case 2:
		if r.P(60) {
			return g.fixed()
		}
		return Of(r, ex("cur"), ex("root"), ex("not", ex("cur")))
	case 3:
		if s, ok := v.(string); ok {
			return ex("=~", o, re(g.literal(s)))
		}
		return ex(">", ex("+", o, num(1)), num(int64(r.N(20))))
	case 4:
		l := ex("array", g.constant(v), num(int64(r.N(9))), str("s"+strconv.Itoa(r.N(30))))
		return ex(Of(r, "in", "nin"), o, l)
	case 5:
		switch v.(type) {
		case []any, map[string]any:
			if r.P(50) {
				return ex(Of(r, ">", "==", "<="), &model.Expr{Op: "dot", S: "length", Kids: []*model.Expr{o}}, num(int64(r.N(4))))
			}
			return ex(Of(r, ">", "=="), call("length", o), num(int64(r.N(4))))
		}
		return ex("!=", o, g.constant(v))
	case 6:
		switch v.(type) {
		case string:
			return call(Of(r, "starts_with", "ends_with", "contains"), o, str(Of(r, "s", "1", "s1", "2")))
		case []any:
			return call("contains", o, g.constant(g.member(v)))
		case map[string]any:
			if x := v.(map[string]any); len(x) > 0 && r.P(75) {
				return g.keys(o, x)
			}
			return call("contains", call("keys", o), str(Of(r, "a", "id", "s", "v")))
		case float64:
			return ex(">", call(Of(r, "abs", "floor", "ceil"), o), num(int64(r.N(30))))
		}
		return ex("not", o)
	case 7:
		switch v.(type) {
		case []any:
			return ex(">", call(Of(r, "sum", "length"), o), num(int64(r.N(9))))
		case float64:
			return ex("==", ex("%", call("floor", o), num(int64(2+r.N(3)))), num(0))
		}
		return ex("==", o, o)
	case 9:
		return g.function(o, v)
	case 10:
		return g.compare(cand)
	default:
		if k, ok := g.anyKey(g.Doc, 0); ok {
			return ex(Of(r, "==", "!=", "<"), o, dot(ex("root"), k))
		}
		return ex("==", o, ex("root"))
	}
}

// MatchPath selects the members of an array that match the pattern they have themselves, or can be split by it.
func MatchPath(split bool) model.Path {
	s, re := dot(ex("cur"), "s"), dot(ex("cur"), "re")
	e := ex("=~", s, re)
	if split {
		e = ex(">=", call("length", call("tokenize", s, re)), num(0))
	}
	return model.Path{{Kind: model.Filter, Ex: e}}
}
