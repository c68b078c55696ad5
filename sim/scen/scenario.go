// Package scen makes and describes the runs of the library simulation: documents, paths, the
// operations of each task, and the schedule.
package scen

import (
	"encoding/json"
	"math"
	"strconv"
	"strings"

	"verifsim/model"
)

type PathSpec struct {
	AST  model.Path `json:"ast"`
	Text string     `json:"text"`
}

// Op kinds.
const (
	Eval    = "eval"    // evaluate path P on document D
	Compile = "compile" // compile path P anew and check it
	Pool    = "pool"    // compile text P of the pool, perhaps invalid
	String  = "string"  // ask the shared path for its text

	// The layers below, for C19.
	Print   = "print"   // print the shared parse tree of path P
	Listing = "listing" // print the shared program of path P, or one made from its shared parse tree
	Script  = "script"  // parse the expressions of path P alone, and print them
	Parse   = "parse"   // parse text P of the pool, as a path and as an expression, and print that
)

type Op struct {
	K     string `json:"k"`
	P     int    `json:"p"`
	D     int    `json:"d"`
	Own   bool   `json:"own,omitempty"`   // on a private copy of the document
	Fresh bool   `json:"fresh,omitempty"` // with the path compiled anew by the task
	Scrib bool   `json:"scrib,omitempty"` // overwrite the result list, to its capacity
	Mut   bool   `json:"mut,omitempty"`   // overwrite the (own) document afterwards
	Rep   int    `json:"rep,omitempty"`   // more times
	Edit  uint64 `json:"edit,omitempty"`  // seed of changes to the (own) document before each further time
	Via   string `json:"via,omitempty"`   // "prog": with the shared program; "tree": with a program made now from the shared parse tree
}

type Sched struct {
	Mode  uint64   `json:"mode"`
	Seed  uint64   `json:"seed"`
	Rand  uint64   `json:"rand"`
	P     uint64   `json:"p,omitempty"`
	Cap   uint64   `json:"cap"`
	Stall uint64   `json:"stall,omitempty"`
	Depth uint64   `json:"depth,omitempty"`
	Horiz uint64   `json:"horiz,omitempty"`
	Devs  []uint32 `json:"devs,omitempty"`
}

type Scenario struct {
	Prop  string     `json:"prop"`
	Name  string     `json:"name,omitempty"`
	Docs  []string   `json:"docs"`
	Paths []PathSpec `json:"paths"`
	Tasks [][]Op     `json:"tasks"`
	Sched Sched      `json:"sched"`
	Total uint64     `json:"total,omitempty"` // evaluation work according to the model
	Grow  *Grow      `json:"grow,omitempty"`
}

// Grow is a long life: as many documents, all different, are evaluated and forgotten once more, to see whether that takes more memory.
type Grow struct {
	Seed  uint64 `json:"seed"`
	N     int    `json:"n"` // documents in each half
	Items int    `json:"items"`
	Tasks int    `json:"tasks"`
}

// profile says what runs for a property are like.
type profile struct {
	tasks           [2]int // fewest, most
	ops             int    // most operations of a task
	paths, docs     int    // most
	err             int    // percentage of scenarios with failing paths
	filter, nest    int
	own, mut, scrib int // percentages
	fresh, comp     int
	pool, str       int
	rep             int
	single          int // percentage of scenarios with one-member objects
	size            int // scale, percent
	alt             bool
	history         int // percentage of scenarios that are long histories
	big             int // percentage of big scenarios
	manyTasks       int // percentage of scenarios with many tasks
	manyPaths       int
	alike           int // more percentage of documents with structures nearly the same
	again           int // percentage of paths that are a former one written anew
	keys            int // percentage of tests of the names of members
	lits            int // percentage of tests of strings by a regular expression in the path
	edit            int // percentage of evaluations on own documents repeated after changes
	deep, huge      int // out of 10000 scenarios, those with very deep or very large documents
	grow            int // percentage of scenarios that are long lives
	duel            int // percentage of scenarios in which tasks do nearly the same, with different constants
	theme           int // more percentage of scenarios most of whose tests use one function
	long            int // percentage of scenarios with long paths
	layers          int // percentage of operations on parse trees and programs
}

var profiles = map[string]profile{
	"C01": {tasks: [2]int{2, 6}, ops: 4, paths: 4, docs: 3, err: 20, filter: 25, nest: 30, own: 20, mut: 20, scrib: 20, fresh: 15, comp: 6, pool: 4, str: 4, rep: 3, single: 20, size: 80, big: 3, manyTasks: 6, manyPaths: 4, edit: 8, deep: 15, huge: 5, long: 2, lits: 10, theme: 12, duel: 14},
	"C02": {tasks: [2]int{2, 5}, ops: 4, paths: 3, docs: 3, err: 35, filter: 25, nest: 35, own: 50, mut: 80, scrib: 30, fresh: 15, comp: 6, pool: 4, str: 4, rep: 2, single: 10, size: 60, big: 2, manyTasks: 3, manyPaths: 3, edit: 10, deep: 10, huge: 3, long: 1},
	"C03": {tasks: [2]int{1, 4}, ops: 6, paths: 4, docs: 2, err: 12, filter: 20, nest: 25, own: 10, mut: 0, scrib: 60, fresh: 10, comp: 3, str: 3, rep: 2, single: 20, size: 80, big: 3, manyTasks: 3, edit: 5, deep: 20, huge: 10, long: 2},
	"C04": {tasks: [2]int{1, 4}, ops: 4, paths: 3, docs: 3, err: 60, filter: 35, nest: 40, own: 15, mut: 10, scrib: 10, fresh: 10, comp: 3, pool: 3, rep: 3, single: 10, size: 130, big: 8, manyTasks: 6, edit: 3, deep: 120, huge: 40, long: 3},
	"C05": {tasks: [2]int{1, 2}, ops: 3, paths: 3, docs: 3, err: 3, filter: 35, nest: 45, own: 5, rep: 1, single: 45, size: 150, big: 8, manyTasks: 1, edit: 3, deep: 120, huge: 60, long: 4},
	"C06": {tasks: [2]int{1, 4}, ops: 5, paths: 4, docs: 3, err: 95, filter: 45, nest: 35, own: 10, mut: 5, scrib: 5, fresh: 15, rep: 2, single: 20, size: 100, big: 4, manyTasks: 4, edit: 5, deep: 40, huge: 30, long: 2},
	"C07": {tasks: [2]int{1, 3}, ops: 8, paths: 3, docs: 5, err: 50, filter: 30, nest: 35, own: 15, mut: 15, scrib: 20, fresh: 20, rep: 3, single: 20, size: 60, history: 35, big: 2, manyTasks: 2, again: 15, edit: 25, deep: 20, huge: 8, long: 4, lits: 15},
	"C17": {tasks: [2]int{1, 4}, ops: 6, paths: 4, docs: 3, err: 50, filter: 35, nest: 40, own: 30, mut: 15, scrib: 15, fresh: 20, comp: 2, pool: 2, str: 2, rep: 2, single: 20, size: 60, grow: 4, history: 8, big: 1, manyTasks: 3, manyPaths: 2, alike: 5, edit: 5, deep: 10, huge: 5, long: 2, lits: 10},
	"C08": {tasks: [2]int{1, 2}, ops: 4, paths: 3, docs: 2, err: 35, filter: 30, nest: 35, fresh: 20, rep: 4, single: 0, size: 70, alt: true, keys: 10, alike: 20, big: 2, manyTasks: 1, edit: 5, deep: 30, huge: 8, long: 2},
	"C19": {tasks: [2]int{2, 6}, ops: 6, paths: 4, docs: 3, err: 20, filter: 45, nest: 25, own: 10, mut: 10, scrib: 10, fresh: 5, comp: 5, pool: 3, str: 3, rep: 2, single: 20, size: 40, history: 8, big: 1, manyTasks: 8, manyPaths: 4, again: 10, edit: 3, deep: 4, huge: 2, long: 4, lits: 20, layers: 45, theme: 6, duel: 5},
	"C09": {tasks: [2]int{2, 6}, ops: 8, paths: 10, docs: 3, err: 25, filter: 40, nest: 25, own: 10, fresh: 70, comp: 40, pool: 40, str: 15, rep: 1, single: 20, size: 30, big: 1, manyTasks: 8, manyPaths: 10, again: 25, edit: 3, deep: 0, huge: 0, long: 4, lits: 60},
}

// Generate makes run number n for a property.
func Generate(prop string, seed uint64, n int) *Scenario {
	pr := profiles[prop]
	r := NewRng(seed, hashName(prop), uint64(n))
	s := &Scenario{Prop: prop}
	salt := "z" + strconv.FormatUint(r.U64()%100000, 36)
	if r.P(pr.grow) {
		s.grow(r, salt)
		return s
	}
	g := &DocGen{R: r, Single: r.P(pr.single), Salt: salt}
	g.Alike = r.P(6 + pr.alike)
	if pr.alt {
		g.Broad = 8
	}
	if r.P(40) {
		g.Dup = r.In(0, 60)
	}
	if r.P(15) {
		g.Far, g.FarLen = Of(r, 30, 70, 100), Of(r, 4, 12, 20, 28, 60, 130, 250)
	}
	errs := r.P(pr.err)
	if errs && r.P(60) {
		g.BadRE = r.In(1, 30)
	}
	big := r.P(pr.big)
	deep := r.N(10000) < pr.deep
	huge := !deep && r.N(10000) < pr.huge
	long := !deep && !huge && !big && r.P(pr.long)
	hist := r.P(pr.history)
	many := r.P(pr.manyTasks)
	// tasks that do the same, with different constants, over the same values
	duel := !big && !deep && !huge && !long && !hist && !many && r.P(pr.duel)
	if duel && r.P(70) {
		g.Alike = true
	}
	// documents
	nd := r.In(1, pr.docs)
	if hist {
		nd = r.In(2, pr.docs+3)
	}
	vals := []any{}
	for i := 0; i < nd; i++ {
		g.Size = r.Pick(30, 40, 20, 10)
		g.Size = []int{r.In(1, 8), r.In(5, 40), r.In(30, 120), r.In(80, 300)}[g.Size] * pr.size / 100
		if big && i == 0 {
			g.Size = r.In(500, 5000)
		}
		if hist || many {
			g.Size = g.Size/3 + 1
		}
		if duel {
			g.Size = r.In(10, 100)
		}
		if (deep || huge) && i > 0 {
			break
		}
		var v any
		switch {
		case deep:
			v = g.Chain(int(math.Exp2(9 + 4.28*float64(r.N(1000))/1000)))
		case huge:
			v = g.Wide(Of(r, r.In(4000, 10000), r.In(10000, 33000), r.In(32760, 32780), r.In(65530, 65550), r.In(65537, 70000), r.In(33000, 75000)))
		case long:
			v = g.Chain(r.In(20, 200))
		default:
			v = g.Doc()
		}
		vals = append(vals, v)
		s.Docs = append(s.Docs, JSONText(v, r, r.P(30)))
		if pr.alt {
			for k := r.In(1, 3); k > 0; k-- {
				vals = append(vals, v)
				s.Docs = append(s.Docs, JSONText(v, r, false))
			}
		}
	}
	// paths
	theme := ""
	if duel || r.P(12+pr.theme) {
		theme = Themes[r.N(len(Themes))]
	}
	np := r.In(1, pr.paths)
	if hist {
		np = r.In(1, 4)
	}
	if r.P(pr.manyPaths) && !duel {
		np = r.In(20, 80)
	}
	if duel {
		np = r.In(2, 4)
	}
	perdoc := map[int][]int{}
	for i := 0; i < np; i++ {
		d := r.N(len(vals))
		if duel {
			d = 0
		}
		pg := &PathGen{R: r, Doc: vals[d], Filter: pr.filter, Nest: pr.nest, Dyn: r.Pick(80, 20) * 30, Salt: salt, Alike: g.Alike, Lits: pr.lits, Keys: pr.keys, Theme: theme}
		if theme != "" {
			pg.Filter = max(pg.Filter, 50)
		}
		if duel {
			pg.Filter = 400
		}
		if errs {
			pg.Err = Of(r, 20, 50, 100)
			pg.Dyn = r.In(0, 40)
		}
		steps := r.Small(6)
		if duel {
			steps = r.Pick(0, 80, 20)
		}
		if big {
			pg.MaxOut = 20000
		}
		if deep || huge {
			pg.MaxOut = 100000
			steps = r.In(1, 2)
		}
		if long {
			steps = r.In(8, 150)
			pg.Nest = r.In(0, 5)
			pg.MaxOut = 40
		}
		p := pg.Path(steps)
		if i > 0 && r.P(pr.again) { // the same, but perhaps spelt differently
			p = s.Paths[r.N(i)].AST
		}
		st := model.Plain
		if r.P(60) {
			st = r.N
		}
		s.Paths = append(s.Paths, PathSpec{p, p.Text(st)})
		perdoc[d] = append(perdoc[d], i)
	}
	// tasks
	nt := r.In(pr.tasks[0], pr.tasks[1])
	if deep || huge {
		many = false
		nt = r.In(1, 2)
	}
	if many {
		nt = r.In(8, 40)
	}
	if hist && r.P(60) {
		nt = 1
	}
	if duel {
		nt = min(nt, 4)
	}
	pool := 0
	if pr.pool > 0 {
		pool = len(BadPool())
	}
	same := r.P(40) // all use the same path and document
	for t := 0; t < nt; t++ {
		ops := []Op{}
		no := r.In(1, pr.ops)
		if hist {
			no = r.In(20, 120)
			if r.P(10) {
				no = r.In(200, 600)
			}
		}
		if many || big {
			no = r.In(1, 2)
		}
		if duel {
			no = r.In(1, 3)
		}
		if deep || huge {
			no = 1
		}
		for i := 0; i < no; i++ {
			p := r.N(np)
			d := r.N(len(vals))
			if same && r.P(80) {
				p, d = 0, 0
			}
			// mostly the document the path was made for
			if r.P(70) {
				for dd, ps := range perdocList(perdoc, len(vals)) {
					for _, q := range ps {
						if q == p {
							d = dd
						}
					}
				}
			}
			if duel {
				p, d = (t+r.N(2)*r.N(2))%np, 0
			}
			op := Op{K: Eval, P: p, D: d}
			switch {
			case r.P(pr.layers):
				op = Op{K: Of(r, Print, Listing, Listing, Script, Parse), P: p}
				switch op.K {
				case Listing:
					op.Via = Of(r, "prog", "tree", "tree")
				case Parse:
					op.P = r.N(pool)
				}
			case r.P(pr.pool):
				op = Op{K: Pool, P: r.N(pool)}
			case r.P(pr.comp):
				op = Op{K: Compile, P: p, D: d}
			case r.P(pr.str):
				op = Op{K: String, P: p}
			default:
				op.Fresh = r.P(pr.fresh)
				if r.P(pr.own) {
					op.Own = true
					op.Mut = r.P(pr.mut)
				}
				if pr.layers > 0 && r.P(85) {
					op.Via, op.Fresh = Of(r, "prog", "tree", "tree"), false
				}
				op.Scrib = r.P(pr.scrib)
				if !op.Mut && r.P(25) && !deep && !huge {
					op.Rep = r.N(pr.rep + 1)
				}
				if r.P(pr.edit) && !deep && !huge {
					op.Own, op.Mut = true, false
					op.Rep = r.In(1, 3)
					op.Edit = r.U64()>>1 | 1
				}
			}
			ops = append(ops, op)
		}
		s.Tasks = append(s.Tasks, ops)
	}
	s.Sched = GenSched(r)
	for duel && s.Sched.Mode != 1 && r.P(60) {
		s.Sched = GenSched(r)
	}
	s.bound(vals)
	return s
}

// grow makes the scenario a long life.
func (s *Scenario) grow(r *Rng, salt string) {
	s.Grow = &Grow{Seed: r.U64() >> 1, N: r.In(60, 200), Items: r.In(1, 12), Tasks: r.Pick(50, 30, 20) + 1}
	doc := s.Grow.Doc(0)
	for i := r.In(1, 4); i > 0; i-- {
		g := &PathGen{R: r, Doc: doc, Filter: 70, Nest: 25, Dyn: Of(r, 0, 40, 80), Salt: salt, MaxOut: 500}
		if r.P(40) {
			g.Err = 30
		}
		p := g.Path(r.In(1, 3))
		s.Paths = append(s.Paths, PathSpec{p, p.Text(model.Plain)})
	}
	s.Sched = GenSched(r)
	s.Sched.Cap = uint64(BaseSteps * s.Grow.N)
}

// Doc makes the i'th document.
func (w *Grow) Doc(i int) any {
	r := NewRng(w.Seed, uint64(i))
	g := &DocGen{R: r, Salt: "y" + strconv.FormatUint(w.Seed%1000+uint64(i)*1000, 36), n: i % 100}
	l := []any{}
	for k := 0; k < w.Items; k++ {
		o := g.item().(map[string]any)
		o["s"] = "s" + strconv.Itoa(k) + "," + g.Salt + strings.Repeat(Of(r, "x", "1 ", "sy,"), 30)
		if r.P(70) {
			o["re"] = "s" + strconv.Itoa(k) + "|" + g.Salt + strings.Repeat("z", 30)
		}
		l = append(l, o)
	}
	return map[string]any{"a": l, "k": g.Salt, "b": []any{g.Salt, float64(i)}}
}

// bound drops evaluations the model can't follow, and sets the number of steps that must be enough for the rest.
func (s *Scenario) bound(vals []any) {
	work := map[[2]int]int{}
	total, text := 0, 0
	for t := range s.Tasks {
		ops := s.Tasks[t][:0]
		for _, op := range s.Tasks[t] {
			if op.K == Eval || op.K == Compile {
				k := [2]int{op.P, op.D}
				w, ok := work[k]
				if !ok {
					o := model.Eval(s.Paths[op.P].AST, vals[op.D])
					w = o.Work
					if o.Limit {
						w = -1
					}
					work[k] = w
				}
				if w < 0 {
					continue
				}
				if op.Edit != 0 {
					for j := 1; j <= op.Rep; j++ {
						o := model.Eval(s.Paths[op.P].AST, s.Edited(op, j))
						if o.Limit {
							op.Rep = j - 1
							break
						}
						total += o.Work + 10
					}
				}
				total += (w + 10) * (op.Rep + 1)
				if op.Mut || op.Scrib { // the caller takes steps, too
					total += len(s.Docs[op.D]) / 10
				}
				if op.Fresh || op.K == Compile || op.Via == "tree" {
					text += len(s.Paths[op.P].Text)
				}
			}
			switch op.K {
			case Pool:
				text += len(BadPool()[op.P])
			case Parse:
				text += 2 * len(BadPool()[op.P])
			case Print, Listing, Script:
				text += 10 + 2*len(s.Paths[op.P].Text)
			}
			ops = append(ops, op)
		}
		s.Tasks[t] = ops
	}
	s.Total = uint64(total)
	s.Sched.Cap = BaseSteps + StepsPerWork*s.Total + StepsPerByte*uint64(text)
}

// Exprs returns the texts of a path's expressions, each once.
func (p *PathSpec) Exprs() []string {
	var l []string
	for _, st := range p.AST {
		if st.Ex != nil {
			l = append(l, st.Ex.Text(model.Plain))
		}
	}
	return l
}

// Edited returns the operation's document as it is after n changes.
func (s *Scenario) Edited(op Op, n int) any {
	var v any
	if err := json.Unmarshal([]byte(s.Docs[op.D]), &v); err != nil {
		panic(err)
	}
	for j := 1; j <= n; j++ {
		EditDoc(v, op.Edit+uint64(j), func() {})
	}
	return v
}

// A run may take BaseSteps, StepsPerWork for each unit of work of the model, and StepsPerByte for
// each byte of the texts compiled: far more than it needs, but in proportion.
const (
	BaseSteps    = 100000
	StepsPerWork = 1000
	StepsPerByte = 2000
)

func perdocList(m map[int][]int, n int) [][]int {
	l := make([][]int, n)
	for i := 0; i < n; i++ {
		l[i] = m[i]
	}
	return l
}

// GenSched chooses how a run is scheduled.
func GenSched(r *Rng) Sched {
	s := Sched{Seed: r.U64() >> 1, Rand: r.U64()>>1 | 1, Cap: 5000000}
	switch r.Pick(10, 40, 30, 12, 8) {
	case 0:
		s.Mode = 0
	case 1:
		s.Mode = 1
		s.P = Of[uint64](r, 32768, 16384, 8192, 4096, 2048, 512, 128, 32)
	case 2:
		s.Mode = 2
		s.Depth = uint64(r.In(0, 6))
		s.Horiz = Of[uint64](r, 30, 100, 300, 1000, 5000, 20000)
	case 3:
		s.Mode = 3
		s.P = Of[uint64](r, 65536, 32768, 8192, 1024)
	case 4:
		s.Mode = 4
		s.P = Of[uint64](r, 32768, 8192, 1024)
		s.Horiz = Of[uint64](r, 100, 1000, 10000)
	}
	if r.P(15) {
		s.Stall = Of[uint64](r, 20, 200, 2000)
	}
	return s
}

func hashName(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Clone makes a deep copy.
func (s *Scenario) Clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// Config is the form the simulator takes.
func (s Sched) Config() []uint64 {
	c := []uint64{s.Mode, s.Seed, s.Rand, s.P, s.Cap, s.Stall, s.Depth, s.Horiz, uint64(len(s.Devs) / 2)}
	for _, d := range s.Devs {
		c = append(c, uint64(d))
	}
	return c
}

var seedTexts = []string{
	`$`, `$.a`, `$..a`, `$.*`, `$..*`, `$[0]`, `$[-1]`, `$['a']`, `$["a","b"]`, `$[0,1,2]`, `$[1:2]`, `$[1:5:2]`, `$[::-1]`, `$[?(@.a)]`,
	`$[?(@.a == 1)]`, `$[?(@.a =~ /s[0-9]/)]`, `$..[?(@.price < 10)]`, `$.store.book[(@.length-1)]`, `$[?(length(@.a) > 2)]`,
	`$[?(@.a in [1,2,'x'])]`, `$[?(!@.a && -@.b < 2.5)]`, `$[?(@['x y'] == "z")]`, `$..['a','b'].c[*]`, `$[?(@.a =~ 'x+')]`, `$.a.b.c.d`,
	`$[?((@.a + 2) * 3 % 4 >= 1 || @.b nin $.c)]`, `$.'a'`, `$[?(@.a ~ /\/x/)]`, `$["\u00e9\ud83d\ude00"]`, `$[?(f(@,g(1),[2]))]`,
	`$[?(@.a =~ /[/)]`, `$[?(@.a =~ /(/)]`, `$[?(@ =~ /a**b(/)]`, `$[99999999999999999999]`, `$[-9223372036854775808]`, `$["\x"]`, `$["abc`, `$[?(1e5)]`,
	`$[?(1.5e)]`, `$[?(@.a.(b))]`, ``, `a`, `$.`, `$..`, `$[`, `$[]`, `$[,]`, `$[1,]`, `$[*,1]`, `$[?(@)`, `$[?(@.a ==)]`, `$.a b`, `$[1:2:3:4]`, `$$`, `$.a[?(1)(2)]`,
}

var badPool []string

// BadPool is a fixed list of texts, many of them invalid.
func BadPool() []string {
	if badPool != nil {
		return badPool
	}
	r := NewRng(12345)
	l := append([]string{}, seedTexts...)
	const alphabet = `$.[]()?@*,:'"/\&|=!<>~+-% 0129aexyz` + "\n\x01é"
	for len(l) < 1500 {
		b := []byte(seedTexts[r.N(len(seedTexts))])
		for k := r.In(1, 3); k > 0; k-- {
			switch r.N(4) {
			case 0:
				if len(b) > 0 {
					i := r.N(len(b))
					b = append(b[:i:i], b[i+1:]...)
				}
			case 1:
				i := r.N(len(b) + 1)
				b = append(b[:i:i], append([]byte{alphabet[r.N(len(alphabet))]}, b[i:]...)...)
			case 2:
				if len(b) > 0 {
					b[r.N(len(b))] = alphabet[r.N(len(alphabet))]
				}
			default:
				b = b[:r.N(len(b)+1)]
			}
		}
		l = append(l, string(b))
	}
	badPool = l
	return l
}

// Trim drops documents and paths that aren't used.
func (s *Scenario) Trim() *Scenario {
	if s.Grow != nil {
		return s
	}
	dm, pm := map[int]int{}, map[int]int{}
	c := *s
	c.Docs, c.Paths, c.Tasks = nil, nil, nil
	for _, t := range s.Tasks {
		ops := []Op{}
		for _, op := range t {
			if op.K != Pool && op.K != Parse {
				if _, ok := pm[op.P]; !ok {
					pm[op.P] = len(c.Paths)
					c.Paths = append(c.Paths, s.Paths[op.P])
				}
				op.P = pm[op.P]
			}
			if op.K == Eval || op.K == Compile {
				if _, ok := dm[op.D]; !ok {
					dm[op.D] = len(c.Docs)
					c.Docs = append(c.Docs, s.Docs[op.D])
				}
				op.D = dm[op.D]
			} else {
				op.D = 0
			}
			ops = append(ops, op)
		}
		c.Tasks = append(c.Tasks, ops)
	}
	return &c
}
