package scen

// Violation is something that shouldn't have happened.
type Violation struct {
	Kind   string `json:"kind"`
	Task   int    `json:"task"`
	Op     int    `json:"op"`
	Detail string `json:"detail"`
}

type SimStat struct {
	Points    uint64   `json:"points"`
	Decisions uint64   `json:"decisions"`
	Switches  uint64   `json:"switches"`
	Spawned   uint64   `json:"spawned"`
	Hash      uint64   `json:"hash"`
	NS        int64    `json:"ns"`
	Jumps     uint64   `json:"jumps"`
	Idle      uint64   `json:"idle"`
	Rands     uint64   `json:"rands"`
	Live      int32    `json:"live"`
	Over      bool     `json:"over,omitempty"`
	Devs      []uint32 `json:"devs,omitempty"`
	DevsOver  bool     `json:"devsover,omitempty"`
}

// Out is the outcome of an evaluation.
type Out struct {
	Task int    `json:"task"`
	Op   int    `json:"op"`
	Err  string `json:"err,omitempty"`
	N    int    `json:"n"`
	Bag  uint64 `json:"bag"`
	List uint64 `json:"list"`
}

// Report is what happened in a run.
type Report struct {
	Viol      []Violation `json:"viol,omitempty"`
	Sim       SimStat     `json:"sim"`
	Tainted   bool        `json:"tainted,omitempty"`
	Evals     int         `json:"evals"`
	Errs      int         `json:"errs"`
	Values    int         `json:"values"`
	Compiles  int         `json:"compiles"`
	Pools     int         `json:"pools"`
	Layers    int         `json:"layers"`
	Scribs    int         `json:"scribs"`
	Muts      int         `json:"muts"`
	Edits     int         `json:"edits"`
	Pins      int         `json:"pins,omitempty"`
	Grows     int         `json:"grows,omitempty"`
	Growth    int64       `json:"growth,omitempty"`
	Limits    int         `json:"limits"`
	Unordered int         `json:"unordered"`
	Work      int         `json:"work"`
	Outs      []Out       `json:"outs,omitempty"`
}

type BadRun struct {
	N    int         `json:"n"`
	Viol []Violation `json:"viol"`
	Sim  SimStat     `json:"sim"`
}

// Summary is what happened in a batch of runs.
type Summary struct {
	Runs      int      `json:"runs"`
	Evals     int      `json:"evals"`
	Errs      int      `json:"errs"`
	Values    int      `json:"values"`
	Compiles  int      `json:"compiles"`
	Pools     int      `json:"pools"`
	Layers    int      `json:"layers"`
	Scribs    int      `json:"scribs"`
	Muts      int      `json:"muts"`
	Edits     int      `json:"edits"`
	Pins      int      `json:"pins,omitempty"`
	Grows     int      `json:"grows,omitempty"`     // documents of long lives
	MaxGrowth int64    `json:"maxgrowth,omitempty"` // bytes more after the second half of a long life
	Limits    int      `json:"limits"`
	Unordered int      `json:"unordered"`
	Points    uint64   `json:"points"`
	Decisions uint64   `json:"decisions"`
	Switches  uint64   `json:"switches"`
	Spawned   uint64   `json:"spawned"`
	NS        int64    `json:"ns"`
	Jumps     uint64   `json:"jumps"`
	Rands     uint64   `json:"rands"`
	MaxPoints uint64   `json:"maxpoints"`
	MaxTasks  uint64   `json:"maxtasks"`
	MaxRatio  float64  `json:"maxratio"` // points passed, of those allowed
	Modes     [5]int   `json:"modes"`
	Stalls    int      `json:"stalls"` // runs in which the clock may jump
	Tasks     int      `json:"tasks"`
	Other     []string `json:"other,omitempty"` // kinds seen that aren't the property's
	Hashes    []uint64 `json:"hashes"`          // of schedules with a choice
	Digest    uint64   `json:"digest"`          // of all schedules, in order
	Stopped   bool     `json:"stopped,omitempty"`
	Next      int      `json:"next,omitempty"`
	Bad       *BadRun  `json:"bad,omitempty"`
}

func (s *Summary) Add(n int, r *Report) {
	s.Runs++
	s.Evals += r.Evals
	s.Errs += r.Errs
	s.Values += r.Values
	s.Compiles += r.Compiles
	s.Pools += r.Pools
	s.Layers += r.Layers
	s.Scribs += r.Scribs
	s.Muts += r.Muts
	s.Edits += r.Edits
	s.Pins += r.Pins
	s.Grows += r.Grows
	s.MaxGrowth = max(s.MaxGrowth, r.Growth)
	s.Limits += r.Limits
	s.Unordered += r.Unordered
	s.Points += r.Sim.Points
	s.Decisions += r.Sim.Decisions
	s.Switches += r.Sim.Switches
	s.Spawned += r.Sim.Spawned
	s.NS += r.Sim.NS
	s.Jumps += r.Sim.Jumps
	s.Rands += r.Sim.Rands
	s.MaxPoints = max(s.MaxPoints, r.Sim.Points)
	s.MaxTasks = max(s.MaxTasks, r.Sim.Spawned)
	if r.Sim.Decisions > 0 {
		s.Hashes = append(s.Hashes, r.Sim.Hash)
	}
	s.Digest = Mix(s.Digest ^ r.Sim.Hash ^ Mix(r.Sim.Points) ^ Mix(uint64(r.Values)))
	for _, v := range r.Viol {
		if len(s.Other) < 50 {
			s.Other = append(s.Other, v.Kind)
		}
	}
}

var kinds = map[string][]string{
	"C01": {"wrong-result", "wrong-error", "error-text", "panic", "crash", "deadlock", "spin", "race"},
	"C02": {"race"},
	"C03": {"doc-modified", "result-changed", "wrong-result", "wrong-error"},
	"C04": {"deadlock", "leak", "spin", "panic", "crash"},
	"C05": {"wrong-result", "deadlock", "spin", "panic", "crash"},
	"C06": {"wrong-error", "partial", "error-text", "panic", "crash", "deadlock", "spin"},
	"C07": {"wrong-result", "wrong-error", "error-text", "panic", "crash", "deadlock", "spin"},
	"C08": {"wrong-result", "wrong-error", "panic", "crash", "deadlock", "spin"},
	"C17": {"pinned", "growth"},
	"C19": {"layer-diff", "wrong-result", "wrong-error", "error-text", "partial", "doc-modified", "panic", "crash", "deadlock", "spin", "race"},
	"C09": {"compile-diff", "rejected", "wrong-result", "wrong-error", "panic", "crash", "deadlock", "spin", "race"},
}

// Kinds returns the kinds of violation that break a property.
func Kinds(prop string) map[string]bool {
	m := map[string]bool{}
	for _, k := range kinds[prop] {
		m[k] = true
	}
	return m
}

// Merge adds another batch.
func (s *Summary) Merge(o *Summary) {
	s.Runs += o.Runs
	s.Evals += o.Evals
	s.Errs += o.Errs
	s.Values += o.Values
	s.Compiles += o.Compiles
	s.Pools += o.Pools
	s.Layers += o.Layers
	s.Scribs += o.Scribs
	s.Muts += o.Muts
	s.Edits += o.Edits
	s.Pins += o.Pins
	s.Grows += o.Grows
	s.MaxGrowth = max(s.MaxGrowth, o.MaxGrowth)
	s.Limits += o.Limits
	s.Unordered += o.Unordered
	s.Points += o.Points
	s.Decisions += o.Decisions
	s.Switches += o.Switches
	s.Spawned += o.Spawned
	s.NS += o.NS
	s.Jumps += o.Jumps
	s.Rands += o.Rands
	s.MaxPoints = max(s.MaxPoints, o.MaxPoints)
	s.MaxTasks = max(s.MaxTasks, o.MaxTasks)
	s.MaxRatio = max(s.MaxRatio, o.MaxRatio)
	for i := range s.Modes {
		s.Modes[i] += o.Modes[i]
	}
	s.Stalls += o.Stalls
	s.Tasks += o.Tasks
	for _, k := range o.Other {
		if len(s.Other) < 50 {
			s.Other = append(s.Other, k)
		}
	}
}
