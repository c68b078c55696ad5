package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"verifsim/model"
	"verifsim/scen"
)

// minimiser makes the scenarios of a finding smaller, as long as they show the same kind of violation.
type minimiser struct {
	c     *check
	f     *finding
	kinds map[string]bool
	until time.Time
	tries int
	last  *replayed
}

func (m *minimiser) left() bool { return time.Now().Before(m.until) && m.tries < 1500 }

// bad reports whether the scenarios show the violation.
func (m *minimiser) bad(l []*scen.Scenario) bool {
	m.tries++
	r, err := m.c.w.replay(m.f.Race, l)
	if err != nil {
		return false
	}
	v := r.find(m.kinds)
	if v == nil {
		return false
	}
	if needsSolo[m.c.id] {
		f := &finding{Property: m.c.id, Kind: m.f.Kind, Scens: l}
		// in the middle of minimising, a violation must not turn into one of another property
		if why, err := m.c.attribute(f, v); err != nil || why != "" {
			return false
		}
	}
	m.last = r
	return true
}

var needsSolo = map[string]bool{"C01": true, "C03": true, "C07": true, "C08": true, "C09": true, "C19": true}

func size(l []*scen.Scenario) string {
	t, o, d, p := 0, 0, 0, 0
	for _, s := range l {
		t += len(s.Tasks)
		for _, x := range s.Tasks {
			for _, op := range x {
				o += 1 + op.Rep
			}
		}
		for _, x := range s.Docs {
			d += len(x)
		}
		for _, x := range s.Paths {
			p += len(x.Text)
		}
	}
	return fmt.Sprintf("%d scenarios, %d tasks, %d operations, %d bytes of paths, %d bytes of documents", len(l), t, o, p, d)
}

func (m *minimiser) run() error {
	before := size(m.f.Scens)
	l := m.f.Scens
	l = m.history(l)
	s := l[len(l)-1]
	pre := l[: len(l)-1 : len(l)-1]
	try := func(t *scen.Scenario) bool {
		if !m.left() {
			return false
		}
		t = t.Trim()
		for k := 0; k < 3; k++ {
			u := *t
			if k > 0 {
				if len(pre) > 0 || len(u.Tasks) == 0 {
					break
				}
				u.Sched.Seed += uint64(k)
			}
			if m.bad(append(pre, &u)) {
				s = &u
				return true
			}
		}
		return false
	}
	for round := 0; round < 3 && m.left(); round++ {
		was := size([]*scen.Scenario{s})
		m.tasks(&s, try)
		m.flags(&s, try)
		m.paths(&s, try)
		m.docs(&s, try)
		if s.Sched.Stall > 0 {
			t := s.Clone()
			t.Sched.Stall = 0
			try(t)
		}
		if size([]*scen.Scenario{s}) == was {
			break
		}
	}
	s = m.schedule(pre, s)
	l = append(pre, s)
	// the replay must show it, in a new process
	r, err := m.c.w.replay(m.f.Race, l)
	if err != nil {
		return err
	}
	v := r.find(m.kinds)
	if v == nil {
		return fmt.Errorf("run %d: the minimised scenario does not reproduce the violation", m.f.Run)
	}
	m.f.Scens = l
	m.f.Detail = v.Detail
	if v.Kind == "race" {
		d := r.race
		if len(d) > 6000 {
			d = d[:6000]
		}
		m.f.Detail += "\n" + d
	}
	m.f.Size = fmt.Sprintf("before: %s; after: %s; %d replays", before, size(l), m.tries)
	for _, s := range l {
		m.f.Trace = append(m.f.Trace, describe(s)...)
	}
	return nil
}

// history drops earlier runs that aren't needed.
func (m *minimiser) history(l []*scen.Scenario) []*scen.Scenario {
	n := len(l) - 1
	for k := n; k >= 1 && m.left(); {
		cut := false
		for i := 0; i < len(l)-1 && m.left(); {
			j := i + k
			if j > len(l)-1 {
				j = len(l) - 1
			}
			t := append(append([]*scen.Scenario{}, l[:i]...), l[j:]...)
			if m.bad(t) {
				l = t
				cut = true
			} else {
				i = j
			}
		}
		if k == 1 && !cut {
			break
		}
		if k > 1 {
			k /= 2
		}
	}
	return l
}

func (m *minimiser) tasks(s **scen.Scenario, try func(*scen.Scenario) bool) {
	for k := len((*s).Tasks) / 2; k >= 1; k /= 2 {
		for i := 0; i < len((*s).Tasks); {
			t := (*s).Clone()
			j := i + k
			if j > len(t.Tasks) {
				j = len(t.Tasks)
			}
			t.Tasks = append(t.Tasks[:i:i], t.Tasks[j:]...)
			if len(t.Tasks) == 0 || !try(t) {
				i += k
			}
			if !m.left() {
				return
			}
		}
	}
	for ti := 0; ti < len((*s).Tasks); ti++ {
		for k := len((*s).Tasks[ti]); k >= 1; k /= 2 {
			for i := 0; i < len((*s).Tasks[ti]); {
				t := (*s).Clone()
				ops := t.Tasks[ti]
				j := i + k
				if j > len(ops) {
					j = len(ops)
				}
				t.Tasks[ti] = append(ops[:i:i], ops[j:]...)
				if !try(t) {
					i += k
				}
				if !m.left() {
					return
				}
			}
		}
	}
}

func (m *minimiser) flags(s **scen.Scenario, try func(*scen.Scenario) bool) {
	for ti := range (*s).Tasks {
		for i := range (*s).Tasks[ti] {
			for _, f := range []func(*scen.Op) bool{
				func(o *scen.Op) bool { x := o.Rep > 0; o.Rep = 0; return x },
				func(o *scen.Op) bool { x := o.Mut; o.Mut = false; return x },
				func(o *scen.Op) bool { x := o.Own && !o.Mut && o.Edit == 0; o.Own = o.Own && !x; return x },
				func(o *scen.Op) bool { x := o.Scrib; o.Scrib = false; return x },
				func(o *scen.Op) bool { x := o.Edit != 0; o.Edit = 0; return x },
				func(o *scen.Op) bool { x := o.Fresh; o.Fresh = false; return x },
				func(o *scen.Op) bool {
					x := o.Via == "tree"
					o.Via = strings.ReplaceAll(o.Via, "tree", "prog")
					return x
				},
			} {
				t := (*s).Clone()
				if ti < len(t.Tasks) && i < len(t.Tasks[ti]) && f(&t.Tasks[ti][i]) {
					try(t)
				}
				if !m.left() {
					return
				}
			}
		}
	}
}

func (m *minimiser) paths(s **scen.Scenario, try func(*scen.Scenario) bool) {
	set := func(t *scen.Scenario, p int, a model.Path) {
		t.Paths[p] = scen.PathSpec{AST: a, Text: a.Text(model.Plain)}
	}
	for p := 0; p < len((*s).Paths); p++ {
		t := (*s).Clone()
		set(t, p, t.Paths[p].AST)
		if t.Paths[p].Text != (*s).Paths[p].Text {
			try(t)
		}
		for i := 0; p < len((*s).Paths) && i < len((*s).Paths[p].AST); {
			t := (*s).Clone()
			a := t.Paths[p].AST
			set(t, p, append(a[:i:i], a[i+1:]...))
			if !try(t) {
				i++
			}
			if !m.left() {
				return
			}
		}
		// fewer alternatives, simpler expressions
		for i := 0; p < len((*s).Paths) && i < len((*s).Paths[p].AST); i++ {
			for j := 0; len((*s).Paths[p].AST[i].Sels) > 1 && j < len((*s).Paths[p].AST[i].Sels); {
				t := (*s).Clone()
				st := t.Paths[p].AST[i]
				st.Sels = append(st.Sels[:j:j], st.Sels[j+1:]...)
				set(t, p, t.Paths[p].AST)
				if !try(t) {
					j++
				}
				if !m.left() {
					return
				}
			}
			for again := true; again && m.left(); {
				again = false
				if (*s).Paths[p].AST[i].Ex == nil {
					break
				}
				for k := range (*s).Paths[p].AST[i].Ex.Kids {
					t := (*s).Clone()
					st := t.Paths[p].AST[i]
					st.Ex = st.Ex.Kids[k]
					set(t, p, t.Paths[p].AST)
					if try(t) {
						again = true
						break
					}
				}
			}
		}
	}
}

// docs makes the documents smaller.
func (m *minimiser) docs(s **scen.Scenario, try func(*scen.Scenario) bool) {
	for d := 0; d < len((*s).Docs) && m.left(); d++ {
		put := func(v any) bool {
			t := (*s).Clone()
			b, err := json.Marshal(v)
			if err != nil || d >= len(t.Docs) || len(b) >= len(t.Docs[d]) {
				return false
			}
			t.Docs[d] = string(b)
			return try(t)
		}
		var root any
		if json.Unmarshal([]byte((*s).Docs[d]), &root) != nil {
			continue
		}
		put(root)
		shrink(&root, &root, put, m.left)
	}
}

// shrink tries to remove parts of *v, a part of *root.
func shrink(root, v *any, put func(any) bool, left func() bool) {
	switch x := (*v).(type) {
	case []any:
		for k := len(x); k >= 1; k /= 2 {
			for i := 0; i < len(x) && left(); {
				j := i + k
				if j > len(x) {
					j = len(x)
				}
				y := append(append([]any{}, x[:i]...), x[j:]...)
				*v = y
				if put(*root) {
					x = y
				} else {
					*v = x
					i = j
				}
			}
		}
		for i := range x {
			if !left() {
				return
			}
			shrink(root, &x[i], put, left)
		}
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for k := len(ks); k >= 1; k /= 2 {
			for i := 0; i < len(ks) && left(); {
				j := i + k
				if j > len(ks) {
					j = len(ks)
				}
				gone := map[string]any{}
				for _, n := range ks[i:j] {
					gone[n] = x[n]
					delete(x, n)
				}
				if put(*root) {
					ks = append(ks[:i:i], ks[j:]...)
				} else {
					for n, e := range gone {
						x[n] = e
					}
					i = j
				}
			}
		}
		for _, k := range ks {
			if !left() {
				return
			}
			e := x[k]
			x[k] = nil
			var p any = e
			if structure(p) {
				// work on a copy of the slot
				shrink(root, slot(x, k, &p), func(r any) bool { x[k] = p; return put(r) }, left)
			}
			x[k] = p
		}
	}
}

func slot(m map[string]any, k string, p *any) *any {
	m[k] = *p
	return p
}

func structure(v any) bool {
	switch v.(type) {
	case []any, map[string]any:
		return true
	}
	return false
}

// schedule replaces the seeded schedule by the list of its deviations from the plain one, and drops those not needed.
func (m *minimiser) schedule(pre []*scen.Scenario, s *scen.Scenario) *scen.Scenario {
	m.until = time.Now().Add(12 * time.Second)
	m.tries = 0
	plain := *s
	plain.Sched = scen.Sched{Rand: s.Sched.Rand, Cap: s.Sched.Cap, Stall: s.Sched.Stall, Seed: s.Sched.Seed}
	if m.bad(append(pre, &plain)) {
		return &plain
	}
	r, err := m.c.w.replay(m.f.Race, append(pre, s))
	if err != nil || len(r.reports) == 0 || r.crashed {
		return s
	}
	st := r.reports[len(r.reports)-1].Sim
	if st.DevsOver || len(st.Devs) > 2*12000 {
		return s
	}
	with := func(d []uint32) *scen.Scenario {
		t := plain
		t.Sched.Devs = d
		return &t
	}
	devs := st.Devs
	if !m.bad(append(pre, with(devs))) {
		return s
	}
	for k := len(devs) / 2; k >= 1 && m.left(); k /= 2 {
		for i := 0; i < len(devs) && m.left(); {
			j := i + 2*k
			if j > len(devs) {
				j = len(devs)
			}
			t := append(append([]uint32{}, devs[:i]...), devs[j:]...)
			if m.bad(append(pre, with(t))) {
				devs = t
			} else {
				i = j
			}
		}
	}
	return with(devs)
}
