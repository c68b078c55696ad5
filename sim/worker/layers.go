//go:build layers

package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/forsyth/jsonpath/mach"
	"github.com/forsyth/jsonpath/paths"
	"verifsim/scen"
)

// layers are the parse trees and programs of a scenario's paths, which the tasks share, and
// what printing them gives with nothing else going on.
type layers struct {
	s     *scen.Scenario
	trees []paths.Path
	progs []*mach.Program
	wants map[scen.Op]string
}

// key is what an operation's text depends on.
func key(op scen.Op) scen.Op {
	return scen.Op{K: op.K, P: op.P}
}

func (l *layers) make(s *scen.Scenario) {
	l.s = s
	l.wants = map[scen.Op]string{}
	for i, p := range s.Paths {
		t := parse(p.Text)
		l.trees = append(l.trees, t)
		if s.Sched.Rand>>(i%32)&3 != 0 {
			t = parse(p.Text) // leave the shared one as it is, for the tasks to be the first
		}
		l.progs = append(l.progs, compileTree(t))
	}
	for _, t := range s.Tasks {
		for _, op := range t {
			k := key(op)
			if _, ok := l.wants[k]; ok {
				continue
			}
			// on trees and programs of their own
			switch op.K {
			case scen.Print:
				l.wants[k] = printTree(parse(s.Paths[op.P].Text))
			case scen.Listing:
				l.wants[k] = list(compileTree(parse(s.Paths[op.P].Text)))
			case scen.Script, scen.Parse:
				l.wants[k] = l.text(op)
			}
		}
	}
}

// finish looks at the trees and programs once more, when all is over.
func (l *layers) finish(x *scenRun) {
	for i := range l.trees {
		text := l.s.Paths[i].Text
		own := parse(text)
		if got, want := printTree(l.trees[i]), printTree(own); got != want {
			x.viol("layer-diff", -1, -1, "the parse tree of path %d, %s, in the end: %.300q; another: %.300q", i, text, got, want)
		}
		want := list(compileTree(own))
		if got := list(l.progs[i]); got != want {
			x.viol("layer-diff", -1, -1, "the program of path %d, %s, in the end: %.300q; another: %.300q", i, text, got, want)
		}
		if got := list(compileTree(l.trees[i])); got != want {
			x.viol("layer-diff", -1, -1, "the program made from the parse tree of path %d, %s, in the end: %.300q; another: %.300q", i, text, got, want)
		}
	}
}

// eval returns the function that evaluates the path.
func (l *layers) eval(op scen.Op) func(any) ([]any, error) {
	prog := l.progs[op.P]
	if op.Via == "tree" {
		prog = compileTree(l.trees[op.P])
	}
	if prog == nil {
		return nil
	}
	return prog.Run
}

// text does what the operation asks for, and returns the result as text.
func (l *layers) text(op scen.Op) string {
	switch op.K {
	case scen.Print:
		return printTree(l.trees[op.P])
	case scen.Listing:
		prog := l.progs[op.P]
		if op.Via == "tree" {
			prog = compileTree(l.trees[op.P])
		}
		return list(prog)
	case scen.Script:
		var sb strings.Builder
		for _, e := range l.s.Paths[op.P].Exprs() {
			sb.WriteString(script(e))
			sb.WriteByte('\n')
			runtime.SimYield()
		}
		return sb.String()
	case scen.Parse:
		t := scen.BadPool()[op.P]
		return tryParse(t) + "\n" + script(t)
	}
	return ""
}

func (l *layers) want(op scen.Op) string {
	return l.wants[key(op)]
}

func parse(text string) paths.Path {
	p, err := paths.ParsePath(text)
	if err != nil {
		return nil
	}
	return p
}

func compileTree(p paths.Path) *mach.Program {
	if p == nil {
		return nil
	}
	prog, err := mach.Compile(p)
	if err != nil {
		return nil
	}
	return prog
}

func tryParse(text string) (s string) {
	defer caught(&s)
	p, err := paths.ParsePath(text)
	if err != nil {
		return "error: " + err.Error()
	}
	return printTree(p)
}

func script(text string) (s string) {
	defer caught(&s)
	e, err := paths.ParseScriptExpression(text)
	if err != nil {
		return "error: " + err.Error()
	}
	var sb strings.Builder
	printVal(&sb, e)
	return sb.String()
}

func caught(s *string) {
	if e := recover(); e != nil {
		*s = "panic: " + fmt.Sprint(e)
	}
}

// list returns the listing of a program.
func list(prog *mach.Program) (s string) {
	defer caught(&s)
	if prog == nil {
		return "none"
	}
	return prog.String()
}

// printTree writes a tree out in full.
func printTree(p paths.Path) (s string) {
	defer caught(&s)
	var sb strings.Builder
	for _, st := range p {
		if st == nil {
			sb.WriteString("nil;")
			continue
		}
		_ = st.String() // may have addresses in it
		sb.WriteString(st.Op.GoString())
		sb.WriteByte('(')
		for i, a := range st.Args {
			if i > 0 {
				sb.WriteString(", ")
			}
			printVal(&sb, a)
		}
		sb.WriteString(");")
		runtime.SimYield()
	}
	return sb.String()
}

func printVal(sb *strings.Builder, v paths.Val) {
	switch v := v.(type) {
	case nil:
		sb.WriteString("nil")
	case *paths.Inner:
		sb.WriteString(v.Opcode().GoString())
		sb.WriteByte('(')
		for i := 0; ; i++ {
			k, ok := v.Kid(i)
			if !ok {
				break
			}
			if i > 0 {
				sb.WriteString(", ")
			}
			if k == nil {
				sb.WriteString("nil")
				continue
			}
			printVal(sb, k)
		}
		sb.WriteByte(')')
	case *paths.Slice:
		for i, e := range []paths.Val{v.Start, v.End, v.Stride} {
			if i > 0 {
				sb.WriteByte(':')
			}
			printVal(sb, e)
		}
	case paths.Expr:
		fmt.Fprintf(sb, "%s[%s]", v.Opcode().GoString(), v.String())
	default:
		fmt.Fprintf(sb, "%T[%s]", v, v.String())
	}
}
