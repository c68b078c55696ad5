// Package model is an independent reference for paths: syntax trees, their text, and a direct
// tree-walking interpreter. It uses nothing of the code under test.
package model

import (
	"fmt"
	"strconv"
	"strings"
)

// Path is a list of steps from the root.
type Path []*Step

// Step kinds.
const (
	Member = "member" // .name  (or ..name)
	Wild   = "wild"   // .* or [*]
	Select = "select" // [one of Sels] or [union of Sels]; Dot: .int
	Filter = "filter" // [?(Ex)]
	Exp    = "exp"    // [(Ex)] or .(Ex)
)

type Step struct {
	Kind string `json:"k"`
	Nest bool   `json:"nest,omitempty"`
	Dot  bool   `json:"dot,omitempty"` // written with . not []
	Sels []*Sel `json:"sels,omitempty"`
	Ex   *Expr  `json:"ex,omitempty"`
}

// Sel is an element of a subscript: T is int, str, name or slice.
type Sel struct {
	T      string `json:"t"`
	I      int64  `json:"i,omitempty"`
	S      string `json:"s,omitempty"`
	Start  *int64 `json:"a,omitempty"`
	End    *int64 `json:"b,omitempty"`
	Stride *int64 `json:"c,omitempty"`
}

// Expr is an expression; see eval for the operators.
type Expr struct {
	Op   string  `json:"op"`
	Kids []*Expr `json:"kids,omitempty"`
	S    string  `json:"s,omitempty"`
	I    int64   `json:"i,omitempty"`
	F    float64 `json:"f,omitempty"`
}

// Style varies the text: a source of small numbers.
type Style func(n int) int

// Plain is the style without variation.
func Plain(int) int { return 0 }

// Text returns source text for the path.
func (p Path) Text(st Style) string {
	var sb strings.Builder
	sb.WriteByte('$')
	sp := func() {
		if st(12) == 1 {
			sb.WriteByte(" \t\n"[st(3)])
		}
	}
	for _, s := range p {
		sp()
		dots := "."
		if s.Nest {
			dots = ".."
		}
		switch s.Kind {
		case Member:
			sb.WriteString(dots)
			sp()
			sb.WriteString(s.Sels[0].S)
		case Wild:
			if s.Dot {
				sb.WriteString(dots)
				sb.WriteByte('*')
			} else {
				if s.Nest {
					sb.WriteString(dots)
				}
				sb.WriteString("[")
				sp()
				sb.WriteString("*")
				sp()
				sb.WriteString("]")
			}
		case Select:
			if s.Dot {
				sb.WriteString(dots)
				sb.WriteString(strconv.FormatInt(s.Sels[0].I, 10))
				break
			}
			if s.Nest {
				sb.WriteString(dots)
			}
			sb.WriteByte('[')
			for i, x := range s.Sels {
				if i > 0 {
					sp()
					sb.WriteByte(',')
				}
				sp()
				sb.WriteString(x.text(st))
			}
			sp()
			sb.WriteByte(']')
		case Filter:
			if s.Nest {
				sb.WriteString(dots)
			}
			sb.WriteString("[")
			sp()
			sb.WriteString("?(")
			s.Ex.text(&sb, st, 0)
			sb.WriteByte(')')
			sp()
			sb.WriteByte(']')
		case Exp:
			if s.Dot {
				sb.WriteString(dots)
				sb.WriteByte('(')
				s.Ex.text(&sb, st, 0)
				sb.WriteByte(')')
				break
			}
			if s.Nest {
				sb.WriteString(dots)
			}
			sb.WriteString("[(")
			s.Ex.text(&sb, st, 0)
			sb.WriteString(")]")
		default:
			panic("step " + s.Kind)
		}
	}
	return sb.String()
}

func (s *Sel) text(st Style) string {
	switch s.T {
	case "int":
		return strconv.FormatInt(s.I, 10)
	case "name":
		return s.S
	case "str":
		return quote(s.S, st)
	case "slice":
		n := func(p *int64) string {
			if p == nil {
				return ""
			}
			return strconv.FormatInt(*p, 10)
		}
		t := n(s.Start) + ":" + n(s.End)
		if s.Stride != nil {
			t += ":" + n(s.Stride)
		} else if st(8) == 1 {
			t += ":"
		}
		return t
	}
	panic("sel " + s.T)
}

func quote(s string, st Style) string {
	q := byte('\'')
	if st(2) == 1 {
		q = '"'
	}
	var sb strings.Builder
	sb.WriteByte(q)
	for _, r := range s {
		switch {
		case r == rune(q) || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r == '\n':
			sb.WriteString(`\n`)
		case r == '\t':
			sb.WriteString(`\t`)
		case r < 0x20:
			fmt.Fprintf(&sb, `\u%04x`, r)
		default:
			if r < 0x10000 && st(20) == 1 {
				fmt.Fprintf(&sb, `\u%04x`, r)
			} else {
				sb.WriteRune(r)
			}
		}
	}
	sb.WriteByte(q)
	return sb.String()
}

var prec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "=~": 4, "in": 4, "nin": 4,
	"+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

func (e *Expr) text(sb *strings.Builder, st Style, pri int) {
	if p, ok := prec[e.Op]; ok {
		paren := p < pri || st(15) == 1
		if paren {
			sb.WriteByte('(')
		}
		e.Kids[0].text(sb, st, p)
		op := e.Op
		if op == "=~" && st(4) == 1 {
			op = "~"
		}
		if op == "in" || op == "nin" || st(2) == 1 {
			op = " " + op + " "
		}
		// keep "/ /" and the like apart
		if op == "/" || op == "~" || op == "=~" {
			op += " "
		}
		sb.WriteString(op)
		e.Kids[1].text(sb, st, p+1)
		if paren {
			sb.WriteByte(')')
		}
		return
	}
	switch e.Op {
	case "int":
		sb.WriteString(strconv.FormatInt(e.I, 10))
	case "real":
		t := strconv.FormatFloat(e.F, 'f', -1, 64)
		if !strings.Contains(t, ".") {
			t += ".0"
		}
		sb.WriteString(t)
	case "str":
		sb.WriteString(quote(e.S, st))
	case "true", "false", "null":
		sb.WriteString(e.Op)
	case "root":
		sb.WriteByte('$')
	case "cur":
		sb.WriteByte('@')
	case "re":
		sb.WriteByte('/')
		sb.WriteString(strings.ReplaceAll(e.S, "/", `\/`))
		sb.WriteByte('/')
	case "dot":
		e.Kids[0].primary(sb, st)
		sb.WriteByte('.')
		sb.WriteString(e.S)
	case "idx":
		e.Kids[0].primary(sb, st)
		sb.WriteByte('[')
		e.Kids[1].text(sb, st, 0)
		sb.WriteByte(']')
	case "neg", "not":
		sb.WriteByte(map[string]byte{"neg": '-', "not": '!'}[e.Op])
		k := e.Kids[0]
		k.primary(sb, st)
	case "array", "call":
		sb.WriteString(e.S)
		open, end := byte('['), byte(']')
		if e.Op == "call" {
			open, end = '(', ')'
		}
		sb.WriteByte(open)
		for i, k := range e.Kids {
			if i > 0 {
				sb.WriteByte(',')
				if st(3) == 1 {
					sb.WriteByte(' ')
				}
			}
			k.text(sb, st, 0)
		}
		sb.WriteByte(end)
	default:
		panic("expr " + e.Op)
	}
}

// primary writes e so that it can be followed by a postfix operator or preceded by a unary one.
func (e *Expr) primary(sb *strings.Builder, st Style) {
	switch e.Op {
	case "root", "cur", "dot", "idx", "call", "array", "str", "int", "true", "false", "null":
		e.text(sb, st, 0)
	default:
		sb.WriteByte('(')
		e.text(sb, st, 0)
		sb.WriteByte(')')
	}
}

// Text returns source text for the expression.
func (e *Expr) Text(st Style) string {
	var sb strings.Builder
	e.text(&sb, st, 0)
	return sb.String()
}

// Walk calls f for e and all its subexpressions.
func (e *Expr) Walk(f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, k := range e.Kids {
		k.Walk(f)
	}
}
