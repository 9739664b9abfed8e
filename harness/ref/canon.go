package ref

import (
	"fmt"
	"strings"
)

// flatBonus lists the signed terms of a bonus.
func flatBonus(ts []Term) []string {
	var out []string
	var walk func(neg bool, e *Expr)
	walk = func(neg bool, e *Expr) {
		switch e.Op {
		case Add:
			walk(neg, e.L)
			walk(neg, e.R)
		case Sub:
			walk(neg, e.L)
			walk(!neg, e.R)
		default:
			s := "+"
			if neg {
				s = "-"
			}
			out = append(out, s+e.S())
		}
	}
	for _, t := range ts {
		walk(t.Neg, t.E)
	}
	return out
}

// Canon is a canonical form of a command up to the rewrites of Normal.
func (c *Cmd) Canon(lenient bool) string {
	var b strings.Builder
	b.WriteString(c.Kind.String())
	n := func(e *Expr) string {
		if e == nil {
			return "nil"
		}
		return e.Normal(lenient).S()
	}
	if c.E != nil {
		b.WriteString(" " + n(c.E))
	}
	for _, r := range c.Rolls {
		b.WriteString(" roll " + n(r.Num) + " " + n(r.Sides))
	}
	b.WriteString(" threshold " + n(c.Threshold))
	ts := make([]Term, len(c.Bonus))
	for i, t := range c.Bonus {
		ts[i] = Term{t.Neg, t.E.Normal(lenient)}
	}
	fmt.Fprintf(&b, " bonus %v cmp %s %s", flatBonus(ts), c.Cmp, n(c.Target))
	fmt.Fprintf(&b, " items %q", c.Items)
	return b.String()
}

func (e *Expr) sexp() string {
	switch e.Op {
	case Num:
		return e.N.String()
	case Neg:
		return "(- " + e.L.sexp() + ")"
	case Roll:
		return "(DRoll " + e.L.sexp() + " " + e.R.sexp() + ")"
	case Rand:
		return "(RandomNumber " + e.L.sexp() + " " + e.R.sexp() + ")"
	}
	return "(" + opText[e.Op] + " " + e.L.sexp() + " " + e.R.sexp() + ")"
}

// SExp is the S-expression of the command; a bonus is written as a list of
// signed terms, as SameSExp compares them.
func (c *Cmd) SExp() string {
	switch c.Kind {
	case KChoice:
		s := "(Choice"
		for _, i := range c.Items {
			s += fmt.Sprintf(" %q", i)
		}
		return s + ")"
	case KCalc:
		return "(Calc " + c.E.sexp() + ")"
	case KD:
		if c.Cmp == "" {
			return "(DRollExpr " + c.E.sexp() + ")"
		}
		return "(DRollComp (" + c.Cmp + " " + c.E.sexp() + " " + c.Target.sexp() + "))"
	}
	k := c.Kind.String()
	head := "(" + k + "RollList"
	if c.Kind == KU {
		head = "(RRollList"
	}
	if c.Kind != KB {
		if c.Threshold == nil {
			head += " nil"
		} else {
			head += " " + c.Threshold.sexp()
		}
	}
	for _, r := range c.Rolls {
		head += " (" + k + "Roll " + r.Num.sexp() + " " + r.Sides.sexp() + ")"
	}
	head += ")"
	if c.Kind == KU {
		b := ""
		if len(c.Bonus) > 0 {
			b = " bonus" + fmt.Sprint(sexpTerms(c.Bonus))
		}
		head = "(URollExpr " + head + b + ")"
	}
	if c.Cmp != "" {
		return "(" + k + "RollComp (" + c.Cmp + " " + head + " " + c.Target.sexp() + "))"
	}
	return head
}

func sexpTerms(ts []Term) []string {
	var out []string
	var walk func(neg bool, e *Expr)
	walk = func(neg bool, e *Expr) {
		switch {
		case e.Op == Add:
			walk(neg, e.L)
			walk(neg, e.R)
		case e.Op == Sub:
			walk(neg, e.L)
			walk(!neg, e.R)
		case neg:
			out = append(out, "-"+e.sexp())
		default:
			out = append(out, "+"+e.sexp())
		}
	}
	for _, t := range ts {
		walk(t.Neg, t.E)
	}
	return out
}

// node is a parsed S-expression.
type node struct {
	atom string
	kids []*node
}

func (n *node) String() string {
	if n.kids == nil {
		return n.atom
	}
	ss := make([]string, len(n.kids))
	for i, k := range n.kids {
		ss[i] = k.String()
	}
	return "(" + strings.Join(ss, " ") + ")"
}

func readSexp(s string, i int) (*node, int) {
	if i >= len(s) {
		return nil, -1
	}
	switch s[i] {
	case '(':
		n := &node{kids: []*node{}}
		i++
		for {
			k, j := readSexp(s, i)
			if j < 0 {
				return nil, -1
			}
			n.kids = append(n.kids, k)
			if j >= len(s) {
				return nil, -1
			}
			if s[j] == ')' {
				return n, j + 1
			}
			if s[j] != ' ' {
				return nil, -1
			}
			i = j + 1
		}
	case '"':
		for j := i + 1; j < len(s); j++ {
			if s[j] == '\\' {
				j++
			} else if s[j] == '"' {
				return &node{atom: s[i : j+1]}, j + 1
			}
		}
		return nil, -1
	}
	j := i
	for j < len(s) && s[j] != ' ' && s[j] != ')' && s[j] != '(' {
		j++
	}
	if j == i {
		return nil, -1
	}
	return &node{atom: s[i:j]}, j
}

func (n *node) head() string {
	if len(n.kids) > 0 {
		return n.kids[0].atom
	}
	return ""
}

// nodeTerms lists the signed terms of a bonus node.
func nodeTerms(neg bool, n *node, out *[]string) {
	if len(n.kids) == 3 && (n.head() == "+" || n.head() == "-") {
		nodeTerms(neg, n.kids[1], out)
		nodeTerms(neg != (n.head() == "-"), n.kids[2], out)
		return
	}
	s := "+"
	if neg {
		s = "-"
	}
	*out = append(*out, s+n.String())
}

// SameSExp compares an S-expression with the command.
func SameSExp(got string, c *Cmd) bool {
	if c.Kind != KU || len(c.Bonus) == 0 {
		return got == c.SExp()
	}
	n, j := readSexp(got, 0)
	if j != len(got) {
		return false
	}
	u := n
	if n.head() == "URollComp" {
		if len(n.kids) != 2 || len(n.kids[1].kids) != 3 {
			return false
		}
		u = n.kids[1].kids[1]
	}
	if u.head() != "URollExpr" || len(u.kids) != 2 || len(u.kids[1].kids) != 3 {
		return false
	}
	b := u.kids[1]
	if b.head() != "+" && b.head() != "-" {
		return false
	}
	var ts []string
	nodeTerms(b.head() == "-", b.kids[2], &ts)
	u.kids = []*node{u.kids[0], b.kids[1], {atom: "bonus" + fmt.Sprint(ts)}}
	return n.String() == c.SExp()
}
