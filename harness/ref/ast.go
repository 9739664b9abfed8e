// Package ref is an independent reference model of the BCDice command language:
// its own parser, its own evaluator over recorded dice and its own reading of
// the messages. It shares no code with the repository under test.
package ref

import (
	"fmt"
	"math/big"
	"strings"
)

// Op is a node operator of an integer expression.
type Op int

const (
	Num Op = iota
	Neg
	Add
	Sub
	Mul
	Div  // truncating
	DivU // rounding up
	DivR // rounding half away from zero
	Roll // xDn
	Rand // [a...b]
	Sum  // display only: total[v1,v2,...]
)

// Expr is an expression tree.
type Expr struct {
	Op   Op
	N    *big.Int
	L, R *Expr
	Vals []*big.Int // Sum
}

func (e *Expr) isBin() bool { return e.Op >= Add && e.Op <= DivR }

var opText = map[Op]string{Add: "+", Sub: "-", Mul: "*", Div: "/", DivU: "/U", DivR: "/R"}

// Kind is the kind of a command.
type Kind int

const (
	KD Kind = iota
	KB
	KR
	KU
	KCalc
	KChoice
)

func (k Kind) String() string { return [...]string{"D", "B", "R", "U", "Calc", "Choice"}[k] }

// RollItem is one xBn / xRn / xUn.
type RollItem struct{ Num, Sides *Expr }

// Term is one signed term of a U roll bonus.
type Term struct {
	Neg bool
	E   *Expr
}

// Cmd is a parsed command.
type Cmd struct {
	Kind      Kind
	E         *Expr // D, Calc
	Rolls     []RollItem
	Threshold *Expr
	Bonus     []Term
	Cmp       string // "" without a success check
	Target    *Expr
	Items     []string
	Rest      string // text glued to the end of a Calc or Choice
}

// S renders the expression as a canonical S-expression.
func (e *Expr) S() string {
	if e == nil {
		return "nil"
	}
	switch e.Op {
	case Num:
		return e.N.String()
	case Neg:
		return "(- " + e.L.S() + ")"
	case Roll:
		return "(D " + e.L.S() + " " + e.R.S() + ")"
	case Rand:
		return "(... " + e.L.S() + " " + e.R.S() + ")"
	case Sum:
		vs := make([]string, len(e.Vals))
		for i, v := range e.Vals {
			vs[i] = v.String()
		}
		return fmt.Sprintf("(Sum %s : %s)", e.N, strings.Join(vs, " "))
	default:
		return "(" + opText[e.Op] + " " + e.L.S() + " " + e.R.S() + ")"
	}
}

// Size is the number of nodes.
func (e *Expr) Size() int {
	if e == nil {
		return 0
	}
	return 1 + e.L.Size() + e.R.Size()
}

// Count counts the nodes with the operator.
func (e *Expr) Count(op Op) int {
	if e == nil {
		return 0
	}
	n := 0
	if e.Op == op {
		n = 1
	}
	return n + e.L.Count(op) + e.R.Count(op)
}

// Normal rewrites the tree to the left-associated form that a display with
// minimal parentheses denotes. Only rewrites that are exact on integers are
// made: a+(b-c) = a+b-c and a*(b*c) = a*b*c. With lenient set, a*(b/c) is also
// rewritten to a*b/c, which is NOT exact (the recorded finding on C11).
func (e *Expr) Normal(lenient bool) *Expr {
	if e == nil {
		return nil
	}
	switch e.Op {
	case Num:
		if e.N.Sign() < 0 {
			return &Expr{Op: Neg, L: &Expr{Op: Num, N: new(big.Int).Neg(e.N)}}
		}
		return e
	case Sum:
		return e
	case Neg:
		return &Expr{Op: Neg, L: e.L.Normal(lenient)}
	case Add:
		return addInto(e.L.Normal(lenient), false, e.R, lenient)
	case Sub:
		return addInto(e.L.Normal(lenient), true, e.R, lenient)
	case Mul:
		return mulInto(e.L.Normal(lenient), e.R, lenient)
	default:
		return &Expr{Op: e.Op, L: e.L.Normal(lenient), R: e.R.Normal(lenient)}
	}
}

func addInto(l *Expr, neg bool, r *Expr, lenient bool) *Expr {
	switch r.Op {
	case Add:
		return addInto(addInto(l, neg, r.L, lenient), neg, r.R, lenient)
	case Sub:
		return addInto(addInto(l, neg, r.L, lenient), !neg, r.R, lenient)
	}
	op := Add
	if neg {
		op = Sub
	}
	return &Expr{Op: op, L: l, R: r.Normal(lenient)}
}

func mulInto(l *Expr, r *Expr, lenient bool) *Expr {
	switch r.Op {
	case Mul:
		return mulInto(mulInto(l, r.L, lenient), r.R, lenient)
	case Div, DivU, DivR:
		if lenient {
			return &Expr{Op: r.Op, L: mulInto(l, r.L, lenient), R: r.R.Normal(lenient)}
		}
	}
	return &Expr{Op: Mul, L: l, R: r.Normal(lenient)}
}

// SameDisplay tells whether shown denotes want: 0 no, 1 yes, 2 only through
// the inexact a*(b/c) rewrite.
func SameDisplay(shown, want *Expr) int {
	if shown.Normal(false).S() == want.Normal(false).S() {
		return 1
	}
	if shown.Normal(true).S() == want.Normal(true).S() {
		return 2
	}
	return 0
}
