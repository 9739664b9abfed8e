package ref

import (
	"unicode/utf8"

	"math"
	"math/big"
	"strings"
	"unicode"
)

// parser is a recursive descent parser over the runes of a command.
type parser struct {
	s        []rune
	display  bool // also accept total[v,...] terms
	overflow bool // an integer literal outside int64 was read
	memo     map[memoKey]memoVal
}

type memoKey struct{ rule, pos int }
type memoVal struct {
	e   *Expr
	end int
}

func (p *parser) at(i int) rune {
	if i < len(p.s) {
		return p.s[i]
	}
	return -1
}

func (p *parser) is(i int, lower rune) bool {
	r := p.at(i)
	return r == lower || unicode.ToLower(r) == lower
}

var maxInt = big.NewInt(math.MaxInt64)

func (p *parser) integer(i int) (*Expr, int) {
	j := i
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	if j == i {
		return nil, -1
	}
	n, _ := new(big.Int).SetString(string(p.s[i:j]), 10)
	if n.Cmp(maxInt) > 0 {
		p.overflow = true
	}
	return &Expr{Op: Num, N: n}, j
}

// Expression levels: which primaries are allowed.
const (
	lvInt  = iota // integers only
	lvRand        // integers and random numbers
	lvD           // integers, random numbers and D rolls
)

func (p *parser) additive(lv, i int) (*Expr, int) {
	k := memoKey{lv*10 + 1, i}
	if v, ok := p.memo[k]; ok {
		return v.e, v.end
	}
	e, j := p.additive0(lv, i)
	p.memo[k] = memoVal{e, j}
	return e, j
}

func (p *parser) additive0(lv, i int) (*Expr, int) {
	l, j := p.multitive(lv, i)
	if j < 0 {
		return nil, -1
	}
	for {
		var op Op
		switch p.at(j) {
		case '+':
			op = Add
		case '-':
			op = Sub
		default:
			return l, j
		}
		r, k := p.multitive(lv, j+1)
		if k < 0 {
			return l, j
		}
		l, j = &Expr{Op: op, L: l, R: r}, k
	}
}

func (p *parser) multitive(lv, i int) (*Expr, int) {
	l, j := p.primary(lv, i)
	if j < 0 {
		return nil, -1
	}
	for {
		var op Op
		switch p.at(j) {
		case '*':
			op = Mul
		case '/':
			op = Div
		default:
			return l, j
		}
		r, k := p.primary(lv, j+1)
		if k < 0 {
			return l, j
		}
		if op == Div {
			if p.is(k, 'u') {
				op, k = DivU, k+1
			} else if p.is(k, 'r') {
				op, k = DivR, k+1
			}
		}
		l, j = &Expr{Op: op, L: l, R: r}, k
	}
}

func (p *parser) primary(lv, i int) (*Expr, int) {
	k := memoKey{lv*10 + 2, i}
	if v, ok := p.memo[k]; ok {
		return v.e, v.end
	}
	e, j := p.primary0(lv, i)
	p.memo[k] = memoVal{e, j}
	return e, j
}

func (p *parser) primary0(lv, i int) (*Expr, int) {
	if lv == lvD {
		if n, j := p.operand(i); j >= 0 && p.is(j, 'd') {
			if s, k := p.operand(j + 1); k >= 0 {
				return &Expr{Op: Roll, L: n, R: s}, k
			}
		}
	}
	if p.display {
		if e, j := p.sumResult(i); j >= 0 {
			return e, j
		}
	}
	if lv >= lvRand {
		if e, j := p.random(i); j >= 0 {
			return e, j
		}
	}
	if e, j := p.integer(i); j >= 0 {
		return e, j
	}
	switch p.at(i) {
	case '+':
		return p.primary(lv, i+1)
	case '-':
		e, j := p.primary(lv, i+1)
		if j < 0 {
			return nil, -1
		}
		return &Expr{Op: Neg, L: e}, j
	case '(':
		e, j := p.additive(lv, i+1)
		if j < 0 || p.at(j) != ')' {
			return nil, -1
		}
		return e, j + 1
	}
	return nil, -1
}

// operand of a roll: an integer, a random number or a parenthesized expression.
func (p *parser) operand(i int) (*Expr, int) {
	if e, j := p.integer(i); j >= 0 {
		return e, j
	}
	if e, j := p.random(i); j >= 0 {
		return e, j
	}
	if p.at(i) == '(' {
		e, j := p.additive(lvRand, i+1)
		if j >= 0 && p.at(j) == ')' {
			return e, j + 1
		}
	}
	return nil, -1
}

func (p *parser) random(i int) (*Expr, int) {
	if p.at(i) != '[' {
		return nil, -1
	}
	l, j := p.randomOperand(i + 1)
	if j < 0 || p.at(j) != '.' || p.at(j+1) != '.' || p.at(j+2) != '.' {
		return nil, -1
	}
	r, k := p.randomOperand(j + 3)
	if k < 0 || p.at(k) != ']' {
		return nil, -1
	}
	return &Expr{Op: Rand, L: l, R: r}, k + 1
}

func (p *parser) randomOperand(i int) (*Expr, int) {
	if e, j := p.integer(i); j >= 0 {
		return e, j
	}
	if p.at(i) == '(' {
		e, j := p.additive(lvInt, i+1)
		if j >= 0 && p.at(j) == ')' {
			return e, j + 1
		}
	}
	return nil, -1
}

// sumResult reads total[v1,v2,...].
func (p *parser) sumResult(i int) (*Expr, int) {
	t, j := p.integer(i)
	if j < 0 || p.at(j) != '[' {
		return nil, -1
	}
	e := &Expr{Op: Sum, N: t.N}
	for {
		v, k := p.integer(j + 1)
		if k < 0 {
			return nil, -1
		}
		e.Vals = append(e.Vals, v.N)
		j = k
		switch p.at(j) {
		case ',':
			continue
		case ']':
			return e, j + 1
		}
		return nil, -1
	}
}

func (p *parser) compareOp(i int) (string, int) {
	switch p.at(i) {
	case '=':
		return "=", i + 1
	case '<':
		switch p.at(i + 1) {
		case '>':
			return "<>", i + 2
		case '=':
			return "<=", i + 2
		}
		return "<", i + 1
	case '>':
		if p.at(i+1) == '=' {
			return ">=", i + 2
		}
		return ">", i + 1
	}
	return "", -1
}

// rollList reads x?n+x?n+...[threshold] for the letter ?.
func (p *parser) rollList(i int, letter rune, threshold bool) (*Cmd, int) {
	c := &Cmd{}
	one := func(i int) (RollItem, int) {
		n, j := p.operand(i)
		if j < 0 || !p.is(j, letter) {
			return RollItem{}, -1
		}
		s, k := p.operand(j + 1)
		if k < 0 {
			return RollItem{}, -1
		}
		return RollItem{n, s}, k
	}
	r, j := one(i)
	if j < 0 {
		return nil, -1
	}
	c.Rolls = append(c.Rolls, r)
	for p.at(j) == '+' {
		r, k := one(j + 1)
		if k < 0 {
			break
		}
		c.Rolls = append(c.Rolls, r)
		j = k
	}
	if threshold && p.at(j) == '[' {
		t, k := p.additive(lvInt, j+1)
		if k >= 0 && p.at(k) == ']' {
			c.Threshold = t
			j = k + 1
		}
	}
	return c, j
}

// check reads an optional success check up to the end of the text.
func (p *parser) check(c *Cmd, i int) bool {
	if i == len(p.s) {
		return true
	}
	op, j := p.compareOp(i)
	if j < 0 {
		return false
	}
	t, k := p.additive(lvInt, j)
	if k != len(p.s) {
		return false
	}
	c.Cmp, c.Target = op, t
	return true
}

func (p *parser) choice() *Cmd {
	const head = "choice["
	for i, r := range head {
		if !p.is(i, r) {
			return nil
		}
	}
	end := -1
	for i := len(head); i < len(p.s); i++ {
		if p.s[i] == ']' {
			end = i
			break
		}
	}
	if end < 0 {
		return nil
	}
	c := &Cmd{Kind: KChoice, Rest: string(p.s[end+1:])}
	raw := strings.Split(string(p.s[len(head):end]), ",")
	blank := func(s string) bool {
		for _, r := range s {
			if !unicode.Is(unicode.Z, r) {
				return false
			}
		}
		return true
	}
	for i, s := range raw {
		if blank(s) {
			if i == len(raw)-1 && i > 0 { // one trailing comma is allowed
				break
			}
			return nil
		}
		c.Items = append(c.Items, strings.TrimSpace(s))
	}
	return c
}

// Parse reads a complete command. It returns nil if the text is not one.
// overflow reports a literal that does not fit into 64 bits in an otherwise
// well-formed command; the command must then be refused.
func Parse(s string) (c *Cmd, overflow bool) {
	if !utf8.ValidString(s) {
		return nil, false
	}
	p := &parser{s: []rune(s), memo: map[memoKey]memoVal{}}
	if c := p.choice(); c != nil {
		return c, false
	}
	if p.is(0, 'c') && p.at(1) == '(' {
		e, j := p.additive(lvInt, 2)
		if j >= 0 && p.at(j) == ')' {
			return &Cmd{Kind: KCalc, E: e, Rest: string(p.s[j+1:])}, p.overflow
		}
	}
	if c, j := p.rollList(0, 'b', false); j >= 0 && p.check(c, j) {
		c.Kind = KB
		return c, p.overflow
	}
	if c, j := p.rollList(0, 'r', true); j >= 0 && p.check(c, j) {
		c.Kind = KR
		return c, p.overflow
	}
	if c, j := p.rollList(0, 'u', true); j >= 0 {
		for p.at(j) == '+' || p.at(j) == '-' {
			t, k := p.multitive(lvInt, j+1)
			if k < 0 {
				break
			}
			c.Bonus = append(c.Bonus, Term{p.at(j) == '-', t})
			j = k
		}
		if p.check(c, j) {
			c.Kind = KU
			return c, p.overflow
		}
	}
	if e, j := p.additive(lvD, 0); j >= 0 {
		c := &Cmd{Kind: KD, E: e}
		if e.Count(Roll)+e.Count(Rand) > 0 && p.check(c, j) {
			return c, p.overflow
		}
	}
	return nil, false
}

// ParseDisplay reads an expression of a message: an expression that may hold
// total[v,...] terms.
func ParseDisplay(s string) *Expr {
	p := &parser{s: []rune(s), display: true, memo: map[memoKey]memoVal{}}
	e, j := p.additive(lvD, 0)
	if j != len(p.s) {
		return nil
	}
	return e
}
