package ref

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// MaxDice is the number of dice that one command may roll.
const MaxDice = 1000000

// Verdict tells what an implementation may do with a command.
type Verdict int

const (
	Accept    Verdict = iota // a result is required
	MayRefuse                // an intermediate value leaves the 64-bit range: exact result or error
	Refuse                   // an error is required
)

func (v Verdict) String() string { return [...]string{"accept", "may refuse", "refuse"}[v] }

// Part is an expected part of the message: either an exact text or an
// expression between two exact texts.
type Part struct {
	Pre  string
	Expr *Expr
	Post string
}

// Outcome is what the model derives from a command and the dice it was given.
type Outcome struct {
	Verdict Verdict
	Reason  string
	Draws   int // dice drawn
	Parts   []Part
	Success string // "UNSPECIFIED", "SUCCESS", "FAILURE"
	// Facts for coverage counting.
	Rerolls  int
	Stopped  int // chains or queues cut off by the limit
	Groups   int
	NumSucc  int
	Refused2 bool // the reroll threshold was refused with a message
	Total    *big.Int
	Dice     [][]*big.Int // B: all values in one group; R, U: the groups
	Mod      *big.Int     // U: the value of the bonus
	Item     string       // Choice
}

// Source gives the dice. It returns false if no further die was recorded or if
// the recorded die was asked for with another number of sides.
type Source interface {
	Next(sides *big.Int) (int64, bool)
}

// refusal stops the evaluation.
type refusal struct{ why string }

// Mismatch is raised when the model needs a die that was not drawn.
type Mismatch struct {
	Index int
	Sides string
}

type machine struct {
	src   Source
	draws int
	may   bool
	late  string // a refusal that takes effect after all dice are drawn
	max   int    // rerolls
}

var (
	minI = big.NewInt(math.MinInt64)
	maxI = big.NewInt(math.MaxInt64)
	one  = big.NewInt(1)
)

func fits(v *big.Int) bool { return v.Cmp(minI) >= 0 && v.Cmp(maxI) <= 0 }

func (m *machine) seen(v *big.Int) *big.Int {
	if !fits(v) {
		m.may = true
	}
	return v
}

func (m *machine) need(v *big.Int, what string) *big.Int {
	if !fits(v) {
		panic(refusal{what + " does not fit into 64 bits"})
	}
	return v
}

func (m *machine) die(sides *big.Int) *big.Int {
	v, ok := m.src.Next(sides)
	if !ok {
		panic(Mismatch{m.draws, sides.String()})
	}
	m.draws++
	return big.NewInt(v)
}

func (m *machine) checkRoll(num, sides *big.Int) int64 {
	if sides.Cmp(one) < 0 {
		panic(refusal{"fewer than one side"})
	}
	if num.Cmp(one) < 0 {
		panic(refusal{"fewer than one die"})
	}
	if num.Cmp(big.NewInt(int64(MaxDice-m.draws))) > 0 {
		panic(refusal{"too many dice"})
	}
	return num.Int64()
}

func (m *machine) roll(num, sides *big.Int) []*big.Int {
	n := m.checkRoll(num, sides)
	vs := make([]*big.Int, n)
	for i := range vs {
		vs[i] = m.die(sides)
	}
	return vs
}

// Quo divides with one of the rounding methods.
func Quo(op Op, a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() == 0 {
		return q
	}
	up := a.Sign() == b.Sign() // the exact quotient is positive
	switch op {
	case DivU: // toward positive infinity
		if up {
			q.Add(q, one)
		}
	case DivR: // half away from zero
		twice := new(big.Int).Lsh(new(big.Int).Abs(r), 1)
		if twice.CmpAbs(b) >= 0 {
			if up {
				q.Add(q, one)
			} else {
				q.Sub(q, one)
			}
		}
	}
	return q
}

// value evaluates an expression without D rolls; random numbers are drawn.
func (m *machine) value(e *Expr) *big.Int {
	switch e.Op {
	case Num, Sum:
		return e.N
	case Neg:
		return m.seen(new(big.Int).Neg(m.value(e.L)))
	case Rand:
		return m.random(e)
	}
	a := m.value(e.L)
	b := m.value(e.R)
	switch e.Op {
	case Add:
		return m.seen(new(big.Int).Add(a, b))
	case Sub:
		return m.seen(new(big.Int).Sub(a, b))
	case Mul:
		return m.seen(new(big.Int).Mul(a, b))
	case Div, DivU, DivR:
		if b.Sign() == 0 {
			panic(refusal{"division by zero"})
		}
		return m.seen(Quo(e.Op, a, b))
	}
	panic(fmt.Sprintf("value of %s", e.S()))
}

func (m *machine) random(e *Expr) *big.Int {
	a := m.need(m.value(e.L), "minimum")
	b := m.need(m.value(e.R), "maximum")
	if a.Cmp(b) >= 0 {
		panic(refusal{"minimum is not below maximum"})
	}
	sides := new(big.Int).Sub(b, a)
	sides.Add(sides, one)
	m.need(sides, "width of the range")
	m.checkRoll(one, sides)
	v := m.die(sides)
	v.Add(v, a)
	return v.Sub(v, one)
}

func num(v *big.Int) *Expr { return &Expr{Op: Num, N: v} }

// args evaluates the arguments of the rolls and the random numbers of a D roll
// expression, left to right.
func (m *machine) args(e *Expr) *Expr {
	switch e.Op {
	case Num, Sum:
		return e
	case Rand:
		return num(m.random(e))
	case Roll:
		n := m.need(m.value(e.L), "number of dice")
		s := m.need(m.value(e.R), "number of sides")
		return &Expr{Op: Roll, L: num(n), R: num(s)}
	case Neg:
		return &Expr{Op: Neg, L: m.args(e.L)}
	}
	l := m.args(e.L)
	r := m.args(e.R)
	return &Expr{Op: e.Op, L: l, R: r}
}

func (m *machine) throw(e *Expr) *Expr {
	switch e.Op {
	case Num, Sum:
		return e
	case Roll:
		vs := m.roll(e.L.N, e.R.N)
		t := new(big.Int)
		for _, v := range vs {
			t.Add(t, v)
		}
		if !fits(t) {
			m.late = "the sum of the dice does not fit into 64 bits"
		}
		return &Expr{Op: Sum, N: t, Vals: vs}
	case Neg:
		return &Expr{Op: Neg, L: m.throw(e.L)}
	}
	l := m.throw(e.L)
	r := m.throw(e.R)
	return &Expr{Op: e.Op, L: l, R: r}
}

// Compare applies a comparison operator.
func Compare(op string, a, b *big.Int) bool {
	c := a.Cmp(b)
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	}
	panic("operator " + op)
}

func text(s string) Part { return Part{Pre: s} }

// Messages of refused reroll thresholds.
const (
	MsgRMissing = "2R6>=5 あるいは 2R6[5] のように振り足し目標値を指定してください"
	MsgUMissing = "2U6[5] のように振り足し目標値を指定してください"
	MsgTooSmall = "振り足し目標値として2以上の整数を指定してください"
)

type rolled struct{ num, sides *big.Int }

func (m *machine) rollArgs(items []RollItem) []rolled {
	rs := make([]rolled, len(items))
	for i, it := range items {
		rs[i].num = m.need(m.value(it.Num), "number of dice")
		rs[i].sides = m.need(m.value(it.Sides), "number of sides")
	}
	return rs
}

func listText(rs []rolled, letter string) string {
	ss := make([]string, len(rs))
	for i, r := range rs {
		ss[i] = r.num.String() + letter + r.sides.String()
	}
	return strings.Join(ss, "+")
}

func join(vs []*big.Int, sep string) string {
	var b strings.Builder
	for i, v := range vs {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(v.String())
	}
	return b.String()
}

func signed(v *big.Int) string {
	if v.Sign() > 0 {
		return "+" + v.String()
	}
	if v.Sign() < 0 {
		return v.String()
	}
	return ""
}

func count(op string, vs []*big.Int, target *big.Int) int {
	n := 0
	for _, v := range vs {
		if Compare(op, v, target) {
			n++
		}
	}
	return n
}

// direct evaluates an expression with D rolls in one pass: whatever needs a
// die draws it in its place.
func (m *machine) direct(e *Expr) *big.Int {
	switch e.Op {
	case Roll:
		n := m.need(m.value(e.L), "number of dice")
		s := m.need(m.value(e.R), "number of sides")
		t := new(big.Int)
		for _, v := range m.roll(n, s) {
			t.Add(t, v)
		}
		return m.need(t, "sum of the dice")
	case Neg:
		return m.seen(new(big.Int).Neg(m.direct(e.L)))
	case Num, Sum, Rand:
		return m.value(e)
	}
	a := m.direct(e.L)
	b := m.direct(e.R)
	return m.value(&Expr{Op: e.Op, L: num(a), R: num(b)})
}

// RunDirect is Run for an evaluation of the parsed command in one pass: the
// arguments of a roll are evaluated when it is rolled. R and U rolls must not
// have random numbers.
func RunDirect(c *Cmd, src Source, maxRerolls int) (o Outcome) {
	if c.Kind != KD && c.Kind != KB {
		o = Run(c, src, maxRerolls)
		if o.Refused2 && o.Verdict != Refuse {
			o.Verdict, o.Reason = Refuse, "no reroll threshold"
		}
		return o
	}
	m := &machine{src: src, max: maxRerolls}
	o.Success = "UNSPECIFIED"
	defer func() {
		o.Draws = m.draws
		if r := recover(); r != nil {
			ref, ok := r.(refusal)
			if !ok {
				panic(r)
			}
			o.Verdict, o.Reason = Refuse, ref.why
			return
		}
		if m.may {
			o.Verdict, o.Reason = MayRefuse, "an intermediate value does not fit into 64 bits"
		}
	}()
	if c.Kind == KD {
		o.Total = m.need(m.direct(c.E), "result")
		if target, _ := m.target(c); target != nil {
			o.Success = "FAILURE"
			if Compare(c.Cmp, o.Total, target) {
				o.Success = "SUCCESS"
			}
		}
		return o
	}
	var all []*big.Int
	for _, it := range c.Rolls {
		n := m.need(m.value(it.Num), "number of dice")
		s := m.need(m.value(it.Sides), "number of sides")
		all = append(all, m.roll(n, s)...)
	}
	o.Dice = [][]*big.Int{all}
	if target, _ := m.target(c); target != nil {
		o.NumSucc = count(c.Cmp, all, target)
	}
	return o
}

// HasRandom tells whether a command has random numbers.
func (c *Cmd) HasRandom() bool {
	n := 0
	for _, e := range []*Expr{c.E, c.Threshold, c.Target} {
		if e != nil {
			n += e.Count(Rand)
		}
	}
	for _, r := range c.Rolls {
		n += r.Num.Count(Rand) + r.Sides.Count(Rand)
	}
	for _, t := range c.Bonus {
		n += t.E.Count(Rand)
	}
	return n > 0
}

// Run evaluates the command on the dice of src. It panics with Mismatch if src
// runs dry.
func Run(c *Cmd, src Source, maxRerolls int) (o Outcome) {
	m := &machine{src: src, max: maxRerolls}
	o.Success = "UNSPECIFIED"
	defer func() {
		o.Draws = m.draws
		if r := recover(); r != nil {
			ref, ok := r.(refusal)
			if !ok {
				panic(r)
			}
			o.Verdict, o.Reason, o.Parts = Refuse, ref.why, nil
			return
		}
		if m.late != "" {
			o.Verdict, o.Reason, o.Parts = Refuse, m.late, nil
			return
		}
		if m.may {
			o.Verdict = MayRefuse
			o.Reason = "an intermediate value does not fit into 64 bits"
		}
	}()
	switch c.Kind {
	case KCalc:
		v := m.need(m.value(c.E), "result")
		o.Total = v
		o.Parts = []Part{{"C(", c.E, ")"}, text("計算結果"), text(v.String())}
	case KChoice:
		v := m.roll(one, big.NewInt(int64(len(c.Items))))
		o.Item = c.Items[v[0].Int64()-1]
		o.Parts = []Part{
			text("(CHOICE[" + strings.Join(c.Items, ",") + "])"),
			text(c.Items[v[0].Int64()-1]),
		}
	case KD:
		m.runD(c, &o)
	case KB:
		rs := m.rollArgs(c.Rolls)
		target, shown := m.target(c)
		var all []*big.Int
		for _, r := range rs {
			all = append(all, m.roll(r.num, r.sides)...)
		}
		o.Dice = [][]*big.Int{all}
		o.Parts = []Part{text("(" + listText(rs, "B") + shown + ")"), text(join(all, ","))}
		if c.Cmp != "" {
			o.NumSucc = count(c.Cmp, all, target)
			o.Parts = append(o.Parts, text("成功数"+strconv.Itoa(o.NumSucc)))
		}
	case KR:
		m.runR(c, &o)
	case KU:
		m.runU(c, &o)
	}
	return o
}

func (m *machine) target(c *Cmd) (*big.Int, string) {
	if c.Cmp == "" {
		return nil, ""
	}
	t := m.need(m.value(c.Target), "target")
	return t, c.Cmp + t.String()
}

func (m *machine) runD(c *Cmd, o *Outcome) {
	e := m.args(c.E)
	target, shown := m.target(c)
	d := m.throw(e)
	v := m.need(m.value(d), "result")
	o.Total = v
	o.Parts = []Part{{"(", e, shown + ")"}, {"", d, ""}, text(v.String())}
	if c.Cmp != "" {
		if Compare(c.Cmp, v, target) {
			o.Success = "SUCCESS"
			o.Parts = append(o.Parts, text("成功"))
		} else {
			o.Success = "FAILURE"
			o.Parts = append(o.Parts, text("失敗"))
		}
	}
}

func thresholdText(t *big.Int) string {
	if t == nil {
		return ""
	}
	return "[" + t.String() + "]"
}

var two = big.NewInt(2)

func (m *machine) runR(c *Cmd, o *Outcome) {
	var th *big.Int
	if c.Threshold != nil {
		th = m.need(m.value(c.Threshold), "threshold")
	}
	rs := m.rollArgs(c.Rolls)
	target, shown := m.target(c)
	if th == nil {
		th = target
	}
	o.Parts = []Part{text("(" + listText(rs, "R") + thresholdText(th) + shown + ")")}
	if th == nil || th.Cmp(two) < 0 {
		o.Refused2 = true
		if th == nil {
			o.Parts = append(o.Parts, text(MsgRMissing))
		} else {
			o.Parts = append(o.Parts, text(MsgTooSmall))
		}
		return
	}
	queue := append([]rolled(nil), rs...)
	var groups [][]*big.Int
	for i := 0; i < m.max && len(queue) > 0; i++ {
		r := queue[0]
		queue = queue[1:]
		vs := m.roll(r.num, r.sides)
		groups = append(groups, vs)
		if k := count(">=", vs, th); k > 0 {
			queue = append(queue, rolled{big.NewInt(int64(k)), r.sides})
			o.Rerolls++
		}
	}
	o.Groups, o.Dice = len(groups), groups
	if len(queue) > 0 {
		o.Stopped++
	}
	ss := make([]string, len(groups))
	for i, g := range groups {
		ss[i] = join(g, ",")
		if c.Cmp != "" {
			o.NumSucc += count(c.Cmp, g, target)
		}
	}
	o.Parts = append(o.Parts, text(strings.Join(ss, " + ")))
	if c.Cmp != "" {
		o.Parts = append(o.Parts, text("成功数"+strconv.Itoa(o.NumSucc)))
	}
}

func (m *machine) runU(c *Cmd, o *Outcome) {
	var th *big.Int
	if c.Threshold != nil {
		th = m.need(m.value(c.Threshold), "threshold")
	}
	rs := m.rollArgs(c.Rolls)
	bonus := new(big.Int)
	abs := new(big.Int)
	for _, t := range c.Bonus {
		v := m.value(t.E)
		if t.Neg {
			bonus.Sub(bonus, v)
		} else {
			bonus.Add(bonus, v)
		}
		abs.Add(abs, new(big.Int).Abs(v))
	}
	o.Mod = bonus
	// The terms may be added up in any order.
	m.seen(abs)
	m.need(bonus, "bonus")
	m.need(new(big.Int).Abs(bonus), "magnitude of the bonus")
	target, shown := m.target(c)
	o.Parts = []Part{text("(" + listText(rs, "U") + thresholdText(th) + signed(bonus) + shown + ")")}
	if th == nil || th.Cmp(two) < 0 {
		o.Refused2 = true
		if th == nil {
			o.Parts = append(o.Parts, text(MsgUMissing))
		} else {
			o.Parts = append(o.Parts, text(MsgTooSmall))
		}
		return
	}
	var sums []*big.Int
	var ss []string
	total := new(big.Int)
	var best *big.Int
	for _, r := range rs {
		if r.sides.Cmp(one) < 0 {
			panic(refusal{"fewer than one side"})
		}
		if r.num.Cmp(one) < 0 {
			panic(refusal{"fewer than one die"})
		}
		for i := new(big.Int); i.Cmp(r.num) < 0; i.Add(i, one) {
			var g []*big.Int
			s := new(big.Int)
			for j := 0; j < m.max; j++ {
				v := m.roll(one, r.sides)[0]
				g = append(g, v)
				s.Add(s, v)
				if v.Cmp(th) < 0 {
					break
				}
				o.Rerolls++
				if j == m.max-1 {
					o.Stopped++
				}
			}
			t := s.String()
			if len(g) > 1 {
				t += "[" + join(g, ",") + "]"
			}
			ss = append(ss, t)
			sums = append(sums, s)
			o.Dice = append(o.Dice, g)
			total.Add(total, s)
			if best == nil || s.Cmp(best) > 0 {
				best = s
			}
		}
	}
	o.Groups = len(sums)
	o.Parts = append(o.Parts, text(strings.Join(ss, ",")+signed(bonus)))
	m.seen(total)
	m.seen(new(big.Int).Add(total, bonus))
	add := func(v *big.Int) *big.Int {
		return m.need(new(big.Int).Add(v, bonus), "sum with the bonus")
	}
	if c.Cmp == "" {
		o.Total = add(total)
		o.Parts = append(o.Parts, text(fmt.Sprintf("%s/%s (最大/合計)", add(best), add(total))))
		return
	}
	for i, s := range sums {
		sums[i] = add(s)
	}
	o.NumSucc = count(c.Cmp, sums, target)
	o.Parts = append(o.Parts, text("成功数"+strconv.Itoa(o.NumSucc)))
}

// MatchPart compares a message part with what the model expects: 0 different,
// 1 equal, 2 equal only through the inexact a*(b/c) rewrite.
func MatchPart(got string, want Part) int {
	if want.Expr == nil {
		if got == want.Pre {
			return 1
		}
		return 0
	}
	if !strings.HasPrefix(got, want.Pre) || !strings.HasSuffix(got, want.Post) ||
		len(got) < len(want.Pre)+len(want.Post) {
		return 0
	}
	mid := got[len(want.Pre) : len(got)-len(want.Post)]
	if mid != strings.ToUpper(mid) {
		return 0
	}
	e := ParseDisplay(mid)
	if e == nil {
		return 0
	}
	return SameDisplay(e, want.Expr)
}
