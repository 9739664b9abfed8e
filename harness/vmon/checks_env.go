package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"vmon/ref"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	dbt "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
)

func init() {
	register(&Check{
		ID: "C17", Quick: 500000, Thorough: 10000000,
		Rule:   "Random feeders with seeds of all magnitudes, several of them interleaved, asked for dice of all numbers of sides; every die is compared with an own implementation of MT19937-64 and of the drawing of a number below n. Time-seeded feeders are reproduced from Seed(). Non-trivial: at least one die; distinct by seed and requests.",
		Run:    runC17,
		Floors: map[string]int{"dice compared": 500000, "time-seeded feeders": 500, "state refills": 500},
	})
	register(&Check{
		ID: "C18", Quick: 1000000, Thorough: 20000000,
		Rule:   "Random histories of operations on several dice queues, with writes into every slice that went in or came out; every observation is compared with a list model. Non-trivial: a history with at least one die taken; distinct by history.",
		Run:    runC18,
		Floors: map[string]int{"operations": 200000, "dice taken": 50000, "taken from empty": 2000},
	})
	register(&Check{
		ID: "C19", Quick: 500000, Thorough: 10000000,
		Rule:   "Histories of RollDice calls on one roller and on evaluators, with numbers and sides around the limits and faults at chosen draws; calls of the feeder, results and the recorded dice are compared with a model. Non-trivial: every history; distinct by history.",
		Run:    runC19,
		Floors: map[string]int{"rolls": 100000, "refused without drawing": 5000, "faults": 5000, "environment observations": 50000},
	})
	register(&Check{
		ID: "C23", Quick: 150000, Thorough: 3000000,
		Rule:   "Lists of dice are formatted and parsed; test data files are composed from generated cases (multi-line, empty, with dice) and loaded; malformed dice texts are compared with an own reader. Non-trivial: at least one die or case; distinct by text.",
		Run:    runC23,
		Floors: map[string]int{"dice texts": 20000, "files": 5000, "rejected": 5000},
	})
	register(&Check{
		ID: "C25", Quick: 100000, Thorough: 3000000,
		Rule:   "R and U rolls on evaluators with reroll limits from 0 to 10000 and feeders that always, mostly or never reach the threshold; draws, groups and messages are compared with the model. Non-trivial: at least one reroll; distinct by text, limit and dice.",
		Run:    runC25,
		Floors: map[string]int{"rerolls": 100000, "stopped at the limit": 1000, "stopped at the default limit": 20},
	})
}

// mt64 is MT19937-64.
type mt64 struct {
	s [312]uint64
	i int
}

func newMT(seed uint64) *mt64 {
	m := &mt64{i: 312}
	m.s[0] = seed
	for i := 1; i < 312; i++ {
		m.s[i] = 6364136223846793005*(m.s[i-1]^(m.s[i-1]>>62)) + uint64(i)
	}
	return m
}

func (m *mt64) next() uint64 {
	if m.i == 312 {
		for k := 0; k < 312; k++ {
			x := m.s[k]&0xFFFFFFFF80000000 | m.s[(k+1)%312]&0x7FFFFFFF
			y := m.s[(k+156)%312] ^ x>>1
			if x&1 == 1 {
				y ^= 0xB5026F5AA96619E9
			}
			m.s[k] = y
		}
		m.i = 0
	}
	x := m.s[m.i]
	m.i++
	x ^= x >> 29 & 0x5555555555555555
	x ^= x << 17 & 0x71D67FFFEDA60000
	x ^= x << 37 & 0xFFF7EEE000000000
	return x ^ x>>43
}

// below gives an unbiased number below n the way math/rand does.
func (m *mt64) below(n int64) int64 {
	if n <= math.MaxInt32 {
		get := func() int32 { return int32(m.next() & math.MaxInt64 >> 32) }
		k := int32(n)
		if k&(k-1) == 0 {
			return int64(get() & (k - 1))
		}
		max := int32((1 << 31) - 1 - (1<<31)%uint32(k))
		v := get()
		for v > max {
			v = get()
		}
		return int64(v % k)
	}
	get := func() int64 { return int64(m.next() & math.MaxInt64) }
	if n&(n-1) == 0 {
		return get() & (n - 1)
	}
	max := int64((1 << 63) - 1 - (1<<63)%uint64(n))
	v := get()
	for v > max {
		v = get()
	}
	return v % n
}

func (c *Ctx) anySides(g *Gen) int {
	switch c.N(8) {
	case 0:
		return pick(c, 1, 2, 6, 10, 20, 100)
	case 1:
		return 1 << c.N(63)
	case 2:
		return clamp(pick(c, math.MaxInt32, math.MaxInt32+1, math.MaxInt64, 1<<62, 3<<61)+c.N(3)-1, math.MaxInt64)
	case 3:
		return g.dictUpTo(math.MaxInt64)
	case 4:
		return g.logUniform(math.MaxInt64 - 1)
	}
	return 1 + c.N(1000)
}

func runC17(c *Ctx) {
	g := newGen(c)
	if c.P(5) {
		f := feeder.NewMT19937WithSeedFromTime()
		if f.CanSpecifyDie() {
			c.Fail("a random feeder lets the dice be chosen")
		}
		m := newMT(uint64(f.Seed()))
		f2 := feeder.NewMT19937(f.Seed())
		for i := 0; i < 40; i++ {
			n := clamp(c.anySides(g), math.MaxInt64)
			want := dice.Die{Value: int(m.below(int64(n))) + 1, Sides: n}
			a, err1 := f.Next(n)
			b, err2 := f2.Next(n)
			if err1 != nil || err2 != nil || a != want || b != want {
				c.Fail("time seed %d, die %d with %d sides: %v %v and again %v %v, want %v", f.Seed(), i, n, a, err1, b, err2, want)
			}
			c.Count("dice compared", 1)
		}
		c.Count("time-seeded feeders", 1)
		c.Eval(fmt.Sprint("time", c.Idx))
		return
	}
	k := 1 + c.N(3)
	var fs []*feeder.MT19937
	var ms []*mt64
	h := ""
	for i := 0; i < k; i++ {
		s := int64(c.R.Uint64())
		switch c.N(5) {
		case 0:
			s = int64(c.N(10))
		case 1:
			s = pick(c, int64(math.MaxInt64), math.MinInt64, -1, math.MaxInt32, math.MinInt32, 1<<32, 1<<32+1, 20190401)
		case 2:
			s = int64(g.logUniform(math.MaxInt64-1)) * int64(1-2*c.N(2))
		}
		if len(fs) > 0 && c.P(20) {
			s = fs[0].Seed()
		}
		f := feeder.NewMT19937(s)
		if f.Seed() != s {
			c.Fail("Seed() is %d, set was %d", f.Seed(), s)
		}
		fs = append(fs, f)
		ms = append(ms, newMT(uint64(s)))
		h += fmt.Sprint(s, " ")
	}
	count := 10 + c.N(60)
	if c.P(10) {
		count = 700 + c.N(700)
		c.Count("state refills", 1)
	}
	count = c.Tail(300, count, 1000000)
	for i := 0; i < count; i++ {
		j := c.N(k)
		n := c.anySides(g)
		if n < 1 {
			n = 1
		}
		var d dice.Die
		var err error
		c.guard("Next", func() { d, err = fs[j].Next(n) })
		want := dice.Die{Value: int(ms[j].below(int64(n))) + 1, Sides: n}
		if err != nil || d != want {
			c.Fail("feeders with seeds %s: die %d with %d sides is %v (%v), want %v", h, i, n, d, err, want)
		}
		if i < 8 {
			h += fmt.Sprint(j, "/", n, " ")
		}
		c.Count("dice compared", 1)
	}
	if c.P(10) { // Seed() does not change, and nothing is drawn by looking
		for j := range fs {
			fs[j].Seed()
			fs[j].CanSpecifyDie()
			d, _ := fs[j].Next(6)
			if d.Value != int(ms[j].below(6))+1 {
				c.Fail("looking at a feeder changed its dice")
			}
		}
	}
	c.Eval(h)
	c.Sample("%s", h)
}

func (c *Ctx) someDice(max int) []dice.Die {
	n := c.Tail(3000, c.N(max+1), 20000)
	ds := make([]dice.Die, n, n+c.N(4))
	for i := range ds {
		s := 1 + c.N(100)
		if c.P(5) {
			s = math.MaxInt64
		}
		ds[i] = dice.Die{Value: 1 + c.N(s), Sides: s}
		if c.P(3) {
			ds[i] = dice.Die{Value: c.N(9) - 4, Sides: c.N(9) - 4}
		}
	}
	return ds
}

func sameDice(a, b []dice.Die) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC18(c *Ctx) {
	type q struct {
		q *feeder.Queue
		m []dice.Die
	}
	var qs []*q
	var gone [][]dice.Die // slices that went in or came out
	h := ""
	took := 0
	untouched := func(op string, ds, was []dice.Die) {
		if !sameDice(ds, was) {
			c.Fail("%s changed the dice of its caller from [%s] to [%s] after %s", op, dice.FormatDice(was), dice.FormatDice(ds), h)
		}
	}
	mk := func() {
		if c.P(30) {
			qs = append(qs, &q{feeder.NewEmptyQueue(), nil})
			h += "E"
			return
		}
		ds := c.someDice(6)
		gone = append(gone, ds)
		m := append([]dice.Die(nil), ds...)
		qs = append(qs, &q{feeder.NewQueue(ds), m})
		untouched("NewQueue", ds, m)
		h += "N" + dice.FormatDiceWithoutSpaces(ds)
	}
	mk()
	n := 5 + c.N(30)
	if c.P(5) {
		n = 200
	}
	n = c.Tail(1000, n, 2000)
	for i := 0; i < n; i++ {
		if len(qs) < 3 && c.P(10) {
			mk()
		}
		j := c.N(len(qs))
		x := qs[j]
		op := c.N(10)
		h += fmt.Sprintf(" %d.%d", j, op)
		c.Count("operations", 1)
		switch op {
		case 0:
			d := dice.Die{Value: 1 + c.N(20), Sides: 1 + c.N(20)}
			x.q.Push(d)
			x.m = append(x.m[:len(x.m):len(x.m)], d)
			h += d.String()
		case 1:
			ds := c.someDice(5)
			was := append([]dice.Die(nil), ds...)
			x.q.Append(ds)
			x.m = append(x.m[:len(x.m):len(x.m)], was...)
			untouched("Append", ds, was)
			gone = append(gone, ds)
			h += dice.FormatDiceWithoutSpaces(ds)
		case 2:
			if c.P(40) {
				x.q.Clear()
				x.m = nil
			}
		case 3:
			ds := c.someDice(6)
			if c.P(20) && len(qs) > 1 {
				ds = qs[c.N(len(qs))].q.Dice()
			}
			was := append([]dice.Die(nil), ds...)
			x.q.Set(ds)
			x.m = was
			untouched("Set", ds, was)
			gone = append(gone, ds)
			h += dice.FormatDiceWithoutSpaces(ds)
		case 4:
			ds := x.q.Dice()
			if !sameDice(ds, x.m) {
				c.Fail("Dice() is [%s], want [%s] after %s", dice.FormatDice(ds), dice.FormatDice(x.m), h)
			}
			gone = append(gone, ds)
		case 5: // the caller writes into its slices
			for _, ds := range gone {
				for k := range ds {
					ds[k] = dice.Die{Value: -7, Sides: -7}
				}
				_ = append(ds, dice.Die{Value: -8, Sides: -8})
			}
			gone = nil
		default:
			var d dice.Die
			var err error
			sides := 1 + c.N(20)
			c.guard("Next", func() { d, err = x.q.Next(sides) })
			if len(x.m) == 0 {
				if err == nil {
					c.Fail("an empty queue gave %v after %s", d, h)
				}
				c.Count("taken from empty", 1)
			} else {
				if err != nil || d != x.m[0] {
					c.Fail("the queue gave %v (%v), want %v after %s", d, err, x.m[0], h)
				}
				x.m = x.m[1:]
				took++
				c.Count("dice taken", 1)
			}
		}
		for k, y := range qs {
			if y.q.Remaining() != len(y.m) || y.q.IsEmpty() != (len(y.m) == 0) {
				c.Fail("queue %d: %d remain, empty %v; want %d after %s", k, y.q.Remaining(), y.q.IsEmpty(), len(y.m), h)
			}
			if !y.q.CanSpecifyDie() {
				c.Fail("a queue does not let the dice be chosen")
			}
		}
	}
	for k, y := range qs {
		for len(y.m) > 0 {
			d, err := y.q.Next(1)
			if err != nil || d != y.m[0] {
				c.Fail("queue %d gave %v (%v), want %v at the end of %s", k, d, err, y.m[0], h)
			}
			y.m = y.m[1:]
			took++
		}
		if !y.q.IsEmpty() {
			c.Fail("queue %d: %d dice too many at the end of %s", k, y.q.Remaining(), h)
		}
	}
	key := ""
	if took > 0 {
		key = h
		c.Sample("%s", h)
	}
	c.Eval(key)
}

func runC19(c *Ctx) {
	f := newRec(c.R.Uint64(), Uniform, 0)
	r := roller.New(f)
	if r.DieFeeder() != feeder.DieFeeder(f) {
		c.Fail("DieFeeder() is not the feeder given")
	}
	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(r, env)
	var kept []struct {
		got  []dice.Die
		want []dice.Die
	}
	keep := func(ds []dice.Die) {
		kept = append(kept, struct{ got, want []dice.Die }{ds, append([]dice.Die(nil), ds...)})
	}
	var model []dice.Die // of env
	h := ""
	n := 3 + c.N(12)
	for i := 0; i < n; i++ {
		num := 1 + c.N(8)
		sides := 1 + c.N(100)
		switch c.N(12) {
		case 0:
			num = pick(c, 0, -1, -5, math.MinInt64, math.MaxInt64, roller.MaxNumOfDice+1)
		case 1:
			sides = pick(c, 0, -1, -6, math.MinInt64)
		case 2:
			sides = pick(c, 1, math.MaxInt64, 2)
		case 3:
			num = c.Tail(100, pick(c, 1, 100, 2000), 300000)
		}
		f.Mode = Mode(c.N(5))
		f.FailAt, f.BadAt = -1, -1
		at := -1
		if c.P(20) && num > 0 && num <= roller.MaxNumOfDice {
			at = c.N(num + 1)
			if c.P(50) {
				f.FailAt = len(f.Log) + at
			} else {
				f.BadAt, f.Bad = len(f.Log)+at, badDie(c.N(6))
			}
		}
		from := len(f.Log)
		viaEnv := c.P(50)
		var ds []dice.Die
		var err error
		c.guard("RollDice", func() {
			if viaEnv {
				ds, err = ev.RollDice(num, sides)
			} else {
				ds, err = r.RollDice(num, sides)
			}
		})
		drawn := f.Log[from:]
		c.Count("rolls", 1)
		h += fmt.Sprintf(" %d/%d@%d%v", num, sides, at, viaEnv)
		switch {
		case num < 1 || sides < 1 || num > roller.MaxNumOfDice:
			if err == nil || len(drawn) > 0 {
				c.Fail("RollDice(%d, %d): %d dice, error %v, %d drawn", num, sides, len(ds), err, len(drawn))
			}
			c.Count("refused without drawing", 1)
		case at >= 0 && at < num:
			if err == nil || len(drawn) != at+1 {
				c.Fail("RollDice(%d, %d) with an unusable die %d: error %v, %d drawn", num, sides, at, err, len(drawn))
			}
			if f.FailAt >= 0 && err.Error() != drawn[at].Err.Error() {
				c.Fail("RollDice(%d, %d): error %q, the feeder failed with %q", num, sides, err, drawn[at].Err)
			}
			c.Count("faults", 1)
		default:
			if err != nil || len(drawn) != num || !sameDice(ds, diceOf(drawn)) {
				c.Fail("RollDice(%d, %d): [%s], error %v, drawn %s", num, sides, dice.FormatDice(ds), err, drawText(drawn))
			}
			for _, d := range drawn {
				if d.Sides != sides {
					c.Fail("RollDice(%d, %d) asked for %d sides", num, sides, d.Sides)
				}
			}
			keep(ds)
			if viaEnv {
				model = append(model[:len(model):len(model)], diceOf(drawn)...)
			}
		}
		if err != nil && len(ds) > 0 {
			c.Fail("RollDice(%d, %d): dice and error %v", num, sides, err)
		}
		// the record
		switch c.N(8) {
		case 0:
			env.ClearRolledDice()
			model = nil
		case 1:
			d := dice.Die{Value: 1, Sides: 4}
			env.PushRolledDie(d)
			model = append(model[:len(model):len(model)], d)
		case 2:
			x := c.someDice(3)
			was := append([]dice.Die(nil), x...)
			env.AppendRolledDice(x)
			if !sameDice(x, was) {
				c.Fail("AppendRolledDice changed the dice of its caller from [%s] to [%s]", dice.FormatDice(was), dice.FormatDice(x))
			}
			model = append(model[:len(model):len(model)], was...)
			for k := range x {
				x[k] = dice.Die{Value: -1, Sides: -1}
			}
		case 3: // writes into what came out must not change the record
			for _, x := range [][]dice.Die{env.RolledDice(), ev.RolledDice()} {
				for k := range x {
					x[k] = dice.Die{Value: -2, Sides: -2}
				}
				_ = append(x, dice.Die{Value: -3, Sides: -3})
			}
		case 4:
			for _, k := range kept {
				for i := range k.got {
					k.got[i] = dice.Die{Value: -4, Sides: -4}
					k.want[i] = dice.Die{Value: -4, Sides: -4}
				}
			}
		}
		c.Count("environment observations", 1)
		if !sameDice(env.RolledDice(), model) || !sameDice(ev.RolledDice(), model) || env.NumOfRolledDice() != len(model) {
			c.Fail("recorded dice [%s] (%d), want [%s] after%s", clip(dice.FormatDice(env.RolledDice()), 300), env.NumOfRolledDice(), clip(dice.FormatDice(model), 300), h)
		}
		snap := env.RolledDice()
		keep(snap)
	}
	for _, k := range kept {
		if !sameDice(k.got, k.want) {
			c.Fail("dice returned earlier changed from [%s] to [%s] after%s", clip(dice.FormatDice(k.want), 300), clip(dice.FormatDice(k.got), 300), h)
		}
	}
	c.Eval(h)
	c.Sample("%s", h)
}

// readDice is an own reader of "value/sides, ..." texts.
// A number that does not fit is no number, or the largest int with clamp.
func readDice(s string, clamp ...bool) ([]dice.Die, bool) {
	var out []dice.Die
	if s == "" {
		return out, true
	}
	for _, p := range strings.Split(s, ",") {
		p = strings.Trim(p, " \t\n\f\r")
		i := strings.IndexByte(p, '/')
		if i < 0 {
			return nil, false
		}
		num := func(t string) (int, bool) {
			for _, r := range []byte(t) {
				if r < '0' || r > '9' {
					return 0, false
				}
			}
			v, err := strconv.Atoi(t)
			if len(clamp) > 0 && errors.Is(err, strconv.ErrRange) {
				err = nil
			}
			return v, err == nil
		}
		a, ok1 := num(p[:i])
		b, ok2 := num(p[i+1:])
		if !ok1 || !ok2 {
			return nil, false
		}
		out = append(out, dice.Die{Value: a, Sides: b})
	}
	return out, true
}

func (c *Ctx) textLine(g *Gen) string {
	switch c.N(5) {
	case 0:
		return g.anyCommand()
	case 1:
		return pick(c, "DiceBot : (2D6) ＞ 7[3,4] ＞ 7", "S2d6", "食料＋４、資金－１", "  x", "x  ", "###secret dice###", "input", "output", "rand", "============================ x", "=", "input:", "input: x", "an output: x", "a rand:1/6", "(output:", "> rand:")
	}
	var b strings.Builder
	for i := c.N(20) + 1; i > 0; i-- {
		b.WriteRune(runes[c.N(len(runes))])
	}
	return b.String()
}

func runC23(c *Ctx) {
	g := newGen(c)
	for i := 0; i < 3; i++ {
		n := 12
		if c.P(3) {
			n = 2000
		}
		ds := c.someDice(n)
		neg := false
		for k := range ds {
			if c.P(10) {
				ds[k] = dice.Die{Value: c.N(1 << 20), Sides: g.logUniform(math.MaxInt64 - 1)}
			}
			neg = neg || ds[k].Value < 0 || ds[k].Sides < 0
		}
		if neg {
			for k := range ds {
				if ds[k].Value < 0 {
					ds[k].Value = 0
				}
				if ds[k].Sides < 0 {
					ds[k].Sides = 0
				}
			}
		}
		was := append([]dice.Die(nil), ds...)
		texts := []string{dice.FormatDice(ds), dice.FormatDiceWithoutSpaces(ds)}
		if !sameDice(ds, was) {
			c.Fail("formatting the dice %v changed them to %v", was, ds)
		}
		for _, s := range texts {
			back, err := dbt.ParseDice(s)
			if err != nil || !sameDice(back, ds) {
				c.Fail("the text %q of %d dice is read as [%s] (%v)", clip(s, 300), len(ds), clip(dice.FormatDice(back), 300), err)
			}
			if own, ok := readDice(s); !ok || !sameDice(own, ds) {
				c.Fail("%q is not a list of the dice", clip(s, 300))
			}
		}
		var items []string
		for _, d := range ds {
			items = append(items, strconv.Itoa(d.Value)+"/"+strconv.Itoa(d.Sides))
		}
		if t := dice.FormatDiceWithoutSpaces(ds); t != strings.Join(items, ",") {
			c.Fail("%q is not the %d dice separated by commas only", clip(t, 300), len(ds))
		}
		if t := dice.FormatDice(ds); t != strings.Join(items, ", ") {
			c.Fail("%q is not the %d dice separated by a comma and a blank", clip(t, 300), len(ds))
		}
		c.Count("dice texts", 1)
		// a text that may be malformed
		s := dice.FormatDice(ds)
		if len(s) > 200 {
			s = s[:200]
		}
		rs := []rune(s)
		for k := c.N(3); k >= 0; k-- {
			p := c.N(len(rs) + 1)
			ins := []rune(pick(c, ",", "/", " ", "x", "-", "+", "1", "\n", "１", "/6", ", ,", "1/6", "\t", "a1/6", "99999999999999999999", ".", "1_0", "0x1", "\u3000", "\v", "\u00a0"))
			if c.P(30) && p < len(rs) {
				rs = append(rs[:p:p], rs[p+1:]...)
			} else {
				rs = append(rs[:p:p], append(ins, rs[p:]...)...)
			}
		}
		s = string(rs)
		want, ok := readDice(s)
		got, err := dbt.ParseDice(s)
		if cl, is := readDice(s, true); !ok && err == nil && is && sameDice(got, cl) {
			c.Known("bignum", fmt.Sprintf("%q is read as [%s]", s, dice.FormatDice(got)))
		} else if ok != (err == nil) || (ok && !sameDice(got, want)) {
			c.Fail("%q is read as [%s] (%v), want [%s] %v", s, dice.FormatDice(got), err, dice.FormatDice(want), ok)
		}
		if !ok {
			c.Count("rejected", 1)
		}
		c.Eval(s)
	}

	// Files
	dir := os.Getenv("VMON_TMP")
	if dir == "" {
		dir = os.TempDir()
	}
	var names []string
	var want []dbt.DiceBotTestCase
	bad := false
	gameID := pick(c, "DiceBot", "Satasupe", "")
	for k := 1 + c.N(3); k > 0; k-- {
		var srcs []string
		for i := 1 + c.N(4); i > 0; i-- {
			t := dbt.DiceBotTestCase{GameID: gameID, Index: len(want) + 1}
			for l := 1 + c.N(3); l > 0; l-- {
				t.Input = append(t.Input, c.textLine(g))
			}
			var out []string
			for l := c.N(4); l > 0; l-- {
				out = append(out, c.textLine(g))
			}
			t.Output = strings.Join(out, "\n")
			t.Dice = c.someDice(5)
			for k := range t.Dice {
				if t.Dice[k].Value < 0 || t.Dice[k].Sides < 0 {
					t.Dice[k] = dice.Die{Value: 1, Sides: 1}
				}
			}
			if t.Dice == nil {
				t.Dice = []dice.Die{}
			}
			want = append(want, t)
			s := "input:\n" + strings.Join(t.Input, "\n") + "\noutput:"
			if t.Output != "" || c.P(50) {
				s += "\n" + t.Output
			}
			s += "\nrand:"
			if c.P(50) {
				s += dice.FormatDice(t.Dice)
			} else {
				s += dice.FormatDiceWithoutSpaces(t.Dice)
			}
			if c.P(2) {
				bad = true
				s = pick(c, "input:\n", "x"+s, strings.Replace(s, "\nrand:", "\nrnd:", 1), s+",x", strings.Replace(s, "\noutput:", "\noutpt:", 1))
			}
			srcs = append(srcs, s)
		}
		name := filepath.Join(dir, fmt.Sprintf("case-%d-%d.txt", c.Idx, k))
		body := strings.Join(srcs, "\n============================\n") + strings.Repeat("\n", c.N(3))
		if err := os.WriteFile(name, []byte(body), 0o600); err != nil {
			panic(err)
		}
		names = append(names, name)
	}
	defer func() {
		for _, n := range names {
			os.Remove(n)
		}
	}()
	var got []*dbt.DiceBotTestCase
	var err error
	c.guard("ParseFiles", func() { got, err = dbt.ParseFiles(names, gameID) })
	c.Count("files", len(names))
	if bad {
		if err == nil {
			c.Fail("a malformed test data file was loaded")
		}
		return
	}
	if err != nil || len(got) != len(want) {
		c.Fail("%d test cases were loaded (%v), want %d", len(got), err, len(want))
	}
	for i, w := range want {
		x := got[i]
		if x.GameID != w.GameID || x.Index != w.Index || strings.Join(x.Input, "\n") != strings.Join(w.Input, "\n") || len(x.Input) != len(w.Input) ||
			x.Output != w.Output || !sameDice(x.Dice, w.Dice) {
			c.Fail("test case %d was loaded as %+v, want %+v", i+1, *x, w)
		}
	}
	if _, err := dbt.ParseFiles(append(names, filepath.Join(dir, "missing")), gameID); err == nil {
		c.Fail("a missing file is not reported")
	}
	c.Eval(fmt.Sprintf("%+v", want))
}

func runC25(c *Ctx) {
	g := newGen(c)
	g.budget = 12
	letter := pick(c, "R", "U")
	n := 1 + c.N(3)
	var ts []string
	minSides := math.MaxInt64
	for i := 0; i < n; i++ {
		s := 1 + c.N(12)
		if s < minSides {
			minSides = s
		}
		ts = append(ts, itoa(1+c.N(4))+letter+itoa(s))
	}
	t := strings.Join(ts, "+")
	th := 2 + c.N(3)
	if c.P(30) {
		th = c.N(14)
	}
	switch {
	case letter == "U":
		t += "[" + itoa(th) + "]"
		if c.P(30) {
			t += g.bonus()
		}
		if c.P(40) {
			t += g.cmp() + itoa(c.N(30))
		}
	case c.P(50):
		t += "[" + itoa(th) + "]"
		if c.P(50) {
			t += g.cmp() + itoa(c.N(8))
		}
	default:
		t += g.cmp() + itoa(th)
	}
	limit := c.N(40)
	switch c.N(10) {
	case 0:
		limit = 0
	case 1:
		limit = 100 + c.N(400)
	}
	def := c.P(1)
	if def {
		limit = defaultMaxRerolls
	}
	f := newRec(c.R.Uint64(), Mode(pick(c, int(AllMax), int(AllMax), int(High), int(Uniform), int(AllMin))), 0)
	f.MaxRun = pick(c, 0, 0, 0, 5, 20)
	if c.P(30) {
		f.Mode, f.Hint = Hug, th
	}
	if def {
		f.Mode, f.MaxRun = AllMax, 0
	}
	f.Limit = 400000
	x := &Exec{Text: t}
	if def && c.P(50) {
		s := &Session{c: c, B: bcdice.New(f), F: f, GameID: "DiceBot"}
		x = s.Exec(t)
	} else {
		node, err := parse(c, t)
		if err != nil {
			c.Fail("%q is not parsed: %v", t, err)
		}
		ev := evaluator.NewEvaluator(roller.New(f), evaluator.NewEnvironment())
		if !def {
			ev.MaxRerolls = limit
		}
		var r *command.Result
		c.guard("Execute", func() { r, err = command.Execute(node, "DiceBot", ev) })
		x.Res, x.Err, x.Draws = r, err, f.Log
		if (r == nil) == (err == nil) {
			c.Fail("%q: result %v and error %v", t, r, err)
		}
	}
	c.Trace("limit %d: %s", limit, x)
	fa := conform(c, x, "DiceBot", limit)
	c.Count("rerolls", fa.O.Rerolls)
	if fa.O.Stopped > 0 {
		c.Count("stopped at the limit", 1)
		if def {
			c.Count("stopped at the default limit", 1)
		}
	}
	k := ""
	if fa.O.Rerolls > 0 {
		k = itoa(limit) + key(x)
		c.Sample("limit %d: %s", limit, x)
	}
	c.Eval(k)
	_ = ref.Accept
}
