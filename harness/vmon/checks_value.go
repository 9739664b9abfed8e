package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"vmon/ref"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	objects "github.com/raa0121/GoBCDice/pkg/core/object"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
)

func init() {
	register(&Check{
		ID: "C27", Quick: 150000, Thorough: 4000000,
		Rule: "Commands of all kinds are evaluated step by step (arguments, values, result) and in one pass on recorded dice; type and contents of the resulting objects are compared with the model. " +
			"Prepared trees are evaluated again; determined trees must not draw. Generated nested arrays are inspected, joined, summed and maximised against own computations. Non-trivial: an accepted evaluation; distinct by text and dice.",
		Run: runC27,
		Floors: map[string]int{"evaluated step by step": 60000, "evaluated in one pass": 30000, "prepared trees evaluated again": 20000,
			"determined trees evaluated again": 10000, "arrays": 20000, "R and U objects": 10000, "refused": 2000},
	})
}

func ints(o objects.Object) ([]int, bool) {
	a, ok := o.(*objects.Array)
	if !ok {
		return nil, false
	}
	vs := make([]int, 0, a.Length())
	for i := 0; i < a.Length(); i++ {
		v, ok := a.At(i).(*objects.Integer)
		if !ok {
			return nil, false
		}
		vs = append(vs, v.Value)
	}
	return vs, true
}

// sameInts compares an array object with the model's values.
func sameInts(o objects.Object, want []*big.Int) bool {
	vs, ok := ints(o)
	if !ok || len(vs) != len(want) {
		return false
	}
	for i, v := range vs {
		if want[i].Cmp(big.NewInt(int64(v))) != 0 {
			return false
		}
	}
	return true
}

func sameGroups(a *objects.Array, want [][]*big.Int) bool {
	if a == nil || a.Length() != len(want) {
		return false
	}
	for i := range want {
		if !sameInts(a.At(i), want[i]) {
			return false
		}
	}
	return true
}

func isInt(i *objects.Integer, want *big.Int) bool {
	return i != nil && want != nil && want.Cmp(big.NewInt(int64(i.Value))) == 0
}

func listOf(want []*big.Int) string {
	ss := make([]string, len(want))
	for i, v := range want {
		ss[i] = v.String()
	}
	return "[" + strings.Join(ss, ", ") + "]"
}

func listsOf(want [][]*big.Int) string {
	ss := make([]string, len(want))
	for i, v := range want {
		ss[i] = listOf(v)
	}
	return "[" + strings.Join(ss, ", ") + "]"
}

// inspects tells whether the description shows all fragments in this order.
func inspects(s string, frags ...string) bool {
	for _, f := range frags {
		i := strings.Index(s, f)
		if i < 0 {
			return false
		}
		s = s[i+len(f):]
	}
	return true
}

// judge compares an object with what the model says of the command: "" if it
// is the right one.
func judge(cmd *ref.Cmd, o ref.Outcome, obj objects.Object) string {
	if obj == nil {
		return "no object"
	}
	kind := ""
	ok := false
	comp := cmd.Cmp != ""
	succ := big.NewInt(int64(o.NumSucc))
	switch {
	case cmd.Kind == ref.KCalc || (cmd.Kind == ref.KD && !comp):
		x, is := obj.(*objects.Integer)
		ok, kind = is && isInt(x, o.Total) && x.Inspect() == o.Total.String(), "INTEGER"
	case cmd.Kind == ref.KD:
		x, is := obj.(*objects.Boolean)
		ok, kind = is && x.Value == (o.Success == "SUCCESS") && x.Inspect() == strconv.FormatBool(o.Success == "SUCCESS"), "BOOLEAN"
	case cmd.Kind == ref.KChoice:
		x, is := obj.(*objects.String)
		ok, kind = is && x.Value == o.Item && x.Inspect() == strconv.Quote(o.Item), "STRING"
	case cmd.Kind == ref.KB && !comp:
		x, is := obj.(*objects.Array)
		ok, kind = is && sameInts(x, o.Dice[0]) && x.Inspect() == listOf(o.Dice[0]), "ARRAY"
	case cmd.Kind == ref.KB:
		x, is := obj.(*objects.BRollCompResult)
		ok, kind = is && sameInts(x.Values, o.Dice[0]) && isInt(x.NumOfSuccesses, succ) && inspects(x.Inspect(), listOf(o.Dice[0]), succ.String()), "B_ROLL_COMP_RESULT"
	case cmd.Kind == ref.KR && !comp:
		x, is := obj.(*objects.Array)
		ok, kind = is && sameGroups(x, o.Dice) && x.Inspect() == listsOf(o.Dice), "ARRAY"
	case cmd.Kind == ref.KR:
		x, is := obj.(*objects.RRollCompResult)
		ok, kind = is && sameGroups(x.ValueGroups, o.Dice) && isInt(x.NumOfSuccesses, succ) && inspects(x.Inspect(), listsOf(o.Dice), succ.String()), "R_ROLL_COMP_RESULT"
	case cmd.Kind == ref.KU:
		kind = "U_ROLL_EXPR_RESULT"
		x, is := obj.(*objects.URollExprResult)
		if comp {
			kind = "U_ROLL_COMP_RESULT"
			y, isC := obj.(*objects.URollCompResult)
			if !isC || !isInt(y.NumOfSuccesses, succ) || !inspects(y.Inspect(), listsOf(o.Dice), o.Mod.String(), succ.String()) {
				return fmt.Sprintf("got %s, want %d successes of %s%+d", show(obj), o.NumSucc, listsOf(o.Dice), o.Mod)
			}
			x, is = y.RollResult, true
		}
		if !is || !sameGroups(x.ValueGroups(), o.Dice) || !isInt(x.Modifier(), o.Mod) || !inspects(x.Inspect(), listsOf(o.Dice), o.Mod.String()) {
			break
		}
		var sums []*big.Int
		total, best := new(big.Int), new(big.Int).SetInt64(math.MinInt64)
		for _, g := range o.Dice {
			s := new(big.Int)
			for _, v := range g {
				s.Add(s, v)
			}
			sums = append(sums, s)
			total.Add(total, s)
			if s.Cmp(best) > 0 {
				best = s
			}
		}
		ok = true
		for n := 0; n < 2; n++ { // the sums are kept after the first request
			ok = ok && sameInts(x.SumOfGroups(), sums) && isInt(x.MaxValue(), new(big.Int).Add(best, o.Mod)) &&
				isInt(x.SumOfValues(), new(big.Int).Add(total, o.Mod))
		}
	}
	if !ok {
		return fmt.Sprintf("got %s, want %s of dice %s total %v", show(obj), kind, listsOf(o.Dice), o.Total)
	}
	if obj.Type().String() != kind {
		return fmt.Sprintf("the type is %s, want %s", obj.Type(), kind)
	}
	return ""
}

func show(o objects.Object) string {
	return fmt.Sprintf("%T %s", o, clip(o.Inspect(), 300))
}

var dRollRe = regexp.MustCompile(`\(DRoll -?\d+ -?\d+\)`)

func mustParse(c *Ctx, text string) ast.Node {
	n, err := parser.Parse("t", []byte(text))
	if err != nil {
		c.Fail("%q: %v", clip(text, 300), err)
	}
	return n.(ast.Node)
}

// prepare does the steps before the evaluation proper.
func prepare(ev *evaluator.Evaluator, node ast.Node, cmd *ref.Cmd, args func()) error {
	if cmd.Kind == ref.KChoice {
		return nil
	}
	if err := ev.EvalVarArgs(node); err != nil {
		return err
	}
	args()
	switch cmd.Kind {
	case ref.KD:
		return ev.DetermineValues(node)
	case ref.KR:
		if cmd.Cmp == "" {
			return ev.CheckRRollThreshold(node.(*ast.RRollList))
		}
		if err := ev.SetRerollThreshold(node.(*ast.Command)); err != nil {
			return err
		}
		return ev.CheckRRollThreshold(node.(*ast.Command).Expression.(*ast.BasicInfixExpression).Left().(*ast.RRollList))
	case ref.KU:
		e, ok := node.(*ast.URollExpr)
		if !ok {
			e = node.(*ast.Command).Expression.(*ast.BasicInfixExpression).Left().(*ast.URollExpr)
		}
		return ev.CheckURollThreshold(e.URollList)
	}
	return nil
}

func runC27(c *Ctx) {
	if c.P(15) {
		arrays(c)
		return
	}
	g := newGen(c)
	g.budget = 200
	text := g.anyCommand()
	cmd, over := ref.Parse(text)
	if cmd == nil || over || cmd.Rest != "" {
		return
	}
	rec := newRec(c.R.Uint64(), Mode(c.N(int(Script))), 1+c.N(8))
	rec.MaxRun = 3 + c.N(20)
	rec.Limit = 3000000
	max := 10000
	if c.P(30) {
		max = pick(c, 1, 2, 3, 10)
	}
	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(roller.New(rec), env)
	ev.MaxRerolls = max

	// Other commands evaluated before by the same evaluator make no difference.
	for n := c.N(8) - 5; n > 0; n-- {
		other := text
		if c.P(70) {
			if ns := numberRe.FindAllStringIndex(text, -1); ns != nil {
				i := ns[c.N(len(ns))]
				other = text[:i[0]] + itoa(1+c.N(12)) + text[i[1]:]
			}
		} else {
			other = g.anyCommand()
		}
		if cmd, over := ref.Parse(other); cmd == nil || over || cmd.Rest != "" {
			continue
		}
		c.guard(fmt.Sprintf("evaluating %q", clip(other, 300)), func() { ev.Eval(mustParse(c, other)) })
		c.Count("evaluators used before", 1)
	}
	before, drawnBefore := env.NumOfRolledDice(), len(rec.Log)
	if before > 5000 {
		return
	}
	// The feeder may fail.
	if c.P(12) {
		rec.FailAt = len(rec.Log) + c.N(1+c.N(20))
	}

	recorded := func(what string, o ref.Outcome, from int) {
		ds := env.RolledDice()[before:]
		if len(ds) != len(rec.Log)-from {
			c.Fail("%s %q: %d dice are recorded, %d were drawn", what, clip(text, 300), len(ds), len(rec.Log)-from)
		}
		for i, d := range ds {
			if d != rec.Log[from+i].Die {
				c.Fail("%s %q: die %d is recorded as %s, drawn was %s", what, clip(text, 300), i, d, rec.Log[from+i].Die)
			}
		}
	}
	// agree judges one evaluation with the model's run on the same draws.
	agree := func(what string, o ref.Outcome, src *replaySrc, draws []Draw, obj objects.Object, err error) bool {
		at := fmt.Sprintf("%s %q on %s", what, clip(text, 300), drawText(draws))
		c.Trace("%s: %v %v, model %s %s", at, obj, err, o.Verdict, o.Reason)
		if n := len(draws); n > 0 && draws[n-1].Err != nil {
			if err == nil {
				c.Fail("%s: got %s, but the feeder failed", at, show(obj))
			}
			if src.i < n && o.Verdict == ref.Accept {
				c.Fail("%s: %d dice were drawn, the command needs %d", at, n, src.i)
			}
			c.Count("feeder failures", 1)
			return false
		}
		if src.mismatch != "" {
			c.Fail("%s: %s", at, src.mismatch)
		}
		if err != nil {
			if o.Verdict == ref.Accept && !o.Refused2 {
				c.Fail("%s: %v, but the command is valid", at, err)
			}
			c.Count("refused", 1)
			return false
		}
		if o.Verdict == ref.Refuse {
			c.Fail("%s: got %s, must be refused: %s", at, show(obj), o.Reason)
		}
		if o.Refused2 {
			c.Fail("%s: got %s, but there is no valid reroll threshold", at, show(obj))
		}
		if src.dry || src.i != len(draws) {
			c.Fail("%s: %d dice were drawn, the command needs another number", at, len(draws))
		}
		if why := judge(cmd, o, obj); why != "" {
			c.Fail("%s: %s", at, why)
		}
		if cmd.Kind == ref.KR || cmd.Kind == ref.KU {
			c.Count("R and U objects", 1)
		}
		return true
	}

	// step by step
	node := mustParse(c, text)
	var obj objects.Object
	var err error
	prepared := 0
	ready, ofArgs, afterArgs := "", "", 0
	if c.P(30) {
		c.variable(text, node)
	}
	c.guard(fmt.Sprintf("evaluating %q step by step", clip(text, 300)), func() {
		if err = prepare(ev, node, cmd, func() { ofArgs, afterArgs = node.SExp(), len(rec.Log) }); err == nil {
			prepared = len(rec.Log)
			ready = node.SExp()
			obj, err = ev.Eval(node)
		}
	})
	draws := rec.Log[drawnBefore:len(rec.Log):len(rec.Log)]
	src := &replaySrc{log: usable(draws)}
	o := ref.Run(cmd, src, max)
	if o.Draws > 500000 && before > 0 {
		return // with the dice before it, it may exceed the limit
	}
	ok := agree("step by step", o, src, draws, obj, err)
	rec.FailAt = -1
	if !ok {
		onePass(c, text, cmd, o, rec, max, agree)
		return
	}
	recorded("step by step", o, drawnBefore)
	c.Count("evaluated step by step", 1)
	c.Eval(text + dice.FormatDiceWithoutSpaces(env.RolledDice()))
	if cmd.Kind == ref.KD {
		// each roll gave its place to its dice
		i, determined := afterArgs, node.SExp()
		want := dRollRe.ReplaceAllStringFunc(ofArgs, func(roll string) string {
			var n, sides int
			fmt.Sscanf(roll, "(DRoll %d %d)", &n, &sides)
			ss := []string{}
			for ; n > 0 && i < prepared; n, i = n-1, i+1 {
				ss = append(ss, rec.Log[i].Die.SExp())
			}
			return "(SumRollResult " + strings.Join(ss, " ") + ")"
		})
		if i != prepared || determined != want {
			c.Fail("%q: determined, the tree %s is %s, want %s", clip(text, 300), clip(ofArgs, 600), clip(determined, 600), clip(want, 600))
		}
		if node.IsVariable() {
			c.Fail("%q: the determined tree %s is still variable", clip(text, 300), clip(node.SExp(), 400))
		}
		if cmd.Cmp != "" {
			cmp := node.(*ast.Command).Expression.(*ast.BasicInfixExpression)
			l, err := ev.EvalCompareLeft(cmp)
			i, is := l.(*objects.Integer)
			if err != nil || !is || !isInt(i, o.Total) {
				c.Fail("%q: the left side is %v %v, want %v", clip(text, 300), l, err, o.Total)
			}
			left, is := cmp.Left().(*ast.Int)
			if !is || !o.Total.IsInt64() || int64(left.Value) != o.Total.Int64() {
				c.Fail("%q: the left side became %s, want %v", clip(text, 300), cmp.Left().SExp(), o.Total)
			}
			ready = node.SExp()
		}
	}
	// again
	first := append([]Draw(nil), rec.Log[drawnBefore:prepared]...)
	for n := c.N(3); n > 0; n-- {
		from := len(rec.Log)
		if o.Draws > 5000 {
			break
		}
		if ev.RolledDice(); len(env.RolledDice()) > roller.MaxNumOfDice/2 {
			break
		}
		var obj2 objects.Object
		c.guard(fmt.Sprintf("evaluating %q again", clip(text, 300)), func() { obj2, err = ev.Eval(node) })
		fresh := rec.Log[from:len(rec.Log):len(rec.Log)]
		if cmd.Kind == ref.KD || cmd.Kind == ref.KCalc {
			if len(fresh) > 0 {
				c.Fail("%q: evaluating the determined tree drew %s", clip(text, 300), drawText(fresh))
			}
			c.Count("determined trees evaluated again", 1)
		} else {
			c.Count("prepared trees evaluated again", 1)
		}
		if cmd.Kind == ref.KD || cmd.Kind == ref.KCalc {
			fresh = rec.Log[prepared:from] // none: the dice of the values stay
		}
		src := &replaySrc{log: append(append([]Draw(nil), first...), fresh...)}
		o2 := ref.Run(cmd, src, max)
		if !agree("evaluated again", o2, src, src.log, obj2, err) {
			break
		}
		recorded("evaluated again", o2, drawnBefore)
	}
	if s := node.SExp(); cmd.Kind != ref.KChoice && s != ready {
		c.Fail("%q: evaluating changed the tree %s to %s", clip(text, 300), clip(ready, 400), clip(s, 400))
	}
	if why := judge(cmd, o, obj); why != "" {
		c.Fail("%q: the first object changed when the tree was evaluated again: %s", clip(text, 300), why)
	}

	onePass(c, text, cmd, o, rec, max, agree)
}

// usable is the draws with a value for one that failed, which the model needs.
func usable(draws []Draw) []Draw {
	if n := len(draws); n > 0 && draws[n-1].Err != nil {
		draws = append([]Draw(nil), draws...)
		draws[n-1].Die = dice.Die{Value: 1, Sides: draws[n-1].Sides}
	}
	return draws
}

var numberRe = regexp.MustCompile(`\d{1,9}`)

// onePass evaluates the parsed command without any step before it.
func onePass(c *Ctx, text string, cmd *ref.Cmd, o ref.Outcome, rec *Rec, max int, agree func(string, ref.Outcome, *replaySrc, []Draw, objects.Object, error) bool) {
	if (cmd.Kind == ref.KR || cmd.Kind == ref.KU) && (cmd.HasRandom() || (cmd.Kind == ref.KR && cmd.Threshold == nil)) {
		return
	}
	if o.Draws > 20000 || o.Refused2 { // the check of the threshold is a step of its own
		return
	}
	from := len(rec.Log)
	rec.FailAt = -1
	if c.P(12) {
		rec.FailAt = from + c.N(1+c.N(20))
	}
	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(roller.New(rec), env)
	ev.MaxRerolls = max
	node := mustParse(c, text)
	var obj objects.Object
	var err error
	c.guard(fmt.Sprintf("evaluating %q in one pass", clip(text, 300)), func() { obj, err = ev.Eval(node) })
	draws := rec.Log[from:len(rec.Log):len(rec.Log)]
	src := &replaySrc{log: usable(draws)}
	o = ref.RunDirect(cmd, src, max)
	if cmd.Kind == ref.KR && o.Verdict == ref.Refuse && err == nil {
		// A roll with bad arguments is not reached after the limit.
		a, _ := obj.(*objects.Array)
		if r, is := obj.(*objects.RRollCompResult); is {
			a = r.ValueGroups
		}
		if a != nil && a.Length() >= max {
			return
		}
	}
	if agree("in one pass", o, src, draws, obj, err) {
		ds := env.RolledDice()
		if len(ds) != len(draws) {
			c.Fail("in one pass %q: %d dice are recorded, %d were drawn", clip(text, 300), len(ds), len(draws))
		}
		for i, d := range ds {
			if d != draws[i].Die {
				c.Fail("in one pass %q: die %d is recorded as %s, drawn was %s", clip(text, 300), i, d, draws[i].Die)
			}
		}
		c.Count("evaluated in one pass", 1)
	}
}

// tree is an own nested list of integers and other objects.
type tree struct {
	leaf string // description of a leaf
	num  *int
	kids []tree
}

func (t tree) text(sep, open, shut string) string {
	if t.kids == nil {
		return t.leaf
	}
	ss := make([]string, len(t.kids))
	for i, k := range t.kids {
		ss[i] = k.text(sep, open, shut)
	}
	return open + strings.Join(ss, sep) + shut
}

func arrays(c *Ctx) {
	g := newGen(c)
	var build func(depth int) (objects.Object, tree)
	build = func(depth int) (objects.Object, tree) {
		switch n := c.N(10); {
		case depth > 0 && n < 4:
			kids := make([]tree, 0)
			els := make([]objects.Object, 0)
			for k := c.N(6); k > 0; k-- {
				o, t := build(depth - 1)
				kids, els = append(kids, t), append(els, o)
			}
			if c.P(50) {
				return objects.NewArrayByMove(els), tree{kids: kids}
			}
			a := objects.NewArray(els...)
			for i := range els { // the copy is its own
				els[i] = objects.NewInteger(-77)
			}
			return a, tree{kids: kids}
		case n == 8:
			b := c.P(50)
			return objects.NewBoolean(b), tree{leaf: strconv.FormatBool(b)}
		case n == 9:
			s := g.item()
			for c.P(60) {
				s += pick(c, ", ", ",", " ", "]", "[", "\"", "\\", "、", "a")
			}
			return objects.NewString(s), tree{leaf: strconv.Quote(s)}
		}
		v := g.wide()
		if c.P(50) {
			v = -v
		}
		return objects.NewInteger(v), tree{leaf: strconv.Itoa(v), num: &v}
	}
	n := c.N(9)
	if c.P(3) {
		n = 50 + c.N(300)
	}
	els := make([]objects.Object, 0)
	top := tree{kids: make([]tree, 0)}
	onlyInts := c.P(60)
	sum, max := new(big.Int), new(big.Int)
	fit := true
	allInts := true
	for i := 0; i < n; i++ {
		o, t := build(2)
		if onlyInts {
			v := pick(c, c.N(100), -c.N(100), g.wide(), -g.wide(), c.N(6)+1)
			o, t = objects.NewInteger(v), tree{leaf: strconv.Itoa(v), num: &v}
		}
		els, top.kids = append(els, o), append(top.kids, t)
		if t.num == nil {
			allInts = false
			continue
		}
		v := big.NewInt(int64(*t.num))
		if i == 0 || v.Cmp(max) > 0 {
			max = v
		}
		sum.Add(sum, v)
		fit = fit && sum.IsInt64()
	}
	a := objects.NewArray(els...)
	c.Count("arrays", 1)
	want := top.text(", ", "[", "]")
	c.Eval(want)
	if got := a.Inspect(); got != want {
		c.Fail("the array %s is shown as %s", clip(want, 400), clip(got, 400))
	}
	want2 := top.text(",", "[", "]")
	if got := a.InspectWithoutSpaces(); got != want2 {
		c.Fail("the array %s is shown without blanks as %s", clip(want2, 400), clip(got, 400))
	}
	sep := pick(c, ",", " + ", "", "/", "、")
	ss := make([]string, len(top.kids))
	tt := make([]string, len(top.kids))
	for i, k := range top.kids {
		ss[i] = k.text(", ", "[", "]")
		tt[i] = k.text(",", "[", "]")
	}
	if got := a.JoinedElements(sep); got != strings.Join(ss, sep) {
		c.Fail("the elements of %s joined by %q are %s", clip(want, 400), sep, clip(got, 400))
	}
	if got := a.JoinedElementsWithoutSpaces(sep); got != strings.Join(tt, sep) {
		c.Fail("the elements of %s joined by %q without blanks are %s", clip(want, 400), sep, clip(got, 400))
	}
	if a.Length() != n {
		c.Fail("the array %s has %d elements", clip(want, 400), a.Length())
	}
	for i := range els {
		if a.At(i) != els[i] {
			c.Fail("element %d of %s is %s", i, clip(want, 400), show(a.At(i)))
		}
	}
	m, ok := a.MaxInteger()
	if ok != allInts || (ok && !isInt(m, max)) {
		c.Fail("the maximum of %s is %v %v", clip(want, 400), m, ok)
	}
	s, ok := a.SumOfIntegers()
	if ok != allInts || (ok && fit && !isInt(s, sum)) {
		c.Fail("the sum of %s is %v %v", clip(want, 400), s, ok)
	}
	if got := a.Inspect(); got != want {
		c.Fail("reading the array %s changed it to %s", clip(want, 400), clip(got, 400))
	}
	if n > 0 { // the array does not follow the slice it was made of
		els[c.N(n)] = objects.NewString("other")
		if got := a.Inspect(); got != want {
			c.Fail("a write into the slice changed the array %s to %s", clip(want, 400), clip(got, 400))
		}
	}
	x, y := c.N(1000), -c.N(1000)
	p, q := objects.NewInteger(x), objects.NewInteger(y)
	if r := p.Add(q); r.Value != x+y || p.Value != x || q.Value != y {
		c.Fail("%d + %d is %v; the operands are %v and %v", x, y, r.Value, p.Value, q.Value)
	}
	k := pick(c, c.N(20), -c.N(20), g.wide(), -g.wide())
	wantMod := ""
	if k > 0 {
		wantMod = "+" + strconv.Itoa(k)
	} else if k < 0 {
		wantMod = strconv.Itoa(k)
	}
	if got := notation.FormatModifier(k); got != wantMod {
		c.Fail("the modifier %d is shown as %q", k, got)
	}
}
