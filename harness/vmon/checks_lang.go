package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unicode/utf8"

	"vmon/ref"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
)

func init() {
	register(&Check{
		ID: "C11", Quick: 120000, Thorough: 2500000,
		Rule:   "Commands of all kinds are executed; the command shown in the message is read back by the model's parser, compared with the typed command, and executed again on the real code with the dice that remain; independently the notation of the unevaluated tree is parsed again. Non-trivial: a result was shown; distinct by text and dice.",
		Run:    runC11,
		Floors: map[string]int{"shown commands executed again": 10000, "notations parsed again": 10000},
	})
	register(&Check{
		ID: "C14", Quick: 150000, Thorough: 3000000,
		Rule:   "Texts: valid commands, mutations of them, and (a third of the cases) texts enumerated over the alphabet of the language by length, and a sweep that puts each of 260 characters at every position of a command of each kind. Acceptance by the parser is compared with an independent parser. Non-trivial: the text is not empty; distinct by text.",
		Run:    runC14,
		Floors: map[string]int{"accepted": 10000, "rejected": 10000, "enumerated": 100000, "characters swept": 90000, "long texts": 100},
	})
	register(&Check{
		ID: "C21", Quick: 300000, Thorough: 6000000,
		Rule:   "Commands of all kinds; the S-expression of the parsed command is compared with the tree of an independent parser, rendering is repeated before and after rendering the notation, the rendered tree is executed and compared with the model, and IsVariable of every node is compared with what its subtree holds. Non-trivial: the text is a command; distinct by text.",
		Run:    runC21,
		Floors: map[string]int{"trees compared": 20000, "shown trees executed": 10000, "nodes variable true": 20000, "nodes variable false": 20000},
	})
	register(&Check{
		ID: "C24", Quick: 2500, Thorough: 60000,
		Rule:        "Commands with nested, chained and mixed structure are grown step by step; the parser's own expression counter and the allocations of a whole execution and of rendering the tree are observed at each length and compared with a quadratic bound (linear for the rendering). Non-trivial: every text; distinct by text.",
		Run:         runC24,
		Floors:      map[string]int{"parses measured": 20000, "nested to 20 or more": 2000, "renderings measured": 10000},
		Assumptions: []string{"texts up to 600 bytes"},
	})
}

func parse(c *Ctx, text string) (n ast.Node, err error) {
	c.guard(fmt.Sprintf("Parse(%q)", clip(text, 300)), func() {
		var r interface{}
		r, err = parser.Parse("input", []byte(text))
		if err == nil {
			n = r.(ast.Node)
		}
	})
	return
}

func rands(c *ref.Cmd) int {
	n := c.E.Count(ref.Rand) + c.Threshold.Count(ref.Rand) + c.Target.Count(ref.Rand)
	for _, r := range c.Rolls {
		n += r.Num.Count(ref.Rand) + r.Sides.Count(ref.Rand)
	}
	for _, t := range c.Bonus {
		n += t.E.Count(ref.Rand)
	}
	return n
}

func runC11(c *Ctx) {
	g := newGen(c)
	text := ""
	switch n := c.N(100); {
	case c.Idx == 0:
		text = "C(2*(3/2))"
	case n < 25:
		text = g.calc()
	case n < 40:
		text = g.dExpr(2+c.N(4), 15).s + pick(c, "", g.cmp()+g.target(g.small()))
	case n < 48:
		text = genRand(g, newSession(c, Uniform, 0))
	case n < 56:
		text = genU(g, newSession(c, Uniform, 0))
	default:
		text = g.anyCommand()
	}
	cmd, over := ref.Parse(text)
	if cmd == nil || over || cmd.Rest != "" {
		return
	}
	// The notation of the tree as parsed.
	if node, err := parse(c, text); err == nil {
		var s string
		c.guard("InfixNotation", func() { s, err = notation.InfixNotation(node, true) })
		if err != nil {
			c.Fail("%q: no notation: %v", text, err)
		}
		c.Count("notations parsed again", 1)
		back, over := ref.Parse(s)
		if back == nil || over {
			c.Fail("%q has the notation %q, which is not a command", text, s)
		}
		if back.Canon(false) != cmd.Canon(false) {
			if back.Canon(true) != cmd.Canon(true) {
				c.Fail("%q has the notation %q, which denotes another command:\n  %s\n  %s", text, s, cmd.Canon(false), back.Canon(false))
			}
			c.Known("muldiv", fmt.Sprintf("%q has the notation %q, which denotes another command", text, s))
		}
	}
	s := newSession(c, Uniform, 0)
	s.setFeed(c.N(8))
	x := s.Exec(text)
	c.Trace("%s", x)
	f := conform(c, x, s.GameID, defaultMaxRerolls)
	if x.Err != nil || f.Cmd == nil {
		c.Eval("")
		return
	}
	shown := x.Res.MessageParts[0]
	if f.Inexact {
		c.Known("muldiv", fmt.Sprintf("%s: the shown command denotes another command", x))
	}
	if cmd.Kind != ref.KCalc {
		if !strings.HasPrefix(shown, "(") || !strings.HasSuffix(shown, ")") {
			c.Fail("%s: no command is shown", x)
		}
		shown = shown[1 : len(shown)-1]
	}
	c.Eval(key(x))
	c.Sample("%q is shown as %q", text, shown)
	if strings.Contains(shown, "9223372036854775808") || f.O.Refused2 {
		return // -2^63 has no literal; nothing was rolled
	}
	back, over := ref.Parse(shown)
	if cmd.Kind == ref.KD && cmd.E.Count(ref.Roll) == 0 {
		return // nothing is left to roll: the shown calculation is no command
	}
	if back == nil || over {
		c.Fail("%s: the shown command %q is not a command", x, shown)
	}
	k := rands(cmd) - rands(back)
	if k < 0 || k > len(x.Draws) {
		c.Fail("%s: the shown command has %d random numbers, the typed one %d", x, rands(back), rands(cmd))
	}
	rest := x.Draws[k:]
	fd := newRec(1, Script, 0)
	fd.Vals = []int{1}
	if len(rest) > 0 {
		fd.Vals = nil
		for _, d := range rest {
			fd.Vals = append(fd.Vals, d.Die.Value)
		}
	}
	fd.Limit = len(rest) + 100000
	s2 := &Session{c: c, B: bcdice.New(fd), F: fd, GameID: "DiceBot"}
	y := s2.Exec(shown)
	c.Trace("%s", y)
	c.Count("shown commands executed again", 1)
	if f.Inexact {
		return // may differ in the quotient
	}
	if y.Err != nil && ref.Run(back, &replaySrc{log: rest}, defaultMaxRerolls).Verdict == ref.MayRefuse {
		return // another order of evaluation leaves the 64-bit range
	}
	if y.Err != nil {
		c.Fail("%s: the shown command fails: %s", x, y)
	}
	if drawText(y.Draws) != drawText(rest) || len(y.Draws) != len(rest) {
		c.Fail("%s: the shown command draws other dice: %s", x, y)
	}
	if x.Res.SuccessCheckResult != y.Res.SuccessCheckResult {
		c.Fail("%s: the shown command gives %s", x, y)
	}
	a, b := x.Res.MessageParts, y.Res.MessageParts
	if len(a) != len(b) || a[len(a)-1] != b[len(b)-1] {
		c.Fail("%s: the shown command gives %s", x, y)
	}
}

const alphabet = "1D6[].+-*()/UC>=B,Rch09"

// enumerated gives the texts of length n over a prefix of the alphabet.
func enumerated(i int) (string, int) {
	// lengths 1.. over 12 symbols
	const syms = "1D[].+-()/U>"
	n := 1
	size := len(syms)
	for i >= size {
		i -= size
		size *= len(syms)
		n++
	}
	b := make([]byte, n)
	for k := n - 1; k >= 0; k-- {
		b[k] = syms[i%len(syms)]
		i /= len(syms)
	}
	return string(b), n
}

// The sweep puts every character of a set before, after, into and in the
// place of every character of one command of each kind.
var sweepTexts = []string{
	"2D6", "1D6+2>=7", "(1+2)D6*3", "-1D(6)/2U", "[1...3]D6-[2...5]", "1D6/2R<>0",
	"2B6", "2B6+3B10>=4", "2R6[5]", "2R6+1R10>=5", "3R6[4]<=2",
	"2U6[5]", "2U6[5]+1-2", "1U6+2U10[4]>=9", "C(1+2*3)", "C(-7/2R)", "C(7/-2U)", "choice[a,b c]", "CHOICE[x]",
	"[1...7/2R]D6", "2U6[3]-(1+2)/2R", "1B(6/2U)>=7/2R",
}

var sweepRunes = func() []string {
	rs := []string{}
	for r := rune(0); r < 128; r++ {
		rs = append(rs, string(r))
	}
	for _, s := range []string{"==", "=>", "=<", "!=", "><", "**", "//", "++", "--", "+-", "-+", "<<", ">>", "..", "....", "UU", "RU", "ur", "DD", "BD", "%%", "()", "[]", "[]D6", "[1...2]", "(1)", "d6", "1d"} {
		rs = append(rs, s)
	}
	for _, r := range []rune{0x85, 0xa0, 0x130, 0x131, 0x17f, 0x212a, 0x1e9e, 0x660, 0x966, 0xb2, 0xbd, 0x1680, 0x180e, 0x2000, 0x2007, 0x2009, 0x200b, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x2026, 0x2212, 0x2215, 0x2260, 0x2264, 0x2265, 0x3000, 0x3001, 0x4e00, 0xfeff, 0xfffd, 0x1f3b2, 0x1d7ce, 0x10ffff} {
		rs = append(rs, string(r))
	}
	for r := rune(0xff01); r <= 0xff60; r++ {
		rs = append(rs, string(r))
	}
	return rs
}()

// sweep gives the i-th text of the sweep.
func sweep(i int) (string, bool) {
	for _, t := range sweepTexts {
		n := (2*len(t) + 1) * len(sweepRunes)
		if i >= n {
			i -= n
			continue
		}
		r := sweepRunes[i%len(sweepRunes)]
		i /= len(sweepRunes)
		if i <= len(t) {
			return t[:i] + r + t[i:], true
		}
		i -= len(t) + 1
		return t[:i] + r + t[i+1:], true
	}
	return "", false
}

func language(c *Ctx, text string) {
	cmd, over := ref.Parse(text)
	if cmd != nil && cmd.Rest != "" {
		return
	}
	_, err := parse(c, text)
	want := cmd != nil && !over
	if want != (err == nil) {
		c.Fail("%q: the parser gives %v, the language says %v", text, err, want)
	}
	if want {
		c.Count("accepted", 1)
	} else {
		c.Count("rejected", 1)
	}
	c.Eval(text)
}

func runC14(c *Ctx) {
	if c.Idx%3 == 0 {
		// 16 texts of the enumeration, and 8 random continuations
		for k := 0; k < 24; k++ {
			t, _ := enumerated(c.Idx/3*24 + k)
			language(c, t)
			c.Count("enumerated", 1)
		}
		return
	}
	if c.Idx%3 == 1 {
		for k := 0; k < 4; k++ {
			t, ok := sweep(c.Idx/3*4 + k)
			if !ok {
				break
			}
			language(c, t)
			c.Count("characters swept", 1)
			// The same holds for the execution, which takes white space as
			// the beginning of a comment.
			o := newSession(c, Uniform, 0)
			x := o.Exec(t)
			conform(c, x, o.GameID, defaultMaxRerolls)
		}
	}
	g := newGen(c)
	t := g.anyCommand()
	switch n := c.N(100); {
	case n < 20:
		t = genRand(g, newSession(c, Uniform, 0))
	case n < 30:
		g.ctl = c.P(20)
		t = g.choice(1+c.N(6), true)
	case n < 40: // a text over the alphabet
		var b strings.Builder
		for i := 3 + c.N(12); i > 0; i-- {
			b.WriteByte(alphabet[c.N(len(alphabet))])
		}
		t = b.String()
	case n < 48: // pieces
		var b strings.Builder
		for i := 2 + c.N(6); i > 0; i-- {
			b.WriteString(pick(c, "1D6", "2B6", "D", "[1...3]", "(1+2)", "+", "-", "*", "/", "/2U", "/2R", ">=3", "[5]", "U", "R6", "3U6", "C(1)", "(", ")", "6", "B(2)", "<>1", "=", "choice[a,b]"))
		}
		t = b.String()
	case n < 60: // a construct in a place that may not take it
		t = pick(c, "2B6>=%s", "2R6[%s]", "2R6[3]>=%s", "2R6>=%s", "2U6[%s]", "2U6[3]+%s", "2U6[3]>=%s", "2U6[3]+1>=%s", "2U6[3]+1-%s", "C(%s)", "C(1+%s)", "C(2*%s)", "C(6/%s)", "C(-%s)", "C((%s)+1)",
			"1D6>=%s", "1D6+%s>=3", "1D6+%s", "%sD6", "(%s)D6", "(1+%s)D6", "2D%s", "2D(%s)", "%sB6", "(%s)B6", "2B(%s)", "2B%s", "2B6+%s", "2B6+%s+1B4", "(%s)R6[3]", "2R(%s)[3]", "2R6+%s[3]", "(%s)U6[3]", "2U(%s)[3]", "2U6+%s[3]",
			"[%s...6]", "[1...%s]D6", "[%s...6]D6", "1D6+[%s...9]", "1D6+[1...%s]", "[(%s)...9]D6", "1D6*%s", "1D6/%s", "1D6/%sR", "-%s", "%s", "(%s)", "%s>=3", "%s[3]", "1D6+1>=%s+1", "2B6>=-%s", "2B6>=2*(%s)")
		t = strings.Replace(t, "%s", pick(c, "1D6", "(1D6)", "D6", "[1...3]", "([1...3])", "2B6", "2R6", "2R6[4]", "2U6[4]", "2U6[4]+1", "C(1)", "choice[a,b]", "3", "(3)", "-3", "(2*3)", "+3", "1>=1", "3R", "6/2", "6/2U", "[3]", "()", "", "[1...3]D6", "1D6D6", "[1...2D4]", "[[1...2]...4]"), 1)
		c.Count("constructs in other places", 1)
	case n < 65: // literals around the limits
		t = pick(c, "1D6+%s", "C(%s)", "%sD6", "3U6[6]+%s", "2B6>=%s", "2R6[%s]", "2D%s", "C(-%s)", "1D6>-%s", "(1-%s)D6", "[1...%s]D6")
		t = strings.Replace(t, "%s", pick(c, "9223372036854775807", "9223372036854775808", "09223372036854775807", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "00000000000000000000000001", "2147483648", "4294967297", "9223372036854775810"), 1)
	}
	if c.P(55) {
		t = g.spoil(t)
	}
	if c.N(300) == 0 { // long, but simple
		op := pick(c, "+", "-", "*", "+1D6-", "+(", "-3/2U+")
		k := c.Tail(3, 100+c.N(3900/len(op)-100), 16000/len(op))
		t = pick(c, "1D6", "C(1", "2B6>=1", "1D6>=1", "2U6[3]", "3R6[2", "(1") + strings.Repeat(op+"1", k)
		if op == "+(" {
			k = k%150 + 20
			t = "1D6" + strings.Repeat(op+"1", k) + strings.Repeat(")", k-c.N(2))
		}
		switch t[0] {
		case 'C':
			t += ")"
		case '3':
			t += "]"
		case '(':
			t += ")D6"
		}
		if c.P(20) {
			t += pick(c, "+", ")", "x", "[", ">=")
		}
		if b := pick(c, 0, 1, 2); b > 0 && op != "+(" {
			t = "2" + pick(c, "B", "R", "U") + "6" + strings.Repeat("+1"+pick(c, "B", "R", "U")+"6", k/3)
		}
		c.Count("long texts", 1)
	}
	if !utf8.ValidString(t) {
		return
	}
	language(c, t)
	if len(t) < 200 && c.P(25) { // and the execution agrees
		o := newSession(c, Uniform, 0)
		o.F.MaxRun = 20
		x := o.Exec(t)
		conform(c, x, o.GameID, defaultMaxRerolls)
		c.Count("also executed", 1)
	}
	c.Sample("%q", t)
}

func runC21(c *Ctx) {
	g := newGen(c)
	t := g.anyCommand()
	switch n := c.N(100); {
	case n < 15:
		t = genRand(g, newSession(c, Uniform, 0))
	case n < 30:
		t = genU(g, newSession(c, Uniform, 0))
	case n < 40:
		g.ctl = c.P(20)
		t = g.choice(1+c.N(6), false)
	}
	cmd, over := ref.Parse(t)
	if cmd == nil || over || cmd.Rest != "" {
		return
	}
	node, err := parse(c, t)
	if err != nil {
		c.Fail("%q is not parsed: %v", t, err)
	}
	var s1, s2, s3, n1, n2 string
	c.guard("rendering", func() {
		s1 = node.SExp()
		s2 = node.SExp()
		n1, err = notation.InfixNotation(node, true)
		if err == nil {
			n2, err = notation.InfixNotation(node, true)
		}
		s3 = node.SExp()
	})
	if err != nil {
		c.Fail("%q: no notation: %v", t, err)
	}
	if s1 != s2 || s1 != s3 || n1 != n2 {
		c.Fail("%q: rendering is not repeatable:\n  %s\n  %s\n  %s\n  %s\n  %s", t, s1, s2, s3, n1, n2)
	}
	if !ref.SameSExp(s1, cmd) {
		c.Fail("%q: the tree is\n  %s, want\n  %s", t, s1, cmd.SExp())
	}
	if c.P(50) {
		c.variable(t, node)
	}
	if c.P(50) { // the tree that was shown is executed as if it had not been
		seed, mode, hint, run := c.R.Uint64(), Mode(c.N(int(Script))), 1+c.N(10), 2+c.N(60)
		rec := func() (*Rec, *evaluator.Evaluator) {
			f := newRec(seed, mode, hint)
			f.MaxRun = run
			return f, evaluator.NewEvaluator(roller.New(f), evaluator.NewEnvironment())
		}
		f, ev := rec()
		x := &Exec{Text: t}
		c.guard("Execute", func() { x.Res, x.Err = command.Execute(node, "DiceBot", ev) })
		x.Draws = f.Log
		conformCmd(c, x, cmd, false, false, "DiceBot", 10000)
		c.variable(t, node) // what is determined by now is constant
		if node2, err := parse(c, t); err == nil && len(x.Draws) < 1000 {
			// one that nothing was asked of before
			_, ev := rec()
			y := &Exec{Text: t}
			var m1, m2 string
			c.guard("Execute", func() {
				y.Res, y.Err = command.Execute(node2, "DiceBot", ev)
				s1, s2 = node.SExp(), node2.SExp()
				m1, _ = notation.InfixNotation(node, true)
				m2, _ = notation.InfixNotation(node2, true)
			})
			if s1 != s2 || m1 != m2 || (x.Err == nil) != (y.Err == nil) || x.Err == nil && x.Res.Message() != y.Res.Message() {
				c.Fail("%q: executed after it was shown it is\n  %s\n  %s, executed at once\n  %s\n  %s", t, s1, m1, s2, m2)
			}
			c.Count("trees compared after execution", 1)
		}
		c.Count("shown trees executed", 1)
	}
	c.Count("trees compared", 1)
	c.Count("kind "+cmd.Kind.String(), 1)
	c.Eval(t)
	c.Sample("%q -> %s", t, s1)
}

// variable tells whether a subtree holds something that is rolled, and
// compares that with what each of its nodes says.
func (c *Ctx) variable(t string, n ast.Node) bool {
	is := false
	or := func(x ast.Node) {
		if x != nil && !reflect.ValueOf(x).IsZero() && c.variable(t, x) { // no typed nil
			is = true
		}
	}
	judged := true
	switch x := n.(type) {
	case *ast.Command:
		or(x.Expression)
	case *ast.Choice:
		is = true
	case *ast.BRollList:
		is = true
		for _, r := range x.BRolls {
			or(r)
		}
	case *ast.RRollList:
		is = true
		for _, r := range x.RRolls {
			or(r)
		}
		or(x.Threshold)
	case *ast.URollExpr:
		is = true
		or(x.URollList)
		// the bonus is a chain without its leftmost operand
		var chain func(ast.Node)
		chain = func(b ast.Node) {
			i, ok := b.(ast.InfixExpression)
			if !ok || reflect.ValueOf(b).IsZero() {
				return
			}
			chain(i.Left())
			or(i.Right())
		}
		if x.Bonus != nil {
			chain(x.Bonus)
		}
	case ast.InfixExpression:
		or(x.Left())
		or(x.Right())
		switch n.Type() {
		case ast.D_ROLL_NODE, ast.B_ROLL_NODE, ast.R_ROLL_NODE, ast.U_ROLL_NODE, ast.RANDOM_NUMBER_NODE:
			is = true
		}
	case ast.PrefixExpression:
		or(x.Right())
	default:
		switch n.Type() {
		case ast.INT_NODE, ast.STRING_NODE, ast.NIL_NODE:
		default:
			judged = false
		}
	}
	if judged {
		var got bool
		c.guard("IsVariable", func() { got = n.IsVariable() })
		if got != is {
			c.Fail("%q: the node %s says IsVariable %v", t, n.SExp(), !is)
		}
		c.Count(fmt.Sprintf("nodes variable %v", is), 1)
	}
	return is
}

// grow gives texts of growing size of a random shape.
func grow(c *Ctx) func(n int) string {
	num := func() string { return itoa(1 + c.N(20)) }
	op := pick(c, "+", "-", "*", "/")
	div := pick(c, "/", "/", "+", "*", "-")
	suf := pick(c, "", "", "U", "R")
	if div != "/" {
		suf = ""
	}
	a, b := num(), num()
	opening := func() string {
		return pick(c, a+div+"(", "("+a+op, "(", "-(", "((", a+op+"(", "([1..."+a+"]"+op, "("+a+"D6"+op, a+op+"(-", "(-"+a+op, a+op+"(-(")
	}
	opens := []string{opening()}
	for c.P(40) && len(opens) < 3 {
		opens = append(opens, opening())
	}
	head, tail := "", ""
	switch c.N(9) {
	case 0:
		head, tail = "C(", ")"
	case 1:
		head, tail = "1D6+", ""
	case 2:
		head, tail = "(", ")D6"
	case 3:
		head, tail = "2B6>=", ""
	case 4:
		head, tail = "3R6[", "]"
	case 5:
		head, tail = "3U6[6]+", ">=3"
	case 6:
		head, tail = "2B(", ")"
	case 7:
		head, tail = "1D6>=", ""
	}
	if c.P(20) { // a chain instead of a nest
		x := pick(c, a+"D6", a+"B6", a+"R6", a+"U6", a, "("+a+")D("+b+")", "["+a+"...30]D6", "("+a+"+"+b+")")
		o := pick(c, "+", "-", "*", "/")
		end := pick(c, "", ">=3", "[3]", "[3]>=3", "+1", "x")
		return func(n int) string {
			return head + strings.TrimSuffix(strings.Repeat(x+o, n), o) + tail + end
		}
	}
	if c.P(10) {
		it := g0(c)
		return func(n int) string { return "choice[" + strings.Repeat(it+",", n) + it + "]" }
	}
	broken := c.P(15)
	return func(n int) string {
		t, close := head, ""
		for i := 0; i < n; i++ {
			o := opens[i%len(opens)]
			t += o
			close += strings.Repeat(")"+suf, strings.Count(o, "("))
		}
		if broken {
			close = close[:len(close)-1-len(suf)]
		}
		return t + b + close + tail
	}
}

func g0(c *Ctx) string { return pick(c, "a", "い", "2D6", "a b", " ") }

func parseBound(n int) uint64 { return uint64(60 * (n + 20) * (n + 20)) }

func runC24(c *Ctx) {
	f := grow(c)
	max := pick(c, 150, 150, 150, 150, 150, 150, 200, 200, 300, 300)
	if c.P(2) {
		max = 600
	}
	for n := 1; ; {
		t := f(n)
		if len(t) > max {
			break
		}
		bound := parseBound(len(t))
		st := parser.Stats{}
		c.guard(fmt.Sprintf("Parse(%q)", clip(t, 300)), func() {
			parser.Parse("input", []byte(t), parser.Statistics(&st, "no match"), parser.MaxExpressions(bound))
		})
		c.Count("parses measured", 1)
		c.Count("expressions evaluated (thousands)", int(st.ExprCnt/1000))
		if st.ExprCnt >= bound {
			c.Fail("%q: parsing %d bytes took more than %d steps", t, len(t), bound)
		}
		if n >= 20 {
			c.Count("nested to 20 or more", 1)
		}
		if len(t) <= 300 {
			var m0, m1 runtime.MemStats
			s := newSession(c, AllMin, 0)
			runtime.ReadMemStats(&m0)
			x := s.Exec(t)
			runtime.ReadMemStats(&m1)
			allocs := m1.Mallocs - m0.Mallocs
			lim := 4*bound + 200*uint64(len(x.Draws)) + 100000
			if node, err := parse(c, t); err == nil {
				runtime.ReadMemStats(&m0)
				c.guard("SExp", func() { node.SExp() })
				c.guard("InfixNotation", func() { notation.InfixNotation(node, true) })
				runtime.ReadMemStats(&m1)
				// Bytes: each level renders its operands into a new text.
				if a, l := m1.Mallocs-m0.Mallocs, uint64(200*len(t)+1000); a > l {
					c.Fail("%q: rendering %d bytes took %d allocations, expected at most %d", t, len(t), a, l)
				}
				c.guard("IsVariable", func() { node.IsVariable() })
				c.Count("renderings measured", 1)
			}
			if allocs > lim {
				c.Fail("%s: %d allocations for %d bytes and %d dice, expected at most %d", x, allocs, len(t), len(x.Draws), lim)
			}
			c.Count("executions measured", 1)
			if a := int(allocs * 1000 / lim); a > c.Out.Counters["max allocations (per mille of the bound)"] {
				c.Out.Counters["max allocations (per mille of the bound)"] = a
			}
		}
		if a := int(st.ExprCnt * 1000 / bound); a > c.Out.Counters["max steps (per mille of the bound)"] {
			c.Out.Counters["max steps (per mille of the bound)"] = a
		}
		c.Eval(t)
		if n < 24 {
			n++
		} else {
			n += 1 + n/3
		}
	}
	c.Sample("%q", f(3))
}
