package main

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"vmon/ref"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

func diceOf(ds []Draw) []dice.Die {
	out := make([]dice.Die, 0, len(ds))
	for _, d := range ds {
		out = append(out, d.Die)
	}
	return out
}

// badDie makes a die that does not fit the request.
func badDie(kind int) func(int) dice.Die {
	return func(s int) dice.Die {
		switch kind {
		case 0:
			return dice.Die{Value: 0, Sides: s}
		case 1:
			return dice.Die{Value: -3, Sides: s}
		case 2:
			if s == math.MaxInt64 {
				return dice.Die{Value: 0, Sides: s}
			}
			return dice.Die{Value: s + 1, Sides: s}
		case 3:
			if s == math.MaxInt64 {
				return dice.Die{Value: 1, Sides: 6}
			}
			return dice.Die{Value: 1, Sides: s + 1}
		case 4:
			if s == 1 {
				return dice.Die{Value: 1, Sides: 2}
			}
			return dice.Die{Value: 1, Sides: s - 1}
		}
		return dice.Die{}
	}
}

// spoil makes a text that is mostly no command.
func (g *Gen) spoil(t string) string {
	c := g.c
	alphabet := []string{"D", "d", "B", "R", "U", "C", "S", "(", ")", "[", "]", "...", "..", ".", "+", "-", "*", "/", "=", "<", ">", "<>", "<=", ">=", "0", "1", "2", "6", "10", ",", " ", "\t", "\n", "!", "あ", "２", "Ｄ", "x", "#", "99999999999999999999", "9223372036854775808", "choice[", "C(", "1D6", "[1...3]", "\u3000", "\v", "_"}
	rs := []rune(t)
	n := 1 + c.N(3)
	for i := 0; i < n; i++ {
		p := c.N(len(rs) + 1)
		switch c.N(5) {
		case 0, 1:
			rs = append(rs[:p:p], append([]rune(alphabet[c.N(len(alphabet))]), rs[p:]...)...)
		case 2:
			if len(rs) > 0 {
				p = c.N(len(rs))
				rs = append(rs[:p:p], rs[p+1:]...)
			}
		case 3:
			if len(rs) > 0 {
				p = c.N(len(rs))
				rs = append(rs[:p:p], append([]rune(alphabet[c.N(len(alphabet))]), rs[p+1:]...)...)
			}
		case 4:
			if len(rs) > 1 {
				a, b := c.N(len(rs)), c.N(len(rs))
				rs[a], rs[b] = rs[b], rs[a]
			}
		}
	}
	return string(rs)
}

func init() {
	register(&Check{
		ID: "C10", Quick: 200000, Thorough: 4000000,
		Rule:   "Commands of all kinds, valid, invalid at run time and malformed, on a recording feeder that may fail or give a wrong die at a chosen draw, and on the real queue feeder with too few, exactly enough and surplus dice. The recorded draws are compared with the draws that the model makes and with RolledDice. Non-trivial: at least one die was drawn; distinct by text and dice.",
		Run:    runC10,
		Floors: map[string]int{"feeder faults hit": 1000, "queue runs": 1000, "non-commands": 500, "refused after dice": 100},
	})
	register(&Check{
		ID: "C16", Quick: 25000, Thorough: 600000,
		Rule:   "Sessions of 3-12 commands on one instance (with refused commands, feeder faults, feeder exchanges and game changes between them); each command is executed again on a fresh instance with the same dice, and all earlier results are compared with snapshots at the end. Non-trivial: a command with at least one predecessor; distinct by history.",
		Run:    runC16,
		Floors: map[string]int{"re-executions": 5000, "results retained": 5000},
	})
	register(&Check{
		ID: "C12", Quick: 150000, Thorough: 4000000,
		Rule:   "Pairs of executions with the same dice, with and without the secret mark s/S, of commands of all kinds, custom dice bots and malformed texts. Non-trivial: the unmarked text is a command; distinct by text.",
		Run:    runC12,
		Floors: map[string]int{"pairs of results": 10000, "pairs of refusals": 500},
	})
	register(&Check{
		ID: "C13", Quick: 150000, Thorough: 4000000,
		Rule:   "Pairs of executions with the same dice: a command and a variant with other letter case, with a comment after white space, or both. Non-trivial: the text differs and is a command; distinct by variant.",
		Run:    runC13,
		Floors: map[string]int{"pairs of results": 10000, "comments": 5000},
	})
}

func runC10(c *Ctx) {
	g := newGen(c)
	if c.P(3) {
		g.budget = 5000
	}
	text := g.anyCommand()
	switch n := c.N(100); {
	case n < 8:
		text = genRand(g, newSession(c, Uniform, 0))
	case n < 16: // fails after the dice are drawn
		d := g.roll("D", 10)
		text = pick(c, d+"/0", d+"/(1-1)", d+"*"+itoa(math.MaxInt64), "1/("+d+"-"+d+")", d+"+0D6", "0B6+"+g.roll("B", 50), g.roll("B", 50)+"+1B0", d+">=1/0", "[1...3]D0", "([1...3]-[1...3])D6")
	case n < 28:
		text = g.spoil(text)
	case n < 34:
		text += pick(c, " ", "\n") + g.anyCommand()
	}
	if c.P(10) {
		text = pick(c, "S", "s") + text
	}
	if c.P(30) {
		runQueue(c, text)
		return
	}
	s := newSession(c, Uniform, 0)
	s.setFeed(c.N(8))
	if c.P(50) {
		// Predict the number of dice, then place a fault among them.
		if cmd, over, _ := resolve(text); cmd != nil && !over {
			t, _ := stripSecret(text)
			if o, ok := s.preview(t); ok && o.Draws > 0 {
				k := c.N(o.Draws + 1)
				if c.P(20) {
					k = o.Draws - 1
				}
				if c.P(50) {
					s.F.FailAt = k
				} else {
					s.F.BadAt, s.F.Bad = k, badDie(c.N(5))
				}
			}
		}
	}
	basic := c.P(10) && text == firstPart(text)
	var x *Exec
	if basic {
		x = execBasic(s, text)
	} else {
		x = s.Exec(text)
	}
	c.Trace("%s", x)
	fault := s.F.FailAt
	if fault < 0 {
		fault = s.F.BadAt
	}
	if fault >= 0 && len(x.Draws) > fault {
		c.Count("feeder faults hit", 1)
		if x.Err == nil {
			c.Fail("%s: die %d was not usable but a result was given", x, fault)
		}
		if len(x.Draws) > fault+1 {
			c.Fail("%s: %d dice were drawn after the feeder failed at die %d", x, len(x.Draws)-fault-1, fault)
		}
		// The draws before the fault are those that the command needs.
		cmd, _, _ := resolve(text)
		log := append([]Draw(nil), x.Draws...)
		log[fault].Die.Value = 1
		src := &replaySrc{log: log}
		ref.Run(cmd, src, defaultMaxRerolls)
		if src.mismatch != "" {
			c.Fail("%s: %s", x, src.mismatch)
		}
		if src.i < len(log) {
			c.Fail("%s: %d dice were drawn, the command needs %d", x, len(log), src.i)
		}
		// The instance is usable afterwards.
		s.F.FailAt, s.F.BadAt = -1, -1
		y := s.Exec("2D6+1")
		conform(c, y, s.GameID, defaultMaxRerolls)
	} else {
		var f Facts
		if basic {
			cmd, over := ref.Parse(text)
			f = conformCmd(c, x, cmd, over, false, s.GameID, defaultMaxRerolls)
		} else {
			f = conform(c, x, s.GameID, defaultMaxRerolls)
		}
		if x.Err != nil && len(x.Draws) > 0 {
			c.Count("refused after dice", 1)
		}
		_ = f
	}
	k := ""
	if len(x.Draws) > 0 {
		k = key(x)
		c.Sample("%s", x)
	}
	c.Eval(k)
}

func execBasic(s *Session, text string) *Exec {
	x := &Exec{Text: text}
	from := len(s.F.Log)
	if s.Cap > 0 {
		s.F.Limit = from + s.Cap
	}
	s.c.guard("ExecuteBasicCommand", func() {
		x.Res, x.Err = s.B.ExecuteBasicCommand(text)
	})
	x.Draws = s.F.Log[from:]
	s.c.Count("basic commands", 1)
	if (x.Res == nil) == (x.Err == nil) {
		s.c.Fail("%q: result %v and error %v", clip(text, 300), x.Res, x.Err)
	}
	return x
}

// runQueue executes the text on the real queue feeder.
func runQueue(c *Ctx, text string) {
	cmd, over, _ := resolve(text)
	var need []dice.Die
	var o ref.Outcome
	if cmd != nil && !over {
		f := newRec(c.R.Uint64(), Mode(c.N(5)), c.N(8))
		f.MaxRun = 3 + c.N(20)
		o = ref.Run(cmd, sim{f}, defaultMaxRerolls)
		if len(f.Log) > 200000 { // more than the model plans
			c.Count("queue runs left out", 1)
			return
		}
		need = diceOf(f.Log)
	}
	surplus := c.N(4)
	have := append([]dice.Die(nil), need...)
	for i := 0; i < surplus; i++ {
		have = append(have, dice.Die{Value: i + 1, Sides: 6})
	}
	short := len(need) > 0 && c.P(25)
	if short {
		have = have[:c.N(len(need))]
	}
	q := feeder.NewQueue(have)
	b := bcdice.New(q)
	x := &Exec{Text: text}
	c.guard("ExecuteCommand", func() { x.Res, x.Err = b.ExecuteCommand(text) })
	c.Count("queue runs", 1)
	left := q.Dice()
	used := len(have) - len(left)
	c.Trace("%q on the queue %s: result %v error %v, left %s", clip(text, 300), clip(dice.FormatDice(have), 200), x.Res, x.Err, clip(dice.FormatDice(left), 200))
	if used < 0 || dice.FormatDice(left) != dice.FormatDice(have[used:]) {
		c.Fail("%q: the queue held %s and then %s", text, dice.FormatDice(have), dice.FormatDice(left))
	}
	for i := 0; i < used; i++ {
		x.Draws = append(x.Draws, Draw{have[i].Sides, have[i], nil})
	}
	if short {
		if x.Err == nil {
			c.Fail("%q needs %d dice but succeeded with %d", text, len(need), len(have))
		}
		if used != len(have) && o.Verdict == ref.Accept {
			c.Fail("%q: refused with dice left in a queue that is too short", text)
		}
	} else {
		conformCmd(c, x, cmd, over, text != "" && (text[0] == 'S' || text[0] == 's'), "DiceBot", defaultMaxRerolls)
	}
	k := ""
	if used > 0 {
		k = "queue" + key(x)
	}
	c.Eval(k)
}

// snapshot copies a result.
type snapshot struct {
	r     *command.Result
	game  string
	parts []string
	dice  []dice.Die
	succ  string
	sec   bool
	msg   string
	text  string
}

func snap(text string, r *command.Result) snapshot {
	return snapshot{r, r.GameID, append([]string(nil), r.MessageParts...),
		append([]dice.Die(nil), r.RolledDice...), r.SuccessCheckResult.String(), r.IsSecret, r.Message(), text}
}

func (s snapshot) diff(r *command.Result) string {
	switch {
	case r.GameID != s.game:
		return fmt.Sprintf("game ID %q and %q", s.game, r.GameID)
	case strings.Join(r.MessageParts, "\x00") != strings.Join(s.parts, "\x00"):
		return fmt.Sprintf("message %q and %q", clip(s.msg, 300), clip(r.Message(), 300))
	case dice.FormatDice(r.RolledDice) != dice.FormatDice(s.dice):
		return fmt.Sprintf("dice %s and %s", clip(dice.FormatDice(s.dice), 300), clip(dice.FormatDice(r.RolledDice), 300))
	case r.SuccessCheckResult.String() != s.succ:
		return fmt.Sprintf("success %s and %s", s.succ, r.SuccessCheckResult)
	case r.IsSecret != s.sec:
		return fmt.Sprintf("secret %v and %v", s.sec, r.IsSecret)
	case r.Message() != s.msg:
		return fmt.Sprintf("message %q and %q", clip(s.msg, 300), clip(r.Message(), 300))
	}
	return ""
}

func runC16(c *Ctx) {
	s := newSession(c, Uniform, 0)
	n := 3 + c.N(10)
	var snaps []snapshot
	history := ""
	var pool []string
	for i := 0; i < n; i++ {
		g := newGen(c)
		g.budget = 60
		s.setFeed(c.N(8))
		switch c.N(12) {
		case 0:
			if err := s.B.SetDiceBotByGameID("NoSuchGame"); err == nil {
				c.Fail("an unknown game system was accepted")
			}
		case 1:
			if err := s.B.SetDiceBotByGameID("DiceBot"); err != nil {
				c.Fail("DiceBot: %v", err)
			}
		case 2:
			s.F = newRec(c.R.Uint64(), Uniform, 0)
			s.B.SetDieFeeder(s.F)
		}
		text := g.anyCommand()
		if len(pool) > 0 && c.P(40) {
			text = pool[c.N(len(pool))]
		} else if c.P(15) {
			text = g.spoil(text)
		} else if c.P(10) {
			text = "S" + text
		}
		pool = append(pool, text)
		s.F.FailAt, s.F.BadAt = -1, -1
		if c.P(10) {
			s.F.FailAt = len(s.F.Log) + c.N(4)
		}
		x := s.Exec(text)
		c.Trace("%s", x)
		// The same command on a fresh instance with the same dice.
		fresh := newRec(1, Script, 0)
		fresh.Vals = []int{1}
		failed := false
		for j, d := range x.Draws {
			if d.Err != nil {
				fresh.FailAt = j
				failed = true
			}
			if j == 0 {
				fresh.Vals = nil
			}
			fresh.Vals = append(fresh.Vals, d.Die.Value)
		}
		b := bcdice.New(fresh)
		var r *command.Result
		var err error
		c.guard("ExecuteCommand", func() { r, err = b.ExecuteCommand(text) })
		c.Count("re-executions", 1)
		if (err == nil) != (x.Err == nil) || len(fresh.Log) != len(x.Draws) {
			c.Fail("%q after %d commands: %s; on a fresh instance: error %v, %d dice drawn", text, i, x, err, len(fresh.Log))
		}
		if err != nil && err.Error() != x.Err.Error() {
			c.Fail("%q after %d commands: error %q; on a fresh instance: %q", text, i, x.Err, err)
		}
		_ = failed
		if x.Err == nil {
			sn := snap(text, x.Res)
			if d := sn.diff(r); d != "" {
				c.Fail("%q after %d commands and on a fresh instance: %s", text, i, d)
			}
			snaps = append(snaps, sn)
		}
		history += text + "\x00"
		k := ""
		if i > 0 {
			k = history
		}
		c.Eval(k)
	}
	for _, sn := range snaps {
		c.Count("results retained", 1)
		if d := sn.diff(sn.r); d != "" {
			c.Fail("the result of %q changed after later commands: %s", sn.text, d)
		}
	}
	if len(snaps) > 1 {
		// A caller may write into a result without an effect on others.
		v := snaps[0]
		for i := range v.r.RolledDice {
			v.r.RolledDice[i] = dice.Die{Value: -1, Sides: -1}
		}
		v.r.AppendMessagePart("x")
		for i := range v.r.MessageParts {
			v.r.MessageParts[i] = "x"
		}
		for _, sn := range snaps[1:] {
			if d := sn.diff(sn.r); d != "" {
				c.Fail("writing into the result of %q changed the result of %q: %s", v.text, sn.text, d)
			}
		}
		s.F.FailAt = -1
		y := s.Exec("3D6+2B6")
		conform(c, y, s.GameID, defaultMaxRerolls)
		y = s.Exec("2D6+1>=7")
		conform(c, y, s.GameID, defaultMaxRerolls)
	}
	c.Sample("%s", strings.ReplaceAll(history, "\x00", " | "))
}

// pair executes two texts with the same dice on fresh instances.
func pair(c *Ctx, a, b string, custom bool) (*Exec, *Exec) {
	seed := c.R.Uint64()
	mode := Mode(c.N(5))
	hint := c.N(8)
	run := 3 + c.N(20)
	do := func(t string) *Exec {
		f := newRec(seed, mode, hint)
		f.MaxRun = run
		s := &Session{c: c, B: bcdice.New(f), F: f, GameID: "DiceBot"}
		if custom {
			s.B.DiceBot = newBot("Echo")
			s.GameID = "Echo"
		}
		x := s.Exec(t)
		c.Trace("%s", x)
		return x
	}
	return do(a), do(b)
}

func samePair(c *Ctx, x, y *Exec, secret bool) bool {
	if (x.Err == nil) != (y.Err == nil) {
		c.Fail("%s\nbut %s", x, y)
	}
	if drawText(x.Draws) != drawText(y.Draws) || len(x.Draws) != len(y.Draws) {
		c.Fail("different dice: %s\nand %s", x, y)
	}
	if x.Err != nil {
		c.Count("pairs of refusals", 1)
		return false
	}
	c.Count("pairs of results", 1)
	sn := snap(x.Text, x.Res)
	if secret {
		sn.sec = true
	}
	if d := sn.diff(y.Res); d != "" {
		c.Fail("%q and %q: %s", x.Text, y.Text, d)
	}
	return true
}

func (g *Gen) mixed() string {
	c := g.c
	switch n := c.N(100); {
	case n < 60:
		return g.anyCommand()
	case n < 75:
		return g.anyCommand() + pick(c, " ", "\t", "\n") + pick(c, "攻撃", "S2D6", "2D6", "")
	case n < 90:
		return g.spoil(g.anyCommand())
	}
	return pick(c, "", " ", "D66", "hello", "echo 2D6", "echo", "echoS", "roll", "2D6 ", "１Ｄ６", "choice[]", "choice[a]", "S", "s", "SS", "s1d6", "S1D6", "Ssecret", "C()", "sechoS", "Sroll", "ｓ2D6", "Ｓ2D6", "choice[a\xff]", "\xff", "choice[\xe3\x81,\xe3\x81]", "2D6\xff", "2D6 \xff", "choice[a,\ufffd]", "C(1)\xc0")
}

func runC12(c *Ctx) {
	g := newGen(c)
	g.budget = 100
	t := g.mixed()
	custom := c.P(15)
	mark := pick(c, "S", "s")
	if t != "" && (t[0] == 'S' || t[0] == 's') {
		// The mark is taken off once: S + t is t without the mark, secretly,
		// so only the flag of t itself is checked here.
		x, y := pair(c, t[1:], t, custom)
		if samePair(c, x, y, true) && !y.Res.IsSecret {
			c.Fail("%q is not secret", t)
		}
		c.Eval(t)
		return
	}
	if c.P(20) {
		// Successive commands of one instance, flagged by their own mark only.
		o := newSession(c, Uniform, 0)
		if custom {
			o.B.DiceBot = newBot("Echo")
			o.GameID = "Echo"
		}
		for i := 3 + c.N(3); i > 0; i-- {
			g.budget = 30
			u := pick(c, t, "2D6>=7", "2B6>=4", "echo 2D6", "C(1+1)", "2D", "choice[a,b]", "2R6", "")
			if c.P(40) {
				u = g.anyCommand()
			}
			marked := c.P(50)
			if marked {
				u = mark + u
			} else if u != "" && (u[0] == 'S' || u[0] == 's') {
				continue
			}
			x := o.Exec(u)
			c.Trace("%s", x)
			if x.Err == nil {
				c.Count("flags of successive commands", 1)
				if x.Res.IsSecret != marked {
					c.Fail("secret flag: %s", x)
				}
			}
		}
	}
	x, y := pair(c, t, mark+t, custom)
	k := ""
	if samePair(c, x, y, true) {
		if x.Res.IsSecret || !y.Res.IsSecret {
			c.Fail("secret flags: %s\n%s", x, y)
		}
		k = t
		c.Sample("%s", y)
	}
	c.Eval(k)
}

func runC13(c *Ctx) {
	g := newGen(c)
	g.budget = 100
	t := g.anyCommand()
	if c.P(8) {
		t = g.spoil(t)
		if !utf8.ValidString(t) || t != firstPart(t) {
			return
		}
	}
	cmd, over := ref.Parse(t)
	if cmd == nil {
		// not a command: must not become one by a comment, unless the comment
		// closes a choice
		if strings.Contains(t, "[") || strings.Contains(t, "(") {
			return
		}
	}
	if cmd != nil && cmd.Rest != "" {
		return
	}
	v := t
	if c.P(70) {
		if cmd != nil && cmd.Kind == ref.KChoice {
			v = g.caseMix(t[:6]) + t[6:]
		} else {
			v = g.caseMix(t)
		}
		if t != "" && t[0] != 'S' && t[0] != 's' && v != t {
			c.Count("case variants", 1)
		}
	}
	if c.P(60) {
		if over {
			return
		}
		c.Count("comments", 1)
		v += pick(c, " ", "\t", "\n", "\r\n", "\f", "   ")
		switch c.N(6) {
		case 0:
			v += pick(c, "攻撃！", "", "2D6", "+3", ">=10", ")", "]", "[6]", "S", "#", "\x00")
		case 1:
			for i := c.N(300); i >= 0; i-- {
				v += string(runes[c.N(len(runes))])
			}
		case 2:
			v += g.anyCommand()
		case 3:
			v += "コメント " + g.item() + "\n" + g.item()
		case 4:
			if cmd != nil && cmd.Kind != ref.KChoice && cmd.Kind != ref.KCalc {
				v += "\xff\xfe bytes"
			}
		case 5:
			v += strings.Repeat(pick(c, "a", " ", "1", "(", "あ", "2D6 "), c.Tail(40, c.N(500), 30000))
		}
	}
	x, y := pair(c, t, v, false)
	k := ""
	if samePair(c, x, y, false) && v != t {
		k = v
		c.Sample("%q and %q -> %q", t, v, clip(x.Res.Message(), 200))
	}
	c.Eval(k)
}
