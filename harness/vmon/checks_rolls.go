package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"vmon/ref"
)

const defaultMaxRerolls = 10000

// setFeed gives the feeder a random policy.
func (s *Session) setFeed(hint int) {
	c, f := s.c, s.F
	f.Mode = Mode(c.N(5))
	if f.Mode == AllMin && c.P(50) {
		f.Mode = Uniform
	}
	f.Hint = hint
	f.MaxRun = 3 + c.N(28)
}

func bigInt(v *big.Int) int {
	if v == nil || !v.IsInt64() {
		return 0
	}
	return int(v.Int64())
}

// preview predicts the outcome of a text with the next dice of the feeder.
func (s *Session) preview(text string) (ref.Outcome, bool) {
	cmd, over := ref.Parse(text)
	if cmd == nil || over {
		return ref.Outcome{}, false
	}
	seed := s.c.R.Uint64()
	mk := func() *Rec {
		f := newRec(seed, s.F.Mode, s.F.Hint)
		f.MaxRun = s.F.MaxRun
		return f
	}
	o := ref.Run(cmd, sim{mk()}, defaultMaxRerolls)
	// The session draws the same dice from here on.
	s.F = mk()
	s.B.SetDieFeeder(s.F)
	return o, true
}

func key(x *Exec) string {
	return x.Text + drawText(x.Draws)
}

// runSession runs a session of commands made by gen and checks each of them.
func runSession(c *Ctx, gen func(g *Gen, s *Session) string, also func(x *Exec, f Facts)) {
	s := newSession(c, Uniform, 0)
	n := 1 + c.N(4)
	for i := 0; i < n; i++ {
		g := newGen(c)
		s.setFeed(c.N(8))
		text := gen(g, s)
		x := s.Exec(text)
		c.Trace("%s", x)
		f := conform(c, x, s.GameID, defaultMaxRerolls)
		k := ""
		if f.Cmd != nil {
			k = key(x)
			if x.Err == nil {
				c.Count("results compared", 1)
			}
		}
		c.Eval(k)
		if x.Err == nil && i == 0 {
			c.Sample("%s", x)
		}
		if also != nil {
			also(x, f)
		}
	}
}

func comment(c *Ctx) string {
	if c.P(85) {
		return ""
	}
	return pick(c, " ", "\t", "\n", "  ") + pick(c, "攻撃！", "attack", "2D6", ">=5", "+1", "", "[6]", "C(1)")
}

const ruleSession = "Sessions of 1-4 generated commands on one instance with a recording die feeder (uniform, all-max, all-min, near a hint, high values); every execution is compared with an independent model that replays the recorded dice. Non-trivial: the text is a command of the language; distinct by text and dice."

func init() {
	register(&Check{
		ID: "C02", Quick: 90000, Thorough: 2000000,
		Rule: "D rolls. " + ruleSession,
		Run: func(c *Ctx) {
			runSession(c, func(g *Gen, s *Session) string {
				if c.P(3) {
					g.budget = 20000
				}
				switch n := c.N(100); {
				case n < 20:
					return g.roll("D", 0) + comment(c)
				case n < 28:
					return g.longD().s + comment(c)
				default:
					return g.dExpr(1+c.N(4), 8).s + comment(c)
				}
			}, func(x *Exec, f Facts) {
				if f.Cmd != nil && x.Err == nil {
					c.Count("rolls in expressions", f.Cmd.E.Count(ref.Roll))
				}
			})
		},
		Floors: map[string]int{"results compared": 1000},
	})
	register(&Check{
		ID: "C03", Quick: 150000, Thorough: 3000000,
		Rule: "B rolls. " + ruleSession,
		Run: func(c *Ctx) {
			runSession(c, func(g *Gen, s *Session) string {
				if c.P(3) {
					g.budget = 20000
				}
				t := g.rolls("B", g.listLen(), 10)
				if c.P(60) {
					v := s.F.Hint + c.N(3) - 1
					if c.P(30) {
						v = g.sides() + c.N(3) - 1
					}
					if c.P(5) {
						t += g.cmp() + g.far()
					} else {
						t += g.cmp() + g.target(v)
					}
				}
				return t + comment(c)
			}, func(x *Exec, f Facts) {
				if x.Err == nil && f.O.NumSucc > 0 {
					c.Count("successes", f.O.NumSucc)
				}
			})
		},
		Floors: map[string]int{"results compared": 1000, "successes": 100},
	})
	register(&Check{
		ID: "C04", Quick: 150000, Thorough: 3000000,
		Rule: "R rolls. " + ruleSession,
		Run: func(c *Ctx) {
			runSession(c, genR, func(x *Exec, f Facts) {
				c.Count("rerolls", f.O.Rerolls)
				c.Count("groups", f.O.Groups)
				if f.O.Refused2 {
					c.Count("thresholds refused", 1)
				}
			})
		},
		Floors: map[string]int{"results compared": 1000, "rerolls": 1000, "thresholds refused": 100},
	})
	register(&Check{
		ID: "C05", Quick: 100000, Thorough: 2500000,
		Rule: "U rolls. " + ruleSession,
		Run: func(c *Ctx) {
			runSession(c, genU, func(x *Exec, f Facts) {
				c.Count("rerolls", f.O.Rerolls)
				if f.O.Refused2 {
					c.Count("thresholds refused", 1)
				}
				if f.Cmd != nil && len(f.Cmd.Bonus) > 1 {
					c.Count("bonuses of several terms", 1)
				}
			})
		},
		Floors: map[string]int{"results compared": 1000, "rerolls": 1000, "thresholds refused": 100},
	})
	register(&Check{
		ID: "C06", Quick: 250000, Thorough: 5000000,
		Rule: "Success checks with targets placed at the predicted result and next to it. " + ruleSession,
		Run:  runC06,
		Floors: map[string]int{"SUCCESS": 500, "FAILURE": 500, "on the boundary": 500,
			"kind B": 100, "kind R": 100, "kind U": 100},
	})
	register(&Check{
		ID: "C07", Quick: 500000, Thorough: 10000000,
		Rule: "Calc commands: everyday numbers, numbers of any size, quotients next to rounding boundaries, 64-bit limits. " + ruleSession,
		Run: func(c *Ctx) {
			runSession(c, func(g *Gen, s *Session) string {
				return g.calc() + comment(c)
			}, nil)
		},
		Floors: map[string]int{"results compared": 10000, "verdict refuse": 100, "verdict may refuse": 100},
	})
	register(&Check{
		ID: "C08", Quick: 400000, Thorough: 8000000,
		Rule: "Choice commands with 1-200 items, white space, trailing commas and blank items. " + ruleSession,
		Run: func(c *Ctx) {
			runSession(c, func(g *Gen, s *Session) string {
				n := 1 + c.N(6)
				switch m := c.N(100); {
				case m < 3:
					n = 1 + c.N(200)
				case m < 6:
					n = g.dictUpTo(200)
				case m < 15:
					n = 1 + c.N(20)
				}
				n = c.Tail(2000, n, 5000)
				if c.P(15) {
					s.F.Mode, s.F.Vals = Script, []int{1 + c.N(n)}
				}
				g.ctl = c.P(20)
				return g.choice(n, c.P(20)) + comment(c)
			}, nil)
		},
		Floors: map[string]int{"results compared": 1000, "non-commands": 50},
	})
	register(&Check{
		ID: "C09", Quick: 100000, Thorough: 2500000,
		Rule: "Random numbers [a...b] as terms, operands of D, B, R and U rolls, with negative, equal, reversed and 64-bit ends. " + ruleSession,
		Run: func(c *Ctx) {
			runSession(c, genRand, nil)
		},
		Floors: map[string]int{"results compared": 1000, "verdict refuse": 100},
	})
}

func genR(g *Gen, s *Session) string {
	c := g.c
	g.budget = 40
	if c.P(3) {
		g.budget = 1500
	}
	t := g.rolls("R", g.listLen(), 6)
	th := 2 + c.N(6)
	switch n := c.N(100); {
	case n < 70:
		if c.P(12) {
			th = pick(c, 0, 1, -1, 2, math.MaxInt64, g.dictUpTo(1000))
		}
		t += g.threshold(th)
	}
	s.F.Hint = th
	if c.P(60) {
		v := th + c.N(3) - 1
		if c.P(30) {
			v = c.N(12) - 2
		}
		if c.P(4) {
			t += pick(c, ">=", ">", "<", "<=", "<>", "=") + g.far()
		} else {
			t += g.cmp() + g.target(v)
		}
	}
	return t + comment(c)
}

func genU(g *Gen, s *Session) string {
	c := g.c
	g.budget = 40
	if c.N(1500) == 0 { // a long chain
		s.F.Mode, s.F.Hint, s.F.MaxRun = AllMax, 5, c.Tail(2, 500, 9000)
		return pick(c, "1U6[6]", "2U6[5]", "1U6[2]+1", "3U9[6]>=50") + comment(c)
	}
	if c.P(3) {
		g.budget = 1500
	}
	t := g.rolls("U", g.listLen(), 6)
	th := 2 + c.N(6)
	if c.P(92) {
		if c.P(12) {
			th = pick(c, 0, 1, -1, 2, math.MaxInt64, g.dictUpTo(1000))
		}
		t += g.threshold(th)
	}
	s.F.Hint = th
	if c.P(70) {
		t += g.bonus()
	}
	if c.P(3) {
		t += pick(c, "+", "-") + itoa(math.MaxInt64-c.N(20))
	}
	if c.P(50) {
		if c.P(5) {
			t += g.cmp() + g.far()
		} else {
			t += g.cmp() + g.target(c.N(25)-3)
		}
	}
	return t + comment(c)
}

// runC06 places the target next to the value that the dice will give.
func runC06(c *Ctx) {
	s := newSession(c, Uniform, 0)
	n := 1 + c.N(3)
	for i := 0; i < n; i++ {
		g := newGen(c)
		s.setFeed(c.N(8))
		op := g.cmp()
		text := ""
		boundary := false
		switch c.N(25) {
		case 0: // differences that do not fit
			left := g.roll("D", 0)
			switch c.N(4) {
			case 0:
				left = g.dExpr(c.N(3), 5).s
			case 1:
				left = "1D" + itoa(math.MaxInt64-c.N(20))
				s.F.Mode = pick(c, AllMax, Uniform)
			case 2:
				left = pick(c, "", "-") + itoa(math.MaxInt64-100-c.N(30)) + pick(c, "+", "-") + left
			}
			text = left + op + g.far()
		case 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12:
			left := g.dExpr(c.N(4), 5).s
			if c.P(40) {
				left = g.roll("D", 0)
			}
			if c.P(2) {
				left += pick(c, "+", "-") + itoa(math.MaxInt64-c.N(30))
			}
			v := g.small()
			if o, ok := s.preview(left); ok && o.Total != nil && o.Verdict == ref.Accept {
				v = bigInt(o.Total)
				boundary = true
			}
			d := c.N(3) - 1
			if (v == math.MaxInt64 && d > 0) || (v == math.MinInt64 && d < 0) {
				d = 0
			}
			text = left + op + g.target(v+d)
		case 13, 14, 15, 16:
			text = g.rolls("B", g.listLen(), 0)
			v := 1 + c.N(7)
			s.F.Mode, s.F.Hint = Hug, v
			text += op + g.target(v+c.N(3)-1)
		case 17, 18, 19, 20:
			g.budget = 40
			text = g.rolls("R", g.listLen(), 0)
			v := 2 + c.N(6)
			s.F.Mode, s.F.Hint = Hug, v
			if c.P(60) {
				text += g.threshold(v + c.N(3))
			}
			text += op + g.target(v+c.N(3)-1)
		default:
			g.budget = 40
			text = g.rolls("U", g.listLen(), 0)
			v := 2 + c.N(6)
			s.F.Mode, s.F.Hint = Hug, v
			b := c.N(9) - 4
			text += g.threshold(v + c.N(3))
			if b > 0 {
				text += "+" + itoa(b)
			} else if b < 0 {
				text += "-" + itoa(-b)
			}
			text += op + g.target(v+b+c.N(3)-1)
		}
		x := s.Exec(text)
		c.Trace("%s", x)
		f := conform(c, x, s.GameID, defaultMaxRerolls)
		k := ""
		if f.Cmd != nil && x.Err == nil && f.Cmd.Cmp != "" {
			if len(text) > 18 && strings.Contains(text, "92233720368547") {
				c.Count("targets and totals at the limits", 1)
			}
			k = key(x)
			c.Count(f.O.Success, 1)
			c.Count("operator "+f.Cmd.Cmp, 1)
			if boundary {
				c.Count("on the boundary", 1)
			}
			c.Sample("%s", x)
		}
		c.Eval(k)
	}
}

// genRand makes commands with random numbers everywhere.
func genRand(g *Gen, s *Session) string {
	c := g.c
	g.budget = 60
	bad := func() string {
		a := c.N(9)
		switch c.N(6) {
		case 0:
			return fmt.Sprintf("[%d...%d]", a, a)
		case 1:
			return fmt.Sprintf("[%d...%d]", a+1+c.N(3), a)
		case 2:
			return fmt.Sprintf("[%d...%d]", c.N(3), math.MaxInt64-c.N(2))
		case 3:
			return fmt.Sprintf("[(-%d)...%d]", math.MaxInt64-c.N(2), c.N(4))
		case 4:
			return fmt.Sprintf("[(-%d-1)...(%d-%d)]", math.MaxInt64, c.N(2), math.MaxInt64-c.N(3))
		}
		return fmt.Sprintf("[%d...(%d/%d)]", a, a+c.N(9), c.N(3))
	}
	rnd := func() string {
		if c.P(8) {
			return bad()
		}
		lo := c.N(14) - 5
		if c.P(5) {
			lo = g.dict()/2 - c.N(50)
		}
		hi := lo + 1 + c.N(12)
		if c.P(5) {
			hi = lo + g.dictUpTo(1<<40)
		}
		return g.random(lo, hi)
	}
	t := ""
	switch c.N(8) {
	case 0, 1: // terms
		n := 1 + c.N(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				t += pick(c, "+", "-", "*", "/", "-")
			}
			if c.P(60) {
				t += rnd()
			} else if c.P(60) {
				t += g.roll("D", 40)
			} else {
				t += "(" + pick(c, "-", "") + rnd() + pick(c, "+", "-", "*") + itoa(g.small()) + ")"
			}
		}
	case 2, 3:
		t = g.dExpr(1+c.N(3), 70).s
	case 4:
		t = g.rolls("B", g.listLen(), 60)
	case 5:
		t = g.rolls("R", 1+c.N(3), 60) + "[" + itoa(2+c.N(6)) + "]"
		if c.P(10) {
			t = g.rolls("R", 1+c.N(3), 60)
		}
	case 6:
		t = g.rolls("U", 1+c.N(3), 60) + "[" + itoa(2+c.N(6)) + "]"
		if c.P(10) {
			t = g.rolls("U", 1+c.N(3), 60) + "[1]"
		}
	case 7:
		letter := pick(c, "D", "B")
		t = rnd() + letter + rnd()
		if strings.Contains(t, "[-") {
			t = "1D6+" + rnd()
		}
	}
	if c.P(35) {
		t += g.cmp() + g.target(g.small())
	}
	return t + comment(c)
}
