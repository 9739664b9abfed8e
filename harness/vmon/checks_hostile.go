package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"vmon/ref"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"github.com/raa0121/GoBCDice/pkg/core/util"
	dbt "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
)

func init() {
	register(&Check{
		ID: "C01", Quick: 100000, Thorough: 4000000,
		Rule:   "Hostile texts (valid commands, mutated commands, random bytes, invalid UTF-8, token salad, extreme numbers, long and nested texts up to 4 KiB) go to every entry point that takes text, with feeders of all kinds (recorded, scripted extremes, Mersenne Twister, a short queue); afterwards the instance executes a plain roll that is compared with the model. Every 500th case rolls around one million dice. A panic, a result together with an error, more than one million dice, or an unusable instance is a violation; the address space is limited to 6 GiB and each case to 60 s of CPU time. Non-trivial: a text that is executed or draws dice, or has at least 8 bytes; distinct by text.",
		Run:    runC01,
		Extra:  probeDeep,
		Floors: map[string]int{"hostile texts": 60000, "executed": 10000, "refused": 30000, "million-dice commands": 100, "invalid UTF-8": 5000},
		Assumptions: []string{
			"texts of at most 4 KiB (longer ones only in the probe of the listed finding)",
		},
	})
}

func (c *Ctx) bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		switch c.N(3) {
		case 0:
			b[i] = byte(c.N(256))
		case 1:
			b[i] = alphabet[c.N(len(alphabet))]
		default:
			b[i] = byte(32 + c.N(95))
		}
	}
	return string(b)
}

// hostile is a text that nobody should send.
func (g *Gen) hostile() string {
	c := g.c
	_, strs := dictionary()
	num := func() string {
		if c.P(1) {
			return pick(c, "999999", "1000000", "1000001")
		}
		return pick(c, "0", "1", "2", "6", "-1", "100", "2147483647", "2147483648",
			"4294967296", "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
			"18446744073709551616", "99999999999999999999999999", itoa(g.dict()/(1+c.N(2)*100)), "(1-9223372036854775807-2)", "(-9223372036854775807-1)", "00")
	}
	switch c.N(12) {
	case 0:
		return c.bytes(c.N(60))
	case 1: // invalid UTF-8 in a command
		t := g.anyCommand()
		p := c.N(len(t) + 1)
		return t[:p] + pick(c, "\xff", "\xc3", "\xe3\x81", "\xf0\x9f\x8e", "\x80", "\xed\xa0\x80", "\xc0\xaf", "\x00") + t[p:]
	case 2, 3: // extreme numbers
		t := pick(c, "%sD%s", "%sB%s", "%sR%s[%s]", "%sU%s[%s]", "C(%s*%s)", "C(%s/%s)", "C(%s-%s)", "1D6+%s", "2D6>=%s", "[%s...%s]D6", "2B6=%s",
			"2R6[2]>=%s", "2U6[3]+%s-%s", "C(%s/%sU)", "C(%s/%sR)", "C(-(%s)/%s)", "(%s)D(%s)", "(%s+%s)B(%s*%s)", "1D6/%s", "1D6*%s*%s", "%sD6+%sD6", "%sB6+%sB6",
			"%sR2[2]", "%sU2[2]", "1D[%s...%s]", "1U6[%s]+%s", "1R6[%s]", "1D6+%s>%s", "%sU%s[2]>=%s")
		if strings.HasPrefix(t, "%sU") && c.P(90) {
			t = itoa(1+c.N(3)) + t[2:] // many dice are left to the million-dice cases
		}
		for strings.Contains(t, "%s") {
			t = strings.Replace(t, "%s", num(), 1)
		}
		return t
	case 4: // token salad
		var b strings.Builder
		for i := 1 + c.N(12); i > 0; i-- {
			if c.P(15) {
				b.WriteString(strs[c.N(len(strs))])
			} else {
				b.WriteString(pick(c, "D", "B", "R", "U", "C(", "C", "(", ")", "[", "]", "...", "+", "-", "*", "/", "U", "=", "<", ">", "<>", ">=", "1", "6", "20", ",", " ", "choice[", "S", "s", "\n", "あ"))
			}
		}
		return b.String()
	case 5: // repetition
		t := pick(c, "(", ")", "-", "1+", "1/", "[", "1D", "D6+", "1D6+", "2B6+", "2R6+", "2U6+", "S", " ", "choice[", "a,", "C(", "9", "(1", "1...", "[1...", "あ", "\xff", "1*-", "((1)+", "2R6[3]", "\n")
		n := 1 + c.N(60)
		lim := 600
		if !strings.ContainsAny(t, "([") && c.P(5) {
			lim = 4096
			n = lim
		}
		s := pick(c, "", "C(", "1D6+", "choice[", "S", "2B6>") + strings.Repeat(t, n)
		if len(s) > lim {
			s = s[:lim]
		}
		return s + pick(c, "", "1", "]", ")", "6")
	case 6: // two commands spliced
		a, b := g.anyCommand(), g.anyCommand()
		return a[:c.N(len(a)+1)] + b[c.N(len(b)+1):]
	case 7: // bytes replaced
		t := []byte(g.anyCommand())
		for k := c.N(4); k >= 0 && len(t) > 0; k-- {
			t[c.N(len(t))] = byte(c.N(256))
		}
		return string(t)
	case 8: // rolls whose dice always reroll
		if c.P(80) {
			return c.bytes(1+c.N(4)) + g.anyCommand()
		}
		return pick(c, "", "S") + itoa(1+c.N(6)) + pick(c, "R", "U") + pick(c, "1", "2", "3") + pick(c, "[1]", "[2]", "[0]", "[-1]", ">=2", ">1", "<=2", "<>1", "=2", "[2]>=1")
	case 9:
		return g.spoil(g.anyCommand())
	case 10: // a division or roll whose operand comes from dice
		return pick(c, "C(1/([1...2]-1))", "1D6/([1...3]-[1...3])", "[1...3]D([1...3]-2)", "([1...3]-2)B6", "[3...1]D6", "[1...1]D6", "([1...2]*4611686018427387904)D6", "2R([1...2]-1)[2]", "3U6[[1...6]]", "1D6>=1/0", "1D6+1/0", "1/0D6", "2B6>=1/0", "2U6[1/0]", "2R6[1/0]", "2U6[6]+1/0", "choice[]", "choice[,]", "choice[ , ]", "choice[a", "CHOICE[a,,b]", "choice [a,b]")
	}
	return g.anyCommand()
}

func runC01(c *Ctx) {
	g := newGen(c)
	g.budget = 60
	if c.Idx%500 == 7 {
		million(c)
		return
	}
	t := g.hostile()
	if len(t) > 4096 {
		t = t[:4096]
	}
	if strings.ToValidUTF8(t, "") != t {
		c.Count("invalid UTF-8", 1)
	}
	c.Count("hostile texts", 1)
	c.Trace("text %q", clip(t, 500))

	s := newSession(c, Mode(pick(c, int(Uniform), int(AllMax), int(AllMin), int(High))), 0)
	s.Cap = ref.MaxDice
	if c.P(90) {
		s.F.MaxRun = 20 + c.N(100) // ends rerolls
	}
	x := s.Exec(t)
	if x.Err == nil {
		c.Count("executed", 1)
	}
	if c.P(50) {
		x = execBasic(s, t)
	}
	// other sources of dice
	if c.P(30) {
		var f feeder.DieFeeder
		switch c.N(3) {
		case 0:
			f = feeder.NewMT19937(int64(c.R.Uint64()))
		case 1:
			f = feeder.NewQueue(c.someDice(3))
		default:
			f = feeder.NewEmptyQueue()
		}
		b := bcdice.New(f)
		c.guard(fmt.Sprintf("ExecuteCommand(%q)", clip(t, 300)), func() {
			r, err := b.ExecuteCommand(t)
			if (r == nil) == (err == nil) {
				c.Fail("%q: result %v and error %v", clip(t, 300), r, err)
			}
		})
		c.Count("other feeders", 1)
	}
	// the other entry points for text
	switch c.N(6) {
	case 0:
		c.guard("ParseDice", func() { dbt.ParseDice(t) })
	case 1:
		src := t
		if c.P(50) {
			src = "input:\n" + t + "\noutput:" + t + "\nrand:" + t
		}
		c.guard("testing.Parse", func() {
			tc, err := dbt.Parse(src, "DiceBot", 1)
			if (tc == nil) == (err == nil) {
				c.Fail("testing.Parse(%q): %v and %v", clip(src, 300), tc, err)
			}
		})
	case 2:
		c.guard("CheckIfInputMayBeASecretRoll", func() {
			u, sec := util.CheckIfInputMayBeASecretRoll(t)
			w, wsec := stripSecret(t)
			if u != w || sec != wsec {
				c.Fail("secret mark of %q: %q %v", clip(t, 300), clip(u, 300), sec)
			}
		})
	case 3, 4:
		var n any
		var err error
		c.guard("Parse", func() { n, err = parser.Parse("t", []byte(t)) })
		if err != nil {
			break
		}
		node := n.(ast.Node)
		c.guard("rendering", func() {
			node.SExp()
			notation.InfixNotation(node, true)
			notation.InfixNotation(node, false)
		})
		// evaluation without the steps a command takes first
		f := newRec(c.R.Uint64(), Uniform, 0)
		f.Limit = 1000000
		ev := evaluator.NewEvaluator(roller.New(f), evaluator.NewEnvironment())
		c.guard("Execute", func() { command.Execute(node, "DiceBot", ev) })
		c.Count("direct evaluations", 1)
	}
	c.Count("dice drawn by hostile texts", len(s.F.Log))
	if os.Getenv("VMON_DEBUG") != "" && len(s.F.Log) > 100000 {
		c.Count("BIG "+clip(t, 60), len(s.F.Log))
	}

	// the instance still works
	y := s.Exec("2D6+1D100>=7")
	conform(c, y, "DiceBot", defaultMaxRerolls)
	k := ""
	if len(t) >= 8 || x.Err == nil {
		k = t
	}
	c.Eval(k)
	c.Sample("%q", t)
}

// million rolls around the maximum number of dice.
func million(c *Ctx) {
	M := ref.MaxDice
	n := pick(c, M, M-1, M+1, M-c.N(100), M+c.N(100))
	k := 1 + c.N(M-1)
	sides := pick(c, 1, 2, 6, 1000)
	t := ""
	switch c.N(8) {
	case 0:
		t = fmt.Sprintf("%dD%d", n, sides)
	case 1:
		t = fmt.Sprintf("%dB%d", n, sides)
	case 2:
		t = fmt.Sprintf("%dD%d+%dD6", k, sides, n-k)
	case 3:
		t = fmt.Sprintf("%dB%d+%dB2>=2", k, sides, n-k)
	case 4:
		t = fmt.Sprintf("%dR%d[%d]", n, sides, sides+1)
	case 5:
		t = fmt.Sprintf("[1...1]D6+%dD6", n-1)
	case 6:
		t = fmt.Sprintf("(%d*1000)B6", 1000+c.N(2))
	case 7:
		t = pick(c, "9223372036854775807U2[2]", "1000001U6[6]", "9223372036854775807D6", "4611686018427387904B2+4611686018427387904B2", "1D6+9223372036854775807D6", "9223372036854775807R6[2]", "9223372036854775807U6[2]", "2000000000B9223372036854775807", "1000001U6[6]", "600000R6[1]+600000R6[2]", "1000000B6+1B6", "1B6+1000000B6")
	}
	s := newSession(c, pick(c, Uniform, AllMin, AllMax), 0)
	if strings.Contains(t, "R6[1]") {
		s.F.Mode = AllMin
	}
	s.Cap = M
	x := s.Exec(t)
	conform(c, x, "DiceBot", defaultMaxRerolls)
	c.Count("million-dice commands", 1)
	if len(x.Draws) >= M-200 {
		c.Count("commands with about a million dice", 1)
	}
	c.Eval(fmt.Sprint(t, len(x.Draws)))
	c.Sample("%q drew %d dice", t, len(x.Draws))
	s.F.Log = nil
}

// probeDeep executes the text of the listed finding in a process of its own.
func probeDeep(c *Ctx) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "probe", "deepnest")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	c.Count("processes probed", 1)
	if strings.Contains(out.String(), "probe done") && err == nil {
		c.Count("deep nesting survived", 1)
		return
	}
	c.Known("deepnest", fmt.Sprintf("C( with 50000 nested parentheses ends the process: %v\n%s", err, tail(out.String())))
}

func probe(args []string) {
	if args[0] == "deepnest" {
		b := bcdice.New(feeder.NewQueue([]dice.Die{}))
		t := "C(" + strings.Repeat("(", 50000) + "1" + strings.Repeat(")", 50000) + ")"
		r, err := b.ExecuteCommand(t)
		if r != nil && r.Message() == "DiceBot : C(1) ＞ 1" || err != nil {
			fmt.Println("probe done")
		}
		return
	}
}
