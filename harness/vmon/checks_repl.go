package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"vmon/ref"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
)

func init() {
	register(&Check{
		ID: "C20", Quick: 12000, Thorough: 300000,
		Rule: "Sessions of 3-40 lines typed into the real REPL process (commands, .eval, .ast, .roll, .set-dice-queue, .set-die-feeder, .set-game, .list-games, .help, unknown commands, blank lines, quitting by .q, .quit or the end of the input); its whole output is compared line by line with a model of the session that asks the library for the messages. Non-trivial: at least one message; distinct by the lines.",
		Run:  runC20,
		Floors: map[string]int{"lines typed": 30000, "messages": 10000, "errors": 3000, "queue restored": 5000, "rolls": 1000,
			"sessions ended by .quit": 300, "sessions ended by the end of input": 300, "trees": 500, "lines after the end": 300, "lines that are almost commands": 1000},
		Assumptions: []string{"the input is printable text, not a terminal"},
	})
}

// sibling is a binary that was built beside this one.
func sibling(name string) string {
	exe, _ := os.Executable()
	return exe + "-" + name
}

const (
	esc    = "\x1b["
	header = esc + "36m=>" + esc + "0m "
	mark   = esc + "33m[secret]" + esc + "0m "
	okLine = esc + "36mOK" + esc + "0m\n"
)

var (
	errRe  = regexp.MustCompile(`^\x1b\[31m[^\x1b]+\x1b\[0m\n`)
	lineRe = regexp.MustCompile(`^[^\n]*\n`)
	helpRe = regexp.MustCompile(`^\x1b\[1m\.([-a-z]+)\x1b\[0m[^\n]*\n    [^\n]*\n`)
)

// expect consumes the front of the output.
type expect func(out string) (rest string, ok bool)

func lit(s string) expect {
	return func(out string) (string, bool) { return strings.TrimPrefix(out, s), strings.HasPrefix(out, s) }
}

func isError(out string) (string, bool) {
	m := errRe.FindString(out)
	return out[len(m):], m != ""
}

func usageOf(name string) expect {
	return func(out string) (string, bool) {
		l := lineRe.FindString(out)
		return out[len(l):], strings.HasPrefix(l, "使用法: ."+name)
	}
}

// printable drops what a line editor would act upon.
func printable(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 0x20 && r != 0x7f && r != 0xfffd && r != '\u3000' && r != '\u00a0' && r != '\u0085' && (r < 0x80 || r > 0xa0) {
			b.WriteRune(r)
		}
	}
	return b.String()
}

type replModel struct {
	c     *Ctx
	queue bool
	dice  []dice.Die
}

// eval models the execution of a command.
func (m *replModel) eval(t string) expect {
	c := m.c
	if t == "" {
		return usageOf("eval")
	}
	var f feeder.DieFeeder = feeder.NewQueue(m.dice)
	b := bcdice.New(f)
	if m.queue {
		r, err := b.ExecuteCommand(t)
		if len(m.dice) > 0 && f.(*feeder.Queue).Remaining() < len(m.dice) {
			c.Count("queue restored", 1)
		}
		if err != nil {
			c.Count("errors", 1)
			return isError
		}
		c.Count("messages", 1)
		h := header
		if r.IsSecret {
			h += mark
		}
		return lit(h + r.Message() + "\n")
	}
	// With random dice, only what does not depend on them.
	u, secret := stripSecret(t)
	h := header
	if secret {
		h += mark
	}
	if m := mtRollRe.FindStringSubmatch(u); m != nil {
		c.Count("messages", 1)
		return func(out string) (string, bool) {
			l := lineRe.FindString(out)
			p := h + "DiceBot : (" + m[1] + "B" + m[2] + ") ＞ "
			if !strings.HasPrefix(l, p) {
				return out, false
			}
			return out[len(l):], inRange(strings.TrimSuffix(strings.TrimPrefix(l, p), "\n"), m[1], m[2])
		}
	}
	rec := newRec(1, Uniform, 0)
	r, err := bcdice.New(rec).ExecuteCommand(t)
	if len(rec.Log) > 0 {
		return nil // not predictable
	}
	if err != nil {
		c.Count("errors", 1)
		return isError
	}
	c.Count("messages", 1)
	return lit(h + r.Message() + "\n")
}

var mtRollRe = regexp.MustCompile(`\A([1-9][0-9]{0,2})B([1-9][0-9]{0,17})\z`)

// inRange checks a list of num values from 1 to sides.
func inRange(list, num, sides string) bool {
	vs := strings.Split(list, ",")
	if fmt.Sprint(len(vs)) != num {
		return false
	}
	var max int
	fmt.Sscan(sides, &max)
	for _, v := range vs {
		var x int
		if n, err := fmt.Sscan(v, &x); n != 1 || err != nil || x < 1 || x > max {
			return false
		}
	}
	return true
}

// line makes a line and what it must print.
func (m *replModel) line(g *Gen) (string, expect) {
	c := m.c
	sp := func() string { return strings.Repeat(" ", 1+c.N(8)/7) }
	text := func() string {
		t := g.mixed()
		if !m.queue && c.P(50) {
			t = pick(c, "", "S", "s") + itoa(1+c.N(8)) + "B" + itoa(1+c.N(100))
		}
		if m.queue && len(m.dice) > 0 && c.P(40) { // a roll that the queue serves
			t = pick(c, "", "", "S", "s") + itoa(1+c.N(2)) + pick(c, "D", "B") + itoa(m.dice[0].Sides) + pick(c, "", "+1", ">=3", " x")
			if strings.Contains(t, "B") {
				t = strings.Replace(t, "+1", "", 1)
			}
		}
		if c.P(8) {
			t = g.choice(1+c.N(4), true)
		}
		if c.P(10) {
			t = pick(c, "S", "s") + t
		}
		return strings.TrimSpace(printable(t))
	}
	switch c.N(16) {
	case 0, 1, 2, 3, 4:
		t := text()
		if strings.HasPrefix(t, ".") {
			return "", nil
		}
		return strings.Repeat(" ", c.N(10)/8) + t + strings.Repeat(" ", c.N(10)/8), m.eval(t)
	case 5, 6:
		t := text()
		return ".eval" + sp() + t, m.eval(t)
	case 7:
		t := text()
		if t == "" {
			return ".ast", usageOf("ast")
		}
		u, secret := stripSecret(t)
		cmd, over := ref.Parse(u)
		if cmd != nil && cmd.Rest != "" {
			return "", nil
		}
		h := header
		if secret {
			h += mark
		}
		if cmd == nil || over {
			c.Count("errors", 1)
			return ".ast" + sp() + t, isError
		}
		c.Count("trees", 1)
		return ".ast" + sp() + t, func(out string) (string, bool) {
			l := lineRe.FindString(out)
			if !strings.HasPrefix(l, h) {
				return out, false
			}
			return out[len(l):], ref.SameSExp(strings.TrimSuffix(strings.TrimPrefix(l, h), "\n"), cmd)
		}
	case 8, 9:
		if c.P(25) {
			a := pick(c, "", "2", "2 x", "x 6", "2D6", "-1 6", "2 6 1", "1.5 6")
			return strings.TrimSpace(".roll " + a), usageOf("roll")
		}
		if c.P(25) {
			a := pick(c, "0 6", "2 0", "0 0", "1000001 6", "99999999999999999999 6", "1 99999999999999999999", "9223372036854775808 1")
			c.Count("errors", 1)
			return ".roll" + sp() + a, isError
		}
		n, s := 1+c.N(4), 1+c.N(20)
		if m.queue && len(m.dice) > 0 {
			s = m.dice[0].Sides
		}
		l := fmt.Sprintf(".roll%s%d%s%d", sp(), n, sp(), s)
		c.Count("rolls", 1)
		if !m.queue {
			return l, func(out string) (string, bool) {
				o := lineRe.FindString(out)
				ds, ok := readDice(strings.TrimSuffix(strings.TrimPrefix(o, header), "\n"))
				ok = ok && strings.HasPrefix(o, header) && len(ds) == n
				for _, d := range ds {
					ok = ok && d.Sides == s && d.Value >= 1 && d.Value <= s
				}
				return out[len(o):], ok
			}
		}
		ds, err := roller.New(feeder.NewQueue(m.dice)).RollDice(n, s)
		if err != nil {
			c.Count("errors", 1)
			return l, isError
		}
		c.Count("queue restored", 1)
		return l, lit(header + dice.FormatDice(ds) + "\n")
	case 10:
		switch c.N(4) {
		case 0:
			return ".set-game DiceBot", lit(okLine)
		case 1:
			c.Count("errors", 1)
			return ".set-game " + pick(c, "dicebot", "Cthulhu", "none", "DiceBot x", "x DiceBot"), isError
		}
		return ".set-game", lit("DiceBot\n")
	case 11:
		if m.queue || c.P(10) {
			ds := c.someDice(6)
			for i := range ds {
				if ds[i].Sides < 1 {
					ds[i] = dice.Die{Value: 1, Sides: 6}
				}
				if c.P(60) {
					ds[i].Sides = ds[0].Sides
					ds[i].Value = 1 + c.N(min(ds[i].Sides, 1000))
				}
			}
			t := dice.FormatDice(ds)
			if c.P(30) {
				t = dice.FormatDiceWithoutSpaces(ds)
			}
			if c.P(15) {
				t += pick(c, ",", "x", "/6", ",1/x", " 2/6") // numbers that do not fit: see C23
			}
			got, ok := readDice(t)
			l := strings.TrimSpace(".set-dice-queue " + t)
			if !m.queue || !ok {
				c.Count("errors", 1)
				return l, isError
			}
			m.dice = got
			return l, lit(okLine)
		}
		return ".set-die-feeder queue", m.setQueue()
	case 12, 13:
		switch c.N(6) {
		case 0:
			m.queue, m.dice = false, nil
			return ".set-die-feeder " + pick(c, "mt", "MT", "Mt"), lit(okLine)
		case 1:
			return strings.TrimSpace(".set-die-feeder " + pick(c, "", "x", "mt queue", "queues")), usageOf("set-die-feeder")
		}
		return ".set-die-feeder " + pick(c, "queue", "QUEUE", "Queue"), m.setQueue()
	case 14:
		switch c.N(3) {
		case 0:
			return ".list-games", lit("DiceBot\n")
		case 1:
			return ".help", func(out string) (string, bool) {
				var names []string
				for {
					x := helpRe.FindStringSubmatch(out)
					if x == nil || len(names) > 0 && x[1] == names[0] {
						break
					}
					names = append(names, x[1])
					out = out[len(x[0]):]
				}
				want := "ast eval roll set-game list-games set-die-feeder set-dice-queue help quit"
				for _, n := range strings.Fields(want) {
					if !strings.Contains(" "+strings.Join(names, " ")+" ", " "+n+" ") {
						return out, false
					}
				}
				return out, true
			}
		}
		c.Count("errors", 1)
		if c.P(50) { // almost a command
			n := pick(c, "ast", "eval", "roll", "set-game", "list-games", "set-die-feeder", "set-dice-queue", "help", "quit", "q", "quit")
			k := c.N(len(n) + 1)
			x := pick(c, "x", "-", "q", "s", "t")
			l := n[:k] + x + n[k:]
			if c.P(40) && k > 0 {
				l = n[:k-1] + n[k:]
			} else if c.P(30) && k > 0 {
				l = n[:k-1] + strings.ToUpper(n[k-1:k]) + n[k:]
				if k > 1 {
					l = strings.ToUpper(n)
				}
			}
			switch l {
			case "ast", "eval", "roll", "set-game", "list-games", "set-die-feeder", "set-dice-queue", "help", "quit", "q":
				l = "x" + l
			}
			c.Count("lines that are almost commands", 1)
			return "." + l + pick(c, "", "", " 2D6", " mt"), isError
		}
		return pick(c, ".unknown", ".x 1", ".rolls 2 6", ".Q", ".", "..", ".q x", ".1", ".evals 2D6"), isError
	}
	return pick(c, "", " ", "   "), usageOf("eval")
}

func (m *replModel) setQueue() expect {
	m.queue, m.dice = true, nil
	return lit(okLine)
}

func runC20(c *Ctx) {
	g := newGen(c)
	g.budget = 8
	m := &replModel{c: c}
	var lines []string
	var want []expect
	n := c.Tail(25, 3+c.N(38), 600)
	for len(lines) < n {
		l, e := m.line(g)
		if e == nil {
			continue
		}
		lines = append(lines, l)
		want = append(want, e)
	}
	in := strings.Join(lines, "\n")
	switch c.N(4) {
	case 0:
		in += "\n" + pick(c, ".q", ".quit", " .q ", ".quit now") + "\n"
		c.Count("sessions ended by .quit", 1)
		if c.P(60) {
			in += pick(c, "C(1)\n", ".list-games\n2D6\n", "x", ".help\n")
			c.Count("lines after the end", 1)
		}
	case 1: // the last line has no end
		if strings.TrimSpace(lines[n-1]) == "" {
			in += "\n" // an empty rest is no line
		}
		c.Count("sessions ended by the end of input", 1)
	default:
		in += "\n"
		c.Count("sessions ended by the end of input", 1)
	}
	c.Count("lines typed", len(lines))

	dir, err := os.MkdirTemp(os.Getenv("VMON_TMP"), "repl-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(sibling("repl"))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir, "TERM=dumb")
	cmd.Stdin = strings.NewReader(in)
	var stdout, stderr bytes.Buffer
	cmd.Stdout = &stdout
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(100 * time.Second):
		cmd.Process.Kill()
		<-done
		c.abort = true
		c.Fail("the REPL did not end after its input: %q, output %q", clip(in, 1000), tail(stdout.String()))
	}
	if err != nil {
		c.Fail("the REPL died: %v\n%s\ninput %q", err, tail(stderr.String()), clip(in, 1500))
	}
	out := stdout.String()
	i := strings.Index(out, "\n\n* ")
	if i < 0 {
		c.Fail("no welcome in %q", clip(out, 500))
	}
	j := strings.Index(out[i+2:], "\n\n")
	if j < 0 {
		c.Fail("no welcome in %q", clip(out, 500))
	}
	out = out[i+2+j+2:]
	for k, e := range want {
		rest, ok := e(out)
		if !ok {
			c.Fail("line %d %q printed %q...\nsession:\n%s", k+1, lines[k], clip(out, 300), strings.Join(lines, "\n"))
		}
		out = rest
	}
	if strings.TrimSpace(out) != "" {
		c.Fail("the REPL printed %q after the last line of\n%s", clip(out, 300), strings.Join(lines, "\n"))
	}
	if files, _ := filepath.Glob(filepath.Join(dir, "*")); len(files) > 1 {
		c.Fail("the REPL left files: %v", files)
	}
	c.Eval(in)
	c.Sample("%q", in)
}
