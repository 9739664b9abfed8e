package main

import (
	"fmt"
	"runtime/debug"
	"strings"

	"vmon/ref"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
)

// Exec is a monitored execution of a command.
type Exec struct {
	Text  string
	Res   *command.Result
	Err   error
	Draws []Draw
}

// Session is a BCDice instance with a recording feeder.
type Session struct {
	c      *Ctx
	B      *bcdice.BCDice
	F      *Rec
	GameID string
	Cap    int // the most dice a command may draw (0: the feeder's limit)
}

func newSession(c *Ctx, mode Mode, hint int) *Session {
	f := newRec(c.R.Uint64(), mode, hint)
	return &Session{c: c, B: bcdice.New(f), F: f, GameID: "DiceBot"}
}

// guard runs fn and turns a panic into a violation.
func (c *Ctx) guard(what string, fn func()) {
	defer func() {
		switch r := recover(); x := r.(type) {
		case nil:
		case stop:
			panic(r)
		case runaway:
			c.Fail("%s drew %d dice and went on", what, x.n)
		default:
			c.Fail("%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	fn()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// Exec executes a command under the monitors.
func (s *Session) Exec(text string) *Exec {
	x := &Exec{Text: text}
	from := len(s.F.Log)
	if from > 200000 { // keep the log small over a session
		s.F.Log = nil
		from = 0
	}
	if s.Cap > 0 {
		s.F.Limit = from + s.Cap
	}
	s.c.guard(fmt.Sprintf("ExecuteCommand(%q)", clip(text, 300)), func() {
		x.Res, x.Err = s.B.ExecuteCommand(text)
	})
	x.Draws = s.F.Log[from:len(s.F.Log):len(s.F.Log)]
	s.c.Count("commands executed", 1)
	s.c.Count("dice drawn", len(x.Draws))
	if (x.Res == nil) == (x.Err == nil) {
		s.c.Fail("%q: result %v and error %v", clip(text, 300), x.Res, x.Err)
	}
	if x.Err != nil {
		s.c.Count("refused", 1)
	}
	return x
}

func (x *Exec) String() string {
	if x.Err != nil {
		return fmt.Sprintf("%q -> error %q dice %s", clip(x.Text, 300), clip(x.Err.Error(), 200), drawText(x.Draws))
	}
	return fmt.Sprintf("%q -> %q rolled %s drawn %s secret %v %s", clip(x.Text, 300),
		clip(x.Res.Message(), 500), clip(dice.FormatDice(x.Res.RolledDice), 200),
		drawText(x.Draws), x.Res.IsSecret, x.Res.SuccessCheckResult)
}

func drawText(ds []Draw) string {
	var b strings.Builder
	for i, d := range ds {
		if i >= 40 {
			fmt.Fprintf(&b, " ...(%d)", len(ds))
			break
		}
		if d.Err != nil {
			fmt.Fprintf(&b, " fail/%d", d.Sides)
		} else {
			fmt.Fprintf(&b, " %d/%d", d.Die.Value, d.Die.Sides)
		}
	}
	return "[" + strings.TrimSpace(b.String()) + "]"
}

func isSpace(r byte) bool {
	return r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\f'
}

// firstPart is the text up to the first ASCII white space.
func firstPart(s string) string {
	for i := 0; i < len(s); i++ {
		if isSpace(s[i]) {
			return s[:i]
		}
	}
	return s
}

// stripSecret removes one secret mark.
func stripSecret(s string) (string, bool) {
	if s != "" && (s[0] == 'S' || s[0] == 's') {
		return s[1:], true
	}
	return s, false
}

// resolve finds the command that a text denotes.
func resolve(text string) (*ref.Cmd, bool, bool) {
	t, secret := stripSecret(text)
	c, over := ref.Parse(t)
	if c == nil || over {
		if f := firstPart(t); f != t {
			c2, over2 := ref.Parse(f)
			if c2 != nil {
				return c2, over2, secret
			}
		}
	}
	return c, over, secret
}

// Facts is what an agreement with the model showed.
type Facts struct {
	Cmd     *ref.Cmd // nil: not a command
	O       ref.Outcome
	Inexact bool // a part agreed only through the recorded finding on C11
}

// conform checks an execution against the model. maxRerolls is the limit of
// rerolls of the evaluator.
func conform(c *Ctx, x *Exec, gameID string, maxRerolls int) Facts {
	cmd, over, secret := resolve(x.Text)
	return conformCmd(c, x, cmd, over, secret, gameID, maxRerolls)
}

func conformCmd(c *Ctx, x *Exec, cmd *ref.Cmd, over, secret bool, gameID string, maxRerolls int) Facts {
	if cmd == nil || over {
		why := "is not a command"
		if over {
			why = "holds a number that does not fit into 64 bits"
		}
		if x.Err == nil {
			c.Fail("%q %s but was executed: %s", clip(x.Text, 300), why, x)
		}
		if len(x.Draws) > 0 {
			c.Fail("%q %s but %d dice were drawn", clip(x.Text, 300), why, len(x.Draws))
		}
		c.Count("non-commands", 1)
		return Facts{Cmd: nil}
	}
	if cmd.Rest != "" && !isSpace(cmd.Rest[0]) && x.Err != nil {
		// Text glued to a Calc or Choice: both readings are left open.
		return Facts{Cmd: nil}
	}
	src := &replaySrc{log: x.Draws}
	o := ref.Run(cmd, src, maxRerolls)
	c.Count("kind "+cmd.Kind.String(), 1)
	c.Count("verdict "+o.Verdict.String(), 1)
	f := Facts{Cmd: cmd, O: o}
	if src.mismatch != "" {
		c.Fail("%s: %s", x, src.mismatch)
	}
	if len(x.Draws) > src.i {
		c.Fail("%s: %d dice were drawn, the command needs %d (model: %s %s)", x, len(x.Draws), src.i, o.Verdict, o.Reason)
	}
	if x.Err != nil {
		if o.Verdict == ref.Accept {
			c.Fail("%s: the command is valid (the model gives %s)", x, showParts(o.Parts))
		}
		return f
	}
	if o.Verdict == ref.Refuse {
		c.Fail("%s: must be refused: %s", x, o.Reason)
	}
	if src.dry {
		c.Fail("%s: the command needs more dice than the %d that were drawn", x, len(x.Draws))
	}
	r := x.Res
	if r.IsSecret != secret {
		c.Fail("%s: secret flag %v, want %v", x, r.IsSecret, secret)
	}
	if len(r.RolledDice) != len(x.Draws) {
		c.Fail("%s: %d dice are reported, %d were drawn", x, len(r.RolledDice), len(x.Draws))
	}
	for i, d := range r.RolledDice {
		if d != x.Draws[i].Die {
			c.Fail("%s: reported die %d is %s, drawn was %s", x, i, d, x.Draws[i].Die)
		}
	}
	if r.GameID != gameID {
		c.Fail("%s: game ID %q, want %q", x, r.GameID, gameID)
	}
	if got := r.SuccessCheckResult.String(); got != o.Success {
		c.Fail("%s: success check result %s, want %s", x, got, o.Success)
	}
	if len(r.MessageParts) != len(o.Parts) {
		c.Fail("%s: %d message parts, want %s", x, len(r.MessageParts), showParts(o.Parts))
	}
	for i, p := range o.Parts {
		switch ref.MatchPart(r.MessageParts[i], p) {
		case 0:
			c.Fail("%s: message part %d is %q, want %s", x, i+1, clip(r.MessageParts[i], 300), showParts(o.Parts[i:i+1]))
		case 2:
			f.Inexact = true
		}
	}
	if m := gameID + " : " + strings.Join(r.MessageParts, " ＞ "); r.Message() != m {
		c.Fail("%s: message %q is not made of the parts, want %q", x, clip(r.Message(), 300), clip(m, 300))
	}
	return f
}

func showParts(ps []ref.Part) string {
	var ss []string
	for _, p := range ps {
		if p.Expr != nil {
			ss = append(ss, p.Pre+p.Expr.S()+p.Post)
		} else {
			ss = append(ss, p.Pre)
		}
	}
	return clip(strings.Join(ss, " ＞ "), 800)
}
