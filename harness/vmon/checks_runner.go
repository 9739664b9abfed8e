package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

func init() {
	register(&Check{
		ID: "C28", Quick: 600, Thorough: 20000,
		Rule: "A real test binary runs generated data files (30 per case, 1-8 test cases each, in one or two files; right ones, and ones with one thing wrong: the output, the secret mark, a die too many, too few or changed, an output for a refused command, none for a valid one; missing and malformed files; a game system of its own). Its verdict on each test case is compared with an execution of the command by the library. Non-trivial: a test case; distinct by command, dice and output.",
		Run:  runC28,
		Floors: map[string]int{"test cases": 50000, "passed": 10000, "failed": 10000, "refused as expected": 3000, "refused though not expected": 3000,
			"not refused though expected": 2000, "dice left over": 3000, "too few dice": 1000, "other output": 5000, "secret": 3000, "broken files": 500},
	})
}

// dataCase is a test case and the verdict it deserves.
type dataCase struct {
	input, output string
	dice          []dice.Die
	pass          bool
	why           string
}

// outcome executes the command on these dice.
func outcome(game, input string, ds []dice.Die) (text string, ok bool, left int) {
	q := feeder.NewQueue(ds)
	b := bcdice.New(q)
	if game == "VerifGame" {
		b.DiceBot = newBot(game)
	}
	r, err := b.ExecuteCommand(input)
	if err != nil {
		return "", false, q.Remaining()
	}
	text = r.Message()
	if r.IsSecret {
		text += "###secret dice###"
	}
	return text, true, q.Remaining()
}

func (d *dataCase) judge(c *Ctx, game string) {
	text, ok, left := outcome(game, d.input, d.dice)
	d.pass, d.why = false, ""
	switch {
	case !ok && d.output == "":
		d.pass, d.why = true, "refused as expected"
	case !ok:
		d.why = "refused though not expected"
	case d.output == "":
		d.why = "not refused though expected"
	case text != d.output:
		d.why = "other output"
	case left > 0:
		d.why = "dice left over"
	default:
		d.pass, d.why = true, "right"
	}
	c.Count(d.why, 1)
	if strings.HasSuffix(text, "###secret dice###") {
		c.Count("secret", 1)
	}
}

// makeCase makes a test case, right or with one thing wrong.
func makeCase(c *Ctx, g *Gen, game string) dataCase {
	for {
		g.budget = 20
		var in string
		switch n := c.N(20); {
		case n == 0:
			in = pick(c, "foo", "2D", "D6", "C(1/0)", "1D6/0", "CHOICE[]", "S", "2R6", "0D6", "S2R6")
		case n == 1:
			in = printable(g.anyCommand()) + pick(c, ")", "x", "[", ">=", "+")
		case n < 5 && game != "DiceBot":
			in = pick(c, "2D6", "2d6", "S2D6", "echo", "echo hi", "sECHO x", "Echo")
		default:
			in = g.anyCommand()
		}
		if c.P(25) {
			in = pick(c, "S", "s") + in
		}
		if c.P(10) {
			in += pick(c, " ", " 攻撃", "\tx", " 2D6")
		}
		if strings.Trim(in, " \t") == "" || strings.ContainsAny(in, "\n\r") || len(in) > 300 {
			continue
		}
		rec := newRec(c.R.Uint64(), Mode(c.N(int(Script))), 1+c.N(8))
		rec.MaxRun, rec.Limit = 4, 300
		var d dataCase
		d.input = in
		tooMany := false
		func() {
			defer func() {
				if recover() != nil {
					tooMany = true
				}
			}()
			b := bcdice.New(rec)
			if game == "VerifGame" {
				b.DiceBot = newBot(game)
			}
			b.ExecuteCommand(in)
		}()
		if tooMany || len(rec.Log) > 300 {
			continue
		}
		for _, w := range rec.Log {
			d.dice = append(d.dice, w.Die)
		}
		d.output, _, _ = outcome(game, in, d.dice)
		switch c.N(16) {
		case 0:
			d.output = ""
		case 1:
			if d.output == "" {
				d.output = "DiceBot : (2D6) ＞ 7[1,6] ＞ 7"
			}
		case 2:
			if i := c.N(len(d.output) + 1); i < len(d.output) && d.output[i] < 0x80 {
				d.output = d.output[:i] + pick(c, "0", "1", "x", "") + d.output[i+1:]
			}
		case 3:
			d.output = strings.TrimSuffix(d.output, "###secret dice###")
		case 4:
			if d.output != "" && !strings.HasSuffix(d.output, "###secret dice###") {
				d.output += "###secret dice###"
			}
		case 5:
			d.output += pick(c, " ", "1", "\nx", "0")
		case 6, 7:
			d.dice = append(d.dice, dice.Die{Value: 1 + c.N(6), Sides: 6})
			if c.P(30) {
				d.dice = append(d.dice, d.dice[0])
			}
		case 8, 9:
			if n := len(d.dice); n > 0 {
				d.dice = d.dice[:n-1]
				c.Count("too few dice", 1)
			}
		case 10:
			if n := len(d.dice); n > 0 {
				i := c.N(n)
				d.dice[i].Value = 1 + c.N(d.dice[i].Sides)
			}
		case 11:
			if n := len(d.dice); n > 1 {
				i, j := c.N(n), c.N(n)
				d.dice[i], d.dice[j] = d.dice[j], d.dice[i]
			}
		case 12:
			d.output = strings.ToLower(d.output)
		}
		d.judge(c, game)
		return d
	}
}

var (
	caseRe = regexp.MustCompile(`^        --- (PASS|FAIL|SKIP): TestVerif/file(\d+)/`)
	fileRe = regexp.MustCompile(`^    --- (PASS|FAIL|SKIP): TestVerif/file(\d+) `)
)

func runC28(c *Ctx) {
	g := newGen(c)
	dir, err := os.MkdirTemp("", "runner")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	type run struct {
		game   string
		broken bool
		cases  []dataCase
	}
	var runs []run
	list := ""
	for i := 0; i < 30; i++ {
		r := run{game: "DiceBot"}
		if c.P(25) {
			r.game = "VerifGame"
		}
		list += r.game
		for f := 0; f <= c.N(2); f++ {
			name := filepath.Join(dir, fmt.Sprintf("%d-%d.txt", i, f))
			list += "\t" + name
			text := ""
			var cases []dataCase
			for k := 1 + c.N(8); k > 0; k-- {
				d := makeCase(c, g, r.game)
				cases = append(cases, d)
				if text != "" {
					text += "\n============================\n"
				}
				format := dice.FormatDice
				if c.P(50) {
					format = dice.FormatDiceWithoutSpaces
				}
				text += "input:\n" + d.input + "\noutput:" + pick(c, "\n", "") + d.output + "\nrand:" + format(d.dice)
			}
			r.cases = append(r.cases, cases...)
			if c.P(50) {
				text += "\n"
			}
			switch {
			case c.P(2):
				text = strings.Replace(text, "rand:", "dice:", 1)
				r.broken = true
			case c.P(1):
				text += ",x"
				r.broken = true
			case c.P(1):
				r.broken = true
				continue // a missing file
			}
			if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
				panic(err)
			}
		}
		list += "\n"
		runs = append(runs, r)
	}
	if err := os.WriteFile(filepath.Join(dir, "runs"), []byte(list), 0o644); err != nil {
		panic(err)
	}
	cmd := exec.Command(sibling("runner"), "-test.v", "-test.run", "^TestVerif$", "-test.timeout", "60s")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_RUNS="+filepath.Join(dir, "runs"))
	out, runErr := cmd.Output()
	if _, ok := runErr.(*exec.ExitError); runErr != nil && !ok {
		panic(runErr)
	}
	verdicts := map[int][]bool{}
	files := map[int]bool{}
	games := false
	for _, l := range strings.Split(string(out), "\n") {
		if m := caseRe.FindStringSubmatch(l); m != nil {
			i, _ := strconv.Atoi(m[2])
			verdicts[i] = append(verdicts[i], m[1] == "PASS")
		} else if m := fileRe.FindStringSubmatch(l); m != nil {
			i, _ := strconv.Atoi(m[2])
			files[i] = m[1] == "PASS"
		} else if l == "VERIF-GAMES" {
			games = true
		}
	}
	all, anyKnown := true, false
	for i, r := range runs {
		if r.game != "DiceBot" && !games {
			all = false
			continue
		}
		got, seen := files[i]
		if !seen {
			c.Fail("no verdict on the files of run %d:\n%s", i, clip(string(out), 1500))
		}
		if r.broken {
			c.Count("broken files", 1)
			all = false
			if got {
				c.Fail("a missing or malformed data file passes")
			}
			continue
		}
		if len(verdicts[i]) != len(r.cases) {
			c.Fail("%d test cases in the files, %d verdicts", len(r.cases), len(verdicts[i]))
		}
		ok, known := true, false
		for j, d := range r.cases {
			ok = ok && d.pass
			c.Count("test cases", 1)
			c.Eval(fmt.Sprint(d.input, d.output, d.dice, r.game))
			if d.pass {
				c.Count("passed", 1)
			} else {
				c.Count("failed", 1)
			}
			if verdicts[i][j] != d.pass {
				if r.game != "DiceBot" {
					basic := d
					basic.judge(c, "DiceBot")
					if verdicts[i][j] == basic.pass {
						c.Known("othergame", fmt.Sprintf("test case %d of %s: input %q output %q: passed %v, as it would for the basic dice bot", j+1, r.game, clip(d.input, 300), clip(d.output, 500), basic.pass))
						known = true
						continue
					}
				}
				text, valid, left := outcome(r.game, d.input, d.dice)
				c.Fail("test case %d of %s: input %q output %q dice %s: passed %v, but the command gives %q (valid: %v) and leaves %d dice",
					j+1, r.game, clip(d.input, 300), clip(d.output, 500), clip(dice.FormatDice(d.dice), 300), verdicts[i][j], clip(text, 500), valid, left)
			}
		}
		if known {
			anyKnown = true
			continue
		}
		if got != ok {
			c.Fail("the files of run %d passed: %v, their test cases: %v", i, got, ok)
		}
		all = all && ok
	}
	if all != (runErr == nil) && games && !anyKnown {
		c.Fail("exit status %v although all passed: %v", runErr, all)
	}
	if games {
		c.Count("with a game system of its own", 1)
	}
}
