package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/labstack/echo"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/controllers"
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	objects "github.com/raa0121/GoBCDice/pkg/core/object"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"github.com/raa0121/GoBCDice/pkg/core/util"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	dbt "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
)

func init() {
	register(&Check{
		ID: "C15", Quick: 450, Thorough: 40000, NoLimit: true, Workers: 4,
		Rule: "Schedules: 2-12 goroutines, each with instances of its own, run scripts of commands, parses, renderings, lists of games, test data and requests to one shared API handler, in a build with the race detector; feeders yield the processor at random draws. " +
			"Each script is first (or afterwards, for every second case) run alone; every observation must be the same. Non-trivial: at least one switch between goroutines was recorded; distinct by the recorded order of the draws and steps.",
		Run: runC15, Extra: coldStarts,
		Floors: map[string]int{"operations": 20000, "goroutine switches": 5000, "requests to the shared handler": 1000,
			"cold parallel starts": 20},
	})
}

// yielding is a feeder that gives way to other goroutines.
type yielding struct {
	f     feeder.DieFeeder
	every int
	n     int
	at    func()
}

func (y *yielding) CanSpecifyDie() bool { return y.f.CanSpecifyDie() }
func (y *yielding) Next(s int) (dice.Die, error) {
	y.n++
	y.at()
	if y.every > 0 && y.n%y.every == 0 {
		runtime.Gosched()
	}
	return y.f.Next(s)
}

// body shows as the value of a JSON text.
type body struct{ b []byte }

func (b body) String() string {
	var v any
	err := json.Unmarshal(b.b, &v)
	return fmt.Sprint(v, err)
}

type op struct {
	kind int
	text string
	seed uint64
}

// script is what one goroutine does.
type script struct {
	ops   []op
	seed  uint64
	every int
	mt    bool
}

// play runs a script and gives what it observed.
//
// Nothing here may order the goroutines: no shared counter, no formatting
// (package fmt pools its buffers) before the goroutines have ended.
func (s *script) play(server *echo.Echo, at func()) (out []func() string) {
	var f feeder.DieFeeder = newRec(s.seed, Uniform, 0)
	if s.mt {
		f = feeder.NewMT19937(int64(s.seed))
	}
	y := &yielding{f, s.every, 0, at}
	b := bcdice.New(y)
	note := func(format string, args ...any) {
		out = append(out, func() string { return fmt.Sprintf(format, args...) })
	}
	res := func(r *command.Result, err error) any {
		if err != nil {
			return "error " + err.Error()
		}
		return []any{r.Message(), r.RolledDice, r.IsSecret, r.SuccessCheckResult}
	}
	defer func() {
		if r := recover(); r != nil {
			note("panic: %v", r)
		}
	}()
	for _, o := range s.ops {
		at()
		switch o.kind {
		case 0:
			note("%v", res(b.ExecuteCommand(o.text)))
		case 1:
			note("%v", res(b.ExecuteBasicCommand(o.text)))
		case 2:
			n, err := parser.Parse("t", []byte(o.text))
			if err != nil {
				note("error %s", err)
				break
			}
			node := n.(ast.Node)
			in, err := notation.InfixNotation(node, true)
			note("%s|%s|%v|%s", node.SExp(), in, err, node.Type())
			ev := evaluator.NewEvaluator(roller.New(y), evaluator.NewEnvironment())
			note("%v", res(command.Execute(node, "X", ev)))
			in2, err2 := notation.InfixNotation(node, true)
			note("%s|%s|%v", node.SExp(), in2, err2) // with what was rolled in it
		case 3:
			ids := dicebotlist.AvailableGameIDs(true)
			infos := dicebotlist.AvailableGameInfos(true)
			note("%v %v", append([]string(nil), ids...), append([]dicebotlist.SystemInfo(nil), infos.Name...))
			for i := range ids {
				ids[i] = "overwritten"
			}
			for i := range infos.Name {
				infos.Name[i].System = "overwritten"
			}
			_, err := dicebotlist.Find(o.text)
			note("%v", err)
		case 4:
			rec := httptest.NewRecorder()
			req, _ := http.NewRequest("GET", o.text, nil)
			server.ServeHTTP(rec, req)
			note("%d %v", rec.Code, body{rec.Body.Bytes()})
		case 5:
			ds, err := dbt.ParseDice(o.text)
			note("%v %v", ds, err)
			note("%s|%s", dice.FormatDice(ds), dice.FormatDiceWithoutSpaces(ds))
			t, sec := util.CheckIfInputMayBeASecretRoll(o.text)
			note("%s %v", t, sec)
		case 6: // a time-seeded feeder: the dice differ, their range does not
			m := feeder.NewMT19937WithSeedFromTime()
			again := feeder.NewMT19937(m.Seed())
			ok := true
			for i := 0; i < 20; i++ {
				d, err := m.Next(6)
				e, err2 := again.Next(6)
				ok = ok && err == nil && err2 == nil && d == e && d.Value >= 1 && d.Value <= 6
			}
			note("time-seeded dice good %v", ok)
		case 7:
			q := feeder.NewQueue([]dice.Die{{Value: 1, Sides: 6}, {Value: 2, Sides: 6}, {Value: 3, Sides: 8}})
			b.SetDieFeeder(q)
			note("%v", res(b.ExecuteCommand(o.text)))
			left := q.Dice()
			note("%d %v", q.Remaining(), left)
			q.Append([]dice.Die{{Value: int(o.seed % 6), Sides: 6}})
			q.Set(append(q.Dice(), left...))
			note("%v", q.Dice())
			b.SetDieFeeder(y)
		case 8:
			note("%v %s", b.SetDiceBotByGameID(o.text), b.DiceBot.GameID())
		case 9:
			nb := bcdice.New(y)
			note("%v", res(nb.ExecuteCommand(o.text)))
			note("%s %s %s", nb.DiceBot.GameName(), nb.DiceBot.SortKey(), nb.DiceBot.Usage())
		case 10: // texts of values, known and unknown
			k := int(o.seed % 64)
			d := dice.Die{Value: k, Sides: k + 1}
			note("%s %s %s", d.String(), d.SExp(), dice.FormatDice([]dice.Die{d, d}))
			note("%s %s %s", command.SuccessCheckResultType(k%9).String(), ast.NodeType(k).String(), ast.RoundingMethodType(k%9).String())
			a := objects.NewArrayByMove([]objects.Object{objects.NewInteger(k), objects.NewBoolean(k%2 == 0)})
			note("%s %s", a.Inspect(), a.Type())
			note("%s %s", notation.FormatModifier(k-20), notation.Parenthesize(o.text))
		case 11: // the same without package fmt, whose buffers order the goroutines
			var ss []string
			for _, k := range []uint64{o.seed % 7, o.seed / 7 % 60} {
				ss = append(ss, command.SuccessCheckResultType(k).String(), ast.NodeType(k).String(), ast.RoundingMethodType(k).String(), objects.ObjectType(k).String())
			}
			note("%s", strings.Join(ss, " "))
		}
	}
	return out
}

func texts(fs []func() string) []string {
	out := make([]string, len(fs))
	for i, f := range fs {
		out[i] = f()
	}
	return out
}

func runC15(c *Ctx) {
	g := newGen(c)
	g.budget = 60
	n := 2 + c.N(11)
	scripts := make([]*script, n)
	var shared []string
	for i := 0; i < 4; i++ {
		shared = append(shared, g.mixed())
	}
	ops := 0
	kinds := []int{0, 0, 0, 0, 1, 2, 2, 2, 2, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 11}
	begin := kinds[c.N(len(kinds))] // what all of them begin with
	together := c.P(50)
	theme := c.N(9) // what kind of command most of them use
	themed := func() string {
		s := newSession(c, Uniform, 0)
		switch theme {
		case 0:
			return genR(g, s)
		case 1:
			return genU(g, s)
		case 2:
			return genRand(g, s)
		case 3:
			return g.choice(1+c.N(8), false)
		case 4:
			return g.dExpr(3, 10).s
		case 5:
			return g.longD().s
		}
		return g.mixed()
	}
	for i := range scripts {
		s := &script{seed: c.R.Uint64(), every: c.N(4), mt: c.P(40)}
		for k := 3 + c.N(12); k > 0; k-- {
			o := op{kind: kinds[c.N(len(kinds))], text: g.mixed(), seed: c.R.Uint64()}
			if (o.kind == 0 || o.kind == 2) && c.P(50) {
				o.text = themed()
				if len(o.text) > 2000 {
					o.text = g.mixed()
				}
			}
			if together && len(s.ops) == 0 {
				o.kind = begin
			}
			if c.P(40) { // the same text everywhere
				o.text = shared[c.N(len(shared))]
			}
			switch o.kind {
			case 4:
				o.text = pick(c, "/", "/v1/version", "/v1/systems", "/v1/names", "/v1/none", "/v1/names?x=1")
				c.Count("requests to the shared handler", 1)
			case 3, 8:
				o.text = pick(c, "DiceBot", "Cthulhu", "", "dicebot")
			case 5:
				o.text = pick(c, "1/6,2/6", "S1/6", "3/x", "", "s", " 1/100 , 2/3")
			}
			s.ops = append(s.ops, o)
			ops++
		}
		scripts[i] = s
	}
	c.Count("operations", ops)
	server := echo.New()
	controllers.Setup(server)

	alone := func() [][]string {
		out := make([][]string, n)
		for i, s := range scripts {
			out[i] = texts(s.play(server, func() {}))
		}
		return out
	}
	var want [][]string
	first := c.P(50) && os.Getenv("VMON_COLD") == ""
	if first {
		want = alone()
	} else if os.Getenv("VMON_COLD") != "" {
		c.Count("cold parallel starts", 1) // nothing has been initialised by use
	}

	// together
	raw := make([][]func() string, n)
	steps := make([][]int64, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	t0 := time.Now()
	for i := range scripts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var log []int64
			<-start
			raw[i] = scripts[i].play(server, func() {
				if len(log) < 1000 {
					log = append(log, int64(time.Since(t0)))
				}
			})
			steps[i] = log
		}(i)
	}
	close(start)
	wg.Wait()
	got := make([][]string, n)
	type step struct {
		t int64
		i uint8
	}
	var all []step
	for i := range raw {
		got[i] = texts(raw[i])
		for _, t := range steps[i] {
			all = append(all, step{t, uint8(i + 1)})
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].t < all[j].t })
	m := len(all)
	order := make([]uint8, m)
	for i, s := range all {
		order[i] = s.i
	}
	if !first {
		want = alone()
	}
	switches := 0
	for i := 1; i < m; i++ {
		if order[i] != order[i-1] {
			switches++
		}
	}
	c.Count("goroutine switches", switches)
	for i := range scripts {
		for k := range want[i] {
			if k >= len(got[i]) || got[i][k] != want[i][k] {
				g := "nothing"
				if k < len(got[i]) {
					g = got[i][k]
				}
				c.Fail("goroutine %d of %d, observation %d: %q, alone it is %q", i, n, k, clip(g, 800), clip(want[i][k], 800))
			}
			if strings.HasPrefix(want[i][k], "panic") || want[i][k] == "time-seeded dice good false" {
				c.Fail("goroutine %d: %s", i, want[i][k])
			}
			c.Count("observations compared", 1)
		}
		if len(got[i]) != len(want[i]) {
			c.Fail("goroutine %d made %d observations, alone %d", i, len(got[i]), len(want[i]))
		}
	}
	k := ""
	if switches > 0 {
		h := fnv.New64a()
		h.Write(order[:m])
		k = fmt.Sprint(h.Sum64())
	}
	c.Eval(k)
	c.Sample("%d goroutines, %d operations, %d switches, first steps %v", n, ops, switches, order[:min(m, 40)])
}

// coldStarts runs single cases in fresh processes, so that whatever the code
// sets up at its first use is set up by several goroutines at once.
func coldStarts(c *Ctx) {
	exe, _ := os.Executable()
	n := 32
	if tier() == "thorough" {
		n = 400
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	slots := make(chan struct{}, 4)
	for i := 0; i < n; i++ {
		wg.Add(1)
		slots <- struct{}{}
		go func(idx int) {
			defer func() { <-slots; wg.Done() }()
			tmp, err := os.MkdirTemp("", "vmon-cold-")
			if err != nil {
				panic(err)
			}
			cmd := exec.Command(exe, "worker", c.ch.ID, strconv.FormatUint(c.seed, 10), itoa(idx), "1", itoa(idx+1),
				filepath.Join(tmp, "status"), filepath.Join(tmp, "out"))
			cmd.Env = append(os.Environ(), "VMON_COLD=1", "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(tmp, "race"))
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			err = cmd.Run()
			var o Output
			js, _ := os.ReadFile(filepath.Join(tmp, "out"))
			json.Unmarshal(js, &o)
			races := raceReports(tmp)
			os.RemoveAll(tmp)
			mu.Lock()
			defer mu.Unlock()
			c.Idx = idx
			if err != nil || !o.Done {
				c.violation(fmt.Sprintf("the process died: %v\n%s", err, tail(stderr.String())))
				return
			}
			merge(c, &o)
			if races != "" {
				c.violation("data race at first use:\n" + races)
			}
		}(1000000000 + i)
	}
	wg.Wait()
}
