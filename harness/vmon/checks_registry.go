package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/labstack/echo"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/controllers"
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"

	"net/http"
	"net/http/httptest"
)

func init() {
	register(&Check{
		ID: "C26", Quick: 30000, Thorough: 600000,
		Rule: "The registry is filled (through an overlay) with 0-40 generated game systems with own commands; lists, lookups, the API and sessions of commands and switches between the systems on two instances are compared with a model of the registry and of the precedence of a game's own commands. Non-trivial: at least one registered system or command; distinct by systems and session.",
		Run:  runC26,
		Floors: map[string]int{"sessions": 20000, "own commands": 2000, "basic commands under a game": 20000,
			"unknown systems": 5000},
		Assumptions: []string{"the overlay that fills the registry fits the package; otherwise only the basic dice bot and bots set directly are used (see observed.registered systems)"},
	})
}

var regProbe struct{ done, fills, lists bool }

// registryWorks tells whether the overlay fills the registry that Find uses,
// and whether the lists show it. A registry that is filled at the start of the
// process only may keep lists that were made then: they do not show what the
// overlay fills in later, and are not judged. Lists that show something else
// are judged.
func registryWorks() (fills, lists bool) {
	p := &regProbe
	if p.done {
		return p.fills, p.lists
	}
	p.done = true
	ids, infos := fmt.Sprint(dicebotlist.AvailableGameIDs(true)), fmt.Sprint(dicebotlist.AvailableGameInfos(true))
	show := func(id string) (found bool, ids, infos string) {
		if !setRegistry(map[string]dicebot.DiceBotConstructor{id: func() dicebot.DiceBot { return newBot(id) }}) {
			return
		}
		f, err := dicebotlist.Find(id)
		return err == nil && f != nil, fmt.Sprint(dicebotlist.AvailableGameIDs(true)), fmt.Sprint(dicebotlist.AvailableGameInfos(true))
	}
	f1, i1, n1 := show("ProbeA")
	f2, i2, n2 := show("ProbeB")
	setRegistry(nil)
	if !f1 && !f2 {
		return // another registry
	}
	p.fills = true
	// what was there at the start, and nothing since: cached
	p.lists = !(i1 == ids && i2 == ids || n1 == infos && n2 == infos)
	return p.fills, p.lists
}

func runC26(c *Ctx) {
	g := newGen(c)
	g.budget = 60
	type game struct{ id, name, key string }
	games := map[string]game{}
	made := map[string]int{}
	reg := map[string]dicebot.DiceBotConstructor{}
	var order []string
	for i := c.N(8) * c.N(6); i >= 0; i-- {
		id := pick(c, "Cthulhu", "Satasupe", "AceKiller Gene", "A", "a", "Z", "DiceBot2", "dicebot", "Basic", "名前", "", "SwordWorld2.0", "S", "D6") + pick(c, "", "", "1", "_x", "x", "9", ":Korean", "あ")
		if id == "DiceBot" || reg[id] != nil {
			continue
		}
		gm := game{id, "Game of " + id, pick(c, "a", "か", "*", "あ", "z", "ん") + id}
		if c.P(2) {
			gm.key = "same"
		}
		games[id] = gm
		order = append(order, id)
		reg[id] = func() dicebot.DiceBot {
			made[id]++
			b := newBot(id)
			b.BasicInfo = &dicebot.DiceBotBasicInfo{GameID: id, GameName: gm.name, Usage: "u" + id, SortKey: gm.key}
			return b
		}
	}
	fills, lists := registryWorks()
	if !fills || !setRegistry(reg) {
		reg, games, order = nil, map[string]game{}, nil
	}
	defer setRegistry(nil)
	c.Count("registered systems", len(reg))
	sort.Strings(order)

	// lists
	if !lists {
		c.Count("lists not judged", 1)
		show := func() ([]string, []dicebotlist.SystemInfo, string) {
			a, b := dicebotlist.AvailableGameIDs(true), dicebotlist.AvailableGameInfos(true).Name
			byID := append([]dicebotlist.SystemInfo(nil), b...)
			sort.Slice(byID, func(i, j int) bool { return byID[i].System < byID[j].System })
			return a, b, fmt.Sprint(a, byID)
		}
		a, b, first := show()
		for i := range a {
			a[i] = "overwritten"
		}
		for i := range b {
			b[i].System = "overwritten"
		}
		if _, _, again := show(); again != first {
			c.Fail("the lists changed with a list that was given out: %s", again)
		}
	}
	for round := 0; round < 2 && lists; round++ {
		ids := dicebotlist.AvailableGameIDs(false)
		with := dicebotlist.AvailableGameIDs(true)
		if len(ids) != len(order) || len(order) > 0 && !reflect.DeepEqual(ids, order) {
			c.Fail("game systems %q, registered are %q", ids, order)
		}
		if !reflect.DeepEqual(with, append([]string{"DiceBot"}, order...)) {
			c.Fail("game systems with the basic dice bot %q, registered are %q", with, order)
		}
		checkIDs(c, "the list", with)
		for _, basic := range []bool{false, true} {
			infos := dicebotlist.AvailableGameInfos(basic).Name
			rest := infos
			if basic {
				if len(infos) == 0 || infos[0].System != "DiceBot" {
					c.Fail("the basic dice bot is not first in %v", infos)
				}
				rest = infos[1:]
			}
			if len(rest) != len(games) {
				c.Fail("descriptions %v, registered are %q", infos, order)
			}
			seen := map[string]bool{}
			for i, x := range rest {
				gm, ok := games[x.System]
				if !ok || seen[x.System] || gm.name != x.Name || gm.key != x.SortKey {
					c.Fail("description %v, registered is %v", x, gm)
				}
				seen[x.System] = true
				if i > 0 && x.SortKey < rest[i-1].SortKey {
					c.Fail("descriptions are not ordered by sort key: %v", rest)
				}
			}
			for i := range infos {
				infos[i].System = "overwritten"
			}
		}
		for i := range ids {
			ids[i] = "overwritten"
		}
		for i := range with {
			with[i] = "overwritten"
		}
	}
	keys := map[string]bool{}
	for _, gm := range games {
		keys[gm.key] = true
	}
	if lists && c.P(20) {
		e := echo.New()
		controllers.Setup(e)
		for _, p := range resources {
			if p == "/v1/names" && len(keys) < len(games) {
				continue // equal sort keys have no order
			}
			req, _ := http.NewRequest("GET", p, nil)
			rec := httptest.NewRecorder()
			e.ServeHTTP(rec, req)
			checkResource(c, p, response{rec.Code, rec.Header().Get("Content-Type"), rec.Body.Bytes()})
		}
	}

	// sessions on two instances
	type inst struct {
		s     *Session
		bot   *Bot // nil: the basic dice bot
		other feeder.DieFeeder
	}
	var xs []*inst
	for i := 0; i < 2; i++ {
		s := newSession(c, Uniform, 0)
		if i == 1 && c.P(30) { // both draw from one feeder
			s.F = xs[0].s.F
			c.guard("New", func() { s.B = bcdice.New(s.F) })
			c.Count("instances with a feeder in common", 1)
		}
		if id := s.B.DiceBot.GameID(); id != "DiceBot" {
			c.Fail("a new instance has the dice bot %q", id)
		}
		xs = append(xs, &inst{s: s})
	}
	h := strings.Join(order, ",")
	for n := 4 + c.N(12); n > 0; n-- {
		x := xs[c.N(2)]
		s := x.s
		switch k := c.N(10); {
		case k == 0: // an unknown system changes nothing
			id := pick(c, "none", "dicebot ", " DiceBot", "DICEBOT", "diceBot", "Cthulh", "S2D6", "\xff", g.item())
			if _, ok := games[id]; ok || id == "DiceBot" {
				continue
			}
			before := s.B.DiceBot
			if f, err := dicebotlist.Find(id); err == nil || f != nil {
				c.Fail("the unknown system %q is found", id)
			}
			if err := s.B.SetDiceBotByGameID(id); err == nil {
				c.Fail("the unknown system %q can be set", id)
			}
			if s.B.DiceBot != before {
				c.Fail("setting the unknown system %q changed the dice bot to %q", id, s.B.DiceBot.GameID())
			}
			c.Count("unknown systems", 1)
		case k == 1 || k == 2: // switch
			id := "DiceBot"
			if len(order) > 0 && c.P(75) {
				id = order[c.N(len(order))]
			}
			m := made[id]
			if err := s.B.SetDiceBotByGameID(id); err != nil || s.B.DiceBot.GameID() != id {
				c.Fail("setting %q: %v, dice bot %q", id, err, s.B.DiceBot.GameID())
			}
			x.bot = nil
			if id != "DiceBot" {
				b, ok := s.B.DiceBot.(*Bot)
				if !ok || made[id] == m {
					c.Fail("setting %q did not make a dice bot: %T", id, s.B.DiceBot)
				}
				x.bot = b
				if b.GameName() != games[id].name || b.Usage() != "u"+id || b.SortKey() != games[id].key {
					c.Fail("the dice bot of %q describes itself as %q %q %q", id, b.GameName(), b.Usage(), b.SortKey())
				}
			}
			s.GameID = id
			h += " =" + id
			if s.B.DieFeeder() != feeder.DieFeeder(s.F) {
				c.Fail("setting %q changed the die feeder", id)
			}
		case k == 3 && c.P(50): // a bot that is set directly
			b := newBot("Own")
			s.B.DiceBot = b
			x.bot = b
			s.GameID = "Own"
			h += " Own"
		case k == 4 && c.P(50): // another feeder
			s.F = newRec(c.R.Uint64(), Uniform, 0)
			bot := s.B.DiceBot
			s.B.SetDieFeeder(s.F)
			if s.B.DiceBot != bot || s.B.DieFeeder() != feeder.DieFeeder(s.F) {
				c.Fail("setting the feeder: dice bot %q", s.B.DiceBot.GameID())
			}
		default:
			t := g.mixed()
			if c.P(45) {
				t = pick(c, "", "", "S", "s") + pick(c, "echo", "Echo1", "echo:"+g.item(), "2D6", "2d6", "echo2D6", "2D6>=7", "ECHO") + pick(c, "", "", " 2D6", "\t攻撃", "\n", " echo")
			}
			h += " " + t
			basic := c.P(20)
			rest, secret := stripSecret(t)
			first := firstPart(rest)
			seen := 0
			if x.bot != nil {
				seen = len(x.bot.Seen)
			}
			if basic {
				y := execBasic(s, t)
				if x.bot != nil && len(x.bot.Seen) != seen {
					c.Fail("%s: a basic command went to the game", y)
				}
				if y.Err == nil && (y.Res.IsSecret || !strings.HasPrefix(y.Res.Message(), s.GameID+" : ")) {
					c.Fail("%s: a basic command under the game %q", y, s.GameID)
				}
				c.Count("basic commands under a game", 1)
				continue
			}
			y := s.Exec(t)
			c.Trace("%s: %s", s.GameID, y)
			if x.bot != nil {
				if got := x.bot.Seen[seen:]; len(got) != 1 || got[0] != first {
					c.Fail("%s: the game was given %q, want [%q]", y, got, first)
				}
				l := strings.ToLower(first)
				own := strings.HasPrefix(l, "echo")
				if own || l == "2d6" {
					if y.Err != nil {
						c.Fail("%s: the game's own command", y)
					}
					want := []string{"echo", l}
					dice := 0
					if !own {
						dice = 2
						want = nil
						if len(y.Draws) == 2 {
							want = []string{fmt.Sprintf("own %d", y.Draws[0].Die.Value+y.Draws[1].Die.Value)}
						}
					}
					if !reflect.DeepEqual(y.Res.MessageParts, want) || len(y.Draws) != dice || !sameDice(y.Res.RolledDice, diceOf(y.Draws)) ||
						y.Res.IsSecret != secret || y.Res.GameID != s.GameID || y.Res.Message() != s.GameID+" : "+strings.Join(want, " ＞ ") {
						c.Fail("%s: the game's own command, want %q secret %v", y, want, secret)
					}
					c.Count("own commands", 1)
					continue
				}
			}
			conform(c, y, s.GameID, defaultMaxRerolls)
			c.Count("basic commands under a game", 1)
		}
		// what happens to one instance does not show in the other
		for _, z := range xs {
			if z.s.B.DiceBot.GameID() != z.s.GameID || z.s.B.DieFeeder() != feeder.DieFeeder(z.s.F) {
				c.Fail("an instance has the dice bot %q, want %q", z.s.B.DiceBot.GameID(), z.s.GameID)
			}
		}
	}
	c.Count("sessions", 1)
	c.Eval(h)
	c.Sample("%s", h)
	_ = bcdice.New
}
