package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/labstack/echo"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/controllers"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/helpers"
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"github.com/raa0121/GoBCDice/pkg/version"
)

func init() {
	register(&Check{
		ID: "C22", Quick: 300000, Thorough: 6000000,
		Rule: "Histories of requests over changing sets of registered systems (known and unknown paths, methods, queries, bodies, encodings) to one API handler, some of them through a real HTTP server with parallel clients, compared with the registry and the versions; and random bodies, collections, errors and validation records through the response helpers. Non-trivial: every history; distinct by requests.",
		Run:  runC22,
		Floors: map[string]int{"requests": 50000, "listings": 20000, "unknown resources": 5000, "helper responses": 20000,
			"validation steps": 20000, "requests through a real server": 500, "requests to the real program": 100},
	})
}

type response struct {
	code int
	kind string
	body []byte
}

func (r response) object(c *Ctx, what string) map[string]any {
	if !strings.HasPrefix(r.kind, "application/json") {
		c.Fail("%s: content type %q", what, r.kind)
	}
	var v map[string]any
	if err := json.Unmarshal(r.body, &v); err != nil {
		c.Fail("%s: body %q is no JSON object: %v", what, clip(string(r.body), 300), err)
	}
	ok, is := v["ok"].(bool)
	if !is || ok != (r.code == 200) {
		c.Fail("%s: status %d and ok %v", what, r.code, v["ok"])
	}
	return v
}

// strs reads a list of strings.
func strs(v any) []string {
	l, ok := v.([]any)
	if !ok {
		return nil
	}
	out := []string{}
	for _, x := range l {
		s, ok := x.(string)
		if !ok {
			return nil
		}
		out = append(out, s)
	}
	return out
}

// checkResource checks the response of a known path.
func checkResource(c *Ctx, path string, r response) {
	what := "GET " + path
	if r.code != 200 {
		c.Fail("%s: status %d", what, r.code)
	}
	v := r.object(c, what)
	c.Count("listings", 1)
	switch strings.SplitN(path, "?", 2)[0] {
	case "/":
		if s, ok := v["message"].(string); !ok || s == "" || len(v) != 2 {
			c.Fail("%s: %v", what, v)
		}
	case "/v1/version":
		if v["api"] != version.API_VERSION || v["bcdice"] != version.BCDICE_VERSION || len(v) != 3 {
			c.Fail("%s: %v", what, v)
		}
	case "/v1/systems":
		ids := strs(v["systems"])
		if len(v) != 2 || !reflect.DeepEqual(ids, dicebotlist.AvailableGameIDs(true)) {
			c.Fail("%s: %v", what, v)
		}
		checkIDs(c, what, ids)
	case "/v1/names":
		l, ok := v["names"].([]any)
		infos := dicebotlist.AvailableGameInfos(true).Name
		if !ok || len(l) != len(infos) || len(v) != 2 {
			c.Fail("%s: %v", what, v)
		}
		var ids []string
		for i, x := range l {
			m, ok := x.(map[string]any)
			if !ok || len(m) != 3 || m["system"] != infos[i].System || m["name"] != infos[i].Name || m["sort_key"] != infos[i].SortKey {
				c.Fail("%s: entry %d is %v, want %v", what, i, x, infos[i])
			}
			ids = append(ids, infos[i].System)
			b := bcdice.New(feeder.NewEmptyQueue())
			if err := b.SetDiceBotByGameID(infos[i].System); err != nil {
				c.Fail("%s lists %q, which is unknown: %v", what, infos[i].System, err)
			}
			d := b.DiceBot
			if d.GameID() != infos[i].System || d.GameName() != infos[i].Name || d.SortKey() != infos[i].SortKey {
				c.Fail("%s: entry %v, the dice bot says %q %q %q", what, infos[i], d.GameID(), d.GameName(), d.SortKey())
			}
		}
		sort.Strings(ids)
		all := append([]string(nil), dicebotlist.AvailableGameIDs(true)...)
		sort.Strings(all)
		if !reflect.DeepEqual(ids, all) {
			c.Fail("%s lists %q, the systems are %q", what, ids, all)
		}
	}
}

// checkIDs checks a list of game systems.
func checkIDs(c *Ctx, what string, ids []string) {
	if len(ids) == 0 || ids[0] != "DiceBot" {
		c.Fail("%s: the basic dice bot is not first in %q", what, ids)
	}
	for i := 2; i < len(ids); i++ {
		if ids[i] <= ids[i-1] {
			c.Fail("%s: %q is not in order", what, ids)
		}
	}
	for _, id := range ids {
		b := bcdice.New(feeder.NewEmptyQueue())
		if err := b.SetDiceBotByGameID(id); err != nil || b.DiceBot.GameID() != id {
			c.Fail("%s lists %q: %v, dice bot %q", what, id, err, b.DiceBot.GameID())
		}
	}
}

func (c *Ctx) jsonValue(depth int) any {
	switch c.N(8) {
	case 0:
		return float64(c.N(1 << 30))
	case 1:
		return c.P(50)
	case 2:
		return nil
	case 3:
		if depth > 0 {
			var l []any
			for i := c.N(4); i >= 0; i-- {
				l = append(l, c.jsonValue(depth-1))
			}
			return l
		}
	case 4:
		if depth > 0 {
			m := map[string]any{}
			for i := c.N(4); i > 0; i-- {
				m[pick(c, "a", "b", "名前", "", "x y", "\"")] = c.jsonValue(depth - 1)
			}
			return m
		}
	}
	var b strings.Builder
	for i := c.N(12); i > 0; i-- {
		b.WriteRune(runes[c.N(len(runes))])
	}
	return b.String() + pick(c, "", "<&>", "\u2028", "\\", "\"", "</script>", "\x00", "\n")
}

type object map[string]any

func (o object) ToResponseMap() helpers.ResponseMap {
	m := helpers.ResponseMap{}
	for k, v := range o {
		m[k] = v
	}
	return m
}

func (c *Ctx) object() object {
	o := object{}
	for i := c.N(5); i > 0; i-- {
		o[pick(c, "a", "b", "items2", "名前", "count2", "msg", " ")] = c.jsonValue(2)
	}
	if c.P(5) {
		o["ok"] = c.P(50)
	}
	return o
}

func (c *Ctx) helpers() {
	e := echo.New()
	code := pick(c, 200, 200, 201, 202, 400, 401, 403, 404, 418, 422, 500, 503)
	rec := httptest.NewRecorder()
	req, _ := http.NewRequest("GET", "/", nil)
	ctx := e.NewContext(req, rec)
	c.Count("helper responses", 1)
	get := func(err error, what string) map[string]any {
		if err != nil || rec.Code != code {
			c.Fail("%s: status %d, %v; want %d", what, rec.Code, err, code)
		}
		return response{rec.Code, rec.Header().Get("Content-Type"), rec.Body.Bytes()}.object(c, what)
	}
	same := func(got map[string]any, want map[string]any, what string) {
		want["ok"] = code == 200
		if !reflect.DeepEqual(norm(got), norm(want)) {
			c.Fail("%s: body %v, want %v", what, got, want)
		}
	}
	switch c.N(4) {
	case 0:
		o := c.object()
		v := get(helpers.JSONResponseObject(ctx, code, o), "object")
		same(v, map[string]any(o.ToResponseMap()), "object")
	case 1:
		o := c.object().ToResponseMap()
		w := map[string]any{}
		for k, x := range o {
			w[k] = x
		}
		same(get(helpers.JSONResponse(ctx, code, o), "map"), w, "map")
	case 2:
		n := c.N(6)
		col := make([]helpers.ResponseMap, 0, n)
		items := make([]any, 0, n)
		for i := 0; i < n; i++ {
			o := c.object()
			col = append(col, o.ToResponseMap())
			items = append(items, map[string]any(o))
		}
		if n == 0 && c.P(50) {
			col = nil
		}
		got := get(helpers.JSONResponseArray(ctx, code, col), "array")
		if x, has := got["items"]; has && x == nil && n == 0 {
			got["items"] = items // no items either way
		}
		same(got, map[string]any{"items": items, "count": n}, "array")
	case 3:
		for code == 200 {
			code = pick(c, 400, 404, 500, 422)
		}
		m, _ := c.jsonValue(0).(string)
		err := helpers.NewResponseError(code, m)
		if s := err.Error(); !strings.Contains(s, fmt.Sprint(code)) || !strings.Contains(s, m) {
			c.Fail("error text %q for %d %q", s, code, m)
		}
		same(get(helpers.JSONResponseError(ctx, err), "error"), map[string]any{"message": m}, "error")
	}

	// the record of validation errors
	errs := helpers.NewErrors()
	model := map[string]string{}
	for i := c.N(12); i > 0; i-- {
		f := pick(c, "a", "b", "c", "")
		m := pick(c, "m1", "m2", "")
		v := pick(c, 0, 1, -1, math.MaxInt64, math.MinInt64, c.N(100))
		l := pick(c, 0, 1, -1, math.MaxInt64, math.MinInt64, v, v, v+1)
		switch c.N(5) {
		case 0:
			errs.Add(f, m)
			model[f] = m
		case 1:
			errs.ValidateMinValue(v, l, f, m)
			if v < l {
				model[f] = m
			}
		case 2:
			errs.ValidateMaxValue(v, l, f, m)
			if v > l {
				model[f] = m
			}
		case 3:
			if c.P(30) {
				errs.Clear()
				model = map[string]string{}
			}
		}
		c.Count("validation steps", 1)
		if errs.HasMessages() != (len(model) > 0) || len(errs.Messages) != len(model) {
			c.Fail("recorded errors %v, want %v", errs.Messages, model)
		}
		for k, x := range model {
			if y, ok := errs.Messages[k]; !ok || x != y {
				c.Fail("recorded errors %v, want %v", errs.Messages, model)
			}
		}
	}
}

// norm is a value as JSON gives it back.
func norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	var out any
	json.Unmarshal(b, &out)
	return out
}

var resources = []string{"/", "/v1/version", "/v1/systems", "/v1/names"}

func runC22(c *Ctx) {
	fill := func() {
		if _, ok := registryWorks(); !ok {
			return
		}
		reg := map[string]dicebot.DiceBotConstructor{}
		for i := c.N(8); i > 0; i-- {
			id := pick(c, "Cthulhu", "A", "a", "名前", "Z z", "<b>", "S") + itoa(i)
			name, key := c.jsonValue(0), pick(c, "か", "a", "*", "Z")+itoa(i)
			reg[id] = func() dicebot.DiceBot {
				b := newBot(id)
				b.BasicInfo = &dicebot.DiceBotBasicInfo{GameID: id, GameName: fmt.Sprint(name), Usage: "u", SortKey: key}
				return b
			}
		}
		setRegistry(reg)
		c.Count("registered systems", len(reg))
	}
	if c.P(40) {
		fill()
		defer setRegistry(nil)
	}
	e := echo.New()
	controllers.Setup(e)
	h := ""
	do := func(method, path, body string) response {
		req, err := http.NewRequest(method, path, strings.NewReader(body))
		if err != nil {
			return response{}
		}
		rec := httptest.NewRecorder()
		c.guard(method+" "+path, func() { e.ServeHTTP(rec, req) })
		c.Count("requests", 1)
		return response{rec.Code, rec.Header().Get("Content-Type"), rec.Body.Bytes()}
	}
	for i := 2 + c.N(6); i > 0; i-- {
		p := resources[c.N(len(resources))]
		if c.P(10) {
			fill()
			defer setRegistry(nil)
		}
		switch c.N(6) {
		case 0, 1, 2:
			if c.P(30) {
				p += "?" + url.Values{pick(c, "q", "system", ""): {pick(c, "x", "DiceBot", "", "\xff")}}.Encode()
			}
			h += "G" + p
			checkResource(c, p, do("GET", p, ""))
		case 3:
			m := pick(c, "POST", "PUT", "DELETE", "PATCH", "OPTIONS")
			r := do(m, p, pick(c, "", "x=1", "{}"))
			h += m + p
			if r.code == 200 {
				c.Fail("%s %s: status %d", m, p, r.code)
			}
			c.Count("unknown resources", 1)
		default:
			p = pick(c, "/x", "/v1", "/v1/", "/v2/version", "/v1/namesx", "/V1/names", "/v1/systems/DiceBot", "//", "/v1//names", "/%00", "/v1/%6eames/", "/../v1/names", "/favicon.ico", "/"+url.PathEscape(c.bytes(6)))
			if p == "/" {
				continue
			}
			r := do("GET", p, "")
			h += "G" + p
			if r.code == 200 && !strings.HasPrefix(p, "/../") && p != "//" && p != "/v1//names" {
				c.Fail("GET %s: status %d, body %q", p, r.code, clip(string(r.body), 200))
			}
			c.Count("unknown resources", 1)
		}
	}
	c.helpers()
	if c.Idx%200 == 3 { // a real server, clients in parallel
		s := httptest.NewServer(e)
		type got struct {
			path string
			r    response
			err  error
		}
		ch := make(chan got)
		for i := 0; i < 12; i++ {
			go func(p string) {
				g := got{path: p}
				res, err := http.Get(s.URL + p)
				if err != nil {
					g.err = err
				} else {
					g.r.code, g.r.kind = res.StatusCode, res.Header.Get("Content-Type")
					g.r.body, g.err = io.ReadAll(res.Body)
					res.Body.Close()
				}
				ch <- g
			}(resources[i%4])
		}
		var gs []got
		for i := 0; i < 12; i++ {
			gs = append(gs, <-ch)
		}
		http.DefaultClient.CloseIdleConnections()
		s.Close()
		for _, g := range gs {
			if g.err != nil {
				c.Fail("GET %s: %v", g.path, g.err)
			}
			checkResource(c, g.path, g.r)
			c.Count("requests through a real server", 1)
		}
	}
	if c.Idx%6000 == 5 {
		c.program()
	}
	c.Eval(h)
	c.Sample("%s", h)
}

// program starts the real API program and asks it for its resources.
func (c *Ctx) program() {
	dir, err := os.MkdirTemp("", "api")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	client := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{}}
	defer client.CloseIdleConnections()
	env := pick(c, "", "development", "production", "staging")
	said := ""
	for try := 0; try < 3; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Count("no port", 1)
			return
		}
		_, port, _ := net.SplitHostPort(l.Addr().String())
		l.Close()
		var out bytes.Buffer
		cmd := exec.Command(sibling("api"))
		cmd.Dir = dir
		cmd.Env = []string{"PORT=" + port, "TMPDIR=" + dir, "HOME=" + dir, "ECHO_ENV=" + env}
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		ended := make(chan struct{})
		go func() { cmd.Wait(); close(ended) }()
		up := false
	wait:
		for i := 0; i < 600; i++ {
			if k, err := net.Dial("tcp", "127.0.0.1:"+port); err == nil {
				k.Close()
				up = true
				break
			}
			select {
			case <-ended:
				break wait
			case <-time.After(50 * time.Millisecond):
			}
		}
		if up {
			for i := 0; i < 12; i++ {
				p := resources[i%4]
				res, err := client.Get("http://127.0.0.1:" + port + p)
				if err != nil {
					cmd.Process.Kill()
					<-ended
					c.Fail("GET %s of the program: %v\n%s", p, err, clip(out.String(), 1000))
				}
				body, _ := io.ReadAll(res.Body)
				res.Body.Close()
				r := response{res.StatusCode, res.Header.Get("Content-Type"), body}
				func() {
					defer func() {
						if x := recover(); x != nil {
							cmd.Process.Kill()
							<-ended
							panic(x)
						}
					}()
					setRegistry(nil) // the program has no others
					checkResource(c, p, r)
				}()
				c.Count("requests to the real program", 1)
			}
		}
		cmd.Process.Kill()
		<-ended
		if up {
			return
		}
		said = out.String() // the port may have been taken meanwhile
	}
	c.Fail("the program does not answer on its port (ECHO_ENV=%q): %s", env, clip(said, 1000))
}
