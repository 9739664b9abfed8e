package main

import (
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// The dictionary holds the integer literals of the code under test, so that
// the workloads visit the neighbourhood of every constant that it compares to.
var (
	dictOnce sync.Once
	dictInts []int
	dictStrs []string
)

var (
	intRe = regexp.MustCompile(`\b(0x[0-9a-fA-F_]+|[0-9][0-9_]*)\b`)
	expRe = regexp.MustCompile(`\b([0-9]+)e([0-9]+)\b`)
	shfRe = regexp.MustCompile(`\b([0-9]+)\s*<<\s*([0-9]+)\b`)
	strRe = regexp.MustCompile(`"([^"\\]{1,12})"`)
)

func dictionary() ([]int, []string) {
	dictOnce.Do(func() {
		set := map[int]bool{}
		strs := map[string]bool{}
		filepath.Walk(repoDir(), func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if info.IsDir() {
				if n := info.Name(); n == ".git" || n == "testdata" || n == "GoBCDiceGUI" {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return nil
			}
			for _, line := range strings.Split(string(b), "\n") {
				if strings.Contains(line, "position{") {
					continue
				}
				if i := strings.Index(line, "//"); i >= 0 {
					line = line[:i]
				}
				for _, m := range shfRe.FindAllStringSubmatch(line, -1) {
					a, _ := strconv.Atoi(m[1])
					n, _ := strconv.Atoi(m[2])
					if n < 63 {
						set[a<<n] = true
					}
				}
				for _, m := range expRe.FindAllStringSubmatch(line, -1) {
					v, err := strconv.ParseFloat(m[0], 64)
					if err == nil && v < 1e18 {
						set[int(v)] = true
					}
				}
				for _, m := range strRe.FindAllStringSubmatch(line, -1) {
					strs[m[1]] = true
				}
				for _, m := range intRe.FindAllString(line, -1) {
					v, err := strconv.ParseInt(strings.ReplaceAll(m, "_", ""), 0, 64)
					if err == nil {
						set[int(v)] = true
					}
				}
			}
			return nil
		})
		for _, v := range []int{1 << 31, 1 << 32, 1 << 53, math.MaxInt64, 1 << 62, 1 << 16, 1 << 8} {
			set[v] = true
		}
		for v := range set {
			dictInts = append(dictInts, v)
		}
		sort.Ints(dictInts)
		for s := range strs {
			dictStrs = append(dictStrs, s)
		}
		sort.Strings(dictStrs)
	})
	return dictInts, dictStrs
}

// Gen generates command texts.
type Gen struct {
	c      *Ctx
	budget int  // dice
	clean  bool // nothing that a command is refused for
	ctl    bool // tabs and line breaks inside the items of a choice
}

func newGen(c *Ctx) *Gen { return &Gen{c: c, budget: 400} }

// logUniform is a number up to max with uniform magnitude.
func (g *Gen) logUniform(max int) int {
	bits := g.c.N(63) + 1
	v := int(g.c.R.Uint64() >> (64 - bits))
	if v > max || v < 0 {
		return g.c.N(max) + 1
	}
	return v
}

func (g *Gen) dict() int {
	d, _ := dictionary()
	v := d[g.c.N(len(d))]
	switch g.c.N(5) {
	case 0:
		if v > 0 {
			v--
		}
	case 1:
		if v < math.MaxInt64 {
			v++
		}
	case 2:
		if v < math.MaxInt64/2 {
			v *= 2
		}
	}
	return v
}

// dictUpTo is a dictionary number below or at max, if there is one.
func (g *Gen) dictUpTo(max int) int {
	for i := 0; i < 20; i++ {
		if v := g.dict(); v <= max && v > 0 {
			return v
		}
	}
	return g.c.N(max) + 1
}

func itoa(v int) string { return strconv.Itoa(v) }

func (g *Gen) num() int {
	max := g.budget
	if max < 1 {
		max = 1
	}
	v := 1
	switch n := g.c.N(100); {
	case n < 55:
		v = g.c.N(5) + 1
	case n < 80:
		v = g.c.N(20) + 1
	case n < 92:
		v = g.dictUpTo(max)
	default:
		v = g.c.N(max) + 1
	}
	if v > max {
		v = max
	}
	g.budget -= v
	return v
}

func (g *Gen) sides() int {
	switch n := g.c.N(100); {
	case n < 50:
		return pick(g.c, 2, 3, 4, 6, 6, 6, 8, 10, 10, 12, 20, 100)
	case n < 80:
		return g.c.N(30) + 1
	case n < 90:
		return g.dictUpTo(math.MaxInt64)
	case n < 95:
		return g.c.N(1000) + 1
	default:
		return g.logUniform(math.MaxInt64)
	}
}

// small is a constant of everyday size.
func (g *Gen) small() int {
	switch n := g.c.N(100); {
	case n < 70:
		return g.c.N(13)
	case n < 90:
		return g.c.N(200)
	default:
		return g.dictUpTo(100000)
	}
}

// wide is a constant of any size.
func (g *Gen) wide() int {
	switch n := g.c.N(100); {
	case n < 30:
		return g.c.N(20)
	case n < 55:
		return g.dict()
	case n < 80:
		return g.logUniform(math.MaxInt64)
	case n < 90:
		return math.MaxInt64 - g.c.N(3)
	default:
		return g.c.N(1000)
	}
}

// Text with the precedence of its outermost operator.
const (
	pAdd = iota + 1
	pMul
	pNeg
	pAtom
)

type tx struct {
	s string
	p int
}

func (g *Gen) paren(t tx, min int) string {
	if t.p < min || g.c.P(12) {
		return "(" + t.s + ")"
	}
	return t.s
}

func (g *Gen) literal(v int) tx {
	s := itoa(v)
	if g.c.P(3) {
		s = strings.Repeat("0", g.c.N(3)+1) + s
	}
	return tx{s, pAtom}
}

func (g *Gen) bin(op string, a, b tx) tx {
	if b.s[0] != '+' && g.c.N(60) == 0 { // a sign between two operators
		b = tx{"+" + g.paren(b, pNeg), pNeg}
	}
	switch op {
	case "+":
		return tx{g.paren(a, pAdd) + "+" + g.paren(b, pAdd+1), pAdd}
	case "-":
		return tx{g.paren(a, pAdd) + "-" + g.paren(b, pAdd+1), pAdd}
	case "*":
		return tx{g.paren(a, pMul) + "*" + g.paren(b, pMul+1), pMul}
	}
	// "/", "/U", "/R": the suffix follows the divisor.
	return tx{g.paren(a, pMul) + "/" + g.paren(b, pMul+1) + op[1:], pMul}
}

func (g *Gen) neg(a tx) tx { return tx{"-" + g.paren(a, pNeg), pNeg} }

func (t tx) minusOne(g *Gen) tx { return g.bin("-", t, g.literal(1)) }

var divs = []string{"/", "/U", "/R"}

// leaf kinds of a random expression.
type leafFn func() tx

// expr is a random expression of the given depth.
func (g *Gen) expr(depth int, leaf leafFn) tx {
	if depth <= 0 || g.c.P(18) {
		return leaf()
	}
	switch n := g.c.N(100); {
	case n < 25:
		return g.bin("+", g.expr(depth-1, leaf), g.expr(depth-1, leaf))
	case n < 48:
		return g.bin("-", g.expr(depth-1, leaf), g.expr(depth-1, leaf))
	case n < 62:
		return g.bin("*", g.expr(depth-1, leaf), g.expr(depth-1, leaf))
	case n < 85:
		return g.bin(divs[g.c.N(3)], g.expr(depth-1, leaf), g.expr(depth-1, leaf))
	case n < 95:
		return g.neg(g.expr(depth-1, leaf))
	default:
		return tx{"+" + g.paren(g.expr(depth-1, leaf), pNeg), pNeg}
	}
}

// edge is a constant at or next to the ends of the 64-bit numbers, or a small
// one that takes such a number across them.
func (g *Gen) edge() tx {
	minInt := func() tx { // has no literal
		max := g.literal(math.MaxInt64)
		switch g.c.N(4) {
		case 0:
			return g.bin("-", g.bin("-", g.literal(0), max), g.literal(1))
		case 1:
			return g.bin("-", g.literal(0), g.bin("-", max, g.literal(0))).minusOne(g)
		case 2:
			return g.bin("*", g.neg(g.literal(1<<62)), g.literal(2))
		}
		return g.bin("-", g.neg(max), g.literal(1))
	}
	switch n := g.c.N(100); {
	case n < 25:
		return minInt()
	case n < 35:
		return g.neg(g.literal(math.MaxInt64 - g.c.N(3)))
	case n < 50:
		return g.literal(math.MaxInt64 - g.c.N(3))
	case n < 65:
		return g.neg(g.literal(g.c.N(4)))
	case n < 80:
		return g.literal(g.c.N(4))
	case n < 90:
		k := 1 << (30 + g.c.N(33))
		return pick(g.c, g.literal, func(v int) tx { return g.neg(g.literal(v)) })(k - 1 + g.c.N(3))
	default:
		return pick(g.c, g.literal, func(v int) tx { return g.neg(g.literal(v)) })(3037000499 + g.c.N(3))
	}
}

// edges is an operation on such constants.
func (g *Gen) edges() tx {
	if g.c.P(12) {
		return g.neg(g.edge())
	}
	t := g.bin(pick(g.c, "+", "-", "*", "*", "/", "/U", "/R"), g.edge(), g.edge())
	if g.c.P(15) {
		t = g.bin(pick(g.c, "+", "-", "*", "/", "/U", "/R"), t, g.edge())
	}
	return t
}

// valued is a random expression with the value v (|v| below 1e15).
func (g *Gen) valued(v, depth int) tx {
	if depth <= 0 || g.c.P(20) {
		if v < 0 {
			return g.neg(g.literal(-v))
		}
		return g.literal(v)
	}
	d := depth - 1
	k := g.c.N(9) + 1
	switch g.c.N(9) {
	case 0:
		return g.bin("-", g.valued(v+k, d), g.valued(k, d))
	case 1:
		return g.bin("+", g.valued(v-k, d), g.valued(k, d))
	case 2:
		return g.bin("-", g.valued(k, d), g.valued(k-v, d))
	case 3:
		m := 1
		if v%k == 0 {
			m = k
		}
		return g.bin("*", g.valued(v/m, d), g.valued(m, d))
	case 4: // truncation
		if v >= 0 {
			return g.bin("/", g.valued(v*k+g.c.N(k), d), g.valued(k, d))
		}
		return g.bin("/", g.valued(v*k-g.c.N(k), d), g.valued(k, d))
	case 5: // up
		if v > 0 {
			return g.bin("/U", g.valued(v*k-g.c.N(k), d), g.valued(k, d))
		}
		return g.bin("/U", g.valued(v*k, d), g.valued(k, d))
	case 6: // half away from zero
		lo := (k - 1) / 2
		if v > 0 {
			return g.bin("/R", g.valued(v*k+g.c.N(lo+1), d), g.valued(k, d))
		}
		return g.bin("/R", g.valued(v*k-g.c.N(lo+1), d), g.valued(k, d))
	case 7:
		return g.neg(g.valued(-v, d))
	default:
		return g.bin("+", g.valued(k, d), g.valued(v-k, d))
	}
}

// bad is now and then an expression that has no value.
func (g *Gen) bad() (string, bool) {
	if g.clean || g.c.N(150) > 0 {
		return "", false
	}
	return pick(g.c, "1/0", "0/0R", "(7-2)/(3-3)U", "9223372036854775807+1", "2*9223372036854775807", "-(0-9223372036854775807-1)"), true
}

// operand is a roll operand with the value v: a literal or a parenthesized
// expression.
func (g *Gen) operand(v int) string {
	if b, is := g.bad(); is {
		return "(" + b + ")"
	}
	if v >= 0 && g.c.P(75) {
		return g.literal(v).s
	}
	if v > 1e15 || v < -1e15 {
		if v < 0 {
			return "(" + itoa(v) + ")"
		}
		return "(" + itoa(v) + ")"
	}
	return "(" + g.valued(v, g.c.N(3)).s + ")"
}

// random is a random number [a...b] with values in lo..hi.
func (g *Gen) random(lo, hi int) string {
	if lo >= hi {
		hi = lo + 1
	}
	end := func(v int) string {
		if b, is := g.bad(); is {
			return "(" + b + ")"
		}
		if v >= 0 && g.c.P(70) {
			return g.literal(v).s
		}
		return "(" + g.valued(v, g.c.N(2)).s + ")"
	}
	return "[" + end(lo) + "..." + end(hi) + "]"
}

// randOperand is a roll operand with a random number in it.
func (g *Gen) randOperand(lo, hi int) string {
	if g.c.P(60) {
		return g.random(lo, hi)
	}
	k := g.c.N(5)
	switch g.c.N(3) {
	case 0:
		return "(" + g.random(lo-k, hi-k) + "+" + itoa(k) + ")"
	case 1:
		return "(" + g.random(lo+k, hi+k) + "-" + itoa(k) + ")"
	}
	return "(" + itoa(hi+lo) + "-" + g.random(lo, hi) + ")"
}

// roll is xDn (or B, R, U) with valid operands most of the time.
func (g *Gen) roll(letter string, randPct int) string {
	var n, s string
	if g.c.P(randPct) {
		lo := g.c.N(3) + 1
		hi := lo + 1 + g.c.N(6)
		g.budget -= hi
		n = g.randOperand(lo, hi)
	} else {
		v := g.num()
		if g.c.P(2) && !g.clean {
			v = pick(g.c, 0, 0, -1, 1000001, math.MaxInt64)
			if letter == "U" && v > 0 && !g.c.P(1) {
				v = 0 // a U roll meets the limit only after a million dice
			}
		}
		n = g.operand(v)
	}
	if g.c.P(randPct) {
		lo := g.c.N(8) + 1
		s = g.randOperand(lo, lo+1+g.c.N(10))
	} else {
		v := g.sides()
		switch {
		case g.clean && v > 1e6:
			v = 1 + v%1e6
		case g.c.P(2) && !g.clean:
			v = pick(g.c, 0, 0, -1, -6)
		}
		s = g.operand(v)
	}
	if g.c.P(40) {
		letter = strings.ToLower(letter)
	}
	return n + letter + s
}

// dExpr is an expression with at least one D roll or random number.
func (g *Gen) dExpr(depth, randPct int) tx {
	dice := 0
	maxDice := 1 + g.c.N(6)
	var last string // the last roll or random number
	lastCost := 0
	leaf := func() tx {
		if dice < maxDice && g.c.P(50) {
			dice++
			if last != "" && g.c.P(15) && lastCost <= g.budget { // written alike
				g.budget -= lastCost
				return tx{last, pAtom}
			}
			before := g.budget
			defer func() { lastCost = before - g.budget }()
			if randPct > 0 && g.c.P(randPct) {
				lo := g.c.N(9) - 3
				last = g.random(lo, lo+1+g.c.N(9))
			} else {
				last = g.roll("D", randPct)
			}
			return tx{last, pAtom}
		}
		if g.c.P(5) {
			if g.c.P(30) {
				return g.edge()
			}
			return g.literal(g.wide())
		}
		return g.literal(g.small())
	}
	if g.c.P(2) { // a small total meets the ends of the range
		n := 1 + g.c.N(2)
		g.budget -= n
		a, b := g.edge(), g.bin("-", tx{itoa(n) + "D" + itoa(1+g.c.N(3)), pAtom}, g.literal(g.c.N(6)))
		if g.c.P(30) {
			a, b = b, a
		}
		return g.bin(pick(g.c, "+", "-", "*", "*", "/", "/U", "/R"), a, b)
	}
	e := g.expr(depth, leaf)
	if dice == 0 {
		d := tx{g.roll("D", randPct), pAtom}
		if g.c.P(50) {
			return g.bin(pick(g.c, "+", "-", "*", "/", "/U", "/R"), d, e)
		}
		return g.bin(pick(g.c, "+", "-", "*", "+"), e, d)
	}
	return e
}

// longD is a long flat sum of rolls and constants.
func (g *Gen) longD() tx {
	n := g.c.Tail(150, 2+g.c.N(30), 3000)
	if n > 50 {
		g.clean = true
		defer func() { g.clean = false }()
	}
	var b strings.Builder
	b.WriteString(g.roll("D", 5))
	for i := 0; i < n; i++ {
		b.WriteString(pick(g.c, "+", "-"))
		if g.c.P(50) {
			b.WriteString(g.roll("D", 5))
		} else {
			b.WriteString(itoa(g.small()))
		}
	}
	return tx{b.String(), pAdd}
}

var cmpOps = []string{"=", "<>", "<", "<=", ">", ">="}

func (g *Gen) cmp() string { return cmpOps[g.c.N(len(cmpOps))] }

// target is an integer expression with the value v.
func (g *Gen) target(v int) string {
	if b, is := g.bad(); is {
		return b
	}
	if v > 1e15 || v < -1e15 || g.c.P(60) {
		return itoa(v)
	}
	return g.valued(v, g.c.N(3)).s
}

// far is a target at the limits of 64 bits, so far from every usual total
// that a difference of the two does not fit.
func (g *Gen) far() string {
	k := itoa(math.MaxInt64 - g.c.N(40))
	switch g.c.N(5) {
	case 0:
		return k
	case 1, 2:
		return "-" + k
	case 3:
		return "(-" + k + ")-" + itoa(g.c.N(41))
	}
	return "-" + itoa(math.MaxInt64) + "-1"
}

// rolls is a list of n B, R or U rolls.
func (g *Gen) rolls(letter string, n, randPct int) string {
	if n > 60 {
		g.clean = true
		defer func() { g.clean = false }()
	}
	ss := make([]string, n)
	cost := make([]int, n)
	for i := range ss {
		if i > 0 && g.c.P(25) { // groups that are written alike
			k := g.c.N(i)
			if cost[k] <= g.budget {
				ss[i], cost[i] = ss[k], cost[k]
				g.budget -= cost[k]
				continue
			}
		}
		before := g.budget
		ss[i] = g.roll(letter, randPct)
		cost[i] = before - g.budget
	}
	return strings.Join(ss, "+")
}

func (g *Gen) listLen() int {
	switch n := g.c.N(100); {
	case n < 50:
		return 1
	case n < 85:
		return 1 + g.c.N(4)
	case n < 97:
		return 1 + g.c.N(12)
	default:
		return g.c.Tail(60, 1+g.c.N(60), 1500)
	}
}

var runes = []rune("abcXYZ019 .-+*/()[<>=!?#%&_~^|;:'\"あいう漢字剣魔法　：，🎲é\u00a0\u3000")

// item is a choice item without ',' and ']'.
func (g *Gen) item() string {
	if g.c.N(3000) == 0 {
		n := g.c.Tail(2, 12, 20000)
		var b strings.Builder
		for b.Len() < n {
			if r := runes[g.c.N(len(runes))]; r != ']' && r != ',' {
				b.WriteRune(r)
			}
		}
		return b.String()
	}
	switch n := g.c.N(100); {
	case n < 55:
		return pick(g.c, "a", "b", "c", "剣", "魔法", "A b", "2D6", "S", "choice", "1d100<=50", "a|b", "(x)", "[x", "1...2", "0", "", " ")
	case n < 60:
		_, s := dictionary()
		return strings.NewReplacer(",", "", "]", "").Replace(s[g.c.N(len(s))])
	}
	k := 1 + g.c.N(12)
	var b strings.Builder
	for i := 0; i < k; i++ {
		r := runes[g.c.N(len(runes))]
		if r != ']' && r != ',' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// choice is a choice command with n items; blank items are made non-blank
// unless loose is set.
func (g *Gen) choice(n int, loose bool) string {
	ss := make([]string, n)
	for i := range ss {
		s := g.item()
		if !loose && strings.TrimSpace(s) == "" {
			s = "i" + itoa(i)
		}
		if g.c.P(15) {
			s = pick(g.c, " ", "  ", "\u3000") + s
		}
		if g.c.P(15) {
			s += pick(g.c, " ", "  ", "\u3000")
		}
		if g.ctl && g.c.P(50) {
			ws := pick(g.c, "\t", "\n", "\r", "\r\n", "\v", "\u0085", "\u2028", "\r\r\n", " \n ")
			if k := g.c.N(len(s) + 1); utf8.ValidString(s[:k]) {
				s = s[:k] + ws + s[k:]
			}
			if !loose && strings.TrimSpace(s) == "" {
				s = "i" + ws + itoa(i)
			}
		}
		ss[i] = s
	}
	head := "choice"
	if g.c.P(30) {
		head = "CHOICE"
	} else if g.c.P(30) {
		head = g.caseMix(head)
	}
	t := head + "[" + strings.Join(ss, ",")
	if g.c.P(10) {
		t += ","
		if g.c.P(30) {
			t += " "
		}
	}
	return t + "]"
}

func (g *Gen) caseMix(s string) string {
	b := []byte(s)
	for i := range b {
		if g.c.P(50) {
			if 'a' <= b[i] && b[i] <= 'z' {
				b[i] -= 32
			} else if 'A' <= b[i] && b[i] <= 'Z' {
				b[i] += 32
			}
		}
	}
	return string(b)
}

// longCalc is a long flat or deep expression of constants.
func (g *Gen) longCalc() string {
	n := g.c.Tail(4, 10+g.c.N(80), 3000)
	one := func() string {
		if g.c.P(90) {
			return itoa(1 + g.c.N(9))
		}
		return itoa(g.small())
	}
	switch g.c.N(4) {
	case 0: // sums
		ss := []string{one()}
		for i := 0; i < n; i++ {
			ss = append(ss, pick(g.c, "+", "-")+one())
		}
		return strings.Join(ss, "")
	case 1: // products that stay in the range
		ss := []string{one()}
		v := 1 << 20
		for i := 0; i < n; i++ {
			if k := 1 + g.c.N(4); g.c.P(50) && v < 1<<40 {
				v *= k
				ss = append(ss, "*"+itoa(k))
			} else {
				v /= k
				ss = append(ss, pick(g.c, divs...)[:1]+itoa(k)+pick(g.c, "", "U", "R"))
			}
		}
		return strings.Join(ss, "")
	case 2: // a sum of products
		ss := []string{one()}
		for i := 0; i < n; i++ {
			ss = append(ss, pick(g.c, "+", "-", "*", "/")+one())
			if i%3 > 0 {
				ss = append(ss, pick(g.c, "+", "-")+one())
			}
		}
		return strings.Join(ss, "")
	}
	n = n%150 + 1 // nested to the right
	s := one()
	for i := 0; i < n; i++ {
		switch g.c.N(3) {
		case 0:
			s = one() + pick(g.c, "+", "-") + "(" + s + ")"
		case 1:
			s = "(" + s + ")" + pick(g.c, "+", "-", "/", "/") + one()
		default:
			s = "-(" + s + ")"
		}
	}
	return s
}

// calc is a Calc command.
func (g *Gen) calc() string {
	head := pick(g.c, "C", "c")
	if g.c.N(400) == 0 {
		return head + "(" + g.longCalc() + ")"
	}
	depth := 1 + g.c.N(5)
	switch n := g.c.N(100); {
	case n < 40: // everyday numbers
		return head + "(" + g.expr(depth, func() tx { return g.literal(g.small()) }).s + ")"
	case n < 46: // at the ends of the range
		return head + "(" + g.edges().s + ")"
	case n < 65: // any size
		return head + "(" + g.expr(1+g.c.N(3), func() tx { return g.literal(g.wide()) }).s + ")"
	case n < 85: // around the rounding boundaries
		return head + "(" + g.rounding().s + ")"
	default:
		return head + "(" + g.bin(pick(g.c, "+", "-", "*", "/", "/U", "/R"), g.rounding(), g.expr(2, func() tx { return g.literal(g.small()) })).s + ")"
	}
}

// rounding is a division close to a rounding boundary.
func (g *Gen) rounding() tx {
	d := g.c.N(20) + 1
	switch g.c.N(4) {
	case 0:
		d = g.logUniform(1 << 40)
	case 1:
		d = g.dictUpTo(1 << 31)
	}
	if d < 1 {
		d = 1
	}
	q := g.c.N(50)
	if g.c.P(30) {
		q = g.logUniform(1 << 22)
	}
	n := q * d
	switch g.c.N(5) {
	case 0:
		n += d / 2
	case 1:
		n += d/2 + 1
	case 2:
		n += (d + 1) / 2
	case 3:
		n += g.c.N(d)
	}
	if n > 0 && g.c.P(20) {
		n--
	}
	a, b := g.literal(n), g.literal(d)
	if g.c.P(5) {
		b = g.literal(0)
	}
	if g.c.P(40) {
		a = g.neg(a)
	}
	if g.c.P(30) {
		b = g.neg(b)
	}
	return g.bin(divs[g.c.N(3)], a, b)
}

// bonus is the bonus part of a U roll.
func (g *Gen) bonus() string {
	n := g.c.N(4)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(g.c, "+", "-"))
		if bad, is := g.bad(); is {
			b.WriteString("(" + bad + ")")
		} else if g.c.P(70) {
			b.WriteString(itoa(g.small()))
		} else {
			t := g.expr(2, func() tx { return g.literal(g.c.N(9) + 1) })
			b.WriteString(g.paren(t, pMul))
		}
	}
	return b.String()
}

// threshold is a reroll threshold suffix.
func (g *Gen) threshold(v int) string {
	if b, is := g.bad(); is {
		return "[" + b + "]"
	}
	if g.c.P(75) || v > 1e15 || v < -1e15 {
		return "[" + itoa(v) + "]"
	}
	return "[" + g.valued(v, 2).s + "]"
}

// anyCommand is a command of any kind, mostly valid.
func (g *Gen) anyCommand() string {
	switch g.c.N(10) {
	case 0, 1, 2:
		t := g.dExpr(1+g.c.N(3), 10).s
		if g.c.P(40) {
			t += g.cmp() + g.target(g.small())
		}
		return t
	case 3, 4:
		t := g.rolls("B", g.listLen(), 8)
		if g.c.P(50) {
			t += g.cmp() + g.target(g.small())
		}
		return t
	case 5:
		t := g.rolls("R", g.listLen(), 5)
		if g.c.P(70) {
			t += g.threshold(g.c.N(8))
		}
		if g.c.P(60) {
			t += g.cmp() + g.target(g.c.N(9))
		}
		return t
	case 6, 7:
		t := g.rolls("U", g.listLen(), 5)
		if g.c.P(90) {
			t += g.threshold(g.c.N(8))
		}
		t += g.bonus()
		if g.c.P(40) {
			t += g.cmp() + g.target(g.small())
		}
		return t
	case 8:
		return g.calc()
	}
	return g.choice(1+g.c.N(8), false)
}
