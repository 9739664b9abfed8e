package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"runtime/debug"
	"strings"
)

// Violation is an observed violation.
type Violation struct {
	Index  int
	Detail string
}

// Output is what a worker reports.
type Output struct {
	Evaluations int
	Counters    map[string]int
	Hashes      []uint64
	Samples     []string
	Violations  []Violation
	Known       map[string]int
	Done        bool
}

// Ctx is the context of a check in one worker.
type Ctx struct {
	ch      *Check
	seed    uint64
	R       *rand.Rand
	Idx     int
	Out     *Output
	hashes  map[uint64]struct{}
	verbose bool
	trace   []string
	abort   bool // run no further case
}

func newCtx(ch *Check, seed uint64) *Ctx {
	return &Ctx{
		ch: ch, seed: seed,
		Out:    &Output{Counters: map[string]int{}, Known: map[string]int{}},
		hashes: map[uint64]struct{}{},
	}
}

func mix(parts ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		h ^= p
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 29
		h *= 0x94d049bb133111eb
		h ^= h >> 32
	}
	return h
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// stop ends a case after a violation.
type stop struct{}

// runaway is raised by the feeder when a command draws without end.
type runaway struct{ n int }

func (c *Ctx) runCase(i int) {
	c.Idx = i
	c.trace = nil
	h := mix(c.seed, hashString(c.ch.ID), uint64(i))
	c.R = rand.New(rand.NewPCG(h, h^0x5555))
	defer func() {
		switch r := recover(); r.(type) {
		case nil, stop:
		default:
			c.violation(fmt.Sprintf("panic outside of a monitored call: %v\n%s", r, debug.Stack()))
		}
	}()
	c.ch.Run(c)
}

func (c *Ctx) violation(detail string) {
	if len(c.trace) > 0 {
		detail += "\n  trace: " + strings.Join(c.trace, "\n         ")
	}
	if len(c.Out.Violations) < 20 {
		c.Out.Violations = append(c.Out.Violations, Violation{c.Idx, detail})
	}
}

// Fail reports a violation and ends the case.
func (c *Ctx) Fail(format string, args ...any) {
	c.violation(fmt.Sprintf(format, args...))
	panic(stop{})
}

// Trace adds a line that is shown with a violation of the case.
func (c *Ctx) Trace(format string, args ...any) {
	c.trace = append(c.trace, clip(fmt.Sprintf(format, args...), 600))
}

// Count counts an observation.
func (c *Ctx) Count(name string, n int) { c.Out.Counters[name] += n }

// Eval counts an evaluation; key identifies it if it is non-trivial.
func (c *Ctx) Eval(key string) {
	c.Out.Evaluations++
	if key != "" {
		c.hashes[hashString(key)] = struct{}{}
	}
}

// Sample keeps some cases.
func (c *Ctx) Sample(format string, args ...any) {
	if len(c.Out.Samples) < 3 {
		c.Out.Samples = append(c.Out.Samples, clip(fmt.Sprintf(format, args...), 400))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// N is a random number in [0,n).
func (c *Ctx) N(n int) int { return c.R.IntN(n) }

// Tail is the usual size, or once in a while one up to max, with uniform
// magnitude above the usual.
func (c *Ctx) Tail(rate, usual, max int) int {
	if c.N(rate) > 0 {
		return usual
	}
	c.Count("large sizes", 1)
	if c.P(25) {
		return max - c.N(max/10+1)
	}
	lo, hi := math.Log(float64(usual+1)), math.Log(float64(max))
	return int(math.Exp(lo + (hi-lo)*c.R.Float64()))
}

// P is true with probability p percent.
func (c *Ctx) P(p int) bool { return c.R.IntN(100) < p }

func pick[T any](c *Ctx, xs ...T) T { return xs[c.R.IntN(len(xs))] }
