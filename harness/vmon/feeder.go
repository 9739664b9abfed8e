package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
)

// Mode is a policy for the values of the dice.
type Mode int

const (
	Uniform Mode = iota
	AllMax
	AllMin
	Hug    // values around Hint
	High   // mostly the upper half
	Script // cycles through Vals
	numModes
)

// Draw is one call of the feeder.
type Draw struct {
	Sides int
	Die   dice.Die
	Err   error
}

// Rec is a die feeder that records every call: the monitor at the boundary
// where dice enter the system.
type Rec struct {
	Mode  Mode
	Hint  int
	Vals  []int
	r     *rand.Rand
	Log   []Draw
	Limit int
	// FailAt: the call with this index fails. BadAt: it yields a wrong die.
	FailAt int
	BadAt  int
	Bad    func(sides int) dice.Die
	// Every MaxRun-th value is 1, which keeps rerolls finite.
	MaxRun int
}

func newRec(seed uint64, mode Mode, hint int) *Rec {
	return &Rec{Mode: mode, Hint: hint, r: rand.New(rand.NewPCG(seed, 77)),
		Limit: 3000000, FailAt: -1, BadAt: -1}
}

// CanSpecifyDie is false as for a random feeder.
func (f *Rec) CanSpecifyDie() bool { return false }

// Next gives the next die.
func (f *Rec) Next(sides int) (dice.Die, error) {
	i := len(f.Log)
	if i >= f.Limit {
		panic(runaway{i})
	}
	if i == f.FailAt {
		err := errors.New("injected feeder failure")
		f.Log = append(f.Log, Draw{sides, dice.Die{}, err})
		return dice.Die{}, err
	}
	if i == f.BadAt {
		d := f.Bad(sides)
		f.Log = append(f.Log, Draw{sides, d, nil})
		return d, nil
	}
	d := dice.Die{Value: f.value(sides), Sides: sides}
	f.Log = append(f.Log, Draw{sides, d, nil})
	return d, nil
}

func clamp(v, n int) int {
	if v < 1 {
		return 1
	}
	if v > n {
		return n
	}
	return v
}

func (f *Rec) value(n int) int {
	if n < 1 {
		return 1
	}
	v := 1
	switch f.Mode {
	case Uniform:
		v = 1 + f.r.IntN(n)
	case AllMax:
		v = n
	case AllMin:
		v = 1
	case Hug:
		v = clamp(f.Hint+f.r.IntN(3)-1, n)
	case High:
		if f.r.IntN(4) > 0 {
			v = n - f.r.IntN(n/2+1)
		} else {
			v = 1 + f.r.IntN(n)
		}
	case Script:
		v = clamp(f.Vals[len(f.Log)%len(f.Vals)], n)
	}
	if f.MaxRun > 0 && len(f.Log)%f.MaxRun == f.MaxRun-1 {
		v = 1
	}
	return clamp(v, n)
}

// sim lets the model draw from a feeder directly (to predict values).
type sim struct{ f *Rec }

func (s sim) Next(sides *big.Int) (int64, bool) {
	if !sides.IsInt64() || sides.Int64() > math.MaxInt64 {
		return 1, true
	}
	if len(s.f.Log) > 300000 {
		return 1, true
	}
	d, _ := s.f.Next(int(sides.Int64()))
	return int64(d.Value), true
}

// replaySrc replays recorded draws into the model.
type replaySrc struct {
	log      []Draw
	i        int
	mismatch string
	dry      bool // the model wanted more dice than were drawn
}

func (s *replaySrc) Next(sides *big.Int) (int64, bool) {
	if s.i >= len(s.log) {
		s.dry = true
		return 1, true
	}
	d := s.log[s.i]
	if s.mismatch == "" && (!sides.IsInt64() || sides.Int64() != int64(d.Sides)) {
		s.mismatch = fmt.Sprintf("die %d was drawn with %d sides, expected %s", s.i, d.Sides, sides)
	}
	s.i++
	return int64(d.Die.Value), true
}
