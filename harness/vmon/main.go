// Command vmon runs the checks of /verif: it drives the real code of
// /repo through generated workloads while monitors watch every execution.
//
//	vmon run PROPERTY            run a check (VERIF_TIER, VERIF_SEED)
//	vmon replay FILE             run the case of a replay file again
//	vmon worker ...              internal
//	vmon list                    list the properties
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
)

// Check is the check of one property.
type Check struct {
	ID       string
	Rule     string
	Quick    int // number of cases
	Thorough int
	// Run runs one case.
	Run func(c *Ctx)
	// Floors are observations without which the run decides nothing.
	Floors map[string]int
	// NoLimit: do not limit the address space (race detector build).
	NoLimit bool
	// Workers limits the number of parallel workers.
	Workers int
	// Extra runs once in the parent, after the cases.
	Extra       func(c *Ctx)
	Assumptions []string
	// CPUPerCase is the CPU time in seconds a case may take (default 60).
	CPUPerCase int
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Replay identifies a case.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Detail   []string `json:"detail"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon run PROPERTY | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "run":
		os.Exit(runCheck(lookup(os.Args[2])))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "probe":
		probe(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func lookup(id string) *Check {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	return c
}

func seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ch := lookup(r.Property)
	c := newCtx(ch, r.Seed)
	c.verbose = true
	c.runCase(r.Index)
	if len(c.Out.Violations) > 0 {
		for _, v := range c.Out.Violations {
			fmt.Println(v.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	fmt.Println("the case holds")
	return 0
}
