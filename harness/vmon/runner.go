package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func verifDir() string {
	if d := os.Getenv("VMON_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VMON_REPO"); d != "" {
		return d
	}
	return "/repo"
}

const (
	exitHang = 86
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// worker runs the cases start, start+stride, ... below total.
func worker(args []string) {
	ch := lookup(args[0])
	n := func(i int) int { v, _ := strconv.Atoi(args[i]); return v }
	sd, _ := strconv.ParseUint(args[1], 10, 64)
	start, stride, total := n(2), n(3), n(4)
	statusFile, outFile := args[5], args[6]

	if !ch.NoLimit {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetGCPercent(200)
	st, err := os.OpenFile(statusFile, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	budget := time.Duration(ch.CPUPerCase) * time.Second
	if budget == 0 {
		budget = 60 * time.Second
	}
	var mu sync.Mutex
	cur, began, ticks := -1, time.Duration(0), 0
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			mu.Lock()
			ticks++
			used, idle := cpuTime()-began, ticks
			i := cur
			mu.Unlock()
			if i >= 0 && used > budget {
				fmt.Fprintf(os.Stderr, "case %d used more than %s of CPU time\n", i, budget)
				os.Exit(exitHang)
			}
			if i >= 0 && idle > 600 && used < 3*time.Second {
				fmt.Fprintf(os.Stderr, "case %d is blocked\n", i)
				os.Exit(exitHang)
			}
		}
	}()

	c := newCtx(ch, sd)
	var b [8]byte
	for i := start; i < total; i += stride {
		binary.LittleEndian.PutUint64(b[:], uint64(i))
		st.WriteAt(b[:], 0)
		mu.Lock()
		cur, began, ticks = i, cpuTime(), 0
		mu.Unlock()
		c.runCase(i)
		if len(c.Out.Violations) >= 3 || c.abort {
			break
		}
	}
	mu.Lock()
	cur = -1
	mu.Unlock()
	c.Out.Done = true
	for h := range c.hashes {
		c.Out.Hashes = append(c.Out.Hashes, h)
	}
	js, _ := json.Marshal(c.Out)
	if err := os.WriteFile(outFile, js, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        uint64         `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func runCheck(ch *Check) int {
	t0 := time.Now()
	sd, ti := seed(), tier()
	total := ch.Quick
	if ti == "thorough" {
		total = ch.Thorough
	}
	if v, err := strconv.Atoi(os.Getenv("VMON_CASES")); err == nil {
		total = v
	}
	tmp, err := os.MkdirTemp("", "vmon-"+ch.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if ch.Workers > 0 && ch.Workers < workers {
		workers = ch.Workers
	}
	if workers > total {
		workers = total
	}
	exe, _ := os.Executable()

	sum := newCtx(ch, sd)
	var mu sync.Mutex
	var wg sync.WaitGroup
	infra := false
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			status := filepath.Join(tmp, fmt.Sprintf("status.%d", w))
			out := filepath.Join(tmp, fmt.Sprintf("out.%d", w))
			cmd := exec.Command(exe, "worker", ch.ID, strconv.FormatUint(sd, 10),
				strconv.Itoa(w), strconv.Itoa(workers), strconv.Itoa(total), status, out)
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			cmd.Stdout = &stderr
			cmd.Dir = tmp
			cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "VMON_TMP="+tmp,
				"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(tmp, "race"))
			runErr := cmd.Run()
			js, readErr := os.ReadFile(out)
			var o Output
			if readErr == nil {
				readErr = json.Unmarshal(js, &o)
			}
			mu.Lock()
			defer mu.Unlock()
			if runErr == nil && readErr == nil && o.Done {
				merge(sum, &o)
				return
			}
			// The worker died: the case it was running is the witness.
			b, err := os.ReadFile(status)
			if err != nil || len(b) != 8 {
				fmt.Fprintf(os.Stderr, "worker %d: %v %v\n%s\n", w, runErr, readErr, tail(stderr.String()))
				infra = true
				return
			}
			i := int(binary.LittleEndian.Uint64(b))
			sum.Out.Violations = append(sum.Out.Violations, Violation{i,
				fmt.Sprintf("the process died or hung in case %d: %v\n%s", i, runErr, tail(stderr.String()))})
		}(w)
	}
	wg.Wait()
	if races := raceReports(tmp); races != "" {
		sum.Out.Violations = append(sum.Out.Violations, Violation{0, "data race:\n" + races})
	}
	if ch.Extra != nil {
		sum.Idx = -1
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stop); !ok {
						panic(r)
					}
				}
			}()
			ch.Extra(sum)
		}()
	}
	if infra {
		return 2
	}

	o := sum.Out
	code := 0
	sort.Slice(o.Violations, func(i, j int) bool { return o.Violations[i].Index < o.Violations[j].Index })
	for i, v := range o.Violations {
		if i >= 5 {
			break
		}
		code = 1
		dir := filepath.Join(verifDir(), "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", ch.ID, sd, v.Index))
		js, _ := json.MarshalIndent(Replay{ch.ID, sd, v.Index, strings.Split(v.Detail, "\n")}, "", " ")
		os.WriteFile(file, js, 0o644)
		fmt.Printf("case %d: %s\n", v.Index, clip(v.Detail, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, file)
	}
	if code == 0 {
		for name, floor := range ch.Floors {
			if o.Counters[name] < floor {
				fmt.Printf("INCONCLUSIVE property=%s: observed %d of %s, expected at least %d\n",
					ch.ID, o.Counters[name], name, floor)
				code = 2
			}
		}
	}
	var known []string
	for k := range o.Known {
		known = append(known, k)
	}
	sort.Strings(known)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k)
	}

	cov := map[string]any{
		"evaluations":         o.Evaluations,
		"distinct_nontrivial": len(sum.hashes),
		"rule":                ch.Rule,
		"samples":             o.Samples,
		"cases":               total,
		"observed":            o.Counters,
		"workers":             workers,
	}
	ev := evidence{ch.ID, ti, sd, "exploration", cov, ch.Assumptions, time.Since(t0).Seconds(), len(o.Violations)}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", ch.ID+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct, %d violations, %.1fs\n",
		ch.ID, ti, total, o.Evaluations, len(sum.hashes), len(o.Violations), time.Since(t0).Seconds())
	return code
}

func merge(sum *Ctx, o *Output) {
	sum.Out.Evaluations += o.Evaluations
	for k, v := range o.Counters {
		if strings.HasPrefix(k, "max ") {
			if v > sum.Out.Counters[k] {
				sum.Out.Counters[k] = v
			}
			continue
		}
		sum.Out.Counters[k] += v
	}
	for k, v := range o.Known {
		sum.Out.Known[k] += v
	}
	for _, h := range o.Hashes {
		sum.hashes[h] = struct{}{}
	}
	if len(sum.Out.Samples) < 6 && len(o.Samples) > 0 {
		n := len(o.Samples)
		if n > 2 {
			n = 2
		}
		sum.Out.Samples = append(sum.Out.Samples, o.Samples[:n]...)
	}
	sum.Out.Violations = append(sum.Out.Violations, o.Violations...)
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

func raceReports(dir string) string {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	out := ""
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err == nil && bytes.Contains(b, []byte("DATA RACE")) {
			out += tail(string(b))
			if len(out) > 6000 {
				break
			}
		}
	}
	return out
}
