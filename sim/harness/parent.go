//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

const caseTimeout = 150 * time.Second

type workerState struct {
	mu       sync.Mutex
	last     int
	lastT    time.Time
	done     bool
	agg      *Agg
	viols    []vioLine
	died     bool
	timedOut bool
	stderr   string
}

func self() string {
	s, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return s
}

// spawn runs one worker process to its end.
func spawn(args []string, start int) *workerState {
	ws := &workerState{last: start, lastT: time.Now()}
	cmd := exec.Command(self(), append([]string{"worker"}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=1800MiB", "GOTRACEBACK=single")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.StdoutPipe()
	if err != nil || cmd.Start() != nil {
		ws.died = true
		return ws
	}
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(2 * time.Second):
				ws.mu.Lock()
				late := time.Since(ws.lastT) > caseTimeout
				if late {
					ws.timedOut = true
				}
				ws.mu.Unlock()
				if late {
					_ = cmd.Process.Kill()
					return
				}
			}
		}
	}()
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 2 {
			ws.mu.Lock()
			ws.lastT = time.Now()
			switch l[0] {
			case 'B':
				_ = json.Unmarshal(l[2:], &ws.last)
			case 'V':
				var v vioLine
				if json.Unmarshal(l[2:], &v) == nil {
					ws.viols = append(ws.viols, v)
				}
			case 'P', 'S':
				a := newAgg()
				if json.Unmarshal(l[2:], a) == nil {
					ws.agg = a
				}
			case 'D':
				ws.done = true
			}
			ws.mu.Unlock()
		}
		if err != nil {
			break
		}
	}
	_ = cmd.Wait()
	close(stop)
	ws.stderr = eb.String()
	ws.died = !ws.done && !ws.timedOut
	return ws
}

func parent(args []string) int {
	fl := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Uint64("seed", 1, "")
	runs := fl.Int("runs", 100, "")
	wall := fl.Float64("wall", 60, "")
	nw := fl.Int("workers", 8, "")
	evid := fl.String("evidence", "", "")
	rdir := fl.String("replays", "", "")
	known := fl.String("known", "", "")
	minS := fl.Float64("minimise", 60, "")
	meta := fl.String("meta", "", "JSON file with the static part of the evidence")
	_ = fl.Parse(args)
	if len(scenarios[*prop]) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", *prop)
		return 2
	}
	t0 := time.Now()
	var wg sync.WaitGroup
	var states []*workerState
	var extra []vioLine
	var emu sync.Mutex
	trouble := ""
	for i := 0; i < *nw; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			wargs := func(start int) []string {
				left := *wall - time.Since(t0).Seconds()
				return []string{"-prop", *prop, "-seed", fmt.Sprint(*seed), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(*nw),
					"-runs", fmt.Sprint(*runs), "-wall", fmt.Sprint(left), "-twice", "25"}
			}
			for start, restarts := i, 0; ; restarts++ {
				ws := spawn(wargs(start), start)
				emu.Lock()
				states = append(states, ws)
				emu.Unlock()
				if ws.done {
					return
				}
				// the worker died in a case: is it that case?
				idx := ws.last
				same := 0
				var last *workerState
				for k := 0; k < 2; k++ {
					a := wargs(idx)
					a = append(a, "-runs", fmt.Sprint(idx+1), "-wall", "1000000", "-twice", "0")
					last = spawn(a, idx)
					if last.died && fatalError(last.stderr) != "" {
						same++
					}
				}
				if same == 2 {
					emu.Lock()
					c := makeCase(*prop, *seed, idx)
					c.Class = "process-died"
					c.Msg = "the process executing the code under test dies: " + fatalError(last.stderr)
					extra = append(extra, vioLine{idx, c, c.Class, c.Msg})
					emu.Unlock()
					return
				}
				tail := ws.stderr
				if len(tail) > 3000 {
					tail = tail[:3000]
				}
				msg := fmt.Sprintf("worker stopped in case %d (timed out: %v, reproduced: %d/2): %s", idx, ws.timedOut, same, tail)
				if same != 0 || !last.done || restarts == 3 {
					emu.Lock()
					trouble = msg
					emu.Unlock()
					return
				}
				// it is not: the machine ran short. What the case does in a
				// process of its own counts, and the search goes on after it.
				fmt.Fprintln(os.Stderr, msg)
				emu.Lock()
				states = append(states, last)
				emu.Unlock()
				if start = idx + *nw; start >= *runs || *wall < time.Since(t0).Seconds() {
					return
				}
			}
		}()
	}
	wg.Wait()
	agg := newAgg()
	var viols []vioLine
	for _, ws := range states {
		if ws == nil {
			continue
		}
		if ws.agg != nil {
			agg.merge(ws.agg)
		}
		viols = append(viols, ws.viols...)
		if ws.stderr != "" && ws.done {
			fmt.Fprint(os.Stderr, ws.stderr)
		}
	}
	viols = append(viols, extra...)
	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	searched := time.Since(t0).Seconds()

	kn := loadKnown(*known, *prop)
	var fresh []vioLine
	seen := map[string]bool{}
	for _, v := range viols {
		if k := kn.match(v); k != "" {
			seen[k] = true
			continue
		}
		fresh = append(fresh, v)
	}
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
	}

	code := 0
	replayFile := ""
	var final *Case
	if len(fresh) > 0 {
		tried := 0
		for _, v := range fresh {
			if tried++; tried > 5 {
				break
			}
			f := filepath.Join(*rdir, fmt.Sprintf("%s-seed%d-case%d.json", *prop, *seed, v.Index))
			if err := saveCase(f, v.Case); err != nil {
				trouble = err.Error()
				break
			}
			if !reproduces(f) {
				fmt.Fprintf(os.Stderr, "case %d: %s: %s\n  does not reproduce from its replay file %s\n", v.Index, v.Class, v.Msg, f)
				trouble = "a violation did not reproduce"
				continue
			}
			if v.Class != "process-died" && *minS > 0 {
				m := f + ".min"
				cmd := exec.Command(self(), "minimise", "-in", f, "-out", m, "-seconds", fmt.Sprint(*minS))
				cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=1800MiB")
				_ = runLimited(cmd, time.Duration(*minS+caseTimeout.Seconds())*time.Second)
				if reproduces(m) {
					_ = os.Rename(m, f)
				} else {
					_ = os.Remove(m)
				}
			}
			final, _ = loadCase(f)
			replayFile = f
			break
		}
		if final != nil {
			code = 1
			trouble = ""
		}
	}
	if code == 0 && trouble != "" {
		code = 2
	}
	if *evid != "" {
		writeEvidence(*evid, *meta, *prop, *tier, *seed, agg, viols, searched, time.Since(t0).Seconds(), final, replayFile, len(kn))
	}
	fmt.Printf("%s %s: %d cases, %d simulated processes, %d distinct non-trivial, %d violating, %.1f s\n",
		*prop, *tier, agg.Cases, agg.Procs, distinct(agg.Keys), len(viols), time.Since(t0).Seconds())
	if agg.TwiceBad > 0 {
		fmt.Printf("warning: %d of %d cases run twice differed\n", agg.TwiceBad, agg.Twice)
	}
	switch code {
	case 1:
		fmt.Printf("seed %d case %d (%s) %s: %s\n", *seed, final.Index, final.Scen, final.Class, final.Msg)
		fmt.Printf("replay with: /verif/replay.sh %s\n", replayFile)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayFile)
	case 2:
		fmt.Println("no answer:", trouble)
	default:
		if agg.Cases == 0 {
			fmt.Println("no answer: nothing was explored")
			return 2
		}
	}
	return code
}

func fatalError(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "unexpected fault address") || strings.HasPrefix(l, "SIG") {
			return l
		}
	}
	return ""
}

func runLimited(cmd *exec.Cmd, d time.Duration) error {
	if err := cmd.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(d, func() { _ = cmd.Process.Kill() })
	defer t.Stop()
	return cmd.Wait()
}

// reproduces runs a replay file in fresh processes.
func reproduces(file string) bool {
	if _, err := os.Stat(file); err != nil {
		return false
	}
	return replayOnce(file, io.Discard) == 1 && replayOnce(file, io.Discard) == 1
}

func replayOnce(file string, out io.Writer) int {
	c, err := loadCase(file)
	if err != nil {
		return 2
	}
	cmd := exec.Command(self(), "replay-child", file)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=1800MiB", "GOTRACEBACK=single")
	var eb bytes.Buffer
	cmd.Stdout = out
	cmd.Stderr = &eb
	err = runLimited(cmd, caseTimeout)
	if c.Class == "process-died" {
		if f := fatalError(eb.String()); err != nil && f != "" {
			fmt.Fprintln(out, "the process dies:", f)
			return 1
		}
		return 0
	}
	fmt.Fprint(out, eb.String())
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode()
	}
	if err != nil {
		return 2
	}
	return 0
}

func replay(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: replay FILE")
		return 2
	}
	c, err := loadCase(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := replayOnce(args[0], os.Stdout)
	switch r {
	case 1:
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, args[0])
		return 1
	case 0:
		return 0
	}
	fmt.Println("the file does not reproduce its violation, exit", r)
	return 2
}

// ---------------------------------------------------------------- known findings

type knownFinding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"` // part of the message that identifies the call site or history
	Scenario string `json:"scenario"`
	What     string `json:"what"`
}

type knownList []knownFinding

// loadKnown reads the known-findings file: a line with a JSON object per
// finding; every other line is documentation.
func loadKnown(file, prop string) knownList {
	var out knownList
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Class != "" && k.Contains != "" {
			out = append(out, k)
		}
	}
	return out
}

func (l knownList) match(v vioLine) string {
	for _, k := range l {
		if k.Class == v.Class && (k.Scenario == "" || k.Scenario == v.Case.Scen) && strings.Contains(v.Msg, k.Contains) {
			return k.What
		}
	}
	return ""
}

// ---------------------------------------------------------------- evidence

func distinct(x []uint64) int {
	m := make(map[uint64]struct{}, len(x))
	for _, k := range x {
		m[k] = struct{}{}
	}
	return len(m)
}

func writeEvidence(file, metaFile, prop, tier string, seed uint64, a *Agg, viols []vioLine, searched, wall float64, final *Case, replayFile string, nknown int) {
	meta := map[string]any{}
	if b, err := os.ReadFile(metaFile); err == nil {
		_ = json.Unmarshal(b, &meta)
	}
	perHour := func(n int64) int64 {
		if searched <= 0 {
			return 0
		}
		return int64(float64(n) / searched * 3600)
	}
	samples := a.Samples
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	cov := map[string]any{
		"evaluations":              a.Cases,
		"distinct_nontrivial":      distinct(a.Keys),
		"rule":                     "a case counts once per distinct (input data, decision trace of every simulated process, injected faults); it is trivial when the input holds no entity, when no goroutine switch and no non-default decision happened, or, for fault properties, when no fault struck",
		"samples":                  samples,
		"simulated_processes":      a.Procs,
		"runs_and_seeds_per_hour":  perHour(a.Cases),
		"processes_per_hour":       perHour(a.Procs),
		"simulated_seconds":        float64(a.SimNs) / 1e9,
		"scheduling_steps":         a.Steps,
		"yield_points":             a.Yields,
		"scheduling_decisions":     a.Decisions,
		"non_default_decisions":    a.NonDef,
		"goroutine_switches":       a.Switches,
		"max_goroutines":           a.MaxG,
		"distinct_interleavings":   distinct(a.Hashes),
		"interleaving_measure":     "64-bit hash over every decision (which goroutine runs, select branch, preemption, timer, pool and map order) of one simulated process",
		"faults_injected":          a.Faults,
		"programs_run":             a.Cmds,
		"scenarios":                a.Scens,
		"scheduler_policies":       a.Policies,
		"probes":                   a.Probes,
		"cases_run_twice":          a.Twice,
		"cases_run_twice_differed": a.TwiceBad,
		"trivial_cases":            a.Trivial,
		"real_components":          meta["real"],
		"stub_components":          meta["stub"],
	}
	if meta["assumptions"] == nil {
		meta["assumptions"] = []string{}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall,
		"assumptions": meta["assumptions"],
	}
	var vs []map[string]any
	for i, v := range viols {
		if i >= 10 {
			break
		}
		vs = append(vs, map[string]any{"case": v.Index, "class": v.Class, "message": v.Msg})
	}
	if final != nil {
		cov["minimised_replay"] = replayFile
	}
	ev["violations"] = len(viols)
	if vs != nil {
		cov["violating_cases"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(file), 0o755)
	_ = os.WriteFile(file, append(b, '\n'), 0o644)
}
