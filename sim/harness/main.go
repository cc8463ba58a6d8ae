//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zharness run|worker|replay|replay-child|minimise|determinism|list ...")
		os.Exit(2)
	}
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	switch os.Args[1] {
	case "worker", "replay-child", "minimise", "detail":
		// code that allocates without bound must not take the machine's memory
		lim := syscall.Rlimit{Cur: 7 << 30, Max: 7 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	switch os.Args[1] {
	case "run":
		runtime.GOMAXPROCS(2)
		os.Exit(parent(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "replay-child":
		os.Exit(replayChild(os.Args[2]))
	case "minimise":
		minimiseMain(os.Args[2:])
	case "determinism":
		os.Exit(determinism(os.Args[2:]))
	case "detail":
		os.Exit(detail(os.Args[2:]))
	case "list":
		var ps []string
		for p := range scenarios {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			for _, s := range scenarios[p] {
				fmt.Println(p, s.name, s.weight)
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
}

// ---------------------------------------------------------------- worker

type vioLine struct {
	Index int    `json:"index"`
	Case  *Case  `json:"case"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Agg is the sum of the statistics of many cases.
type Agg struct {
	Cases, Trivial  int64
	Procs           int64
	SimNs           int64
	Steps, Yields   int64
	Decisions       int64
	Switches        int64
	MaxG            int
	NonDef          int64
	Faults          map[string]int64
	Cmds            map[string]int64
	Probes          map[string]int64
	Scens           map[string]int64
	Policies        map[string]int64
	Twice, TwiceBad int64
	Keys            []uint64 // one per non-trivial case: data, schedules, faults
	Hashes          []uint64 // interleavings
	Samples         []string
}

func newAgg() *Agg {
	return &Agg{Faults: map[string]int64{}, Cmds: map[string]int64{}, Probes: map[string]int64{}, Scens: map[string]int64{}, Policies: map[string]int64{}}
}

func addTo(a, b map[string]int64) {
	for k, v := range b {
		a[k] += v
	}
}

func (a *Agg) merge(b *Agg) {
	a.Cases += b.Cases
	a.Trivial += b.Trivial
	a.Procs += b.Procs
	a.SimNs += b.SimNs
	a.Steps += b.Steps
	a.Yields += b.Yields
	a.Decisions += b.Decisions
	a.Switches += b.Switches
	a.NonDef += b.NonDef
	a.MaxG = max(a.MaxG, b.MaxG)
	a.Twice += b.Twice
	a.TwiceBad += b.TwiceBad
	addTo(a.Faults, b.Faults)
	addTo(a.Cmds, b.Cmds)
	addTo(a.Probes, b.Probes)
	addTo(a.Scens, b.Scens)
	addTo(a.Policies, b.Policies)
	a.Keys = append(a.Keys, b.Keys...)
	a.Hashes = append(a.Hashes, b.Hashes...)
	if len(a.Samples) < 12 {
		a.Samples = append(a.Samples, b.Samples...)
	}
}

func (a *Agg) add(c *Case, e *Env) {
	st := &e.st
	a.Cases++
	a.Procs += int64(st.Procs)
	a.SimNs += st.SimNs
	a.Steps += st.Steps
	a.Yields += st.Yields
	a.Decisions += st.Decisions
	a.Switches += st.Switches
	a.NonDef += st.NonDef
	a.MaxG = max(a.MaxG, st.MaxG)
	addTo(a.Faults, st.Faults)
	addTo(a.Cmds, st.Cmds)
	addTo(a.Probes, st.Probes)
	a.Scens[c.Scen]++
	for _, s := range e.scheds {
		a.Policies[s.Policy]++
	}
	key := st.DataHash
	for _, h := range st.Hashes {
		key = key*1099511628211 ^ h
	}
	for _, u := range e.used {
		for _, ch := range []byte(u.F.String()) {
			key = (key ^ uint64(ch)) * 1099511628211
		}
	}
	fired := int64(0)
	for _, v := range st.Faults {
		fired += v
	}
	if (st.Switches > 0 || st.NonDef > 0) && (st.Entities > 0 || e.api) && (!needFault[c.Prop] || fired > 0 || len(e.used) == 0 && c.S["damage"] != "") {
		a.Keys = append(a.Keys, key)
	} else {
		a.Trivial++
	}
	a.Hashes = append(a.Hashes, st.Hashes...)
	if len(a.Samples) < 2 && c.Index%7 == 0 {
		var recs []string
		for _, r := range e.recs {
			recs = append(recs, fmt.Sprintf("`%s` -> %s (%d steps, interleaving %016x)", r.Cmd, r.Status, r.Steps, r.Hash))
		}
		s := fmt.Sprintf("case %d scenario %s: %d blocks, %d entities; %s", c.Index, c.Scen, len(c.Data.Blocks), st.Entities, strings.Join(recs, "; "))
		for _, u := range e.used {
			s += fmt.Sprintf("; fault in process %d: %s", u.Proc, u.F)
		}
		if len(s) > 900 {
			s = s[:900]
		}
		a.Samples = append(a.Samples, s)
	}
}

// needFault: properties whose cases count only if a fault really struck.
var needFault = map[string]bool{"P09": true, "P10": true, "P11": true, "P12": true, "P22": true, "P23": true, "P27": true, "P28": true}

func worker(args []string) {
	fl := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	seed := fl.Uint64("seed", 1, "")
	start := fl.Int("start", 0, "")
	stride := fl.Int("stride", 1, "")
	runs := fl.Int("runs", 1, "")
	wall := fl.Float64("wall", 1e9, "")
	twice := fl.Int("twice", 0, "every n-th case runs twice")
	maxv := fl.Int("maxviol", 2, "")
	trace := fl.Bool("trace", false, "")
	_ = fl.Parse(args)
	w := bufio.NewWriter(os.Stdout)
	emit := func(kind string, v any) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(w, "%s %s\n", kind, b)
		_ = w.Flush()
	}
	agg := newAgg()
	t0 := time.Now()
	nv, n := 0, 0
	var ms runtime.MemStats
	for i := *start; i < *runs; i += *stride {
		if time.Since(t0).Seconds() > *wall {
			break
		}
		if n++; n%64 == 0 {
			// a collector that was starved does not get ahead of the cases
			if runtime.ReadMemStats(&ms); ms.HeapAlloc > 1<<30 {
				debug.FreeOSMemory()
			}
			// what is known so far outlives this process
			if n%1024 == 0 {
				emit("P", agg)
			}
		}
		emit("B", i)
		c := makeCase(*prop, *seed, i)
		orig := c.clone()
		tc := time.Now()
		v, e := runCase(c)
		if *trace {
			fmt.Fprintf(os.Stderr, "%d %s %.3fs steps=%d yields=%d %v\n", i, c.Scen, time.Since(tc).Seconds(), e.st.Steps, e.st.Yields, v)
		}
		agg.add(c, e)
		if v != nil {
			if os.Getenv("ZSTACK") != "" {
				fmt.Fprintln(os.Stderr, v.Msg)
			}
			oc := orig
			e.c = oc
			emit("V", vioLine{i, e.replayCase(v), v.Class, v.Msg})
			nv++
			if nv >= *maxv {
				break
			}
			continue
		}
		if *twice > 0 && (i/(*stride))%*twice == 0 {
			agg.Twice++
			v2, e2 := runCase(orig)
			if v2 != nil || e2.evhash != e.evhash {
				agg.TwiceBad++
				fmt.Fprintf(os.Stderr, "case %d (%s) is not deterministic: %x %x %v\n", i, c.Scen, e.evhash, e2.evhash, v2)
			}
		}
	}
	emit("S", agg)
	emit("D", 0)
}

// replayChild runs a replay file in this process.
func replayChild(file string) int {
	c, err := loadCase(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v, e := runCase(c.clone())
	for _, r := range e.recs {
		fmt.Printf("process: %s -> %s (%d steps, interleaving %016x)\n", r.Cmd, r.Status, r.Steps, r.Hash)
	}
	for _, u := range e.used {
		fmt.Printf("fault in process %d: %s\n", u.Proc, u.F)
	}
	fmt.Printf("event hash: %016x\n", e.evhash)
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("class: %s\n%s\n", v.Class, v.Msg)
	if c.Class != "" && v.Class != c.Class {
		fmt.Printf("(recorded class: %s)\n", c.Class)
		return 3
	}
	return 1
}

func loadCase(file string) (*Case, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		return nil, err
	}
	if c.P == nil {
		c.P = map[string]int64{}
	}
	if c.S == nil {
		c.S = map[string]string{}
	}
	return &c, nil
}

func saveCase(file string, c *Case) error {
	b, err := json.MarshalIndent(c, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0o644)
}

// determinism runs cases twice in this process and prints every event hash, so
// that the outputs of different processes can be compared.
func determinism(args []string) int {
	fl := flag.NewFlagSet("determinism", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	seed := fl.Uint64("seed", 1, "")
	runs := fl.Int("runs", 50, "")
	start := fl.Int("start", 0, "")
	_ = fl.Parse(args)
	bad := 0
	for i := *start; i < *runs; i++ {
		_, a := runCase(makeCase(*prop, *seed, i))
		v, b := runCase(makeCase(*prop, *seed, i))
		if a.evhash != b.evhash {
			fmt.Printf("%s %d DIFFERS %016x %016x\n", *prop, i, a.evhash, b.evhash)
			bad++
			continue
		}
		// and through its explicit replay form
		if v == nil {
			v = &Violation{}
		}
		rc := makeCase(*prop, *seed, i)
		b.c = rc
		rc2 := b.replayCase(v)
		_, d := runCase(rc2)
		if d.evhash != a.evhash {
			fmt.Printf("%s %d REPLAY DIFFERS %016x %016x\n", *prop, i, a.evhash, d.evhash)
			bad++
			continue
		}
		fmt.Printf("%s %d %016x\n", *prop, i, a.evhash)
	}
	if bad > 0 {
		return 2
	}
	return 0
}

// detail shows where a case and its explicit form part.
func detail(args []string) int {
	fl := flag.NewFlagSet("detail", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	seed := fl.Uint64("seed", 1, "")
	idx := fl.Int("case", 0, "")
	_ = fl.Parse(args)
	keepOuts = true
	v, a := runCase(makeCase(*prop, *seed, *idx))
	if v == nil {
		v = &Violation{}
	}
	a.c = makeCase(*prop, *seed, *idx)
	rc := a.replayCase(v)
	_, b := runCase(rc.clone())
	fmt.Println("input same:", bytes.Equal(a.file, b.file), "events same:", a.evhash == b.evhash)
	for _, n := range a.fs.Names() {
		x, _ := a.fs.Get(n)
		y, ok := b.fs.Get(n)
		if !ok || !bytes.Equal(x, y) {
			fmt.Println("file", n, ok, diffAt(x, y))
		}
	}
	for i := range a.outs {
		if i < len(b.outs) && a.outs[i] != b.outs[i] {
			fmt.Println("output", i, diffAt([]byte(a.outs[i]), []byte(b.outs[i])))
		}
	}
	for i := range a.recs {
		x, y := a.recs[i], RunRec{}
		if i < len(b.recs) {
			y = b.recs[i]
		}
		fmt.Printf("%v\n%v\n same %v policy %v\n", x, y, x == y, a.scheds[i].Policy)
		if x != y {
			fmt.Println(a.used, b.used)
			if i < len(b.scheds) {
				p, q := a.scheds[i], b.scheds[i]
				for k := range p.Dev {
					if k >= len(q.Dev) || p.Dev[k] != q.Dev[k] {
						fmt.Println("dev", k, p.Dev[k:min(k+5, len(p.Dev))], q.Dev[min(k, len(q.Dev)):min(k+5, len(q.Dev))])
						break
					}
				}
				for k := range p.Pre {
					if k >= len(q.Pre) || p.Pre[k] != q.Pre[k] {
						fmt.Println("pre", k, p.Pre[k:min(k+5, len(p.Pre))], q.Pre[min(k, len(q.Pre)):min(k+5, len(q.Pre))])
						break
					}
				}
			}
			break
		}
	}
	return 0
}
