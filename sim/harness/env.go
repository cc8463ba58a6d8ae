//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/squizzling/osmindex/internal/zsim"
)

// commands maps the repository's programs to their main functions; filled by
// the generated file zcommands.go.
var commands = map[string]func(){}

// PF is a fault injected into the Proc'th simulated process of a case.
type PF struct {
	Proc int        `json:"proc"`
	F    zsim.Fault `json:"f"`
}

// Case is one simulated execution: everything it does is a function of it.
type Case struct {
	Prop   string            `json:"property"`
	Scen   string            `json:"scenario"`
	Seed   uint64            `json:"seed"` // VERIF_SEED
	Index  int               `json:"index"`
	Sub    uint64            `json:"sub"` // seed of everything below
	Data   Dataset           `json:"data"`
	P      map[string]int64  `json:"p,omitempty"`
	S      map[string]string `json:"s,omitempty"`
	L      []int64           `json:"l,omitempty"`
	Heavy  bool              `json:"heavy,omitempty"`
	Scheds []zsim.Sched      `json:"scheds,omitempty"` // explicit schedules per process (replay)
	Fixed  bool              `json:"fixed,omitempty"`  // Faults below are the faults, do not draw any
	Faults []PF              `json:"faults,omitempty"`
	Class  string            `json:"class,omitempty"`   // violation class this case shows (replay files)
	Msg    string            `json:"message,omitempty"` // and its description
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	var n Case
	_ = json.Unmarshal(b, &n)
	return &n
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func viol(class, f string, a ...any) *Violation {
	m := fmt.Sprintf(f, a...)
	if len(m) > 1500 {
		m = m[:1500] + "…"
	}
	return &Violation{class, m}
}

// RunRec describes one simulated process of a case.
type RunRec struct {
	Cmd    string `json:"cmd"`
	Status string `json:"status"`
	Steps  int64  `json:"steps"`
	Hash   uint64 `json:"hash"`
}

// Stats is what a case contributes to the evidence.
type Stats struct {
	Procs     int
	SimNs     int64
	Steps     int64
	Yields    int64
	Decisions int64
	Switches  int64
	MaxG      int
	Faults    map[string]int64
	Cmds      map[string]int64
	Probes    map[string]int64
	Hashes    []uint64
	NonDef    int64
	DataHash  uint64
	Entities  int
}

// Env runs the processes of a case.
type Env struct {
	c      *Case
	fs     *zsim.FS
	n      int // processes started
	st     Stats
	recs   []RunRec
	used   []PF         // faults handed out
	scheds []zsim.Sched // replay form of every schedule used
	evhash uint64
	file   []byte // encoded dataset
	spans  []span
	outs   []string // with keepOuts: what every process printed
	api    bool     // the case drives parts of the system directly, without an input file
}

func newEnv(c *Case) *Env {
	e := &Env{c: c, fs: zsim.NewFS()}
	e.st.Faults = map[string]int64{}
	e.st.Cmds = map[string]int64{}
	e.st.Probes = map[string]int64{}
	e.file, e.spans = c.Data.encode()
	e.fs.Put("in.pbf", e.file)
	h := fnv.New64a()
	_, _ = h.Write(e.file)
	e.st.DataHash = h.Sum64()
	for _, b := range c.Data.Blocks {
		if b.Fill != nil {
			e.st.Entities += b.Fill.N
		}
		for _, g := range b.Groups {
			e.st.Entities += len(g.Nodes) + len(g.Ways) + len(g.Rels)
		}
	}
	return e
}

func (e *Env) sched(i int) zsim.Sched {
	if i < len(e.c.Scheds) {
		return e.c.Scheds[i]
	}
	return genSched(rng(e.c.Sub, fmt.Sprintf("sched%d", i)), e.c.Heavy)
}

// RO are the per-process options of Env.run.
type RO struct {
	Faults  []zsim.Fault // drawn by the scenario; ignored when the case fixes its faults
	FDLimit int
	Poison  bool
	Tsc     int
	OnStep  func(p *zsim.Proc)
	Sched   *zsim.Sched
	NoRec   bool
	Record  *zsim.Trace
	Other   *zsim.Other
	Pid     int
	Shots   bool
	ScreenW int
	Budget  int64 // yield points before it counts as a livelock; 0: the usual number
}

func (e *Env) run(ro RO, cmd string, args ...string) *zsim.Result {
	fn := commands[cmd]
	if fn == nil {
		panic("no such command: " + cmd)
	}
	return e.exec(ro, cmd, args, fn)
}

// exec runs fn as a simulated process.
func (e *Env) exec(ro RO, cmd string, args []string, fn func()) *zsim.Result {
	i := e.n
	e.n++
	sc := e.sched(i)
	if ro.Sched != nil && i >= len(e.c.Scheds) {
		sc = *ro.Sched
	}
	faults := ro.Faults
	if e.c.Fixed {
		faults = nil
		for _, f := range e.c.Faults {
			if f.Proc == i {
				faults = append(faults, f.F)
			}
		}
	}
	for _, f := range faults {
		e.used = append(e.used, PF{i, f})
	}
	fdLimit := ro.FDLimit
	e.fs.Free = -1
	for _, f := range faults {
		switch f.Kind {
		case "full":
			e.fs.Free = f.Arg
		case "fdlimit":
			fdLimit = int(f.Arg)
		}
	}
	budget := int64(60_000_000)
	if e.c.Heavy {
		budget = 600_000_000
	}
	if ro.Budget > 0 {
		budget = ro.Budget
	}
	r := zsim.RunProcess(zsim.Cfg{
		Sched: sc, Faults: faults, FS: e.fs, NumCPU: 1 + int(e.c.Sub%8), FDLimit: fdLimit, Budget: budget,
		TscMode: ro.Tsc, OnStep: ro.OnStep, Poison: ro.Poison,
		Record: ro.Record, Other: ro.Other, Pid: ro.Pid, Shots: ro.Shots, ScreenW: ro.ScreenW,
	}, append([]string{cmd}, args...), fn)
	e.fs.Free = -1
	rs := sc
	rs.Replay, rs.Dev, rs.Pre = true, r.Dev, r.Pre
	e.scheds = append(e.scheds, rs)
	st := &e.st
	st.Procs++
	st.SimNs += r.SimNs
	st.Steps += r.Steps
	st.Yields += r.Yields
	st.Decisions += r.Decs
	st.NonDef += r.NonDef
	st.Switches += r.Switches
	if r.MaxG > st.MaxG {
		st.MaxG = r.MaxG
	}
	for k, v := range r.Fired {
		st.Faults[k] += v
	}
	for k, v := range r.Probes {
		st.Probes[k] += v
	}
	st.Cmds[cmd]++
	st.Hashes = append(st.Hashes, r.Hash)
	e.recs = append(e.recs, RunRec{cmd + " " + strings.Join(args, " "), r.Status(), r.Steps, r.Hash})
	e.mixEv(r)
	return r
}

// mixEv folds everything observable about a process into the case's event
// hash, which must be identical whenever the case runs again.
func (e *Env) mixEv(r *zsim.Result) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d|%d|%d|%q|%q|", e.evhash, r.Status(), r.Panic, r.Steps, r.Hash, r.SimNs, r.Stdout, r.Stderr)
	for _, n := range e.fs.Names() {
		b, _ := e.fs.Get(n)
		fmt.Fprintf(h, "%s %d|", n, len(b))
		_, _ = h.Write(b)
	}
	fmt.Fprintf(h, "%v", r.Ops)
	e.evhash = h.Sum64()
	if keepOuts {
		e.outs = append(e.outs, fmt.Sprintf("%s|%s|%s|%v|%d|%d", r.Stdout, r.Stderr, r.Panic, r.Ops, r.Yields, r.SimNs))
	}
}

// keepOuts keeps what processes print, to explain differences.
var keepOuts bool

func (e *Env) out(name string) []byte {
	b, _ := e.fs.Get(name)
	return b
}

func (e *Env) has(name string) bool {
	_, ok := e.fs.Get(name)
	return ok
}

// replayCase is the case with every decision made explicit.
func (e *Env) replayCase(v *Violation) *Case {
	c := e.c.clone()
	c.Scheds = e.scheds
	c.Fixed = true
	c.Faults = e.used
	c.Class, c.Msg = v.Class, v.Msg
	return c
}

// notOK classifies an unexpected end of a process.
func notOK(what string, r *zsim.Result) *Violation {
	switch {
	case r.Hang != "":
		return viol("hang", "%s does not finish: %s", what, r.Hang)
	case r.Panic != "":
		return viol("crash", "%s dies: %s\n%s", what, r.Panic, trimStack(r.Stack))
	case r.Killed:
		return viol("killed", "%s was killed", what)
	case r.Exit != 0:
		return viol("exit", "%s exits with status %d: %s", what, r.Exit, r.Stderr)
	}
	return nil
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "osmindex/") && !strings.Contains(l, "/zsim") && !strings.Contains(l, "/zharness") {
			l = strings.TrimSpace(l)
			if len(l) > 160 {
				l = l[:160]
			}
			out = append(out, l)
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// onlyFiles reports files that should not be there.
func (e *Env) onlyFiles(want ...string) *Violation {
	w := map[string]bool{}
	for _, x := range want {
		w["/w/"+x] = true
	}
	for _, n := range e.fs.Names() {
		if !w[n] {
			return viol("leftover-file", "unexpected file %s is left behind", n)
		}
	}
	return nil
}

func sortedKV(t []KV) []KV {
	o := append([]KV(nil), t...)
	sort.Slice(o, func(i, j int) bool {
		if o[i].K != o[j].K {
			return o[i].K < o[j].K
		}
		return o[i].V < o[j].V
	})
	return o
}

func tagsEq(a, b []KV) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = sortedKV(a), sortedKV(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func i64Eq(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func membersEq(a, b []Member) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diffAt describes the first difference between two byte strings.
func diffAt(a, b []byte) string {
	n := min(len(a), len(b))
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	if i == n && len(a) == len(b) {
		return "equal"
	}
	lo := max(0, i-4)
	return fmt.Sprintf("lengths %d and %d, first difference at %d: %x / %x", len(a), len(b), i, a[lo:min(len(a), i+12)], b[lo:min(len(b), i+12)])
}

// diffEntities compares two lists of blocks entity by entity; coord compares
// coordinates; blocksToo also requires the same division into blocks.
func diffEntities(want, got []EBlock, coord func(a, b ENode) bool) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d blocks expected, %d found", len(want), len(got))
	}
	for i := range want {
		if want[i].Type != got[i].Type {
			return fmt.Sprintf("block %d: type %s expected, %s found", i, want[i].Type, got[i].Type)
		}
		if d := diffBlock(&want[i], &got[i], coord); d != "" {
			return fmt.Sprintf("block %d: %s", i, d)
		}
	}
	return ""
}

func diffBlock(w, g *EBlock, coord func(a, b ENode) bool) string {
	if len(w.Nodes) != len(g.Nodes) {
		return fmt.Sprintf("%d nodes expected, %d found", len(w.Nodes), len(g.Nodes))
	}
	for i := range w.Nodes {
		a, b := w.Nodes[i], g.Nodes[i]
		if a.ID != b.ID {
			return fmt.Sprintf("node %d expected, %d found", a.ID, b.ID)
		}
		if !coord(a, b) {
			return fmt.Sprintf("node %d: coordinates (lat %d, lon %d) expected, (lat %d, lon %d) found (nanodegrees)", a.ID, a.Lat, a.Lon, b.Lat, b.Lon)
		}
		if !tagsEq(a.Tags, b.Tags) {
			return fmt.Sprintf("node %d: tags %q expected, %q found", a.ID, a.Tags, b.Tags)
		}
	}
	if len(w.Ways) != len(g.Ways) {
		return fmt.Sprintf("%d ways expected, %d found", len(w.Ways), len(g.Ways))
	}
	for i := range w.Ways {
		a, b := w.Ways[i], g.Ways[i]
		if a.ID != b.ID {
			return fmt.Sprintf("way %d expected, %d found", a.ID, b.ID)
		}
		if !i64Eq(a.Refs, b.Refs) {
			return fmt.Sprintf("way %d: refs %s", a.ID, diffInts(a.Refs, b.Refs))
		}
		if !tagsEq(a.Tags, b.Tags) {
			return fmt.Sprintf("way %d: tags %q expected, %q found", a.ID, a.Tags, b.Tags)
		}
	}
	if len(w.Rels) != len(g.Rels) {
		return fmt.Sprintf("%d relations expected, %d found", len(w.Rels), len(g.Rels))
	}
	for i := range w.Rels {
		a, b := w.Rels[i], g.Rels[i]
		if a.ID != b.ID {
			return fmt.Sprintf("relation %d expected, %d found", a.ID, b.ID)
		}
		if !membersEq(a.Members, b.Members) {
			return fmt.Sprintf("relation %d: members %v expected, %v found", a.ID, a.Members, b.Members)
		}
		if !tagsEq(a.Tags, b.Tags) {
			return fmt.Sprintf("relation %d: tags %q expected, %q found", a.ID, a.Tags, b.Tags)
		}
	}
	return ""
}

func diffInts(a, b []int64) string {
	n := min(len(a), len(b))
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%d expected, %d found, first difference at %d: %v / %v", len(a), len(b), i, a[i:min(len(a), i+4)], b[i:min(len(b), i+4)])
}

func exactCoord(a, b ENode) bool { return a.Lat == b.Lat && a.Lon == b.Lon }

var _ = bytes.Equal
