//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/squizzling/osmindex/internal/zsim"
)

// Tools that print, lookups, buffers, the user interface, the block engine,
// resources and the whole chain: P14 to P20 (and the way half of P07).

// ---------------------------------------------------------------- P14

var intRe = regexp.MustCompile(`-?\d+`)

// countsWanted is what the counting program has to print, in order.
func (d *Dataset) countsWanted() []int64 {
	var n, w, rf, x, mn, mw, mrf, mx int64
	d.each(func(b *Block, g *Group) {
		for _, a := range g.Nodes {
			n++
			mn = max(mn, a.ID)
		}
		for _, a := range g.Ways {
			w++
			mw = max(mw, a.ID)
			rf += int64(len(a.Refs))
			mrf = max(mrf, int64(len(a.Refs)))
		}
		for _, a := range g.Rels {
			x++
			mx = max(mx, a.ID)
		}
	})
	return []int64{int64(len(d.Blocks)), n, mn, w, mw, rf, mrf, x, mx}
}

func intsIn(s string) []int64 {
	var out []int64
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "Counted") {
			continue
		}
		for _, x := range intRe.FindAllString(l, -1) {
			v, _ := strconv.ParseInt(x, 10, 64)
			out = append(out, v)
		}
	}
	return out
}

type hlNode struct {
	Id       int64
	Tags     map[string]string
	Lat, Lon int64
}
type hlWay struct {
	Id    int64
	Tags  map[string]string
	Nodes []int64
}
type hlRelation struct {
	Id         int64
	Tags       map[string]string
	Roles      []string
	Members    []int64
	MemberType []int
}

var (
	typeRe  = regexp.MustCompile(`&?\w+\.(?i:hl)(Node|Way|Relation)\{`)
	sliceRe = regexp.MustCompile(`\[\](\w+\.)?\w+(\{|\(nil\))`)
	hexRe   = regexp.MustCompile(`\b0x[0-9a-f]+\b`)
	mapRe   = regexp.MustCompile(`map\[string\]string(\{|\(nil\))`)
)

// plainGo strips the type names from a %#v rendering.
func plainGo(s string) string {
	s = hexRe.ReplaceAllStringFunc(s, func(m string) string {
		v, err := strconv.ParseUint(m[2:], 16, 64)
		if err != nil {
			return m
		}
		return strconv.FormatInt(int64(v), 10)
	})
	s = typeRe.ReplaceAllString(s, "$1{")
	f := func(m string) string {
		if strings.HasSuffix(m, "{") {
			return "{"
		}
		return "{}"
	}
	s = sliceRe.ReplaceAllStringFunc(s, f)
	return mapRe.ReplaceAllStringFunc(s, f)
}

func kvMap(t []KV) map[string]string {
	m := map[string]string{}
	for _, kv := range t {
		m[kv.K] = kv.V
	}
	return m
}

// found is what the finder has to print for the given ids.
func (d *Dataset) found(ids map[int64]bool) []string {
	var out []string
	d.each(func(b *Block, g *Group) {
		for _, n := range g.Nodes {
			if ids[n.ID] {
				out = append(out, plainGo(fmt.Sprintf("%#v", &hlNode{n.ID, kvMap(n.Tags), b.LatOff + b.gran()*n.Lat, b.LonOff + b.gran()*n.Lon})))
			}
		}
		for _, w := range g.Ways {
			if ids[w.ID] {
				out = append(out, plainGo(fmt.Sprintf("%#v", &hlWay{w.ID, kvMap(w.Tags), w.Refs})))
			}
		}
		for _, x := range g.Rels {
			if ids[x.ID] {
				h := &hlRelation{Id: x.ID, Tags: kvMap(x.Tags)}
				for _, m := range x.Members {
					h.Roles = append(h.Roles, m.Role)
					h.Members = append(h.Members, m.ID)
					h.MemberType = append(h.MemberType, m.Type)
				}
				out = append(out, plainGo(fmt.Sprintf("%#v", h)))
			}
		}
	})
	sort.Strings(out)
	return out
}

func readerExact(e *Env) *Violation {
	c := e.c
	r := e.program(RO{Poison: e.poison()})
	if v := notOK(c.S["cmd"], r); v != nil {
		return v
	}
	switch c.S["cmd"] {
	case "blockcount":
		got := intsIn(r.Stdout)
		if len(got) == 0 || got[0] != int64(len(c.Data.Blocks)) {
			return viol("wrong-count", "%d blocks in the file, printed: %q", len(c.Data.Blocks), answer(r.Stdout))
		}
	case "entitycount":
		got, want := intsIn(r.Stdout), c.Data.countsWanted()
		if !i64Eq(got, want) {
			return viol("wrong-count", "blocks / nodes, highest / ways, highest / references, most / relations, highest: %v expected, %v printed", want, got)
		}
	case "entityfind":
		ids := map[int64]bool{}
		for _, id := range c.L {
			ids[id] = true
		}
		if len(c.L) == 0 {
			ids[1] = true
		}
		want := c.Data.found(ids)
		var got []string
		for _, l := range strings.Split(r.Stdout, "\n") {
			if l != "" {
				got = append(got, plainGo(l))
			}
		}
		sort.Strings(got)
		for i := 0; i < len(want) || i < len(got); i++ {
			switch {
			case i >= len(got) || i < len(want) && want[i] < got[i]:
				return viol("not-found", "ids %v: missing from the output: %s (%d entities expected, %d printed)", c.L, want[i], len(want), len(got))
			case i >= len(want) || want[i] != got[i]:
				return viol("wrong-entity", "ids %v: should not be in the output: %s (%d entities expected, %d printed)", c.L, got[i], len(want), len(got))
			}
		}
	}
	return e.onlyFiles("in.pbf")
}

func genNodeIdxCase(c *Case, r *R) {
	c.Data = genData(r, GenOpt{Nodes: pick(r, 3, 10, 40, 100), HugeIDs: true})
	c.P["run"] = int64(pick(r, 1, 2, 5, 50, 1000000))
	c.P["gap"] = int64(pick(r, 0, 1, 2))
}

func genWayIdxCase(c *Case, r *R) {
	c.Data = genData(r, GenOpt{Ways: pick(r, 3, 10, 40), MinWays: r.Intn(2), AllMorton: true, MortonRefs: true})
	c.P["a"] = int64(pick(r, 0, 1, 3, 5))
}

func coordText(lon, lat int64) string {
	return fmt.Sprintf("(%f, %f)", float64(lon)/10_000_000, float64(lat)/10_000_000)
}

func dumpNodes(e *Env) *Violation {
	c := e.c
	b, locs := nodeIndexFor(c)
	if len(locs) == 0 {
		return nil
	}
	e.fs.Put("idx", b)
	text := map[int64]string{}
	c.Data.each(func(bl *Block, g *Group) {
		for _, n := range g.Nodes {
			text[n.ID] = coordText(to1e7(bl.LonOff+bl.gran()*n.Lon), to1e7(bl.LatOff+bl.gran()*n.Lat))
		}
	})
	x, _ := decodeNodeIdx(b)
	lo, hi := 0, len(x.first)
	args := []string{"-i", "idx"}
	if c.P["p"] == 1 {
		args = append(args, "-p")
	}
	if c.P["s"] == 1 {
		args = append(args, "-s")
	}
	if c.P["lo"] > 0 {
		lo = int(c.P["lo"]) % (hi + 1)
		args = append(args, "--start-element", fmt.Sprint(lo))
	}
	if c.P["hi"] > 0 {
		h := int(c.P["hi"]) % (hi + 3)
		args = append(args, "--end-element", fmt.Sprint(h))
		hi = min(hi, h)
	}
	r := e.run(RO{}, "dumpnodeindex", args...)
	if v := notOK("dumpnodeindex", r); v != nil {
		return v
	}
	var want []string
	for i := lo; i < hi; i++ {
		for k := uint64(0); k < x.count[i]; k++ {
			id := int64(x.first[i] + k)
			loc, ok := locs[id]
			// (a node exactly at the encoding's zero is indistinguishable from none)
			ok = ok && loc != 0
			if c.P["p"] == 1 {
				if ok {
					want = append(want, fmt.Sprintf("Extract: %x %s [%d+%d=%d]", uint64(loc), text[id], x.first[i], k, id))
				} else {
					want = append(want, "Extract: skip")
				}
			}
			if c.P["s"] == 1 {
				if ok {
					want = append(want, fmt.Sprintf(" Search: %x %s", uint64(loc), text[id]))
				} else {
					want = append(want, " Search: skip")
				}
			}
		}
	}
	return diffLines("dumpnodeindex", want, r.Stdout)
}

func diffLines(what string, want []string, stdout string) *Violation {
	got := strings.Split(strings.TrimRight(stdout, "\n"), "\n")
	if stdout == "" {
		got = nil
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(nothing)", "(nothing)"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return viol("wrong-dump", "%s: line %d: %q expected, %q printed", what, i+1, clip(w), clip(g))
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func dumpWays(e *Env) *Violation {
	c := e.c
	b, locs := wayIndexFor(c)
	ids, _ := c.Data.wayLocs()
	e.fs.Put("idx", b)
	args := []string{"-i", "idx"}
	if c.P["p"] == 1 {
		args = append(args, "-p")
	}
	if c.P["s"] == 1 {
		args = append(args, "-s")
	}
	r := e.run(RO{}, "dumpwayindex", args...)
	if v := notOK("dumpwayindex", r); v != nil {
		return v
	}
	var want []string
	for _, id := range ids {
		l := fmt.Sprintf("%d %v", id, locs[id])
		if c.P["p"] == 1 {
			want = append(want, l)
		}
		if c.P["s"] == 1 {
			want = append(want, l)
		}
	}
	return diffLines("dumpwayindex", want, r.Stdout)
}

// ---------------------------------------------------------------- P15 on the command line

var statRe = regexp.MustCompile(`(?m)^(hitHint|hitDefault|missDefault|missDeferred):\s*(\d+)$`)
var timeRe = regexp.MustCompile(`(?m)^time: \d+ .*= (\d+)$`)

// lookupStats sums the printed lookup statistics.
func lookupStats(s string) (total, timed int64, n int) {
	for _, m := range statRe.FindAllStringSubmatch(s, -1) {
		v, _ := strconv.ParseInt(m[2], 10, 64)
		total += v
		n++
	}
	for _, m := range timeRe.FindAllStringSubmatch(s, -1) {
		v, _ := strconv.ParseInt(m[1], 10, 64)
		timed += v
	}
	return
}

func lookupsCLI(e *Env) *Violation {
	c := e.c
	ins := e.setup()
	r := e.writer(RO{Tsc: int(c.P["tsc"]), Poison: e.poison()})
	what := c.S["cmd"]
	if c.S["t"] != "" {
		what += " -t " + c.S["t"]
	}
	if v := notOK(what, r); v != nil {
		return v
	}
	if v := e.expect(); v != nil {
		return v
	}
	var want int64
	c.Data.each(func(b *Block, g *Group) {
		if c.S["cmd"] == "relindex" {
			for _, x := range g.Rels {
				for _, m := range x.Members {
					if m.Type == 1 {
						want++
					}
				}
			}
			return
		}
		for _, w := range g.Ways {
			for _, x := range w.Refs {
				if x >= 0 {
					want++
				}
			}
		}
	})
	total, timed, n := lookupStats(r.Stdout)
	if n != 4 {
		return nil // the statistics are printed in some other way
	}
	if total != want {
		return viol("lost-statistics", "%s: %d lookups, but the statistics add up to %d", what, want, total)
	}
	if timed > total {
		return viol("lost-statistics", "%s: %d lookups, but %d timings", what, total, timed)
	}
	return e.onlyFiles(append(ins, "out")...)
}

// ---------------------------------------------------------------- P17

// genKeys scatters key presses and resizes that must not matter.
func genKeys(r *R, steps int64) []zsim.Fault {
	var fs []zsim.Fault
	n := pick(r, 1, 3, 10, 30)
	for i := 0; i < n; i++ {
		at := int64(r.Intn(int(steps) + 1))
		switch r.Intn(6) {
		case 0, 1:
			fs = append(fs, zsim.Fault{Kind: "resize", Arg: int64(r.Intn(1 << 20)), N: at})
		case 2:
			fs = append(fs, zsim.Fault{Kind: "key", Arg: 12, N: at}) // Ctrl-L
		case 3:
			fs = append(fs, zsim.Fault{Kind: "key", Arg: 4, N: at}) // Ctrl-D
		case 4:
			fs = append(fs, zsim.Fault{Kind: "key", Arg: int64(pick(r, 'a', 'c', 'q', ' ', 'é', 27, 13)) + 256*0, N: at})
		default:
			fs = append(fs, zsim.Fault{Kind: "key", Arg: int64(256 + r.Intn(500)), N: at})
		}
	}
	for i := range fs {
		if fs[i].Kind == "key" && fs[i].Arg < 256 && fs[i].Arg != 4 && fs[i].Arg != 12 {
			fs[i].Arg += 256 // plain characters
		}
	}
	return fs
}

func uiNeutral(e *Env) *Violation {
	c := e.c
	ins := e.setup()
	d := e.dry()
	if d == nil {
		return nil
	}
	c.S["refresh"] = c.S["ui"]
	res := e.program(RO{Faults: genKeys(rng(c.Sub, "keys"), d.r.Steps*2), Poison: e.poison()})
	c.S["refresh"] = ""
	what := fmt.Sprintf("%s -r %s", c.S["cmd"], c.S["ui"])
	if v := notOK(what, res); v != nil {
		return v
	}
	if !bytes.Equal(e.out("out"), d.out) {
		return viol("ui-changes-output", "%s: the output differs from that without the user interface: %s", what, diffAt(d.out, e.out("out")))
	}
	if res.Screens == 0 {
		return viol("no-ui", "%s shows nothing", what)
	}
	if res.LiveScreens > 0 {
		return viol("terminal-left", "%s ends without giving the terminal back", what)
	}
	return e.onlyFiles(append(ins, "out")...)
}

// workersShown: while the disk keeps a writer busy all workers wait for it, so
// the terminal shows one line for each of them, and none once they have ended.
func workersShown(e *Env) *Violation {
	c := e.c
	e.setup()
	c.S["refresh"] = c.S["ui"]
	first := len(c.Data.Blocks) // the first block that makes the writer write
	for i := range c.Data.Blocks {
		ways, rels := 0, 0
		for _, g := range c.Data.Blocks[i].groups() {
			ways, rels = ways+len(g.Ways), rels+len(g.Rels)
		}
		switch c.S["cmd"] {
		case "tagfilter":
			if ways+rels == 0 {
				continue
			}
		case "relindex":
			if rels == 0 {
				continue
			}
		}
		first = i
		break
	}
	if c.P["w"] < 2 || int64(len(c.Data.Blocks)-first) < 3*c.P["w"]+10 {
		return nil // not enough work for all workers
	}
	var most, last, gw, gc [2]int
	k := []int64{1, c.P["w"]}
	for i := range k {
		c.P["w"] = k[i]
		e.fs.Del("out")
		s := genSched(rng(c.Sub, fmt.Sprint("sched", i)), false)
		// the disk is slow enough for everything else to come to rest, and no
		// worker sleeps over its block until all others are through
		s.PTime, s.Policy = 0, pick(rng(c.Sub, "policy"), "random", "rr")
		res := e.program(RO{Shots: true, Sched: &s, Faults: []zsim.Fault{
			{Kind: "slow", Op: "write", Arg: 60e6},
			{Kind: "slow", Op: "close", Arg: 40e6, Sticky: true},
		}})
		if v := notOK(c.S["cmd"], res); v != nil {
			return v
		}
		if res.Fired["slow-write"] == 0 || res.Fired["slow-close"] == 0 {
			return nil
		}
		writing, closing := 0, 0
		for _, s := range res.Shots {
			switch s.Slow {
			case "write":
				writing++
				most[i], gw[i] = max(most[i], s.Rows), s.Gs
			case "close":
				closing++
				last[i], gc[i] = s.Rows, s.Gs
			}
		}
		if writing < 20 || closing < 20 {
			return nil // timers fired early
		}
	}
	c.S["refresh"] = ""
	if int64(gw[1]-gw[0]) != k[1]-k[0] || gc[0] != gc[1] {
		return nil // something between them and the writer takes all they have
	}
	e.st.Probes["workers-shown"]++
	if n := int64(most[1] - most[0]); n != k[1]-k[0] {
		return viol("worker-list", "%s -r %s shows %d more lines at most with %d workers than with 1, while the writer waits for the disk", c.S["cmd"], c.S["ui"], n, k[1])
	}
	if last[0] != last[1] {
		return viol("worker-list", "%s -r %s: when all workers have ended and the writer closes its files, %d lines are shown after a run with %d workers, %d after one with 1", c.S["cmd"], c.S["ui"], last[1], k[1], last[0])
	}
	if most[0] != last[0]+1 {
		return viol("worker-list", "%s -r %s -w 1: %d lines are shown with the worker, %d without", c.S["cmd"], c.S["ui"], most[0], last[0])
	}
	return nil
}

func uiCancel(e *Env) *Violation {
	c := e.c
	e.setup()
	d := e.dry()
	if d == nil {
		return nil
	}
	r := rng(c.Sub, "faults")
	c.S["refresh"] = c.S["ui"]
	s := genSched(rng(c.Sub, "early"), false)
	s.Policy, s.Mean = pick(r, "random", "rr"), pick(r, 0, 60, 1000)
	fs := []zsim.Fault{{Kind: "key", Arg: 3, N: int64(r.Intn(int(d.r.Steps/8) + 1))}}
	if r.Bool(0.4) {
		fs = append(fs, zsim.Fault{Kind: "key", Arg: 3, N: fs[0].N + int64(r.Intn(60))})
	}
	if r.Bool(0.4) {
		fs = append(fs, zsim.Fault{Kind: "resize", Arg: int64(r.Intn(1 << 20)), N: int64(r.Intn(int(d.r.Steps) + 1))})
	}
	res := e.program(RO{Faults: fs, Sched: &s})
	c.S["refresh"] = ""
	what := fmt.Sprintf("%s -r %s, Ctrl-C at step %d", c.S["cmd"], c.S["ui"], fs[0].N)
	if res.Hang != "" || res.Panic != "" {
		return notOK(what, res)
	}
	if res.LiveScreens > 0 {
		return viol("terminal-left", "%s ends without giving the terminal back", what)
	}
	if res.Cancelled && bytes.Equal(e.out("out"), d.out) && len(c.Data.Blocks) > 100 {
		return viol("cancel-ignored", "%s: the complete output was written all the same (undisturbed: %d steps)", what, d.r.Steps)
	}
	return nil
}

// ---------------------------------------------------------------- P19

// tidy checks that nothing is left open.
func tidy(what string, r *zsim.Result) *Violation {
	if len(r.OpenFiles) > 0 {
		return viol("left-open", "%s ends with open files: %s", what, strings.Join(r.OpenFiles, ", "))
	}
	if len(r.LiveMaps) > 0 {
		return viol("left-mapped", "%s ends with mapped files: %s", what, strings.Join(r.LiveMaps, ", "))
	}
	return nil
}

func resources(e *Env) *Violation {
	c := e.c
	if !c.isReader() {
		e.setup()
	}
	r := e.program(RO{Poison: e.poison()})
	if r.Hang == "" && r.Panic != "" && (strings.Contains(r.Panic, "invalid memory address") || strings.Contains(r.Panic, "fault address") || strings.Contains(r.Panic, "file already closed") || strings.Contains(r.Panic, "bad file descriptor")) {
		return viol("use-after-close", "%s: %s\n%s", c.S["cmd"], r.Panic, trimStack(r.Stack))
	}
	if !r.OK() {
		return nil
	}
	return tidy(c.S["cmd"], r)
}

// boundedFiles: the number of passes does not decide how many files are open.
func boundedFiles(e *Env) *Violation {
	c := e.c
	e.setup()
	p, m := c.P["p"], c.P["m"]
	c.P["p"], c.P["m"] = 1, 0
	one := e.writer(RO{})
	c.P["p"], c.P["m"] = p, m
	if !one.OK() {
		return nil
	}
	many := e.writer(RO{})
	if !many.OK() {
		return nil
	}
	if v := tidy(c.S["cmd"]+" with many passes", many); v != nil {
		return v
	}
	if many.MaxFD > one.MaxFD+3 {
		return viol("files-pile-up", "%s: %d files open at once with many passes, %d with one", c.S["cmd"], many.MaxFD, one.MaxFD)
	}
	// and it really runs when only a few more files may be open
	lim := 3 + one.MaxFD + 3
	r := e.writer(RO{FDLimit: lim})
	if v := notOK(fmt.Sprintf("%s with at most %d open files", c.S["cmd"], lim), r); v != nil {
		return v
	}
	return nil
}

// ---------------------------------------------------------------- P20

func chain(e *Env) *Violation {
	c := e.c
	d := &c.Data
	if len(d.Blocks) == 0 || d.Blocks[0].Type != "OSMHeader" {
		return nil // a file without a header could become empty on the way
	}
	src := "in.pbf"
	w := fmt.Sprint(c.P["w"])
	ro := func() RO { return RO{Poison: e.poison(), Tsc: int(c.P["tsc"])} }
	r0 := rng(c.Sub, "chain")
	// optionally interrupt a step and repeat it
	step := func(cmd string, args ...string) *Violation {
		a := append([]string{"-w", w, "-r", pick(r0, "0", "0", "0", "1ms")}, args...)
		if c.P["crash"] > 0 && r0.Bool(0.3) {
			e.run(RO{Faults: []zsim.Fault{{Kind: "crash", N: int64(r0.Intn(2000))}}}, cmd, a...)
		}
		r := e.run(ro(), cmd, a...)
		if v := notOK(cmd, r); v != nil {
			return v
		}
		return tidyOrNil(cmd, r)
	}
	if c.P["dec"] == 1 {
		if v := step("decompress", "-i", src, "-o", "dec.pbf"); v != nil {
			return v
		}
		src = "dec.pbf"
	}
	if v := step("nodeindex", "-i", src, "-o", "nodes.idx"); v != nil {
		return v
	}
	if c.P["tf"] == 1 {
		if v := step("tagfilter", "-i", src, "-o", "tf.pbf"); v != nil {
			return v
		}
		src = "tf.pbf"
	}
	a := []string{"-i", src, "-o", "rw.pbf", "-x", "nodes.idx"}
	if c.S["t"] != "" {
		a = append(a, "-t", c.S["t"])
	}
	if v := step("rewritenodes", a...); v != nil {
		return v
	}
	src = "rw.pbf"
	if c.P["again"] == 1 { // nothing is left to rewrite
		if v := step("rewritenodes", "-i", src, "-o", "rw2.pbf", "-x", "nodes.idx"); v != nil {
			return v
		}
		src = "rw2.pbf"
	}
	if c.P["tf"] == 2 {
		if v := step("tagfilter", "-i", src, "-o", "tf.pbf"); v != nil {
			return v
		}
		src = "tf.pbf"
	}
	if c.P["dec"] == 2 {
		if v := step("decompress", "-i", src, "-o", "dec.pbf"); v != nil {
			return v
		}
		src = "dec.pbf"
	}
	a = []string{"-i", src, "-o", "ways.idx"}
	if c.P["a"] >= 0 {
		a = append(a, "-a", fmt.Sprint(c.P["a"]))
	}
	if v := step("wayindex", a...); v != nil {
		return v
	}
	if c.P["dec"] == 3 {
		src = "in.pbf" // relations are the same in every file of the chain
	}
	if v := step("relindex", "-i", src, "-o", "rels.idx", "-x", "ways.idx", "-p", fmt.Sprint(max(1, c.P["p"]))); v != nil {
		return v
	}
	// the model: relations -> ways -> collapsed references -> locations
	locs := d.nodeLocs()
	ways := map[int64][]int64{}
	var ids []int64
	d.each(func(b *Block, g *Group) {
		for _, x := range g.Ways {
			rf := append([]int64(nil), x.Refs...)
			for i, n := range rf {
				if l, ok := locs[n]; ok && n >= 0 {
					rf[i] = l
				}
			}
			ids = append(ids, x.ID)
			ways[x.ID] = collapse(rf)
		}
	})
	if v := checkWayIdx(e.out("ways.idx"), ids, ways); v != nil {
		return v
	}
	if v := checkRelIdx(e.out("rels.idx"), d.relEntries(ways)); v != nil {
		return v
	}
	return e.onlyFilesUsed("in.pbf", "dec.pbf", "nodes.idx", "tf.pbf", "rw.pbf", "rw2.pbf", "ways.idx", "rels.idx")
}

func tidyOrNil(string, *zsim.Result) *Violation { return nil }

// onlyFilesUsed allows any of the named files to exist, and no other.
func (e *Env) onlyFilesUsed(names ...string) *Violation { return e.onlyFiles(names...) }

func init() {
	reg("P07", "way-slices", 30, func(c *Case, r *R) {
		genWayIdxCase(c, r)
		c.P["n"] = int64(pick(r, 1, 2, 3, 4, 5, 7, 16, 200))
	}, func(e *Env) *Violation {
		c := e.c
		b, locs := wayIndexFor(c)
		ids, _ := c.Data.wayLocs()
		e.fs.Put("idx", b)
		n := c.P["n"]
		seen := map[int64]int64{}
		for k := int64(0); k < n && k < 24; k++ {
			kk := k
			if n > 24 && k > 11 {
				kk = n - 24 + k
			}
			r := e.run(RO{}, "dumpwayindex", "-i", "idx", "-s", "--sub-index-index", fmt.Sprint(kk), "--sub-index-count", fmt.Sprint(n))
			if v := notOK(fmt.Sprintf("dumpwayindex of part %d of %d", kk, n), r); v != nil {
				return v
			}
			for _, l := range strings.Split(r.Stdout, "\n") {
				if l == "" || strings.HasPrefix(l, "XX") {
					continue
				}
				id, _ := strconv.ParseInt(strings.Fields(l)[0], 10, 64)
				if want := fmt.Sprintf("%d %v", id, locs[id]); l != want {
					return viol("lookup-mismatch", "part %d of %d: %q expected, %q found", kk, n, want, l)
				}
				if _, dup := seen[id]; dup {
					return viol("pass-overlap", "way %d is in two parts of %d", id, n)
				}
				seen[id] = kk
			}
		}
		if n <= 24 {
			for _, id := range ids {
				if _, ok := seen[id]; !ok {
					return viol("pass-gap", "way %d is in none of the %d parts", id, n)
				}
			}
		}
		return nil
	})

	for _, cmd := range readers {
		cmd := cmd
		reg("P14", cmd, 30, func(c *Case, r *R) { genReader(c, r, cmd) }, readerExact)
		reg("P14", cmd+"-many-blocks", 3, func(c *Case, r *R) {
			genReader(c, r, cmd)
			n := pick(r, 200, 800)
			c.Data = genData(r, GenOpt{Nodes: n, Ways: n / 4, Rels: n / 8, MaxBlock: 1 + r.Intn(3), NoExotic: true, RawOnly: r.Bool(0.5)})
		}, readerExact)
	}
	reg("P14", "entitycount-large", 2, func(c *Case, r *R) {
		large(c, r, pick(r, "nodeindex", "wayindex", "rewritenodes", "relindex"))
		c.S["cmd"] = "entitycount"
	}, readerExact)
	reg("P14", "dumpnodeindex", 25, func(c *Case, r *R) {
		genNodeIdxCase(c, r)
		k := 1 + r.Intn(3)
		c.P["p"], c.P["s"] = int64(k&1), int64(k>>1)
		if r.Bool(0.3) {
			c.P["lo"] = int64(1 + r.Intn(50))
		}
		if r.Bool(0.3) {
			c.P["hi"] = int64(1 + r.Intn(50))
		}
	}, dumpNodes)
	reg("P14", "dumpwayindex", 20, func(c *Case, r *R) {
		genWayIdxCase(c, r)
		k := 1 + r.Intn(3)
		c.P["p"], c.P["s"] = int64(k&1), int64(k>>1)
	}, dumpWays)

	genLookup := func(c *Case, r *R) {
		genWriter(c, r, pick(r, "rewritenodes", "rewritenodes", "rewritenodes", "relindex"))
		delete(c.P, "m")
		if c.S["cmd"] == "relindex" {
			c.P["p"] = int64(pick(r, -1, 1))
		} else if r.Bool(0.8) {
			c.S["t"] = pick(r, "1.01", "1.1", "1.5", "2", "2", "3", "10", "1.001", "1", "0.5")
		}
		c.P["tsc"] = int64(r.Intn(4))
		c.P["w"] = int64(pick(r, 1, 2, 3, 4, 8))
	}
	reg("P15", "lookups-cli", 60, genLookup, lookupsCLI)
	reg("P15", "lookups-cli-many", 8, func(c *Case, r *R) {
		genLookup(c, r)
		keep := c.S["t"]
		manyBlocks(c, r, c.S["cmd"])
		delete(c.P, "m")
		c.P["p"] = 1
		c.S["t"] = keep
		if c.S["cmd"] == "relindex" {
			c.S["t"] = ""
		}
	}, lookupsCLI)

	// ------------------------------------------------------------ P16
	bufs := func(e *Env) *Violation {
		if e.c.isReader() {
			return readerExact(e)
		}
		return faithful(e)
	}
	reg("P16", "buffers-cli", 60, func(c *Case, r *R) {
		if r.Bool(0.15) {
			genReader(c, r, pick(r, "entitycount", "entityfind"))
		} else {
			genWriter(c, r, pick(r, writers...))
		}
		c.Sub |= 1 << 7 // poisoned buffers
		if c.P["w"] < 2 {
			c.P["w"] = 2
		}
		for i := range c.Data.Blocks {
			b := &c.Data.Blocks[i]
			if b.Type == "OSMData" && !r.Bool(0.2) {
				b.Comp, b.Level = "zlib", 1
				if r.Bool(0.05) {
					b.PadStr = pick(r, 65000, 66000, 140000, 300000)
				}
			}
		}
	}, bufs)
	reg("P16", "buffers-cli-many", 10, func(c *Case, r *R) {
		manyBlocks(c, r, pick(r, writers...))
		c.Sub |= 1 << 7
		c.P["w"] = int64(pick(r, 2, 3, 4, 8))
		for i := range c.Data.Blocks {
			b := &c.Data.Blocks[i]
			if b.Type == "OSMData" && r.Bool(0.5) {
				b.Comp, b.Level = "zlib", 1
			}
		}
	}, bufs)

	// ------------------------------------------------------------ P17
	reg("P17", "ui", 50, func(c *Case, r *R) {
		genWriter(c, r, pick(r, writers...))
		c.S["ui"] = pick(r, "30us", "100us", "1ms", "1ms", "200ms", "1h")
	}, uiNeutral)
	reg("P17", "ui-many-blocks", 8, func(c *Case, r *R) {
		manyBlocks(c, r, pick(r, writers...))
		c.S["ui"] = pick(r, "300us", "1ms", "200ms")
	}, uiNeutral)
	reg("P17", "ui-multi-pass", 3, func(c *Case, r *R) {
		genWriter(c, r, "rewritenodes")
		bigIndex(c, r)
		c.S["ui"] = pick(r, "1ms", "200ms")
	}, uiNeutral)
	reg("P17", "ui-workers", 6, func(c *Case, r *R) {
		manyBlocks(c, r, pick(r, writers...))
		c.P["w"] = int64(2 + r.Intn(5))
		if c.S["cmd"] == "tagfilter" {
			c.Data = genData(r, GenOpt{Ways: 200, MinWays: 100, MaxBlock: 1 + r.Intn(3), NoExotic: true, Tags: true})
		}
		c.S["ui"] = pick(r, "300us", "1ms")
	}, workersShown)
	reg("P17", "ui-ctrl-c", 10, func(c *Case, r *R) {
		manyBlocks(c, r, pick(r, writers...))
		c.P["w"] = int64(1 + r.Intn(4))
		if c.S["cmd"] == "relindex" {
			c.P["p"] = int64(pick(r, 1, 2))
		}
		c.S["ui"] = pick(r, "300us", "1ms", "200ms")
	}, uiCancel)

	// ------------------------------------------------------------ P18
	engine := func(e *Env) *Violation {
		if e.c.isReader() {
			return readerExact(e)
		}
		return faithful(e)
	}
	reg("P18", "engine-cli", 30, func(c *Case, r *R) {
		if r.Bool(0.3) {
			genReader(c, r, pick(r, readers...))
			n := pick(r, 30, 200)
			c.Data = genData(r, GenOpt{Nodes: n, Ways: n / 4, Rels: n / 8, MaxBlock: 1 + r.Intn(3), NoExotic: true, RawOnly: true})
		} else {
			manyBlocks(c, r, pick(r, "decompress", "tagfilter", "rewritenodes"))
		}
		c.P["w"] = int64(pick(r, 1, 2, 3, 5, 8, 16))
	}, engine)

	// ------------------------------------------------------------ P19
	reg("P19", "resources", 60, func(c *Case, r *R) { genProgram(c, r, false) }, resources)
	reg("P19", "resources-readers", 15, func(c *Case, r *R) { genReader(c, r, pick(r, readers...)) }, resources)
	reg("P19", "resources-ui", 10, func(c *Case, r *R) {
		genProgram(c, r, true)
		c.S["refresh"] = "1ms"
	}, resources)
	reg("P19", "relindex-passes", 15, func(c *Case, r *R) {
		genWriter(c, r, "relindex")
		c.P["p"] = int64(pick(r, 5, 12, 40))
	}, boundedFiles)
	reg("P19", "rewritenodes-passes", 6, func(c *Case, r *R) {
		genWriter(c, r, "rewritenodes")
		bigIndex(c, r)
		c.P["m"] = 1
	}, boundedFiles)

	// ------------------------------------------------------------ P20
	genChain := func(c *Case, r *R) {
		o := GenOpt{Nodes: pick(r, 10, 40, 120), Ways: pick(r, 4, 15, 40), MinWays: r.Intn(2), Rels: pick(r, 3, 8, 20), MissingRefs: true}
		o.LongWays = r.Bool(0.05)
		c.Data = genData(r, o)
		c.P["w"] = int64(pick(r, 1, 2, 3, 4, 8))
		c.P["a"] = int64(pick(r, -1, 0, 2, 3, 5))
		c.P["p"] = int64(pick(r, 1, 1, 2, 3, 8))
		c.P["dec"] = int64(r.Intn(5))
		c.P["tsc"] = int64(r.Intn(4))
		if r.Bool(0.5) {
			c.P["tf"] = int64(1 + r.Intn(2))
		}
		if r.Bool(0.25) {
			c.P["again"] = 1
		}
		if r.Bool(0.2) {
			c.S["t"] = pick(r, "1.5", "2", "10")
		}
		if r.Bool(0.3) {
			c.P["crash"] = 1
		}
	}
	headed := func(c *Case, r *R) {
		if len(c.Data.Blocks) == 0 || c.Data.Blocks[0].Type != "OSMHeader" {
			c.Data.Blocks = append([]Block{genHeader(r, 0)}, c.Data.Blocks...)
		}
	}
	reg("P20", "chain", 60, func(c *Case, r *R) { genChain(c, r); headed(c, r) }, chain)
	reg("P20", "chain-many-blocks", 6, func(c *Case, r *R) {
		defer headed(c, r)
		genChain(c, r)
		c.Data = genData(r, GenOpt{Nodes: 300, Ways: 100, MinWays: 20, Rels: 40, MissingRefs: true, NoExotic: true, MaxBlock: 1 + r.Intn(4), RawOnly: r.Bool(0.5)})
	}, chain)
}
