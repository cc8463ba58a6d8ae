//go:build go1.23

package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/squizzling/osmindex/internal/zsim"
)

// P33: what the terminal shows about a run is true.

var (
	reFile  = regexp.MustCompile(`^\[(\w+)\] Processing PBF (.*): (?:(initializing|shutting down)|(?:loading|sending) block (\d+)/(\d+) ([0-9.]+)%)$`)
	rePass  = regexp.MustCompile(`^Pass (\d+)/(\d+)$`)
	reBlock = regexp.MustCompile(`^(Worker|Writer): (?:.* )?(?:block|blob) (\d+)\b`)
	reWays  = regexp.MustCompile(`, way (\d+)/(\d+)$`)
	reKept  = regexp.MustCompile(`, (\d+) kept, (\d+) dropped$`)
	reDrop  = regexp.MustCompile(`, dropped (\d+)/(\d+) blocks$`)
	reCopy  = regexp.MustCompile(`^Writer: copying locations \((\d+)/(\d+)\) (.*)%$`)
)

// oddNames are file names in which something could be taken for markup.
var oddNames = []string{"in.pbf", "100%.osm.pbf", "s%C3%BCd.pbf", "süd-west.pbf", "50%Sale%%.pbf", "ÅÄÖ ß.osm.pbf", "a%"}

func genShown(c *Case, r *R, cmd string) {
	switch r.Intn(3) {
	case 0:
		genWriter(c, r, cmd)
	default:
		manyBlocks(c, r, cmd)
	}
	if c.P["p"] == 40 {
		c.P["p"] = 4
	}
	shownOpts(c, r)
}

func shownOpts(c *Case, r *R) {
	c.S["ui"] = pick(r, "100us", "300us", "300us", "1ms")
	c.S["name"] = pick(r, oddNames...)
	c.P["width"] = int64(pick(r, 40, 80, 80, 100, 121, 160, 200))
	c.P["slow"] = int64(pick(r, 0, 0, 1, 2, 3))
}

func num(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return math.MaxInt64
	}
	return n
}

// share checks that n of w cells are highlighted for a share between lo and hi.
func shareShown(n, w int, lo, hi float64) bool {
	return float64(n) >= math.Floor(float64(w)*lo)-1 && float64(n) <= math.Ceil(float64(w)*hi)+1
}

func shown(e *Env) *Violation {
	c := e.c
	e.setup()
	cmd, name := c.S["cmd"], c.S["name"]
	e.fs.Del("in.pbf")
	e.fs.Put(name, e.file)
	e.fs.Removed = map[string][]byte{}
	args := c.writerArgs(c.P["w"], c.S["ui"])
	for i := range args {
		if args[i] == "in.pbf" {
			args[i] = name
		}
	}
	s := genSched(rng(c.Sub, "sched0"), c.Heavy)
	s.PTime = 0
	ro := RO{Shots: true, ScreenW: int(c.P["width"]), Sched: &s, Poison: e.poison()}
	switch c.P["slow"] {
	case 1:
		ro.Faults = []zsim.Fault{{Kind: "slow", Op: "write", Arg: 4e6, N: int64(rng(c.Sub, "slow").Intn(10))}}
	case 2:
		ro.Faults = []zsim.Fault{{Kind: "slow", Op: "write", Arg: 1e6, Sticky: true}}
	case 3:
		ro.Faults = []zsim.Fault{{Kind: "slow", Op: "close", Arg: 4e6, Sticky: true}}
	}
	res := e.run(ro, cmd, args...)
	what := fmt.Sprintf("%s -i %q -r %s", cmd, name, c.S["ui"])
	if v := notOK(what, res); v != nil {
		return v
	}
	workers := c.P["w"]
	if workers == 0 {
		workers = 1 + int64(c.Sub%8)
	}

	// what there is to know about the run
	var files []string // the input and the files made between it and the output
	sizes := map[string]int64{name: int64(len(e.file))}
	made := map[string]bool{}
	for _, o := range res.Ops {
		n := strings.TrimPrefix(o.Path, "/w/")
		if o.Op == "create" && !made[n] {
			made[n] = true
			if b, ok := e.fs.Removed[o.Path]; ok {
				sizes[n] = int64(len(b))
			}
			if n != "out" {
				files = append(files, n)
			}
		}
	}
	passes := int64(1)
	if cmd == "rewritenodes" {
		passes += int64(len(files))
	}
	out, _ := e.fs.Get("out")
	places := int64(-1)
	if len(out) >= 16 {
		switch cmd {
		case "nodeindex":
			places = int64(len(out)) - 16 - 16*int64(binary.LittleEndian.Uint64(out[8:]))
		case "wayindex":
			places = int64(len(out)) - 16 - 8*int64(binary.LittleEndian.Uint64(out))
		}
	}
	var kept, dropped int64
	ways := make([]int64, len(c.Data.Blocks))
	keptTo := make([]int64, len(c.Data.Blocks)) // in the blocks before each
	nodesTo := make([]int64, len(c.Data.Blocks))
	plain := true // a worker with a header shows the number of the block before
	for i := range c.Data.Blocks {
		plain = plain && (i == 0 || c.Data.Blocks[i].Type == "OSMData")
		keptTo[i], nodesTo[i] = kept, kept+dropped
		for _, g := range c.Data.Blocks[i].groups() {
			ways[i] += int64(len(g.Ways))
			for _, n := range g.Nodes {
				if anyKept(n.Tags) {
					kept++
				} else {
					dropped++
				}
			}
		}
	}

	var (
		pass, copied     int64 = 0, -1
		at               int64 // position last shown for this pass
		reached          int64 // where the furthest block shown so far in this pass starts
		lastFile         string
		keptBy, droppedW int64
		rest             int // how often the terminal was brought up to date since the program waits for the disk
		calm             int // and in all, while the disk was slow
	)
	bad := func(i int, class, f string, a ...any) *Violation {
		sh := res.Shots[i]
		return viol(class, "%s (terminal of %d columns): %s. The terminal shows:\n%s", what, sh.W, fmt.Sprintf(f, a...), strings.TrimRight(strings.Join(sh.Lines, "\n"), "\n"))
	}
	for i := range res.Shots {
		sh := &res.Shots[i]
		if i > 0 && (sh.Slow != res.Shots[i-1].Slow || sh.SlowN != res.Shots[i-1].SlowN) {
			rest = 0
		}
		if sh.Slow != "" && sh.Upd {
			rest++
		}
		if sh.Slow != "" && sh.Upd {
			calm++
		}
		busy := map[int64]bool{}
		nw, sending, sumKept, sumDropped := int64(0), int64(0), int64(0), int64(0)
		position := int64(-1)
		for y, l := range sh.Lines {
			cut := len([]rune(l)) >= sh.W-1 // what is cut off may follow a space
			rev := sh.Rev[y]
			switch {
			case strings.HasPrefix(l, "Pass "):
				m := rePass.FindStringSubmatch(l)
				if m == nil {
					if cut {
						continue
					}
					return bad(i, "garbled", "line %d says %q", y+1, l)
				}
				n, of := num(m[1]), num(m[2])
				e.st.Probes["pass-shown"]++
				if of != passes {
					return bad(i, "wrong-pass", "pass %d of %d is shown, but the run makes %d", n, of, passes)
				}
				if n < pass || n > passes {
					return bad(i, "wrong-pass", "pass %d is shown after pass %d of %d", n, pass, passes)
				}
				if n > pass {
					pass, at, reached = n, 0, 0
				}
				if !shareShown(rev, sh.W, float64(n-1)/float64(of), float64(n)/float64(of)) {
					return bad(i, "wrong-share", "%d of %d columns are highlighted in pass %d of %d", rev, sh.W, n, of)
				}
			case strings.Contains(l, "Processing PBF"):
				m := reFile.FindStringSubmatch(l)
				if m == nil {
					if pre := strings.SplitAfter(l, "Processing PBF ")[1]; cut && strings.HasPrefix(name+": ", pre[:min(len(pre), len(name)+2)]) {
						continue
					}
					if pass > 1 && cut {
						continue
					}
					return bad(i, "garbled", "line %d says %q", y+1, l)
				}
				if m[2] != lastFile {
					at, reached = 0, 0
				}
				lastFile = m[2]
				want := name
				if pass > 1 && int(pass-2) < len(files) {
					want = files[pass-2]
				}
				if m[2] != want {
					return bad(i, "wrong-file", "the file %q is shown, but %q is processed", m[2], want)
				}
				if strings.ToLower(m[1]) != strings.TrimSuffix(cmd, "s") && !strings.HasPrefix(strings.ToLower(m[1]), cmd) {
					return bad(i, "wrong-name", "%s calls itself %s", cmd, m[1])
				}
				e.st.Probes["file-shown"]++
				if m[3] == "shutting down" {
					if rev != 0 {
						return bad(i, "wrong-share", "%d columns are highlighted", rev)
					}
					position = math.MaxInt64
					at = sizes[want]
					continue
				}
				position = 0
				if m[3] == "" {
					e.st.Probes["position-shown"]++
					p, of := num(m[4]), num(m[5])
					if sz, ok := sizes[want]; ok && of != sz {
						return bad(i, "wrong-size", "a size of %d bytes is shown, the file has %d", of, sz)
					}
					if p > of {
						return bad(i, "wrong-position", "position %d is shown of a file of %d bytes", p, of)
					}
					share := float64(p) / float64(of)
					if pct, err := strconv.ParseFloat(m[6], 64); err != nil || math.Abs(pct-100*share) > 0.06 {
						return bad(i, "wrong-percentage", "%s%% is shown for position %d of %d", m[6], p, of)
					}
					if !shareShown(rev, sh.W, share, share) {
						return bad(i, "wrong-share", "%d of %d columns are highlighted for %s%%", rev, sh.W, m[6])
					}
					position = p
				} else if rev != 0 {
					return bad(i, "wrong-share", "%d columns are highlighted", rev)
				}
				if position < at {
					return bad(i, "backwards", "position %d is shown after position %d", position, at)
				}
				at = position
			case strings.HasPrefix(l, "Worker: "):
				nw++
				if m := reKept.FindStringSubmatch(l); m != nil {
					sumKept += num(m[1])
					sumDropped += num(m[2])
				}
				m := reBlock.FindStringSubmatch(l)
				if m == nil || cut {
					continue
				}
				e.st.Probes["worker-block-shown"]++
				k := num(m[2])
				if k >= int64(len(c.Data.Blocks)) {
					return bad(i, "wrong-block", "a worker is shown with block %d of a file of %d blocks", k, len(c.Data.Blocks))
				}
				if busy[k] {
					return bad(i, "wrong-block", "two workers are shown with block %d", k)
				}
				busy[k] = true
				if m := reWays.FindStringSubmatch(l); m != nil {
					e.st.Probes["ways-shown"]++
					a, of := num(m[1]), num(m[2])
					if of != ways[k] || a > of {
						return bad(i, "wrong-count", "way %d of %d is shown for block %d, which has %d ways", a, of, k, ways[k])
					}
					if share := float64(a) / float64(of); !shareShown(rev, sh.W, share, share) {
						return bad(i, "wrong-share", "%d of %d columns are highlighted for way %d of %d", rev, sh.W, a, of)
					}
				}
				if m := reKept.FindStringSubmatch(l); m != nil && workers == 1 {
					if a, b := num(m[1]), num(m[2]); a < keptTo[k] || b < nodesTo[k]-keptTo[k] {
						return bad(i, "wrong-count", "the only worker is at block %d and has kept %d and dropped %d nodes, of %d and %d in the blocks before it", k, a, b, keptTo[k], nodesTo[k]-keptTo[k])
					}
				}
				if strings.HasPrefix(l, "Worker: sending") {
					sending++
				}
			case strings.HasPrefix(l, "Writer: "):
				if m := reCopy.FindStringSubmatch(l); m != nil && !cut {
					e.st.Probes["copy-shown"]++
					p, of := num(m[1]), num(m[2])
					if places >= 0 && of != places || p > of || p < copied {
						return bad(i, "wrong-copy", "%d of %d bytes are shown as copied after %d; the index has %d bytes of locations", p, of, max(copied, 0), places)
					}
					copied = p
					if rest >= 3 && sh.Slow == "close" && p != of {
						return bad(i, "stale", "%d of %d bytes are shown as copied while the file they come from is being closed", p, of)
					}
					if of > 0 {
						share := float64(p) / float64(of)
						if pct, err := strconv.ParseFloat(m[3], 64); err != nil || math.Abs(pct-100*share) > 0.06 {
							return bad(i, "wrong-percentage", "%s%% is shown for %d of %d bytes copied", m[3], p, of)
						}
						if !shareShown(rev, sh.W, share, share) {
							return bad(i, "wrong-share", "%d of %d columns are highlighted for %s%%", rev, sh.W, m[3])
						}
					}
				} else if strings.Contains(l, "copying") && !cut {
					return bad(i, "garbled", "line %d says %q", y+1, l)
				}
				if m := reDrop.FindStringSubmatch(l); m != nil {
					e.st.Probes["drops-shown"]++
					if a, of := num(m[1]), num(m[2]); a > of+1 || of >= int64(len(c.Data.Blocks)) {
						return bad(i, "wrong-count", "%d of %d blocks are shown as dropped; the file has %d", a, of, len(c.Data.Blocks))
					}
				} else if m := reBlock.FindStringSubmatch(l); m != nil && !cut && num(m[2]) >= int64(len(c.Data.Blocks)) {
					return bad(i, "wrong-block", "the writer is shown with block %s of a file of %d blocks", m[2], len(c.Data.Blocks))
				}
			}
		}
		if nw > workers {
			return bad(i, "wrong-count", "%d workers are shown, there are %d", nw, workers)
		}
		if sumKept > kept || sumDropped > dropped {
			return bad(i, "wrong-count", "%d nodes are shown as kept and %d as dropped, of %d and %d", sumKept, sumDropped, kept, dropped)
		}
		if rest >= 3 && sending == workers && pass <= 1 && plain {
			// everything waits for the disk: what is shown is how it is
			e.st.Probes["at-rest"]++
			last := int64(0)
			for k := range busy {
				last = max(last, k)
			}
			nodes := kept + dropped
			end := int64(len(e.file))
			if last+1 < int64(len(c.Data.Blocks)) {
				nodes, end = nodesTo[last+1], int64(e.spans[last+1].End)
			}
			if cmd == "tagfilter" && sumKept+sumDropped != nodes {
				return bad(i, "wrong-count", "all workers wait for the writer, and are shown with %d nodes kept and %d dropped; there are %d in the blocks up to %d", sumKept, sumDropped, nodes, last)
			}
			if position >= 0 && position != math.MaxInt64 && position > end {
				return bad(i, "wrong-position", "all workers wait for the writer, none has a block beyond the one that ends at %d, and position %d is shown", end, position)
			}
		}
		keptBy, droppedW = max(keptBy, sumKept), max(droppedW, sumDropped)
		if sh.Upd && position >= 0 && pass <= 1 {
			if position < reached {
				return bad(i, "stale", "position %d is shown after a worker got the block at %d", position, reached)
			}
		}
		if pass <= 1 {
			for k := range busy {
				reached = max(reached, int64(e.spans[k].Start))
			}
		}
	}
	if n := res.Fired["slow-write"] + res.Fired["slow-close"]; n > 0 && cmd != "relindex" && (c.P["slow"] == 1 || c.P["slow"] == 3) && c.S["ui"] != "1ms" && calm < 4 {
		return viol("stale", "%s: the terminal was brought up to date %d times while the disk kept the program busy for %d ms", what, calm, 4*n)
	}
	if v := e.times(what, res, passes, ro.Faults); v != nil {
		return v
	}
	if keptBy > 0 {
		e.st.Probes["kept-shown"]++
	}
	return nil
}

var (
	reTotal   = regexp.MustCompile(`(?m)^Total run time: (.*)$`)
	rePassRun = regexp.MustCompile(`(?m)^Pass (\d+) run time: (.*)$`)
	reRunning = regexp.MustCompile(`(?m)^Running pass (\d+)/(\d+)$`)
)

// times checks the run times printed at the end against the simulated clock.
func (e *Env) times(what string, res *zsim.Result, passes int64, slow []zsim.Fault) *Violation {
	bad := func(f string, a ...any) *Violation {
		return viol("wrong-time", "%s: %s. It prints:\n%s", what, fmt.Sprintf(f, a...), res.Stdout)
	}
	m := reTotal.FindAllStringSubmatch(res.Stdout, -1)
	if len(m) != 1 {
		return bad("%d total run times are printed", len(m))
	}
	total, err := time.ParseDuration(m[0][1])
	took := time.Duration(res.SimNs)
	// nothing waits before the clock is read for the first or after the last time
	if err != nil || total > took || total < took-took/20-500*time.Microsecond {
		return bad("a total run time of %s is printed (%v) after %s", m[0][1], err, took)
	}
	e.st.Probes["total-time"]++
	cmd := e.c.S["cmd"]
	switch cmd {
	case "relindex":
		passes = max(e.c.P["p"], 1)
		if e.c.P["p"] < 0 {
			passes = int64(len(reRunning.FindAllString(res.Stdout, -1)))
		}
		for i, m := range reRunning.FindAllStringSubmatch(res.Stdout, -1) {
			if num(m[1]) != int64(i+1) || num(m[2]) != passes || int64(i) >= passes {
				return bad("pass %d of %d is announced as %s of %s", i+1, passes, m[1], m[2])
			}
		}
	case "rewritenodes":
	default:
		return nil
	}
	ps := rePassRun.FindAllStringSubmatch(res.Stdout, -1)
	if int64(len(ps)) != passes {
		return bad("%d run times of passes are printed, %d passes are made", len(ps), passes)
	}
	sum := time.Duration(0)
	for i, m := range ps {
		d, err := time.ParseDuration(m[2])
		if err != nil || d < 0 || num(m[1]) != int64(i) {
			return bad("the run time of pass %d is printed as %q", i, m[0])
		}
		sum += d
	}
	if sum > total {
		return bad("the run times of the passes add up to %s, the total is %s", sum, total)
	}
	if cmd == "rewritenodes" && len(slow) == 1 && slow[0].Op == "write" {
		// only the writers of the passes write
		if w := time.Duration(res.Fired["slow-write"]) * time.Duration(slow[0].Arg); sum < w {
			return bad("the run times of the passes add up to %s, but their writers waited for the disk for %s", sum, w)
		}
	}
	e.st.Probes["pass-times"]++
	return nil
}

func anyKept(t []KV) bool {
	for _, kv := range t {
		if keepKey(kv.K) {
			return true
		}
	}
	return false
}

func init() {
	reg("P33", "shown", 100, func(c *Case, r *R) { genShown(c, r, pick(r, writers...)) }, shown)
	reg("P33", "shown-large", 5, func(c *Case, r *R) {
		cmd := pick(r, "nodeindex", "nodeindex", "wayindex", "tagfilter")
		large(c, r, cmd)
		shownOpts(c, r)
		c.S["ui"] = pick(r, "300us", "1ms")
	}, shown)
	reg("P33", "shown-passes", 6, func(c *Case, r *R) {
		genWriter(c, r, "rewritenodes")
		bigIndex(c, r)
		shownOpts(c, r)
	}, shown)
}
