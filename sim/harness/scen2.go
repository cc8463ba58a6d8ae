//go:build go1.23

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"github.com/squizzling/osmindex/internal/zsim"
)

// Faults, interruption and damage: P09 to P13.

// readers are the programs that only read a PBF file and print.
var readers = []string{"blockcount", "entitycount", "entityfind"}

var fileErrs = []string{"EIO", "ENOSPC", "EMFILE", "EACCES"}

// genReader fills a case for one of the reading programs.
func genReader(c *Case, r *R, cmd string) {
	c.S["cmd"] = cmd
	c.P["w"] = int64(pick(r, 1, 2, 3, 4, 8))
	o := GenOpt{Nodes: pick(r, 4, 15, 60), Ways: pick(r, 0, 3, 20), Rels: pick(r, 0, 2, 12), MortonRefs: r.Bool(0.3), HugeIDs: r.Bool(0.3)}
	o.BigStrings = r.Bool(0.2)
	o.LongWays = r.Bool(0.1)
	c.Data = genData(r, o)
	if cmd == "entityfind" {
		var all []int64
		c.Data.each(func(b *Block, g *Group) {
			for _, n := range g.Nodes {
				all = append(all, n.ID)
			}
			for _, w := range g.Ways {
				all = append(all, w.ID)
			}
			for _, x := range g.Rels {
				all = append(all, x.ID)
			}
		})
		n := 1 + r.Intn(5)
		if r.Bool(0.1) {
			n = 40
		}
		for i := 0; i < n; i++ {
			if len(all) > 0 && r.Bool(0.06) {
				c.L = append(c.L, all[r.Intn(len(all))]+pick(r, int64(1)<<16, 1<<31, 1<<32))
			} else if len(all) > 0 && r.Bool(0.8) {
				c.L = append(c.L, all[r.Intn(len(all))])
			} else {
				c.L = append(c.L, 1+int64(r.Intn(50)))
			}
		}
	}
}

func (c *Case) isReader() bool {
	return len(c.S["cmd"]) > 0 && strings.Contains("blockcount entitycount entityfind", c.S["cmd"])
}

func (c *Case) readerArgs() []string {
	a := []string{"-i", "in.pbf"}
	if w := c.P["w"]; w > 0 {
		a = append(a, "-w", fmt.Sprint(w))
	}
	if c.S["cmd"] == "entityfind" {
		for _, id := range c.L {
			a = append(a, "-e", fmt.Sprint(id))
		}
		if len(c.L) == 0 {
			a = append(a, "-e", "1")
		}
	}
	return a
}

// program runs the case's program, whichever kind it is.
func (e *Env) program(ro RO) *zsim.Result {
	if e.c.isReader() {
		return e.run(ro, e.c.S["cmd"], e.c.readerArgs()...)
	}
	ref := e.c.S["refresh"]
	if ref == "" {
		ref = "0"
	}
	return e.run(ro, e.c.S["cmd"], e.c.writerArgs(e.c.P["w"], ref)...)
}

// answer is the part of a reading program's output that does not depend on
// the clock or on the order in which workers print.
func answer(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l != "" && !strings.HasPrefix(l, "Total run time") {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func genProgram(c *Case, r *R, writersOnly bool) {
	if !writersOnly && r.Bool(0.15) {
		genReader(c, r, pick(r, readers...))
		return
	}
	cmd := pick(r, writers...)
	genWriter(c, r, cmd)
	if c.P["p"] == 40 {
		c.P["p"] = 4
	}
}

// dryRun is a fault-free execution on a copy of the disk.
type dryRun struct {
	r   *zsim.Result
	fs  *zsim.FS
	out []byte
}

// dry returns nil when even the undisturbed run does not work: that is another
// property's business.
func (e *Env) dry() *dryRun {
	keep := e.fs
	e.fs = keep.Clone()
	r := e.program(RO{})
	d := &dryRun{r: r, fs: e.fs}
	e.fs = keep
	if !r.OK() {
		return nil
	}
	d.out, _ = d.fs.Get("out")
	return d
}

// inputsKept checks that the inputs still are what they were.
func (e *Env) inputsKept(before map[string][]byte) *Violation {
	for n, b := range before {
		got, ok := e.fs.Get(n)
		if !ok {
			return viol("input-changed", "input file %s is gone", n)
		}
		if !bytes.Equal(got, b) {
			return viol("input-changed", "input file %s was modified: %s", n, diffAt(b, got))
		}
	}
	return nil
}

func (e *Env) snapshot(names []string) map[string][]byte {
	m := map[string][]byte{}
	for _, n := range names {
		b, _ := e.fs.Get(n)
		m[n] = append([]byte(nil), b...)
	}
	return m
}

// opsOf lists the file operations of a run that faults can strike.
func opsOf(r *zsim.Result, ok func(o zsim.FsOp) bool) []zsim.FsOp {
	var out []zsim.FsOp
	for _, o := range r.Ops {
		if strings.HasPrefix(o.Path, "/dev/") {
			continue
		}
		if ok == nil || ok(o) {
			out = append(out, o)
		}
	}
	return out
}

var mutOps = map[string]bool{"create": true, "write": true, "remove": true, "rename": true, "truncate": true, "close": true, "seek": true}

// strike picks one operation of a recorded run and returns its description as
// a fault position: which operation on which file, counted from the start.
func strike(r *R, ops []zsim.FsOp) (op, path string, n int64, arg int64, ok bool) {
	if len(ops) == 0 {
		return
	}
	var i int
	if r.Bool(0.35) {
		// files and kinds first, so that rare operations get their share
		kinds := map[string][]int{}
		var ks []string
		for k, o := range ops {
			s := o.Op + "\x00" + o.Path
			if kinds[s] == nil {
				ks = append(ks, s)
			}
			kinds[s] = append(kinds[s], k)
		}
		g := kinds[ks[r.Intn(len(ks))]]
		i = g[r.Intn(len(g))]
	} else {
		i = r.Intn(len(ops))
	}
	o := ops[i]
	for _, x := range ops[:i] {
		if x.Op == o.Op && x.Path == o.Path {
			n++
		}
	}
	if o.Op == "write" && o.N > 0 {
		arg = pick(r, 0, int64(r.Intn(int(o.N))), int64(o.N)-1, int64(o.N))
	}
	return o.Op, o.Path, n, arg, true
}

// crashFault kills the process somewhere.
func crashFault(r *R, d *dryRun) []zsim.Fault {
	if r.Bool(0.3) {
		return []zsim.Fault{{Kind: "crash", N: int64(r.Intn(int(d.r.Steps) + 1))}}
	}
	op, path, n, arg, ok := strike(r, opsOf(d.r, func(o zsim.FsOp) bool { return mutOps[o.Op] }))
	if !ok {
		return nil
	}
	return []zsim.Fault{{Kind: "crash", Op: op, Path: path, N: n, Arg: arg}}
}

func cancelFault(r *R, d *dryRun) []zsim.Fault {
	n := int64(r.Intn(int(d.r.Steps) + 1))
	if r.Bool(0.1) {
		n = int64(r.Intn(5))
	}
	return []zsim.Fault{{Kind: "cancel", N: n}}
}

// ioFault makes one or more operations fail.
func ioFault(r *R, d *dryRun) []zsim.Fault {
	op, path, n, arg, ok := strike(r, opsOf(d.r, nil))
	if !ok {
		return nil
	}
	f := zsim.Fault{Kind: "io", Op: op, Path: path, N: n, Arg: arg, Err: pick(r, fileErrs...)}
	if op == "write" {
		f.Err = pick(r, "EIO", "ENOSPC", "ENOSPC")
	}
	if op == "open" || op == "create" {
		f.Err = pick(r, "EMFILE", "EACCES", "EIO", "ENOSPC")
	}
	if r.Bool(0.4) {
		f.Sticky = true
	}
	fs := []zsim.Fault{f}
	if r.Bool(0.1) {
		// a second, independent one
		op, path, n, arg, _ = strike(r, opsOf(d.r, nil))
		fs = append(fs, zsim.Fault{Kind: "io", Op: op, Path: path, N: n, Arg: arg, Err: "EIO"})
	}
	return fs
}

// pressCtrlC delivers Ctrl-C to the terminal.
func pressCtrlC(r *R, d *dryRun) []zsim.Fault {
	return []zsim.Fault{{Kind: "key", Arg: 3, N: int64(r.Intn(int(d.r.Steps) + 1))}}
}

var tmpSuffix = []string{".loc.tmp", ".pass_"}

func init() {
	// ------------------------------------------------------------ P09
	cancelRun := func(e *Env) *Violation {
		c := e.c
		ins := e.setup()
		before := e.snapshot(ins)
		d := e.dry()
		if d == nil {
			return nil
		}
		r := rng(c.Sub, "faults")
		fs := cancelFault(r, d)
		if c.S["refresh"] != "" && r.Bool(0.6) {
			fs = pressCtrlC(r, d)
		}
		if c.P["early"] > 0 {
			fs[0].N = int64(r.Intn(int(d.r.Steps/4) + 1))
		}
		var sc *zsim.Sched
		if c.P["early"] > 0 {
			s := genSched(rng(c.Sub, "early"), c.Heavy)
			s.Policy, s.Mean = pick(r, "random", "rr"), pick(r, 0, 60, 1000)
			sc = &s
		}
		res := e.program(RO{Faults: fs, Sched: sc})
		what := fmt.Sprintf("%s, cancelled", c.S["cmd"])
		if res.Hang != "" || res.Panic != "" {
			return notOK(what, res)
		}
		if v := e.inputsKept(before); v != nil {
			return v
		}
		for _, n := range e.fs.Names() {
			n = strings.TrimPrefix(n, "/w/")
			if n != "out" && before[n] == nil {
				return viol("leftover-file", "%s leaves %s behind", what, n)
			}
		}
		out := e.out("out")
		switch c.S["cmd"] {
		case "rewritenodes", "tagfilter", "decompress", "relindex":
			if !bytes.HasPrefix(d.out, out) {
				return viol("not-a-prefix", "%s: what was written (%d bytes) is not the beginning of the complete output (%d bytes): %s", what, len(out), len(d.out), diffAt(d.out, out))
			}
			if c.P["early"] > 0 && res.Cancelled && len(out) == len(d.out) && len(d.out) > 0 {
				return viol("cancel-ignored", "%s at step %d of about %d still wrote the complete output", what, res.CancelAtStep, d.r.Steps)
			}
		default:
			if c.P["early"] > 0 && res.Cancelled && bytes.Equal(out, d.out) && len(c.Data.Blocks) > 50 {
				return viol("cancel-ignored", "%s at step %d of about %d still wrote the complete output", what, res.CancelAtStep, d.r.Steps)
			}
		}
		return nil
	}
	reg("P09", "cancel", 70, func(c *Case, r *R) { genProgram(c, r, true) }, cancelRun)
	reg("P09", "cancel-ui", 25, func(c *Case, r *R) {
		genProgram(c, r, true)
		c.S["refresh"] = pick(r, "300us", "1ms", "100ms")
	}, cancelRun)
	reg("P09", "cancel-multi-pass", 8, func(c *Case, r *R) {
		genWriter(c, r, "rewritenodes")
		bigIndex(c, r)
	}, cancelRun)
	reg("P09", "stops-early", 14, func(c *Case, r *R) {
		manyBlocks(c, r, pick(r, writers...))
		c.P["w"] = int64(1 + r.Intn(4))
		c.P["early"] = 1
		for len(c.Data.Blocks) < 120 {
			c.Data.Blocks = append(c.Data.Blocks, c.Data.Blocks...)
			if len(c.Data.Blocks) < 3 {
				c.Data.Blocks = append(c.Data.Blocks, genHeader(r, 0))
			}
		}
		if c.S["cmd"] == "relindex" {
			c.P["p"] = int64(pick(r, 1, 2))
		}
	}, cancelRun)

	// ------------------------------------------------------------ P10
	reg("P10", "interrupted-index", 100, func(c *Case, r *R) {
		genWriter(c, r, pick(r, "nodeindex", "wayindex"))
		c.P["old"] = int64(pick(r, 0, 0, 1))
		c.P["how"] = int64(r.Intn(10))
		c.S["refresh"] = pick(r, "", "", "", "1ms")
	}, interruptedIndex)
	reg("P10", "interrupted-many-blocks", 20, func(c *Case, r *R) {
		manyBlocks(c, r, pick(r, "nodeindex", "wayindex"))
		c.P["how"] = int64(r.Intn(10))
	}, interruptedIndex)
	reg("P10", "interrupted-large", 8, func(c *Case, r *R) {
		large(c, r, pick(r, "nodeindex", "wayindex"))
		c.P["how"] = int64(r.Intn(10))
	}, interruptedIndex)

	// ------------------------------------------------------------ P11
	reg("P11", "io-error", 100, func(c *Case, r *R) { genProgram(c, r, false); c.P["how"] = int64(r.Intn(10)) }, ioErrorRun)
	reg("P11", "io-error-many", 10, func(c *Case, r *R) {
		manyBlocks(c, r, pick(r, writers...))
		c.P["how"] = int64(r.Intn(10))
	}, ioErrorRun)
	reg("P11", "io-error-multi-pass", 6, func(c *Case, r *R) {
		genWriter(c, r, "rewritenodes")
		bigIndex(c, r)
		c.P["how"] = int64(r.Intn(10))
	}, ioErrorRun)

	reg("P11", "io-error-large", 3, func(c *Case, r *R) {
		large(c, r, pick(r, writers...))
		c.P["how"] = int64(r.Intn(10))
	}, ioErrorRun)

	// ------------------------------------------------------------ P12
	reg("P12", "rerun", 100, func(c *Case, r *R) {
		genProgram(c, r, true)
		c.P["how"] = int64(r.Intn(10))
		c.P["stale"] = int64(r.Intn(3))
		c.P["times"] = int64(pick(r, 1, 1, 2, 3))
	}, rerunAfter)
	reg("P12", "rerun-multi-pass", 6, func(c *Case, r *R) {
		genWriter(c, r, "rewritenodes")
		bigIndex(c, r)
		c.P["how"] = int64(r.Intn(10))
		c.P["stale"] = int64(r.Intn(3))
		c.P["times"] = 1
	}, rerunAfter)
	reg("P12", "rerun-large", 3, func(c *Case, r *R) {
		large(c, r, pick(r, writers...))
		c.P["how"] = int64(r.Intn(10))
		c.P["stale"] = int64(r.Intn(3))
		c.P["times"] = 1
	}, rerunAfter)

	// ------------------------------------------------------------ P13
	reg("P13", "truncated", 50, func(c *Case, r *R) {
		c.S["damage"] = "truncate"
		genProgram(c, r, false)
		if r.Bool(0.3) {
			genReader(c, r, pick(r, readers...))
		}
		c.P["pos"] = int64(r.U64() >> 2)
		c.P["style"] = int64(r.Intn(6))
	}, damaged)
	reg("P13", "zero-tail", 20, func(c *Case, r *R) {
		c.S["damage"] = "zeros"
		genProgram(c, r, false)
		if r.Bool(0.3) {
			genReader(c, r, pick(r, readers...))
		}
		c.P["pos"] = int64(r.U64() >> 2)
		c.P["style"] = int64(r.Intn(6))
	}, damaged)
	reg("P13", "corrupt", 50, func(c *Case, r *R) {
		c.S["damage"] = "corrupt"
		genProgram(c, r, false)
		for tries := 0; !hasZlib(&c.Data) && tries < 20; tries++ {
			genProgram(c, r, false)
		}
		for i := range c.Data.Blocks {
			if b := &c.Data.Blocks[i]; b.Type == "OSMData" && r.Bool(0.5) {
				b.Comp = "zlib"
				b.Level = pick(r, 1, 6, 9)
			}
		}
		if r.Bool(0.25) && len(c.Data.Blocks) > 0 {
			// a block big enough for page-sized damage
			b := &c.Data.Blocks[r.Intn(len(c.Data.Blocks))]
			if b.Type == "OSMData" {
				b.Comp, b.Level, b.PadStr = "zlib", 1, pick(r, 20000, 100000)
			}
		}
		c.P["pos"] = int64(r.U64() >> 2)
		c.P["style"] = int64(r.Intn(10))
	}, damaged)
}

func hasZlib(d *Dataset) bool {
	for i := range d.Blocks {
		if d.Blocks[i].Type == "OSMData" && d.Blocks[i].Comp == "zlib" {
			return true
		}
	}
	return false
}

// interrupt draws the way a run ends prematurely.
func (e *Env) interrupt(r *R, d *dryRun, how int64) []zsim.Fault {
	switch {
	case how < 4:
		return crashFault(r, d)
	case how < 6:
		if e.c.S["refresh"] != "" {
			return pressCtrlC(r, d)
		}
		return cancelFault(r, d)
	default:
		return ioFault(r, d)
	}
}

// interruptedIndex: an index whose construction was interrupted is never used.
func interruptedIndex(e *Env) *Violation {
	c := e.c
	e.setup()
	var old []byte
	if c.P["old"] == 1 {
		// a complete index of something else is already there
		if c.S["cmd"] == "nodeindex" {
			old = encodeNodeIdx([]idLoc{{7, 99}, {8, 100}}, 1000, 0)
		} else {
			old = encodeWayIdx([]int64{5, 9}, map[int64][]int64{5: {1, 2}, 9: {4}}, 3)
		}
		e.fs.Put("out", old)
	}
	d := e.dry()
	if d == nil {
		return nil
	}
	r := rng(c.Sub, "faults")
	res := e.program(RO{Faults: e.interrupt(r, d, c.P["how"]), Tsc: int(c.P["tsc"])})
	if res.Hang != "" {
		return notOK(c.S["cmd"]+", interrupted", res)
	}
	got, ok := e.fs.Get("out")
	if !ok || bytes.Equal(got, d.out) || old != nil && bytes.Equal(got, old) {
		return nil
	}
	if e.expect() == nil {
		return nil // complete after all, only laid out differently
	}
	return e.refused(fmt.Sprintf("%s ended by %s (%s)", c.S["cmd"], res.Status(), faultNames(e.used)), got, d)
}

// refused: no program accepts the incomplete index under the name out.
func (e *Env) refused(how string, got []byte, d *dryRun) *Violation {
	c := e.c
	// a file whose entities refer to what is in the index
	probe := Dataset{Blocks: []Block{{Type: "OSMHeader", Comp: "raw"}, {Type: "OSMData", Comp: "raw", Groups: []Group{{}}}}}
	g := &probe.Blocks[1].Groups[0]
	ids := map[int64]bool{}
	c.Data.each(func(b *Block, x *Group) {
		for _, n := range x.Nodes {
			ids[n.ID] = true
		}
		for _, w := range x.Ways {
			ids[w.ID] = true
		}
	})
	var l []int64
	for id := range ids {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	if len(l) > 500 {
		l = l[:500]
	}
	type use struct {
		cmd  string
		args []string
	}
	var uses []use
	if c.S["cmd"] == "nodeindex" {
		g.Ways = []Way{{ID: 1, Refs: l}}
		uses = []use{
			{"rewritenodes", []string{"-i", "probe.pbf", "-o", "used", "-x", "out", "-w", "1", "-r", "0"}},
			{"dumpnodeindex", []string{"-i", "out", "-p", "-s"}},
		}
	} else {
		rel := Rel{ID: 1}
		for _, id := range l {
			if id < 1<<31 {
				rel.Members = append(rel.Members, Member{Type: 1, ID: id})
			}
		}
		g.Rels = []Rel{rel}
		uses = []use{
			{"relindex", []string{"-i", "probe.pbf", "-o", "used", "-x", "out", "-w", "1", "-r", "0"}},
			{"dumpwayindex", []string{"-i", "out", "-p", "-s"}},
		}
	}
	pb, _ := probe.encode()
	e.fs.Put("probe.pbf", pb)
	for _, u := range uses {
		q := zsim.Sched{Seed: 1, Policy: "rr"}
		x := e.run(RO{Sched: &q}, u.cmd, u.args...)
		if x.Hang != "" {
			return viol("hang", "%s left %d bytes of %d; %s", how, len(got), len(d.out), notOK(u.cmd, x).Msg)
		}
		if x.OK() {
			return viol("incomplete-accepted", "%s left an incomplete index (%d bytes, complete: %d, %s); %s accepts it", how, len(got), len(d.out), diffAt(d.out, got), u.cmd)
		}
	}
	return nil
}

func faultNames(fs []PF) string {
	var s []string
	for _, f := range fs {
		s = append(s, f.F.String())
	}
	return strings.Join(s, "; ")
}

// ioErrorRun: failures of the operating system are not swallowed.
func ioErrorRun(e *Env) *Violation {
	c := e.c
	ins := e.setup()
	before := e.snapshot(ins)
	d := e.dry()
	if d == nil {
		return nil
	}
	r := rng(c.Sub, "faults")
	ro := RO{}
	var shortOnly bool
	switch how := c.P["how"]; {
	case how < 6:
		ro.Faults = ioFault(r, d)
		for i := range ro.Faults {
			if f := &ro.Faults[i]; f.Op == "close" && r.Bool(0.7) {
				f.Arg = pick(r, 1, 8, 1+int64(r.Intn(1000)), 1<<40) // written data is lost
			}
		}
	case how < 8:
		// the disk fills up
		total := int64(0)
		for _, o := range d.r.Ops {
			if o.Op == "write" {
				total += int64(o.N)
			}
		}
		if total == 0 {
			total = 1
		}
		ro.Faults = []zsim.Fault{{Kind: "full", Arg: int64(r.U64() % uint64(total+1))}}
	case how < 9:
		// reads deliver less than asked for, which is not an error
		shortOnly = true
		op, path, n, _, ok := strike(r, opsOf(d.r, func(o zsim.FsOp) bool { return o.Op == "read" }))
		if ok {
			ro.Faults = []zsim.Fault{{Kind: "shortread", Op: op, Path: path, N: n, Arg: int64(r.Intn(1 << 20)), Sticky: r.Bool(0.7)}}
		}
	default:
		// too many open files
		ro.Faults = []zsim.Fault{{Kind: "fdlimit", Arg: int64(3 + r.Intn(max(1, d.r.MaxFD-3)))}}
	}
	res := e.program(ro)
	what := fmt.Sprintf("%s (%s)", c.S["cmd"], faultNames(e.used))
	if res.Hang != "" {
		return notOK(what, res)
	}
	if v := e.inputsKept(before); v != nil {
		return v
	}
	if !res.OK() {
		if shortOnly {
			return notOK(what+": a short read is not an error, but", res)
		}
		return nil
	}
	if c.isReader() {
		if answer(res.Stdout) != answer(d.r.Stdout) {
			return viol("silent-failure", "%s succeeds with another answer: %q instead of %q", what, res.Stdout, d.r.Stdout)
		}
		return nil
	}
	got, ok := e.fs.Get("out")
	if !ok {
		return viol("silent-failure", "%s succeeds without an output file", what)
	}
	if !bytes.Equal(got, d.out) {
		return viol("silent-failure", "%s reports success but the output is wrong: %s", what, diffAt(d.out, got))
	}
	return nil
}

// rerunAfter: running the program again after an interruption gives what an
// undisturbed run gives.
func rerunAfter(e *Env) *Violation {
	c := e.c
	ins := e.setup()
	before := e.snapshot(ins)
	d := e.dry()
	if d == nil {
		return nil
	}
	r := rng(c.Sub, "faults")
	isIn := map[string]bool{}
	for _, n := range ins {
		isIn["/w/"+n] = true
	}
	if c.P["stale"] > 0 {
		// junk under the names the program uses
		seen := map[string]bool{}
		for _, o := range d.r.Ops {
			if o.Op == "create" && !seen[o.Path] && !isIn[o.Path] {
				seen[o.Path] = true
				if c.P["stale"] == 1 && r.Bool(0.5) {
					continue
				}
				junk := make([]byte, r.Intn(3*len(d.out)+4096))
				for i := range junk {
					junk[i] = byte(r.U64())
				}
				e.fs.Put(strings.TrimPrefix(o.Path, "/w/"), junk)
			}
		}
	}
	for k := int64(0); k < c.P["times"]; k++ {
		res := e.program(RO{Faults: e.interrupt(r, d, (c.P["how"]+k*3)%10)})
		if res.Hang != "" {
			return notOK(c.S["cmd"]+", interrupted", res)
		}
	}
	if v := e.inputsKept(before); v != nil {
		return v
	}
	res := e.program(RO{Poison: e.poison()})
	what := fmt.Sprintf("%s, run again after an interrupted run (%s)", c.S["cmd"], faultNames(e.used))
	if v := notOK(what, res); v != nil {
		return v
	}
	if v := e.inputsKept(before); v != nil {
		return v
	}
	if got := e.out("out"); !bytes.Equal(got, d.out) {
		return viol("stale-state", "%s: the output differs from that of an undisturbed run: %s", what, diffAt(d.out, got))
	}
	used := map[string]bool{}
	for _, o := range res.Ops {
		used[o.Path] = true
	}
	for _, n := range e.fs.Names() {
		if n != "/w/out" && !isIn[n] && used[n] {
			return viol("leftover-file", "%s leaves %s behind", what, n)
		}
	}
	return nil
}

// damaged: a damaged input file is noticed.
func damaged(e *Env) *Violation {
	c := e.c
	e.setup()
	d := e.dry()
	if d == nil {
		return nil
	}
	r := rng(uint64(c.P["pos"]), "damage")
	file := append([]byte(nil), e.file...)
	var what string
	if c.S["damage"] == "truncate" {
		bounds := map[int]bool{0: true, len(file): true}
		for _, s := range e.spans {
			bounds[s.End] = true
			bounds[s.Start] = true
		}
		var at int
		ok := false
		for tries := 0; tries < 50 && !ok; tries++ {
			s := e.spans[r.Intn(len(e.spans))]
			switch c.P["style"] {
			case 0:
				at = s.Start + 1 + r.Intn(4) // inside the length
			case 1:
				at = s.Start + 4 + r.Intn(max(1, s.Blob-s.Start-4)) // inside the block header
			case 2:
				at = s.Blob // between block header and block
			case 3:
				at = s.End - 1 - r.Intn(12)
			case 4:
				at = len(file) - 1 - r.Intn(min(64, len(file)-1))
			default:
				at = r.Intn(len(file))
			}
			ok = at > 0 && at < len(file) && !bounds[at]
		}
		if !ok {
			return nil
		}
		file = file[:at]
		what = fmt.Sprintf("input cut off at byte %d of %d", at, len(e.file))
	} else if c.S["damage"] == "zeros" {
		// a file of the right size whose end was never written
		k := 0
		for k < len(e.spans) && e.spans[k].Type == "OSMHeader" {
			k++
		}
		if k == len(e.spans) {
			return nil
		}
		k += r.Intn(len(e.spans) - k)
		s := e.spans[k]
		at := s.Start
		switch c.P["style"] {
		case 0:
			at = s.Start
		case 1:
			at = s.Start + r.Intn(4)
		case 2:
			at = s.Start + r.Intn(max(1, s.Blob-s.Start))
		default:
			at = s.Start + r.Intn(s.End-s.Start)
		}
		if at >= s.Blob && k == len(e.spans)-1 && (s.Type != "OSMData" || s.ZEnd == 0) {
			return nil // nothing tells that part of the data is not real
		}
		for i := at; i < len(file); i++ {
			file[i] = 0
		}
		if bytes.Equal(file, e.file) {
			return nil
		}
		what = fmt.Sprintf("zeros from byte %d of %d to the end", at, len(file))
	} else {
		var zs []span
		for _, s := range e.spans {
			if s.ZEnd > s.ZStart && s.Type == "OSMData" {
				zs = append(zs, s)
			}
		}
		if len(zs) == 0 {
			return nil
		}
		s := zs[r.Intn(len(zs))]
		n := s.ZEnd - s.ZStart
		switch c.P["style"] {
		case 0, 1:
			k := s.ZStart + r.Intn(n)
			file[k] ^= 1 << r.Intn(8)
			what = fmt.Sprintf("one bit flipped in byte %d", k)
		case 2:
			k := s.ZEnd - 1 - r.Intn(min(4, n))
			file[k] ^= byte(1 + r.Intn(255))
			what = fmt.Sprintf("byte %d of the checksum changed", k)
		case 3:
			k := s.ZStart + r.Intn(n)
			file[k] = byte(r.U64())
			what = fmt.Sprintf("byte %d replaced", k)
		case 4:
			for i := 0; i < 1+r.Intn(5); i++ {
				file[s.ZStart+r.Intn(n)] ^= byte(1 + r.Intn(255))
			}
			what = "several bytes changed"
		case 5:
			// a page that was never written
			k := s.ZStart + r.Intn(n)
			k -= k % 512
			for i := max(k, s.ZStart); i < min(k+pick(r, 512, 4096), s.ZEnd); i++ {
				file[i] = 0
			}
			what = "a page of zeros"
		case 6:
			// the end of the data was never written
			for i := s.ZStart + r.Intn(n); i < s.ZEnd; i++ {
				file[i] = 0
			}
			what = "zeros at the end of the compressed data"
		case 8, 9:
			// the announced length
			at := s.Blob + 1
			if file[s.Blob] != 2<<3 {
				at = s.ZEnd + 1
			}
			old, w := binary.Uvarint(file[at:])
			v := int64(old)
			switch r.Intn(4) {
			case 0:
				v += int64(1 + r.Intn(40))
			case 1:
				v -= int64(1 + r.Intn(40))
			case 2:
				v = int64(r.Intn(int(v) + 1))
			default:
				v = int64(r.Intn(2*int(v) + 2))
			}
			v = min(max(v, 0), 1<<(7*w)-1)
			for i := 0; i < w; i++ {
				file[at+i] = byte(v>>(7*i))&0x7f | 0x80
			}
			file[at+w-1] &= 0x7f
			e.st.Faults["length-changed"]++
			what = fmt.Sprintf("the announced length %d replaced with %d", old, v)
		default:
			a, b := s.ZStart+r.Intn(n), s.ZStart+r.Intn(n)
			file[a], file[b] = file[b], file[a]
			what = fmt.Sprintf("bytes %d and %d exchanged", a, b)
		}
		if bytes.Equal(file, e.file) {
			return nil
		}
		if c.P["style"] < 8 {
			what += " inside compressed data"
		}
	}
	e.fs.Put("in.pbf", file)
	res := e.program(RO{})
	what = c.S["cmd"] + ": " + what
	if res.Hang != "" {
		return notOK(what, res)
	}
	if !res.OK() {
		return nil
	}
	if c.S["damage"] == "truncate" {
		return viol("truncation-accepted", "%s: the program reports success", what)
	}
	if c.isReader() {
		if answer(res.Stdout) != answer(d.r.Stdout) {
			return viol("corruption-accepted", "%s: the program succeeds with another answer: %q instead of %q", what, res.Stdout, d.r.Stdout)
		}
		return nil
	}
	got := e.out("out")
	if c.S["cmd"] == "decompress" || c.S["cmd"] == "rewritenodes" || c.S["cmd"] == "tagfilter" {
		// damage that leaves the compressed data's meaning alone may be copied
		want, _ := decodeFile(d.out)
		have, err := decodeFile(got)
		if err != nil {
			return viol("corruption-accepted", "%s: the program succeeds and its output is no valid file: %v", what, err)
		}
		if len(want) != len(have) {
			return viol("corruption-accepted", "%s: the program succeeds with %d blocks instead of %d", what, len(have), len(want))
		}
		for i := range want {
			if want[i].Type != have[i].Type || !bytes.Equal(want[i].Raw, have[i].Raw) {
				return viol("corruption-accepted", "%s: the program succeeds with other data in block %d: %s", what, i, diffAt(want[i].Raw, have[i].Raw))
			}
		}
		return nil
	}
	if !bytes.Equal(got, d.out) {
		return viol("corruption-accepted", "%s: the program succeeds with other data: %s", what, diffAt(d.out, got))
	}
	return nil
}
