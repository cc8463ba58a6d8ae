//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/squizzling/osmindex/internal/zsim"
)

// Scen is one kind of simulated execution for a property.
type Scen struct {
	name   string
	weight int
	gen    func(c *Case, r *R)
	run    func(e *Env) *Violation
}

var scenarios = map[string][]Scen{}

func reg(prop, name string, weight int, gen func(c *Case, r *R), run func(e *Env) *Violation) {
	scenarios[prop] = append(scenarios[prop], Scen{name, weight, gen, run})
}

func makeCase(prop string, seed uint64, idx int) *Case {
	c := &Case{Prop: prop, Seed: seed, Index: idx, P: map[string]int64{}, S: map[string]string{}}
	r := rng(seed*0x9e3779b97f4a7c15+uint64(idx)+1, prop)
	c.Sub = r.U64()
	ss := scenarios[prop]
	if only := os.Getenv("ZSCEN"); only != "" { // for development: one scenario
		for _, x := range ss {
			if x.name == only {
				ss = []Scen{x}
			}
		}
	}
	tot := 0
	for _, s := range ss {
		tot += s.weight
	}
	k := r.Intn(tot)
	for _, s := range ss {
		if k < s.weight {
			c.Scen = s.name
			s.gen(c, r)
			return c
		}
		k -= s.weight
	}
	panic("unreachable")
}

// runCase executes a case once.
func runCase(c *Case) (*Violation, *Env) {
	for _, s := range scenarios[c.Prop] {
		if s.name == c.Scen {
			e := newEnv(c)
			v := s.run(e)
			return v, e
		}
	}
	panic("no scenario " + c.Prop + "/" + c.Scen)
}

// ---------------------------------------------------------------- the six writers

var writers = []string{"nodeindex", "wayindex", "relindex", "rewritenodes", "tagfilter", "decompress"}

// genWriter fills a case for running one of the writing programs.
func genWriter(c *Case, r *R, cmd string) {
	c.S["cmd"] = cmd
	c.P["w"] = int64(pick(r, 1, 2, 2, 3, 4, 4, 6, 8))
	o := GenOpt{Nodes: pick(r, 4, 15, 40, 120), Ways: pick(r, 0, 3, 10, 30), Rels: pick(r, 0, 2, 8), MissingRefs: true}
	o.BigStrings = r.Bool(0.15)
	o.Big = r.Bool(0.03)
	switch cmd {
	case "nodeindex":
		o.HugeIDs = true
		o.Nodes = pick(r, 4, 20, 60, 200)
		o.Ways = pick(r, 0, 0, 3)
	case "wayindex":
		o.Ways, o.MinWays = pick(r, 4, 12, 40), r.Intn(2)
		o.Nodes = pick(r, 0, 0, 6, 30)
		o.MortonRefs = true
		o.AllMorton = r.Bool(0.5)
		o.LongWays = r.Bool(0.1)
		c.P["a"] = int64(pick(r, -1, 0, 1, 2, 3, 3, 4, 6))
	case "relindex":
		o.Rels, o.MinRels = pick(r, 3, 10, 30), r.Intn(2)
		o.Ways = pick(r, 1, 10, 30)
		o.Nodes = pick(r, 0, 5)
		o.MortonRefs, o.AllMorton = true, r.Bool(0.6)
		c.P["p"] = int64(pick(r, -1, 1, 1, 2, 3, 5, 9))
		c.P["a"] = int64(pick(r, 0, 1, 3, 3, 5))
	case "rewritenodes":
		o.Ways, o.MinWays = pick(r, 4, 12, 40), r.Intn(2)
		o.MortonRefs = r.Bool(0.3)
		o.LongWays = r.Bool(0.08)
		o.HugeIDs = r.Bool(0.2)
		c.P["run"] = int64(pick(r, 1, 3, 50, 1000000))
		c.P["gap"] = int64(pick(r, 0, 1, 1, 3))
		if r.Bool(0.2) {
			c.P["m"] = int64(pick(r, 1, 2, 1000))
		}
	case "tagfilter":
		o.Tags = true
	}
	c.Data = genData(r, o)
	if r.Bool(0.06) {
		// only the indexes need ids in ascending order
		switch cmd {
		case "relindex":
			disorder(c, r, "rels")
		case "rewritenodes":
			disorder(c, r, pick(r, "ways", "rels"))
		case "tagfilter", "decompress":
			disorder(c, r, pick(r, "nodes", "ways", "rels"))
		}
	}
}

// bigIndex makes a rewritenodes case with a node index large enough for several
// memory-bounded passes.
func bigIndex(c *Case, r *R) {
	c.P["idxn"] = int64(131072*pick(r, 1, 1, 2, 3, 4) + pick(r, 0, 1, -1, 2, 3, 17, 1000, 60000))
	c.P["idxseed"] = int64(r.Intn(1 << 30))
	c.P["idxmode"] = int64(r.Intn(4))
	c.P["run"] = int64(pick(r, 50, 8000, 8000, 16000, 100000))
	c.P["gap"] = int64(pick(r, 0, 1))
	c.P["m"] = int64(pick(r, 1, 1, 1, 2))
	c.Heavy = true
	nodes := synthIndex(c)
	last := nodes[len(nodes)-1].id
	for i := range c.Data.Blocks {
		for j := range c.Data.Blocks[i].Groups {
			ws := c.Data.Blocks[i].Groups[j].Ways
			for k := range ws {
				for x := range ws[k].Refs {
					if ws[k].Refs[x] > 0 && !r.Bool(0.1) {
						switch r.Intn(12) {
						case 0:
							ws[k].Refs[x] = last
						case 1:
							ws[k].Refs[x] = last - int64(r.Intn(5))
						case 2:
							ws[k].Refs[x] = 1 + int64(r.Intn(5))
						default:
							ws[k].Refs[x] = nodes[r.Intn(len(nodes))].id + int64(r.Intn(20)/19)
						}
						ws[k].Refs[x] = max(1, ws[k].Refs[x])
					}
				}
			}
		}
	}
}

// synthIndex lists the nodes of a large synthetic index.
func synthIndex(c *Case) []idLoc {
	n := int(c.P["idxn"])
	out := make([]idLoc, n)
	id := int64(1)
	sd := c.P["idxseed"]
	for i := range out {
		h := mixBits(sd, int64(i))
		out[i] = idLoc{id, mortonOf(int64(h%3600000000)-1800000000, int64((h>>20)%1800000000)-900000000)}
		switch c.P["idxmode"] {
		case 0:
			id++
		case 1:
			id += 1 + int64(h>>40&1)
		case 2:
			id++
			if h>>40%5000 == 0 {
				id += int64(h >> 50 % 1000)
			}
		default:
			id++
			if i == n-2 || h>>40%3000 == 0 {
				id += 5
			}
		}
	}
	return out
}

// nodeIndexFor builds the index the case's rewriter reads, and its contents.
func nodeIndexFor(c *Case) ([]byte, map[int64]int64) {
	run, gap := int(c.P["run"]), c.P["gap"]
	if run == 0 {
		run = 1000000
	}
	if c.P["idxn"] > 0 {
		nodes := synthIndex(c)
		m := make(map[int64]int64, len(nodes))
		for _, n := range nodes {
			m[n.id] = n.loc
		}
		return encodeNodeIdx(nodes, run, gap), m
	}
	m := c.Data.nodeLocs()
	var nodes []idLoc
	for _, id := range sortedIDs(m) {
		nodes = append(nodes, idLoc{id, m[id]})
	}
	return encodeNodeIdx(nodes, run, gap), m
}

func wayIndexFor(c *Case) ([]byte, map[int64][]int64) {
	ids, locs := c.Data.wayLocs()
	al := c.P["a"]
	if al < 0 {
		al = 3
	}
	return encodeWayIdx(ids, locs, uint(al)), locs
}

// setup puts the side inputs of the writer on the disk; returns the inputs' names.
func (e *Env) setup() []string {
	switch e.c.S["cmd"] {
	case "rewritenodes":
		b, _ := nodeIndexFor(e.c)
		e.fs.Put("idx", b)
		return []string{"in.pbf", "idx"}
	case "relindex":
		b, _ := wayIndexFor(e.c)
		e.fs.Put("idx", b)
		return []string{"in.pbf", "idx"}
	}
	return []string{"in.pbf"}
}

func (c *Case) writerArgs(w int64, refresh string) []string {
	a := []string{"-i", "in.pbf", "-o", "out", "-r", refresh}
	if w > 0 {
		a = append(a, "-w", fmt.Sprint(w))
	}
	switch c.S["cmd"] {
	case "wayindex":
		if c.P["a"] >= 0 {
			a = append(a, "-a", fmt.Sprint(c.P["a"]))
		}
	case "relindex":
		a = append(a, "-x", "idx")
		if c.P["p"] >= 0 {
			a = append(a, "-p", fmt.Sprint(c.P["p"]))
		}
	case "rewritenodes":
		a = append(a, "-x", "idx")
		if m := c.P["m"]; m > 0 {
			a = append(a, "-m", fmt.Sprint(m))
		}
		if t := c.S["t"]; t != "" {
			a = append(a, "-t", t)
		}
	}
	return a
}

// writer runs the case's program.
func (e *Env) writer(ro RO) *zsim.Result {
	return e.run(ro, e.c.S["cmd"], e.c.writerArgs(e.c.P["w"], "0")...)
}

// expect checks the complete output of the case's program against the model.
func (e *Env) expect() *Violation {
	c := e.c
	f, ok := e.fs.Get("out")
	if !ok {
		return viol("no-output", "%s succeeded without an output file", c.S["cmd"])
	}
	d := &c.Data
	switch c.S["cmd"] {
	case "nodeindex":
		return checkNodeIdx(f, d.nodeLocs(), rng(c.Sub, "absent"))
	case "wayindex":
		ids, locs := d.wayLocs()
		return checkWayIdx(f, ids, locs)
	case "relindex":
		_, locs := wayIndexFor(c)
		return checkRelIdx(f, d.relEntries(locs))
	case "rewritenodes":
		_, locs := nodeIndexFor(c)
		if v := checkPBF(f, d.rewritten(locs)); v != nil {
			return v
		}
		got, _ := decodeFile(f)
		return d.headersKept(got)
	case "tagfilter":
		return checkFiltered(f, d.filtered())
	case "decompress":
		return d.checkDecompressed(f)
	}
	panic("expect: " + c.S["cmd"])
}

func (e *Env) poison() bool { return e.c.Sub>>7&1 == 1 }

// faithful: run the program once, compare with the model.
func faithful(e *Env) *Violation {
	ins := e.setup()
	r := e.writer(RO{Poison: e.poison(), Tsc: int(e.c.P["tsc"])})
	if v := notOK(e.c.S["cmd"], r); v != nil {
		return v
	}
	if v := e.expect(); v != nil {
		return v
	}
	return e.onlyFiles(append(ins, "out")...)
}

// manyBlocks: hundreds to thousands of tiny blocks.
func manyBlocks(c *Case, r *R, cmd string) {
	genWriter(c, r, cmd)
	n := pick(r, 200, 500, 1500)
	o := GenOpt{Nodes: n, MaxBlock: 1 + r.Intn(3), NoExotic: true, RawOnly: true}
	switch cmd {
	case "wayindex", "rewritenodes":
		o = GenOpt{Ways: n / 2, MinWays: n / 4, Nodes: n / 4, MaxBlock: 1 + r.Intn(3), NoExotic: true, RawOnly: r.Bool(0.7)}
	case "relindex":
		o = GenOpt{Rels: n / 2, MinRels: n / 4, Ways: 20, MaxBlock: 1 + r.Intn(3), NoExotic: true, RawOnly: r.Bool(0.7)}
	case "tagfilter":
		o.Tags = true
	}
	c.Data = genData(r, o)
}

// bigRels adds relations with as many members as the database allows.
func bigRels(r *R, add func(Fill), seed int64) {
	if r.Bool(0.3) {
		add(Fill{Kind: "rels", N: 1 + r.Intn(3), Start: 1, Stride: 1, Seed: seed, Refs: pick(r, 6000, 17000, 32000, 70000), RefMax: pick(r, int64(300), 1<<40), Tags: true, Mixed: r.Bool(0.8)})
	}
}

// manyTagsFill adds an entity whose keys or values need more bytes than usual.
func manyTagsFill(r *R, add func(Fill), seed int64) {
	if r.Bool(0.3) {
		add(Fill{Kind: pick(r, "ways", "rels", "nodes"), N: 1, Start: 1 << 41, Stride: 1, Seed: seed, Refs: 3, RefMax: 100, TagN: pick(r, 2000, 6000, 9000, 16000)})
	}
}

// large: enough data for the copy loops to run more than once.
func large(c *Case, r *R, cmd string) {
	genWriter(c, r, cmd)
	c.Heavy = true
	o := GenOpt{Nodes: 5, Ways: 5, Rels: 3, MaxBlock: 5, NoExotic: true}
	c.Data = genData(r, o)
	seed := int64(r.Intn(1 << 30))
	add := func(f Fill) {
		b := Block{Type: "OSMData", Comp: pick(r, "raw", "zlib", "zlib"), Level: 1, Fill: &f}
		c.Data.Blocks = append(c.Data.Blocks, b)
	}
	// drop what the small generator made except the header: order matters
	var hd []Block
	for _, b := range c.Data.Blocks {
		if b.Type == "OSMHeader" {
			hd = append(hd, b)
		}
	}
	c.Data.Blocks = hd
	switch cmd {
	case "nodeindex", "tagfilter", "decompress":
		tot := 131072 + r.Intn(150000)
		if cmd != "nodeindex" {
			tot = 20000
		}
		id := int64(1 + r.Intn(3))
		for tot > 0 {
			n := min(tot, pick(r, 8000, 8000, 16000, 30000, 70000, 140000))
			st := pick(r, int64(1), 1, 2, 3)
			add(Fill{Kind: "nodes", N: n, Start: id, Stride: st, Seed: seed, Tags: cmd == "tagfilter"})
			id += int64(n)*st + int64(r.Intn(4))
			tot -= n
		}
		if cmd == "tagfilter" {
			if r.Bool(0.03) {
				// more than 2 MiB of ids in one group
				add(Fill{Kind: "nodes", N: 600000, Start: id, Stride: 1 << 42, Seed: seed, Tags: true})
			}
			if r.Bool(0.2) {
				// more than 65536 strings in a block
				add(Fill{Kind: "nodes", N: 80000 + r.Intn(40000), Start: id, Stride: 1, Seed: seed, Tags: true, Unique: true})
			}
			bigRels(r, add, seed)
			manyTagsFill(r, add, seed)
		}
	case "wayindex":
		id := int64(1)
		tot := pick(r, 9000, 15000, 30000)
		for tot > 0 {
			n := min(tot, 8000)
			add(Fill{Kind: "ways", N: n, Start: id, Stride: 1, Seed: seed, Refs: pick(r, 10, 20), RefMax: 1 << 40})
			id += int64(n)
			tot -= n
		}
		c.P["a"] = int64(pick(r, -1, 0, 3, 6))
	case "rewritenodes":
		add(Fill{Kind: "nodes", N: 2000, Start: 1, Stride: 1, Seed: seed})
		add(Fill{Kind: "ways", N: 2000 + r.Intn(6000), Start: 1, Stride: 1, Seed: seed, Refs: 10, RefMax: 2100, Tags: r.Bool(0.5)})
		bigRels(r, add, seed)
		manyTagsFill(r, add, seed)
	case "relindex":
		// more than a million values in the output
		add(Fill{Kind: "ways", N: 2000, Start: 1, Stride: 1, Seed: seed, Refs: 60, RefMax: 1 << 40})
		id := int64(1)
		for i := 0; i < pick(r, 2, 4, 6); i++ {
			add(Fill{Kind: "rels", N: 500, Start: id, Stride: 1, Seed: seed, Refs: 20, RefMax: 2050})
			id += 500
		}
		bigRels(r, func(f Fill) { f.Start = 100000; add(f) }, seed)
		c.P["p"] = int64(pick(r, 1, 2, 3))
	}
}

func init() {
	for prop, cmd := range map[string]string{"P01": "nodeindex", "P02": "wayindex", "P03": "relindex", "P04": "rewritenodes", "P05": "tagfilter", "P06": "decompress"} {
		cmd := cmd
		reg(prop, "faithful", 100, func(c *Case, r *R) { genWriter(c, r, cmd) }, faithful)
		reg(prop, "many-blocks", 3, func(c *Case, r *R) { manyBlocks(c, r, cmd) }, faithful)
		reg(prop, "large", 1, func(c *Case, r *R) { large(c, r, cmd) }, faithful)
	}
	reg("P04", "multi-pass", 12, func(c *Case, r *R) { genWriter(c, r, "rewritenodes"); bigIndex(c, r) }, faithful)
	reg("P02", "id-limit", 6, func(c *Case, r *R) {
		genWriter(c, r, "wayindex")
		id := pick(r, int64(1)<<31, 1<<31+1, 1<<31+5, 1<<32, 1<<32+9, 1<<33, 1<<40+3, 1<<62)
		b := Block{Type: "OSMData", Comp: "raw", Groups: []Group{{Ways: []Way{{ID: id, Refs: []int64{5, 6}}}}}}
		at := len(c.Data.Blocks)
		if r.Bool(0.3) {
			// ids of entities that are not uploaded yet are negative
			b.Groups[0].Ways[0].ID = -pick(r, int64(1), 1, 2, 77, 1<<31-1, 1<<31, 1<<31+1, 1<<40)
			at = 0
			if len(c.Data.Blocks) > 0 && c.Data.Blocks[0].Type == "OSMHeader" {
				at = 1
			}
		}
		c.Data.Blocks = append(c.Data.Blocks[:at:at], append([]Block{b}, c.Data.Blocks[at:]...)...)
	}, func(e *Env) *Violation {
		e.setup()
		r := e.writer(RO{})
		if r.Hang != "" {
			return notOK("wayindex", r)
		}
		if r.OK() {
			ids, locs := e.c.Data.wayLocs()
			if v := checkWayIdx(e.out("out"), ids, locs); v != nil {
				return viol("silent-overflow", "a way id beyond the limits of the format is accepted and the index is wrong: %s", v.Msg)
			}
		}
		return nil
	})

	// ------------------------------------------------------------ P07
	reg("P07", "relindex-passes", 40, func(c *Case, r *R) {
		genWriter(c, r, "relindex")
		c.P["p"] = int64(pick(r, 2, 3, 4, 5, 8, 13, 40))
	}, func(e *Env) *Violation {
		ins := e.setup()
		p := e.c.P["p"]
		e.c.P["p"] = 1
		r := e.writer(RO{})
		e.c.P["p"] = p
		if v := notOK("relindex with one pass", r); v != nil {
			return v
		}
		one := e.out("out")
		e.fs.Del("out")
		r = e.writer(RO{Poison: e.poison()})
		if v := notOK(fmt.Sprintf("relindex with %d passes", p), r); v != nil {
			return v
		}
		if !bytes.Equal(one, e.out("out")) {
			if v := e.expect(); v != nil {
				return viol("pass-dependent", "%d passes give another result than one pass: %s (%s)", p, v.Msg, diffAt(one, e.out("out")))
			}
			return viol("pass-dependent", "%d passes give another result than one pass: %s", p, diffAt(one, e.out("out")))
		}
		if v := e.expect(); v != nil {
			return v
		}
		return e.onlyFiles(append(ins, "out")...)
	})
	reg("P07", "rewritenodes-passes", 40, func(c *Case, r *R) {
		genWriter(c, r, "rewritenodes")
		if r.Bool(0.3) { // an index that fits into any memory, often an empty one
			if r.Bool(0.6) {
				for i := range c.Data.Blocks {
					for j := range c.Data.Blocks[i].Groups {
						c.Data.Blocks[i].Groups[j].Nodes = nil
					}
				}
			}
			c.P["m"] = int64(pick(r, 1, 1, 2, 1000, 1<<40))
			return
		}
		bigIndex(c, r)
	}, func(e *Env) *Violation {
		ins := e.setup()
		m := e.c.P["m"]
		e.c.P["m"] = 0
		r := e.writer(RO{})
		e.c.P["m"] = m
		if v := notOK("rewritenodes with one pass", r); v != nil {
			return v
		}
		one := e.out("out")
		e.fs.Del("out")
		r = e.writer(RO{Poison: e.poison()})
		if v := notOK("rewritenodes with several passes", r); v != nil {
			return v
		}
		a, err := decodeFile(one)
		if err != nil {
			return viol("bad-pbf", "one pass: %v", err)
		}
		b, err := decodeFile(e.out("out"))
		if err != nil {
			return viol("bad-pbf", "several passes: %v", err)
		}
		if s := diffEntities(a, b, exactCoord); s != "" {
			return viol("pass-dependent", "%d locations with -m %d give another result than one pass: %s", e.c.P["idxn"], m, s)
		}
		if v := e.expect(); v != nil {
			return v
		}
		return e.onlyFiles(append(ins, "out")...)
	})
	reg("P07", "node-slices", 30, func(c *Case, r *R) {
		o := GenOpt{Nodes: pick(r, 3, 10, 40, 100), HugeIDs: true}
		c.Data = genData(r, o)
		c.P["run"] = int64(pick(r, 1, 2, 5, 50, 1000000))
		c.P["gap"] = int64(pick(r, 0, 1, 2))
		c.P["n"] = int64(pick(r, 1, 2, 3, 4, 5, 7, 16, 200))
	}, func(e *Env) *Violation {
		b, locs := nodeIndexFor(e.c)
		e.fs.Put("idx", b)
		n := e.c.P["n"]
		seen := map[int64]int64{}
		for k := int64(0); k < n && k < 24; k++ {
			kk := k
			if n > 24 && k > 11 {
				kk = n - 24 + k
			}
			r := e.run(RO{}, "dumpnodeindex", "-i", "idx", "-p", "-s", "--sub-index-index", fmt.Sprint(kk), "--sub-index-count", fmt.Sprint(n))
			if v := notOK(fmt.Sprintf("dumpnodeindex of part %d of %d", kk, n), r); v != nil {
				return v
			}
			for _, x := range parseNodeDump(r.Stdout) {
				if x.mismatch {
					return viol("lookup-mismatch", "part %d of %d: node %d is stored but the search gives something else", kk, n, x.id)
				}
				if _, dup := seen[x.id]; dup {
					return viol("pass-overlap", "node %d is in two parts of %d", x.id, n)
				}
				seen[x.id] = int64(x.loc)
			}
		}
		if n <= 24 {
			for _, id := range sortedIDs(locs) {
				if seen[id] != locs[id] {
					return viol("pass-gap", "node %d is in none of the %d parts (or wrong: %x, want %x)", id, n, uint64(seen[id]), uint64(locs[id]))
				}
			}
			if len(seen) != len(locs) {
				return viol("pass-overlap", "%d nodes in the parts, %d in the index", len(seen), len(locs))
			}
		}
		return nil
	})

	// ------------------------------------------------------------ P08
	var weights = []string{"nodeindex", "wayindex", "relindex", "rewritenodes", "tagfilter", "decompress", "tagfilter", "rewritenodes"}
	det := func(e *Env) *Violation {
		e.setup()
		w := e.c.P["w"]
		e.c.P["w"] = 1
		r := e.writer(RO{Sched: &zsim.Sched{Seed: 1, Policy: "rr"}})
		e.c.P["w"] = w
		if v := notOK(e.c.S["cmd"]+" -w 1", r); v != nil {
			return v
		}
		ref := e.out("out")
		for i := 0; i < 3; i++ {
			e.fs.Del("out")
			if i == 1 {
				e.c.P["w"] = 1 + (w+int64(e.c.Sub>>33)%5)%8
			}
			r := e.writer(RO{Poison: i > 0 && e.poison()})
			ww := e.c.P["w"]
			e.c.P["w"] = w
			if v := notOK(fmt.Sprintf("%s -w %d", e.c.S["cmd"], ww), r); v != nil {
				return v
			}
			if !bytes.Equal(ref, e.out("out")) {
				return viol("schedule-dependent", "%s: output with %d workers differs from the one with a single worker: %s", e.c.S["cmd"], ww, diffAt(ref, e.out("out")))
			}
		}
		return nil
	}
	reg("P08", "same-bytes", 100, func(c *Case, r *R) { genWriter(c, r, pick(r, weights...)) }, det)
	reg("P08", "many-blocks", 8, func(c *Case, r *R) { manyBlocks(c, r, pick(r, weights...)) }, det)
	reg("P08", "multi-pass", 4, func(c *Case, r *R) { genWriter(c, r, "rewritenodes"); bigIndex(c, r) }, det)
}

type nodeDump struct {
	id       int64
	loc      uint64
	mismatch bool
}

// parseNodeDump reads the output of dumpnodeindex -p -s.
func parseNodeDump(s string) []nodeDump {
	var out []nodeDump
	for _, l := range strings.Split(s, "\n") {
		f := strings.Fields(l)
		switch {
		case strings.HasPrefix(l, "Extract: ") && len(f) >= 5:
			loc, _ := strconv.ParseUint(f[1], 16, 64)
			x := strings.Trim(f[len(f)-1], "[]")
			k := strings.LastIndex(x, "=")
			id, _ := strconv.ParseInt(x[k+1:], 10, 64)
			out = append(out, nodeDump{id: id, loc: loc})
		case strings.Contains(l, "MISMATCH"):
			if len(out) > 0 {
				out[len(out)-1].mismatch = true
			} else {
				out = append(out, nodeDump{id: -1, mismatch: true})
			}
		}
	}
	return out
}
