//go:build go1.23

package main

import (
	"fmt"
	"os"
	"slices"

	"github.com/squizzling/osmindex/internal/zsim"
)

// P31: how much of the input a program holds in memory does not depend on how
// much there is of it.

// genStream makes a file of many blocks of much the same size.
func genStream(c *Case, r *R) {
	cmd := pick(r, "nodeindex", "nodeindex", "wayindex", "wayindex", "relindex", "relindex", "rewritenodes", "rewritenodes", "tagfilter", "tagfilter", "decompress", "decompress",
		"blockcount", "entitycount", "entitycount", "entityfind")
	reader := false
	for _, x := range readers {
		reader = reader || x == cmd
	}
	if reader {
		genReader(c, r, cmd)
	} else {
		genWriter(c, r, cmd)
	}
	c.Heavy = true
	c.Data = genData(r, GenOpt{Nodes: 3, Ways: 3, Rels: 2, MaxBlock: 5, NoExotic: true})
	var bs []Block
	for _, b := range c.Data.Blocks {
		if b.Type == "OSMHeader" {
			bs = append(bs, b)
			break
		}
	}
	seed, comp := int64(r.Intn(1<<30)), pick(r, "raw", "zlib")
	n, size := 8*pick(r, 96, 128), pick(r, 500, 1000)
	switch cmd {
	case "tagfilter":
		size = 2000
	case "rewritenodes":
		size = 3000
	}
	tiny := r.Bool(0.3)
	if tiny {
		// what is kept for a block shows, however little it is
		c.P["tiny"] = 1
		n = 8 * 100
	}
	kind := "ways"
	switch cmd {
	case "nodeindex":
		kind = "nodes"
	case "relindex":
		kind = "rels"
	case "tagfilter", "decompress", "entitycount", "entityfind", "blockcount":
		kind = pick(r, "nodes", "ways", "rels")
	}
	if cmd == "relindex" || cmd == "rewritenodes" {
		k := "nodes"
		if cmd == "relindex" {
			k = "ways"
		}
		bs = append(bs, Block{Type: "OSMData", Comp: comp, Level: 1, Fill: &Fill{Kind: k, N: 50, Start: 1, Stride: 1, Seed: seed, Refs: 3, RefMax: 1 << 40}})
	}
	refs := pick(r, 2, 50, 60)
	if cmd == "tagfilter" {
		refs, comp = 50, pick(r, "raw", "raw", "raw", "raw", comp)
	}
	id, stride := int64(1), int64(pick(r, 1, 1, 3, 40))
	for i := 0; i < n; i++ {
		f := Fill{Kind: kind, N: size, Start: id, Stride: stride, Seed: seed, Tags: cmd == "tagfilter"}
		if kind != "nodes" {
			f.Refs = refs
			f.N = size / f.Refs
			f.RefMax = 1 << 32
			f.Unique = f.Tags
			if f.Tags {
				f.TagN = 1
			}
		} else if cmd == "tagfilter" {
			f.Tags, f.TagN, f.N = false, 2, size/2
		}
		if tiny {
			f.N, f.Refs = 3, min(f.Refs, 2)
		}
		id += int64(f.N) * stride
		bs = append(bs, Block{Type: "OSMData", Comp: comp, Level: 1, Fill: &f})
	}
	c.Data = Dataset{Blocks: bs}
	c.P["w"] = int64(pick(r, 1, 2, 3, 4))
	if cmd == "tagfilter" || cmd == "rewritenodes" {
		c.P["w"] = 1
	}
	if _, ok := c.P["p"]; ok {
		c.P["p"] = int64(pick(r, 1, 1, 2, 3))
	}
	if r.Bool(0.3) && !reader && !tiny {
		c.P["slow"] = int64(pick(r, 1, 1, 2, 3))
	}
}

// input leaves nothing of the encoded file in the caller's frame.
//
//go:noinline
func (e *Env) input(d *Dataset) {
	f, _ := d.encode()
	e.fs.Put("in.pbf", f)
	e.fs.Del("out")
}

func heapBounded(e *Env) *Violation {
	c := e.c
	e.setup()
	var total int64
	all := 0
	for i := range c.Data.Blocks {
		if c.Data.Blocks[i].Type == "OSMData" {
			all++
		}
	}
	if all < 700 {
		return nil
	}
	var level, slow [3]int64
	big := c.S["cmd"] == "tagfilter" || c.S["cmd"] == "rewritenodes"
	var count, routines [3]int
	for k := range level {
		// some, so that what the runs before left behind is the same for the
		// others, an eighth of the blocks, and all of them
		d := &Dataset{}
		n := []int{all / 32, all / 8, all}[k]
		for i := range c.Data.Blocks {
			b := &c.Data.Blocks[i]
			if b.Type == "OSMData" {
				if n == 0 {
					continue
				}
				n--
				count[k]++
				if k == 2 {
					total += int64(len(b.payload()))
				}
			}
			d.Blocks = append(d.Blocks, *b)
		}
		e.input(d)
		s := genSched(rng(c.Sub, fmt.Sprint("sched", k)), true)
		// no goroutine is kept from running for long
		s.Policy, s.PDrop = pick(rng(c.Sub, "policy"), "random", "rr"), 0.05
		fs := []zsim.Fault{}
		if c.P["slow"] != 0 {
			s.PTime = 0
			fs = append(fs, zsim.Fault{Kind: "slow", Op: "write", N: c.P["slow"] - 1, Arg: 60e6})
		}
		fs = append(fs, zsim.Fault{Kind: "heap", Op: "write", N: max(0, c.P["slow"]-1)})
		res := e.program(RO{Sched: &s, Faults: fs})
		if v := notOK(c.S["cmd"], res); v != nil {
			return v
		}
		if k > 0 && len(res.HeapSamples) < 16 || c.P["slow"] != 0 && len(res.Heaps) == 0 {
			return nil
		}
		e.st.Probes["heap-measured"] += int64(len(res.Heaps) + len(res.HeapSamples))
		hs := append([]int64(nil), res.HeapSamples...)
		// a little at the beginning, or nearly always later on
		if c.P["tiny"] != 0 && big {
			// without the buffers, which are of one size
			for i := range hs {
				hs[i] = (hs[i]+1<<16)%(2<<20) - 1<<16
			}
		}
		level[k] = slices.Max(hs)
		routines[k] = slices.Max(res.GSamples)
		if k == 2 {
			routines[k] = slices.Min(res.GSamples[3*len(hs)/4:])
			hs = hs[3*len(hs)/4:]
			slices.Sort(hs)
			level[k] = hs[len(hs)/10]
			if c.P["tiny"] != 0 {
				level[k] = hs[0]
			}
		}
		if c.P["slow"] != 0 {
			slow[k] = res.Heaps[0].Bytes
		}
	}
	more := total - total*int64(count[1])/int64(count[2])
	// what every goroutine may hold: some blocks in several forms, and the
	// buffers that two programs make for a block
	hold := 20 * total / int64(count[2])
	if big {
		hold += 2200000
	}
	limit := more/8 + 200000 + (c.P["w"]+1)*hold
	if c.P["tiny"] != 0 {
		limit = 16000
		if c.Data.Blocks[len(c.Data.Blocks)-1].Comp != "raw" {
			// the buffers of the pool, one for every goroutine
			limit += (c.P["w"] + 4) * 150000
		}
	}
	if heapLog {
		fmt.Fprintf(os.Stderr, "HEAP %s %s %s w=%d slow=%d blocks %v total %d: level %v slow %v (%.3f %.3f of the limit, which is %.3f of more)\n", c.S["cmd"], c.Data.Blocks[len(c.Data.Blocks)-1].Comp, c.Data.Blocks[len(c.Data.Blocks)-1].Fill.Kind, c.P["w"], c.P["slow"], count, total, level, slow,
			float64(level[2]-level[1])/float64(limit), float64(slow[2]-slow[1])/float64(limit), float64(limit)/float64(more))
	}
	if routines[2] > routines[1]+count[1]/8 {
		return viol("goroutines-pile-up", "%s has at most %d goroutines with %d blocks, and always more than %d later on with %d blocks",
			c.S["cmd"], routines[1], count[1], routines[2]-1, count[2])
	}
	if level[2]-level[1] > limit {
		return viol("memory-grows", "%s holds at most %d KB with %d blocks (%d KB of entities), and mostly more than %d KB with %d blocks of the same size",
			c.S["cmd"], level[1]>>10, count[1], (total-more)>>10, level[2]>>10, count[2])
	}
	if slow[2]-slow[1] > limit {
		return viol("memory-grows", "%s holds %d KB with %d blocks (%d KB of entities) while a write takes long, and %d KB with %d blocks of the same size",
			c.S["cmd"], slow[1]>>10, count[1], (total-more)>>10, slow[2]>>10, count[2])
	}
	return nil
}

var heapLog = os.Getenv("ZHEAP") != ""

func init() {
	reg("P31", "streaming", 60, genStream, heapBounded)
}
