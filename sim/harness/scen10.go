//go:build go1.23

package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// P29: a pass uses no more of an index than its share.

// steps lists the contents of the files made between the first and the last
// one of a run with passes, in the order in which they were made, and checks
// that there were never more than two of them at once.
func (e *Env) steps(ops []opSeen) ([]string, *Violation) {
	var made []string
	there := map[string]bool{}
	for _, o := range ops {
		n := strings.TrimPrefix(o.path, "/w/")
		switch {
		case n == "out" || strings.HasPrefix(n, "/"):
		case o.op == "create" && !there[n]:
			there[n] = true
			made = append(made, n)
			if len(there) > 2 {
				return nil, viol("files-pile-up", "%d intermediate files at once: %s", len(there), strings.Join(made, " "))
			}
		case o.op == "remove":
			delete(there, n)
		}
	}
	return made, nil
}

type opSeen struct{ op, path string }

func genShareNodes(c *Case, r *R) {
	genWriter(c, r, "rewritenodes")
	c.Data = genData(r, GenOpt{Ways: pick(r, 12, 40, 80), MinWays: 6, NoExotic: r.Bool(0.7), LongWays: r.Bool(0.3), MissingRefs: true})
	bigIndex(c, r)
	c.P["m"] = int64(pick(r, 1, 1, 1, 2, 3, 4, 5))
}

func shareNodes(e *Env) *Violation {
	c := e.c
	e.setup()
	raw, _ := nodeIndexFor(c)
	x, err := decodeNodeIdx(raw)
	if err != nil {
		return nil
	}
	total, largest := int64(len(x.loc)/8), int64(0)
	for _, n := range x.count {
		largest = max(largest, int64(n))
	}
	e.fs.Removed = map[string][]byte{}
	res := e.writer(RO{})
	if v := notOK(c.S["cmd"], res); v != nil {
		return v
	}
	var ops []opSeen
	for _, o := range res.Ops {
		ops = append(ops, opSeen{o.Op, o.Path})
	}
	made, v := e.steps(ops)
	if v != nil {
		return v
	}
	files := [][]byte{e.file}
	for _, n := range made {
		files = append(files, e.fs.Removed["/w/"+n])
	}
	out, _ := e.fs.Get("out")
	files = append(files, out)
	limit := c.P["m"]*1048576/8 + largest + int64(len(files))
	e.st.Probes[fmt.Sprintf("passes-%d", len(files)-1)]++
	var before []int64
	for i, f := range files {
		bs, err := decodeFile(f)
		if err != nil {
			return viol("bad-output", "pass %d of %d: %v", i, len(files)-1, err)
		}
		var refs []int64
		for _, b := range bs {
			for _, w := range b.Ways {
				refs = append(refs, w.Refs...)
			}
		}
		if i > 0 {
			if len(refs) != len(before) {
				return viol("bad-output", "pass %d of %d: %d references, %d before it", i, len(files)-1, len(refs), len(before))
			}
			lo, hi := total, int64(-1)
			var loID, hiID int64
			for k := range refs {
				if refs[k] == before[k] {
					continue
				}
				p := x.at(uint64(before[k]))
				if p < 0 {
					continue
				}
				e.st.Probes["references-placed"]++
				if p < lo {
					lo, loID = p, before[k]
				}
				if p > hi {
					hi, hiID = p, before[k]
				}
			}
			if hi-lo+1 > limit {
				return viol("over-limit", "memory limit %d MB (%d locations, longest run %d): pass %d of %d looked up node %d (location %d) and node %d (location %d)",
					c.P["m"], c.P["m"]*131072, largest, i, len(files)-1, loID, lo, hiID, hi)
			}
		}
		before = refs
	}
	return nil
}

// at is the place of a node's location in the index, or -1.
func (x *NodeIdx) at(id uint64) int64 {
	i := sort.Search(len(x.first), func(i int) bool { return x.first[i]+x.count[i] > id })
	if i < len(x.first) && x.first[i] <= id {
		return int64(x.off[i] + id - x.first[i])
	}
	return -1
}

// wayPlaces tells where the ways' points are in the index: total bytes, the
// longest entry, and each way's place.
func wayPlaces(f []byte) (total, largest int64, at map[int64]int64) {
	n := binary.LittleEndian.Uint64(f)
	al := binary.LittleEndian.Uint64(f[8:])
	at = map[int64]int64{}
	total = int64(len(f)) - 16 - 8*int64(n)
	last := int64(0)
	for i := uint64(0); i < n; i++ {
		d := binary.LittleEndian.Uint64(f[16+i*8:])
		off := int64(d&(1<<33-1)) << al
		at[int64(d>>33)] = off
		largest = max(largest, off-last)
		last = off
	}
	largest = max(largest, total-last)
	return
}

func genShareWays(c *Case, r *R) {
	genWriter(c, r, "relindex")
	o := GenOpt{Ways: pick(r, 10, 40, 100), MinWays: 8, Rels: pick(r, 8, 20, 40), AllMorton: true, MortonRefs: true, LongWays: r.Bool(0.1), NoExotic: r.Bool(0.7)}
	c.Data = genData(r, o)
	c.P["p"] = int64(pick(r, 1, 2, 2, 3, 4, 5, 8, 20, 60))
}

func shareWays(e *Env) *Violation {
	c := e.c
	e.setup()
	raw, _ := wayIndexFor(c)
	total, largest, at := wayPlaces(raw)
	e.fs.Removed = map[string][]byte{}
	res := e.writer(RO{})
	if v := notOK(c.S["cmd"], res); v != nil {
		return v
	}
	var ops []opSeen
	for _, o := range res.Ops {
		ops = append(ops, opSeen{o.Op, o.Path})
	}
	made, v := e.steps(ops)
	if v != nil {
		return v
	}
	n := c.P["p"]
	limit := total/n + n + largest
	known := map[int64]bool{}
	out, _ := e.fs.Get("out")
	for i := 0; i <= len(made); i++ {
		f, what := out, "out"
		if i < len(made) {
			what = made[i]
			f = e.fs.Removed["/w/"+what]
		}
		ids, ok := resolved(f)
		if !ok {
			e.st.Probes["intermediate-unreadable"]++
			return nil
		}
		lo, hi := total, int64(-1)
		var loID, hiID int64
		for _, id := range ids {
			p, there := at[id]
			if !there || known[id] {
				continue
			}
			known[id] = true
			e.st.Probes["members-placed"]++
			if p < lo {
				lo, loID = p, id
			}
			if p > hi {
				hi, hiID = p, id
			}
		}
		if hi-lo > limit {
			return viol("over-share", "%d passes over %d bytes of points (longest way %d): %s was made with way %d (at byte %d) and way %d (at byte %d)",
				n, total, largest, what, loID, lo, hiID, hi)
		}
	}
	return nil
}

// resolved lists the members of a relation index, or of a file on the way to
// it, whose points are there.
func resolved(f []byte) (ids []int64, ok bool) {
	if len(f)%8 != 0 {
		return nil, false
	}
	w := make([]int64, len(f)/8)
	for i := range w {
		w[i] = int64(binary.LittleEndian.Uint64(f[i*8:]))
	}
	for i := 0; i < len(w); {
		if i+1 >= len(w) {
			return nil, false
		}
		n := w[i+1]
		i += 2
		for ; n > 0; n-- {
			if i >= len(w) {
				return nil, false
			}
			id := w[i]
			i++
			if id < 0 {
				continue
			}
			if i >= len(w) || w[i] < 0 || w[i] > int64(len(w)-i-1) {
				return nil, false
			}
			i += 1 + int(w[i])
			ids = append(ids, id)
		}
	}
	return ids, true
}

// shareDump: the parts that the dumping tools show are no larger than a share.
func genShareDump(c *Case, r *R) {
	if r.Bool(0.5) {
		genNodeIdxCase(c, r)
		c.S["cmd"] = "dumpnodeindex"
	} else {
		genWayIdxCase(c, r)
		c.S["cmd"] = "dumpwayindex"
	}
	c.P["n"] = int64(pick(r, 1, 2, 3, 4, 5, 7, 16, 24))
}

func shareDump(e *Env) *Violation {
	c := e.c
	n := c.P["n"]
	var total, largest int64
	var at func(id int64) int64
	opt := "-p"
	if c.S["cmd"] == "dumpnodeindex" {
		b, locs := nodeIndexFor(c)
		if len(locs) == 0 {
			return nil
		}
		x, _ := decodeNodeIdx(b)
		e.fs.Put("idx", b)
		total = int64(len(x.loc) / 8)
		for _, k := range x.count {
			largest = max(largest, int64(k))
		}
		at = func(id int64) int64 { return x.at(uint64(id)) }
	} else {
		opt = "-s"
		b, _ := wayIndexFor(c)
		e.fs.Put("idx", b)
		var m map[int64]int64
		total, largest, m = wayPlaces(b)
		at = func(id int64) int64 {
			if p, ok := m[id]; ok {
				return p
			}
			return -1
		}
	}
	limit := total/n + n + largest
	for k := int64(0); k < n; k++ {
		r := e.run(RO{}, c.S["cmd"], "-i", "idx", opt, "--sub-index-index", fmt.Sprint(k), "--sub-index-count", fmt.Sprint(n))
		if v := notOK(fmt.Sprintf("%s of part %d of %d", c.S["cmd"], k, n), r); v != nil {
			return v
		}
		lo, hi := total, int64(-1)
		for _, l := range strings.Split(r.Stdout, "\n") {
			var id int64
			if c.S["cmd"] == "dumpnodeindex" {
				i := strings.LastIndexByte(l, '=')
				if i < 0 || !strings.HasPrefix(l, "Extract: ") {
					continue
				}
				id, _ = strconv.ParseInt(strings.TrimSuffix(l[i+1:], "]"), 10, 64)
			} else {
				if l == "" || strings.HasPrefix(l, "XX") {
					continue
				}
				id, _ = strconv.ParseInt(strings.Fields(l)[0], 10, 64)
			}
			if p := at(id); p >= 0 {
				lo, hi = min(lo, p), max(hi, p)
			}
		}
		if hi-lo > limit {
			return viol("over-share", "part %d of %d of %d (largest entry %d) goes from %d to %d", k, n, total, largest, lo, hi)
		}
	}
	return nil
}

func init() {
	reg("P29", "memory-limit", 20, genShareNodes, shareNodes)
	reg("P29", "relindex-passes", 60, genShareWays, shareWays)
	reg("P29", "index-parts", 20, genShareDump, shareDump)
}
