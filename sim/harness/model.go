//go:build go1.23

package main

// Reference models: what each program has to produce, computed from the data
// model alone.

import (
	"bytes"
	"fmt"
	"sort"
)

func to1e7(nano int64) int64 { return nano / 100 } // truncated toward zero

func (d *Dataset) nodeLocs() map[int64]int64 {
	m := map[int64]int64{}
	d.each(func(b *Block, g *Group) {
		for _, n := range g.Nodes {
			m[n.ID] = mortonOf(to1e7(b.LonOff+b.gran()*n.Lon), to1e7(b.LatOff+b.gran()*n.Lat))
		}
	})
	return m
}

func sortedIDs(m map[int64]int64) []int64 {
	ids := make([]int64, 0, len(m))
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

// checkNodeIdx: every id resolves to its node's location, every other id to nothing.
func checkNodeIdx(f []byte, locs map[int64]int64, r *R) *Violation {
	x, err := decodeNodeIdx(f)
	if err != nil {
		return viol("bad-index", "%v", err)
	}
	for _, id := range sortedIDs(locs) {
		if got := x.find(uint64(id)); got != locs[id] {
			return viol("wrong-location", "node %d: location %x expected, %x found", id, uint64(locs[id]), uint64(got))
		}
	}
	absent := func(id int64) *Violation {
		if _, ok := locs[id]; ok {
			return nil
		}
		if got := x.find(uint64(id)); got != 0 {
			return viol("phantom-node", "node %d is not in the input but has location %x", id, uint64(got))
		}
		return nil
	}
	for i := range x.first {
		// every slot of every element
		for k := uint64(0); k < x.count[i]; k++ {
			if v := absent(int64(x.first[i] + k)); v != nil {
				return v
			}
		}
	}
	for id := range locs {
		for _, d := range []int64{-3, -2, -1, 1, 2, 3} {
			if v := absent(id + d); v != nil {
				return v
			}
		}
	}
	for i := 0; i < 20; i++ {
		if v := absent(int64(r.U64() >> 1 >> uint(r.Intn(60)))); v != nil {
			return v
		}
	}
	return nil
}

// collapse drops consecutive repeats.
func collapse(refs []int64) []int64 {
	var out []int64
	for i, x := range refs {
		if i == 0 || x != refs[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func (d *Dataset) wayLocs() ([]int64, map[int64][]int64) {
	var ids []int64
	m := map[int64][]int64{}
	d.each(func(b *Block, g *Group) {
		for _, w := range g.Ways {
			ids = append(ids, w.ID)
			m[w.ID] = collapse(w.Refs)
		}
	})
	return ids, m
}

func checkWayIdx(f []byte, ids []int64, locs map[int64][]int64) *Violation {
	x, err := decodeWayIdx(f)
	if err != nil {
		return viol("bad-index", "%v", err)
	}
	if len(x.ids) != len(ids) {
		return viol("wrong-way", "%d ways expected, %d in the index", len(ids), len(x.ids))
	}
	for i, id := range ids {
		if x.ids[i] != id {
			return viol("wrong-way", "way %d expected at position %d, %d found", id, i, x.ids[i])
		}
		if !i64Eq(locs[id], x.loc[id]) {
			return viol("wrong-location", "way %d: locations: %s", id, diffInts(locs[id], x.loc[id]))
		}
	}
	return nil
}

func (d *Dataset) relEntries(ways map[int64][]int64) []RelEntry {
	var out []RelEntry
	d.each(func(b *Block, g *Group) {
		for _, r := range g.Rels {
			e := RelEntry{ID: r.ID}
			for _, m := range r.Members {
				if m.Type == 1 {
					e.Ways = append(e.Ways, RelWay{m.ID, ways[m.ID]})
				}
			}
			out = append(out, e)
		}
	})
	return out
}

func checkRelIdx(f []byte, want []RelEntry) *Violation {
	got, err := decodeRelIdx(f)
	if err != nil {
		return viol("bad-index", "%v", err)
	}
	if len(got) != len(want) {
		return viol("wrong-relation", "%d relations expected, %d found", len(want), len(got))
	}
	for i := range want {
		w, g := want[i], got[i]
		if w.ID != g.ID {
			return viol("wrong-relation", "relation %d expected at position %d, %d found", w.ID, i, g.ID)
		}
		if len(w.Ways) != len(g.Ways) {
			return viol("wrong-relation", "relation %d: %d ways expected, %d found", w.ID, len(w.Ways), len(g.Ways))
		}
		for j := range w.Ways {
			if w.Ways[j].ID != g.Ways[j].ID {
				return viol("wrong-relation", "relation %d: way %d expected, %d found", w.ID, w.Ways[j].ID, g.Ways[j].ID)
			}
			if !i64Eq(w.Ways[j].Loc, g.Ways[j].Loc) {
				return viol("wrong-location", "relation %d way %d: locations: %s", w.ID, w.Ways[j].ID, diffInts(w.Ways[j].Loc, g.Ways[j].Loc))
			}
		}
	}
	return nil
}

// rewritten is the dataset with every known node reference replaced.
func (d *Dataset) rewritten(locs map[int64]int64) []EBlock {
	bs := d.expectBlocks()
	for i := range bs {
		ws := append([]Way(nil), bs[i].Ways...)
		for j := range ws {
			rf := append([]int64(nil), ws[j].Refs...)
			for k, x := range rf {
				if x >= 0 {
					if l, ok := locs[x]; ok {
						rf[k] = l
					}
				}
			}
			ws[j].Refs = rf
		}
		bs[i].Ways = ws
	}
	return bs
}

func checkPBF(f []byte, want []EBlock) *Violation {
	got, err := decodeFile(f)
	if err != nil {
		return viol("bad-pbf", "output is not a valid PBF file: %v", err)
	}
	if s := diffEntities(want, got, exactCoord); s != "" {
		return viol("wrong-data", "%s", s)
	}
	return nil
}

// headersKept checks that header blocks still carry their payload.
func (d *Dataset) headersKept(got []EBlock) *Violation {
	var want [][]byte
	for i := range d.Blocks {
		if d.Blocks[i].Type == "OSMHeader" {
			want = append(want, d.Blocks[i].payload())
		}
	}
	k := 0
	for i := range got {
		if got[i].Type == "OSMHeader" {
			if k >= len(want) || !bytes.Equal(want[k], got[i].Raw) {
				return viol("wrong-header", "header block %d changed: %s", k, diffAt(want[min(k, len(want)-1)], got[i].Raw))
			}
			k++
		}
	}
	if k != len(want) {
		return viol("wrong-header", "%d header blocks expected, %d found", len(want), k)
	}
	return nil
}

// flatten turns blocks into one sequence: what a reader that ignores the
// division into blocks sees; inside a block nodes precede ways precede relations.
type flatEnt struct {
	kind int // 0 node 1 way 2 relation 3 header
	n    ENode
	w    Way
	r    Rel
	raw  []byte
}

func flatten(bs []EBlock) []flatEnt {
	var out []flatEnt
	for i := range bs {
		if bs[i].Type == "OSMHeader" {
			out = append(out, flatEnt{kind: 3, raw: bs[i].Raw})
			continue
		}
		for _, n := range bs[i].Nodes {
			out = append(out, flatEnt{kind: 0, n: n})
		}
		for _, w := range bs[i].Ways {
			out = append(out, flatEnt{kind: 1, w: w})
		}
		for _, r := range bs[i].Rels {
			out = append(out, flatEnt{kind: 2, r: r})
		}
	}
	return out
}

func (f flatEnt) String() string {
	switch f.kind {
	case 0:
		return fmt.Sprintf("node %d (lat %d, lon %d, tags %q)", f.n.ID, f.n.Lat, f.n.Lon, f.n.Tags)
	case 1:
		return fmt.Sprintf("way %d (%d refs, tags %q)", f.w.ID, len(f.w.Refs), f.w.Tags)
	case 2:
		return fmt.Sprintf("relation %d (%d members, tags %q)", f.r.ID, len(f.r.Members), f.r.Tags)
	}
	return "header block"
}

func flatEq(a, b flatEnt) bool {
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case 0:
		return a.n.ID == b.n.ID && a.n.Lat == b.n.Lat && a.n.Lon == b.n.Lon && tagsEq(a.n.Tags, b.n.Tags)
	case 1:
		return a.w.ID == b.w.ID && i64Eq(a.w.Refs, b.w.Refs) && tagsEq(a.w.Tags, b.w.Tags)
	case 2:
		return a.r.ID == b.r.ID && membersEq(a.r.Members, b.r.Members) && tagsEq(a.r.Tags, b.r.Tags)
	}
	return bytes.Equal(a.raw, b.raw)
}

// filtered is what the tag filter has to leave.
func (d *Dataset) filtered() []flatEnt {
	bs := d.expectBlocks()
	for i := range bs {
		if bs[i].Type == "OSMHeader" {
			bs[i].Raw = d.Blocks[i].payload()
			continue
		}
		var keep []ENode
		for _, n := range bs[i].Nodes {
			var t []KV
			for _, kv := range n.Tags {
				if keepKey(kv.K) {
					t = append(t, kv)
				}
			}
			if len(t) > 0 {
				keep = append(keep, ENode{n.ID, to1e7(n.Lat) * 100, to1e7(n.Lon) * 100, t})
			}
		}
		bs[i].Nodes = keep
	}
	return flatten(bs)
}

func checkFiltered(f []byte, want []flatEnt) *Violation {
	got, err := decodeFile(f)
	if err != nil {
		return viol("bad-pbf", "output is not a valid PBF file: %v", err)
	}
	g := flatten(got)
	for i := 0; i < len(want) || i < len(g); i++ {
		switch {
		case i >= len(g):
			return viol("lost-entity", "%v is missing (%d entities expected, %d found)", want[i], len(want), len(g))
		case i >= len(want):
			return viol("extra-entity", "%v should not be there (%d entities expected, %d found)", g[i], len(want), len(g))
		case !flatEq(want[i], g[i]):
			return viol("wrong-data", "entity %d: %v expected, %v found", i, want[i], g[i])
		}
	}
	return nil
}

// checkDecompressed: same blocks, same payload, stored uncompressed.
func (d *Dataset) checkDecompressed(f []byte) *Violation {
	got, err := decodeFile(f)
	if err != nil {
		return viol("bad-pbf", "output is not a valid PBF file: %v", err)
	}
	if len(got) != len(d.Blocks) {
		return viol("wrong-data", "%d blocks expected, %d found", len(d.Blocks), len(got))
	}
	for i := range got {
		if got[i].Type != d.Blocks[i].Type {
			return viol("wrong-data", "block %d: type %s expected, %s found", i, d.Blocks[i].Type, got[i].Type)
		}
		if got[i].Comp != "raw" {
			return viol("wrong-data", "block %d is still compressed", i)
		}
		if p := d.Blocks[i].payload(); !bytes.Equal(p, got[i].Raw) {
			return viol("wrong-data", "block %d: payload: %s", i, diffAt(p, got[i].Raw))
		}
	}
	return nil
}
