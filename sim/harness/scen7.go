//go:build go1.23

package main

import "fmt"

// P25: ids in an order, or of a kind, that an index cannot hold.

// disorder changes the order of a case's entities, or their ids, and says how.
func disorder(c *Case, r *R, kind string) string {
	d := &c.Data
	type pos struct{ b, g, i int }
	var at []pos
	for b := range d.Blocks {
		for g := range d.Blocks[b].Groups {
			n := len(d.Blocks[b].Groups[g].Nodes)
			switch kind {
			case "ways":
				n = len(d.Blocks[b].Groups[g].Ways)
			case "rels":
				n = len(d.Blocks[b].Groups[g].Rels)
			}
			for i := 0; i < n; i++ {
				at = append(at, pos{b, g, i})
			}
		}
	}
	if len(at) == 0 {
		return ""
	}
	id := func(p pos) *int64 {
		g := &d.Blocks[p.b].Groups[p.g]
		switch kind {
		case "ways":
			return &g.Ways[p.i].ID
		case "rels":
			return &g.Rels[p.i].ID
		}
		return &g.Nodes[p.i].ID
	}
	k := r.Intn(len(at))
	if r.Bool(0.3) {
		k = pick(r, 0, len(at)-1)
	}
	style := pick(r, "swapped", "swapped", "next-swapped", "next-swapped", "repeated", "repeated", "negative", "negative", "first-negative", "all-negative", "reversed", "blocks-swapped", "history", "far")
	switch style {
	case "swapped":
		a, b := id(at[k]), id(at[r.Intn(len(at))])
		*a, *b = *b, *a
	case "next-swapped":
		if k > 0 {
			a, b := id(at[k]), id(at[k-1])
			*a, *b = *b, *a
		}
	case "repeated":
		j := r.Intn(len(at))
		if k > 0 && r.Bool(0.7) {
			j = k - 1
		}
		*id(at[k]) = *id(at[j])
	case "negative":
		*id(at[k]) = -pick(r, int64(1), 1, 1, 2, 3, 77, 1<<31, 1<<40)
	case "first-negative":
		n := 1 + r.Intn(min(4, len(at)))
		for i := 0; i < n; i++ {
			*id(at[i]) = int64(i - n)
		}
	case "all-negative":
		for i := range at {
			*id(at[i]) = -*id(at[i])
		}
		if r.Bool(0.5) {
			// -n .. -1
			for i := range at {
				*id(at[i]) = int64(i - len(at))
			}
		}
	case "reversed":
		for i, j := 0, len(at)-1; i < j; i, j = i+1, j-1 {
			a, b := id(at[i]), id(at[j])
			*a, *b = *b, *a
		}
	case "blocks-swapped":
		if kind == "rels" {
			break // the ways move with them
		}
		a, b := r.Intn(len(d.Blocks)), r.Intn(len(d.Blocks))
		d.Blocks[a], d.Blocks[b] = d.Blocks[b], d.Blocks[a]
	case "history":
		last := int64(0)
		for i := range at {
			if i > 0 && r.Bool(0.3) {
				*id(at[i]) = last
			}
			last = *id(at[i])
		}
	case "far":
		*id(at[k]) += pick(r, int64(1), 2, 3, 50, 1000, 1<<20)
		if kind == "ways" && *id(at[k]) >= 1<<31 {
			*id(at[k]) = 1<<31 - 1
		}
	}
	return style
}

func disorderRun(e *Env) *Violation {
	c := e.c
	e.setup()
	res := e.program(RO{Poison: e.poison()})
	e.st.Faults["order-"+c.S["x"]]++
	what := fmt.Sprintf("%s on a file whose ids are not in order (%s)", c.S["cmd"], c.S["x"])
	if res.Hang != "" {
		return notOK(what, res)
	}
	if !res.OK() {
		return nil // refused
	}
	if c.S["cmd"] == "nodeindex" {
		all := map[int64][]int64{}
		c.Data.each(func(b *Block, g *Group) {
			for _, n := range g.Nodes {
				all[n.ID] = append(all[n.ID], mortonOf(to1e7(b.LonOff+b.gran()*n.Lon), to1e7(b.LatOff+b.gran()*n.Lat)))
			}
		})
		x, err := decodeNodeIdx(e.out("out"))
		if err != nil {
			return viol("unsound-index", "%s: the program reports success, but no lookup can rely on its index: %v", what, err)
		}
		// of a node given more than once any version will do
		locs := map[int64]int64{}
		for id, l := range all {
			locs[id] = l[0]
			for _, y := range l {
				if x.find(uint64(id)) == y {
					locs[id] = y
				}
			}
		}
		if v := checkNodeIdx(e.out("out"), locs, rng(c.Sub, "absent")); v != nil {
			v.Msg = what + ": the program reports success, but " + v.Msg
			return v
		}
		return nil
	}
	all := map[int64][][]int64{}
	c.Data.each(func(b *Block, g *Group) {
		for _, w := range g.Ways {
			all[w.ID] = append(all[w.ID], collapse(w.Refs))
		}
	})
	x, err := decodeWayIdx(e.out("out"))
	if err != nil {
		return viol("unsound-index", "%s: the program reports success, but no lookup can rely on its index: %v", what, err)
	}
	if len(x.ids) != len(all) {
		return viol("wrong-way", "%s: the program reports success, but the index has %d ways instead of %d", what, len(x.ids), len(all))
	}
	for _, id := range x.ids {
		ok := false
		for _, l := range all[id] {
			ok = ok || i64Eq(l, x.loc[id])
		}
		if !ok {
			return viol("wrong-location", "%s: the program reports success, but way %d has locations that are not in the file", what, id)
		}
	}
	return nil
}

func init() {
	reg("P25", "disordered", 100, func(c *Case, r *R) {
		cmd := pick(r, "nodeindex", "nodeindex", "wayindex")
		genWriter(c, r, cmd)
		if r.Bool(0.05) {
			manyBlocks(c, r, cmd)
		}
		for i := range c.Data.Blocks {
			c.Data.Blocks[i].Fill = nil
		}
		c.S["x"] = disorder(c, r, map[string]string{"nodeindex": "nodes", "wayindex": "ways"}[cmd])
	}, disorderRun)
}
