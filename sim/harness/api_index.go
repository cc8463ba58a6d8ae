//go:build go1.23 && api_index

package main

import (
	"fmt"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zsim"
)

// P15 through the indexes themselves: many goroutines look up ids with
// arbitrary hints in parts of an index, while the lookups are timed.

type lookup struct {
	part int
	id   int64
	hint int // -1: the hint of the previous lookup in that part
}

func genLookups(c *Case, r *R) {
	c.P["parts"] = int64(pick(r, 1, 1, 1, 2, 3, 7))
	c.P["gs"] = int64(pick(r, 1, 2, 2, 3, 4, 8))
	c.P["n"] = int64(pick(r, 3, 10, 40))
	c.P["tsc"] = int64(r.Intn(4))
	c.S["t"] = pick(r, "", "1.01", "1.1", "1.5", "2", "3", "10", "1", "0.5")
}

// plan draws the lookups of every goroutine.
func (c *Case) plan(ids []int64, elements int) [][]lookup {
	r := rng(c.Sub, "lookups")
	top := int64(1)
	if len(ids) > 0 {
		top = ids[len(ids)-1]
	}
	out := make([][]lookup, c.P["gs"])
	if c.P["same"] == 1 && len(ids) > 0 {
		// every goroutine repeats one lookup with its own last hint
		for g := range out {
			l := lookup{id: ids[r.Intn(len(ids))], hint: -1}
			if r.Bool(0.3) {
				l.id++
			}
			for i := int64(0); i < c.P["n"]; i++ {
				out[g] = append(out[g], l)
			}
		}
		return out
	}
	for g := range out {
		at := 0
		for i := int64(0); i < c.P["n"]; i++ {
			l := lookup{part: r.Intn(int(c.P["parts"])), hint: -1}
			switch {
			case len(ids) > 0 && r.Bool(0.4):
				l.id = ids[r.Intn(len(ids))]
			case len(ids) > 0 && r.Bool(0.5): // near the previous one
				at = (at + r.Intn(3)) % len(ids)
				l.id = ids[at]
			case r.Bool(0.8):
				l.id = int64(r.U64()%uint64(top+3)) + int64(r.Intn(2))
			default:
				l.id = top + int64(r.Intn(3))
			}
			if r.Bool(0.3) {
				l.hint = r.Intn(elements + 3)
			}
			out[g] = append(out[g], l)
		}
	}
	return out
}

// finder is one part of an index.
type finder func(id int64, hint int) (string, int, bool)

type lookupWorld struct {
	parts []finder
	stats func()
	close func()
}

// concurrentLookups runs the plan and judges every answer.
func concurrentLookups(e *Env, what string, ids []int64, elements int, truth func(id int64) (string, bool), open func() lookupWorld) *Violation {
	c := e.c
	e.api = true
	plan := c.plan(ids, elements)
	var v *Violation
	total := int64(0)
	fail := func(class, f string, a ...any) {
		if v == nil {
			v = viol(class, f, a...)
		}
	}
	res := e.exec(RO{Tsc: int(c.P["tsc"])}, what+" lookups", nil, func() {
		w := open()
		// which part has an id, looked up without a hint
		where := func(part int, id int64) (string, bool) {
			s, _, ok := w.parts[part](id, 0)
			total++
			return s, ok
		}
		check := map[int64]bool{}
		home := map[int64]int{}
		for _, g := range plan {
			for _, l := range g {
				if check[l.id] {
					continue
				}
				check[l.id] = true
				n := 0
				want, has := truth(l.id)
				for k := range w.parts {
					s, ok := where(k, l.id)
					if !ok {
						continue
					}
					n++
					home[l.id] = k
					if !has {
						fail("lookup-mismatch", "%s %d is not in the index, part %d of %d answers %s", what, l.id, k, len(w.parts), s)
					} else if s != want {
						fail("lookup-mismatch", "%s %d: %s expected, part %d of %d answers %s", what, l.id, want, k, len(w.parts), s)
					}
				}
				if has && n == 0 {
					fail("lookup-mismatch", "%s %d is in the index, none of the %d parts finds it", what, l.id, len(w.parts))
				}
				if n > 1 {
					fail("pass-overlap", "%s %d is found in %d of %d parts", what, l.id, n, len(w.parts))
				}
			}
		}
		var wg zsim.WaitGroup
		wg.Add(len(plan))
		for g := range plan {
			mine := plan[g]
			zsim.Go(func() {
				hints := make([]int, len(w.parts))
				for _, l := range mine {
					h := l.hint
					if h < 0 {
						h = hints[l.part]
					}
					s, h2, ok := w.parts[l.part](l.id, h)
					total++
					hints[l.part] = h2
					want, has := truth(l.id)
					k, found := home[l.id]
					has = has && found && k == l.part
					if ok != has || ok && s != want {
						fail("hint-changes-answer", "%s %d in part %d of %d with hint %d: found=%v %s; without a hint: found=%v %s", what, l.id, l.part, len(w.parts), h, ok, s, has, want)
					}
					if h2 < 0 {
						fail("bad-hint", "%s %d with hint %d: the next hint is %d", what, l.id, h, h2)
					}
				}
				wg.Done()
			})
		}
		wg.Wait()
		w.stats()
		w.close()
	})
	if v != nil {
		return v
	}
	if v := notOK(what+" lookups", res); v != nil {
		return v
	}
	sum, timed, n := lookupStats(res.Stdout)
	if n == 4 && sum != total {
		return viol("lost-statistics", "%d %s lookups by %d goroutines, but the statistics add up to %d", total, what, len(plan), sum)
	}
	if n == 4 && timed > total {
		return viol("lost-statistics", "%d %s lookups by %d goroutines, but %d timings", total, what, len(plan), timed)
	}
	return tidy(what+" lookups", res)
}

func (c *Case) timing() *float64 {
	if c.S["t"] == "" {
		return nil
	}
	var f float64
	if _, err := fmt.Sscan(c.S["t"], &f); err != nil {
		return nil
	}
	return &f
}

func nodeLookups(e *Env) *Violation {
	c := e.c
	b, locs := nodeIndexFor(c)
	if len(locs) == 0 {
		return nil
	}
	e.fs.Put("idx", b)
	x, _ := decodeNodeIdx(b)
	return concurrentLookups(e, "node", sortedIDs(locs), len(x.first), func(id int64) (string, bool) {
		l, ok := locs[id]
		return fmt.Sprint(l), ok && l != 0 // (a node exactly at the encoding's zero is indistinguishable from none)
	}, func() lookupWorld {
		ni := nodeindex.NewNodeIndex("idx", c.timing())
		w := lookupWorld{stats: ni.PrintStats, close: ni.Close}
		for k := int64(0); k < c.P["parts"]; k++ {
			si := ni.SubIndex(uint64(k), uint64(c.P["parts"]))
			w.parts = append(w.parts, func(id int64, hint int) (string, int, bool) {
				l, h, ok := si.FindNode(uint64(id), hint)
				return fmt.Sprint(l), h, ok
			})
		}
		return w
	})
}

func wayLookups(e *Env) *Violation {
	c := e.c
	b, locs := wayIndexFor(c)
	ids, _ := c.Data.wayLocs()
	if len(ids) == 0 {
		return nil
	}
	e.fs.Put("idx", b)
	return concurrentLookups(e, "way", ids, len(ids), func(id int64) (string, bool) {
		l, ok := locs[id]
		return fmt.Sprint(l), ok
	}, func() lookupWorld {
		wi := wayindex.NewWayIndex("idx", c.timing())
		w := lookupWorld{stats: wi.PrintStats, close: wi.Close}
		for k := int64(0); k < c.P["parts"]; k++ {
			si := wi.SubIndexWithScaledPass(int(k), int(c.P["parts"]))
			w.parts = append(w.parts, func(id int64, hint int) (string, int, bool) {
				l, h, ok := si.FindLocations(id, hint)
				return fmt.Sprint(l), h, ok
			})
		}
		return w
	})
}

func init() {
	reg("P15", "node-lookups", 50, func(c *Case, r *R) {
		genNodeIdxCase(c, r)
		genLookups(c, r)
	}, nodeLookups)
	reg("P15", "way-lookups", 40, func(c *Case, r *R) {
		genWayIdxCase(c, r)
		genLookups(c, r)
	}, wayLookups)
	// indexes large enough that a hint can be far from the answer
	reg("P15", "node-lookups-large", 6, func(c *Case, r *R) {
		genNodeIdxCase(c, r)
		c.Data = genData(r, GenOpt{Nodes: pick(r, 300, 1000, 3000), NoExotic: true, MaxBlock: 300})
		genLookups(c, r)
		c.P["n"] = int64(pick(r, 40, 150))
	}, nodeLookups)
	reg("P15", "way-lookups-large", 6, func(c *Case, r *R) {
		genWayIdxCase(c, r)
		n := pick(r, 150, 500, 1500)
		c.Data = genData(r, GenOpt{Ways: n, MinWays: n / 2, AllMorton: true, MortonRefs: true, NoExotic: true, MaxBlock: 300})
		genLookups(c, r)
		c.P["n"] = int64(pick(r, 40, 150))
	}, wayLookups)
	// many goroutines that all hit or all miss: every update of a counter counts
	reg("P15", "statistics", 25, func(c *Case, r *R) {
		if r.Bool(0.5) {
			genNodeIdxCase(c, r)
			c.S["of"] = "nodes"
		} else {
			genWayIdxCase(c, r)
			c.S["of"] = "ways"
		}
		genLookups(c, r)
		c.P["parts"] = 1
		c.P["gs"] = int64(pick(r, 2, 3, 4))
		c.P["n"] = 12
		c.P["same"] = 1
	}, func(e *Env) *Violation {
		if e.c.S["of"] == "nodes" {
			return nodeLookups(e)
		}
		return wayLookups(e)
	})
}
