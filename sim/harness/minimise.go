//go:build go1.23

package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"github.com/squizzling/osmindex/internal/zsim"
)

// minimiser shrinks a failing case while it keeps failing in the same way.
type minimiser struct {
	class  string
	until  time.Time
	tries  int
	blocks int // blocks of the original case
}

func (m *minimiser) over() bool { return time.Now().After(m.until) }

// try runs a candidate; if it fails in the same way the explicit form of what
// happened is returned.
func (m *minimiser) try(c *Case) *Case {
	if m.over() || len(c.Data.Blocks) == 0 && m.blocks > 0 {
		return nil
	}
	m.tries++
	v, e, ok := safeRun(c.clone())
	if !ok || v == nil || v.Class != m.class {
		return nil
	}
	e.c = c
	return e.replayCase(v)
}

func safeRun(c *Case) (v *Violation, e *Env, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	v, e = runCase(c)
	return v, e, true
}

func minimiseMain(args []string) {
	fl := flag.NewFlagSet("minimise", flag.ExitOnError)
	in := fl.String("in", "", "")
	out := fl.String("out", "", "")
	secs := fl.Float64("seconds", 60, "")
	_ = fl.Parse(args)
	c, err := loadCase(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	m := &minimiser{class: c.Class, blocks: len(c.Data.Blocks), until: time.Now().Add(time.Duration(*secs * float64(time.Second)))}
	best := m.try(c)
	if best == nil {
		os.Exit(1)
	}
	best = m.shrink(best)
	if err := saveCase(*out, best); err != nil {
		os.Exit(2)
	}
	fmt.Println("tries:", m.tries)
}

// quiet replaces every schedule with the default one.
func quiet(c *Case) *Case {
	n := c.clone()
	for i := range n.Scheds {
		n.Scheds[i] = zsim.Sched{Policy: n.Scheds[i].Policy, Replay: true}
	}
	return n
}

// variants are the schedules tried for a candidate with other data: decision
// numbers of the recorded schedule mean nothing there.
func (m *minimiser) variants(c *Case, calm bool) *Case {
	if r := m.try(quiet(c)); r != nil {
		return r
	}
	if calm {
		return nil
	}
	n := c.clone()
	n.Scheds = nil
	if r := m.try(n); r != nil {
		return r
	}
	if len(c.Faults) > 0 {
		n = n.clone()
		n.Fixed, n.Faults = false, nil
		for k := uint64(0); k < 4; k++ {
			n.Sub = c.Sub + k
			if r := m.try(n); r != nil {
				return r
			}
		}
		return nil
	}
	for k := uint64(1); k < 5; k++ {
		n = n.clone()
		n.Sub = c.Sub + k
		if r := m.try(n); r != nil {
			return r
		}
	}
	return nil
}

func (m *minimiser) shrink(best *Case) *Case {
	calm := false
	if q := m.try(quiet(best)); q != nil {
		best, calm = q, true
	}
	// faults that are not needed
	for i := len(best.Faults) - 1; i >= 0 && len(best.Faults) > 1; i-- {
		n := best.clone()
		n.Faults = append(n.Faults[:i:i], n.Faults[i+1:]...)
		if r := m.try(n); r != nil {
			best = r
		}
	}
	full := m.until
	m.until = time.Now().Add(time.Until(full) * 7 / 10)
	best = m.shrinkData(best, calm)
	m.until = full
	// the schedule
	for p := range best.Scheds {
		best = m.ddminSched(best, p)
	}
	return best
}

// dataEdits lists ways to make the data smaller: cut n units starting at unit
// i, for each kind of unit.
type unitKind struct {
	count func(c *Case) int
	cut   func(c *Case, i, n int)
}

func cutS[T any](s []T, i, n int) []T {
	if i >= len(s) {
		return s
	}
	e := min(len(s), i+n)
	return append(append([]T(nil), s[:i]...), s[e:]...)
}

func eachGroup(c *Case, fn func(g *Group)) {
	for i := range c.Data.Blocks {
		for j := range c.Data.Blocks[i].Groups {
			fn(&c.Data.Blocks[i].Groups[j])
		}
	}
}

// flatUnits makes a unitKind out of a per-group slice.
func flatUnits(size func(g *Group) int, cut func(g *Group, i, n int)) unitKind {
	return unitKind{
		func(c *Case) int {
			t := 0
			eachGroup(c, func(g *Group) { t += size(g) })
			return t
		},
		func(c *Case, i, n int) {
			eachGroup(c, func(g *Group) {
				s := size(g)
				lo, hi := max(i, 0), min(i+n, s)
				if lo < hi {
					cut(g, lo, hi-lo)
				}
				i -= s
			})
		},
	}
}

var units = []unitKind{
	{func(c *Case) int { return len(c.Data.Blocks) }, func(c *Case, i, n int) { c.Data.Blocks = cutS(c.Data.Blocks, i, n) }},
	flatUnits(func(g *Group) int { return len(g.Rels) }, func(g *Group, i, n int) { g.Rels = cutS(g.Rels, i, n) }),
	flatUnits(func(g *Group) int { return len(g.Ways) }, func(g *Group, i, n int) { g.Ways = cutS(g.Ways, i, n) }),
	flatUnits(func(g *Group) int { return len(g.Nodes) }, func(g *Group, i, n int) { g.Nodes = cutS(g.Nodes, i, n) }),
	{func(c *Case) int { return len(c.L) }, func(c *Case, i, n int) { c.L = cutS(c.L, i, n) }},
}

func (m *minimiser) shrinkData(best *Case, calm bool) *Case {
	for round := 0; round < 3; round++ {
		before := m.size(best)
		for _, u := range units {
			n := u.count(best)
			for step := (n + 1) / 2; step >= 1 && n > 0; step /= 2 {
				for i := 0; i < u.count(best); {
					if m.over() {
						return best
					}
					cand := best.clone()
					u.cut(cand, i, step)
					if r := m.variants(cand, calm); r != nil {
						best = r
					} else {
						i += step
					}
				}
			}
		}
		// inside the entities
		edits := []func(c *Case){
			func(c *Case) {
				eachGroup(c, func(g *Group) {
					for i := range g.Nodes {
						g.Nodes[i].Tags = nil
					}
				})
			},
			func(c *Case) {
				eachGroup(c, func(g *Group) {
					for i := range g.Ways {
						g.Ways[i].Tags = nil
					}
				})
			},
			func(c *Case) {
				eachGroup(c, func(g *Group) {
					for i := range g.Rels {
						g.Rels[i].Tags = nil
					}
				})
			},
			func(c *Case) {
				eachGroup(c, func(g *Group) {
					g.DenseInfo = false
					for i := range g.Ways {
						g.Ways[i].Info = false
					}
					for i := range g.Rels {
						g.Rels[i].Info = false
					}
				})
			},
			func(c *Case) {
				for i := range c.Data.Blocks {
					c.Data.Blocks[i].PadStr = 0
				}
			},
			func(c *Case) {
				for i := range c.Data.Blocks {
					b := &c.Data.Blocks[i]
					b.Comp = "raw"
				}
			},
			func(c *Case) {
				for i := range c.Data.Blocks {
					b := &c.Data.Blocks[i]
					b.LatOff, b.LonOff, b.Gran, b.DateGran = 0, 0, 0, 0
				}
			},
			func(c *Case) {
				for i := range c.Data.Blocks {
					b := &c.Data.Blocks[i]
					b.STLast, b.UnsortedST, b.SizeLast, b.RawSizeOnRaw = false, false, false, false
				}
			},
			func(c *Case) {
				if c.P["w"] > 1 {
					c.P["w"] = 1
				}
			},
			func(c *Case) {
				if c.P["w"] > 2 {
					c.P["w"] = 2
				}
			},
			func(c *Case) { c.S["t"] = "" },
		}
		for _, ed := range edits {
			cand := best.clone()
			ed(cand)
			if r := m.variants(cand, calm); r != nil {
				best = r
			}
		}
		for i := range best.Data.Blocks {
			for best.Data.Blocks[i].Fill != nil && best.Data.Blocks[i].Fill.N > 1 {
				cand := best.clone()
				cand.Data.Blocks[i].Fill.N /= 2
				r := m.variants(cand, calm)
				if r == nil {
					break
				}
				best = r
			}
		}
		// references, members, tags
		type listAt struct{ b, g, kind, e int }
		var at []listAt
		for b := range best.Data.Blocks {
			for g := range best.Data.Blocks[b].Groups {
				gr := &best.Data.Blocks[b].Groups[g]
				for e := range gr.Ways {
					if len(gr.Ways[e].Refs) > 0 {
						at = append(at, listAt{b, g, 0, e})
					}
				}
				for e := range gr.Rels {
					if len(gr.Rels[e].Members) > 0 {
						at = append(at, listAt{b, g, 1, e})
					}
				}
				for e := range gr.Nodes {
					if len(gr.Nodes[e].Tags) > 0 {
						at = append(at, listAt{b, g, 2, e})
					}
				}
			}
		}
		for _, x := range at {
			size := func(c *Case) int {
				g := &c.Data.Blocks[x.b].Groups[x.g]
				switch x.kind {
				case 0:
					return len(g.Ways[x.e].Refs)
				case 1:
					return len(g.Rels[x.e].Members)
				}
				return len(g.Nodes[x.e].Tags)
			}
			n := size(best)
			for step := n; step >= 1; step /= 2 {
				for i := 0; i < size(best); {
					if m.over() {
						return best
					}
					cand := best.clone()
					g := &cand.Data.Blocks[x.b].Groups[x.g]
					switch x.kind {
					case 0:
						g.Ways[x.e].Refs = cutS(g.Ways[x.e].Refs, i, step)
					case 1:
						g.Rels[x.e].Members = cutS(g.Rels[x.e].Members, i, step)
					default:
						g.Nodes[x.e].Tags = cutS(g.Nodes[x.e].Tags, i, step)
					}
					if r := m.variants(cand, calm); r != nil {
						best = r
					} else {
						i += step
					}
				}
			}
		}
		if m.size(best) == before || m.over() {
			break
		}
	}
	return best
}

func (m *minimiser) size(c *Case) int {
	t := 0
	for _, u := range units {
		t += u.count(c)
	}
	eachGroup(c, func(g *Group) {
		for i := range g.Ways {
			t += len(g.Ways[i].Refs) + len(g.Ways[i].Tags)
		}
		for i := range g.Rels {
			t += len(g.Rels[i].Members) + len(g.Rels[i].Tags)
		}
		for i := range g.Nodes {
			t += len(g.Nodes[i].Tags)
		}
	})
	return t
}

// ddminSched drops preemptions and non-default decisions that are not needed.
func (m *minimiser) ddminSched(best *Case, p int) *Case {
	cut := func(c *Case, i, n int) bool {
		s := &c.Scheds[p]
		np := len(s.Pre)
		if i < np {
			k := min(n, np-i)
			s.Pre = cutS(s.Pre, i, k)
			n -= k
			i = np
		}
		if n > 0 {
			s.Dev = cutS(s.Dev, i-np, n)
		}
		return true
	}
	count := func(c *Case) int {
		if p >= len(c.Scheds) {
			return 0
		}
		return len(c.Scheds[p].Pre) + len(c.Scheds[p].Dev)
	}
	n := count(best)
	for step := n; step >= 1; step /= 2 {
		for i := 0; i < count(best); {
			if m.over() {
				return best
			}
			cand := best.clone()
			k := min(step, count(best)-i)
			cut(cand, i, k)
			if r := m.try(cand); r != nil && count(r) < count(best) {
				best = r
			} else {
				i += step
			}
		}
	}
	return best
}
