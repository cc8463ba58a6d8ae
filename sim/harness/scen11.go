//go:build go1.23

package main

import (
	"strings"

	"github.com/squizzling/osmindex/internal/zsim"
)

// P30: no two goroutines touch the same memory in no particular order. Needs
// the tag zrace; what happens in the runs apart from that is not judged here.

func races(e *Env, res *zsim.Result, what string) *Violation {
	e.st.Probes["accesses-checked"] += res.Accesses
	e.st.Probes["synchronisations-followed"] += res.SyncOps
	if len(res.Races) == 0 {
		return nil
	}
	head, rest, _ := strings.Cut(res.Races[0], "\x00")
	v := viol("data-race", "%s: %s are not ordered (%s)", what, head, rest)
	for _, r := range res.Races[1:] {
		head, _, _ := strings.Cut(r, "\x00")
		v.Msg += "\nalso: " + head
	}
	return v
}

func raceRun(e *Env) *Violation {
	c := e.c
	e.setup()
	what := c.S["cmd"]
	if c.S["ui"] != "" {
		c.S["refresh"] = c.S["ui"]
		what += " -r " + c.S["ui"]
		defer func() { c.S["refresh"] = "" }()
	}
	var fs []zsim.Fault
	r := rng(c.Sub, "faults")
	if c.S["disturb"] != "" {
		keep := e.fs
		e.fs = keep.Clone()
		d := e.program(RO{})
		e.fs = keep
		if v := races(e, d, what); v != nil {
			return v
		}
		dr := &dryRun{r: d}
		switch c.S["disturb"] {
		case "cancel":
			fs = cancelFault(r, dr)
			if c.S["ui"] != "" && r.Bool(0.7) {
				fs = pressCtrlC(r, dr)
			}
		case "io":
			fs = ioFault(r, dr)
		case "keys":
			fs = genKeys(rng(c.Sub, "keys"), d.Steps*2)
		case "stall":
			fs = []zsim.Fault{{Kind: "stall", G: r.Intn(d.MaxG + 1), N: int64(r.Intn(int(d.Steps) + 1)), Arg: int64(pick(r, 1e6, 1e8, 1e10))}}
		}
		what += ", " + c.S["disturb"]
	}
	return races(e, e.program(RO{Faults: fs, Poison: r.Bool(0.3)}), what)
}

func init() {
	refresh := func(r *R) string { return pick(r, "100us", "300us", "1ms", "1ms", "200ms") }
	reg("P30", "programs", 40, func(c *Case, r *R) {
		if r.Bool(0.3) {
			genReader(c, r, pick(r, readers...))
			return
		}
		genWriter(c, r, pick(r, writers...))
	}, raceRun)
	reg("P30", "many-blocks", 10, func(c *Case, r *R) { manyBlocks(c, r, pick(r, writers...)) }, raceRun)
	reg("P30", "multi-pass", 4, func(c *Case, r *R) {
		genWriter(c, r, "rewritenodes")
		bigIndex(c, r)
		if r.Bool(0.5) {
			c.S["ui"] = refresh(r)
		}
	}, raceRun)
	reg("P30", "ui", 30, func(c *Case, r *R) {
		genWriter(c, r, pick(r, writers...))
		c.S["ui"] = refresh(r)
		if r.Bool(0.5) {
			c.S["disturb"] = "keys"
		}
	}, raceRun)
	reg("P30", "disturbed", 30, func(c *Case, r *R) {
		genProgram(c, r, false)
		if !c.isReader() && r.Bool(0.4) {
			c.S["ui"] = refresh(r)
		}
		c.S["disturb"] = pick(r, "cancel", "cancel", "io", "io", "stall")
	}, raceRun)
}
