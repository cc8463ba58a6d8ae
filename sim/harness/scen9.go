//go:build go1.23

package main

import (
	"bytes"
	"fmt"

	"github.com/squizzling/osmindex/internal/zsim"
)

// P27: power failures while an index is built.

func genPower(c *Case, r *R) {
	cmd := pick(r, "nodeindex", "nodeindex", "wayindex", "wayindex", pick(r, writers...))
	if r.Bool(0.6) {
		manyBlocks(c, r, cmd)
	} else {
		genWriter(c, r, cmd)
	}
	c.P["old"] = int64(pick(r, 0, 0, 1))
	c.P["how"] = int64(pick(r, 0, 0, 0, 1, 1, 2, 3))
	c.P["page"] = int64(pick(r, 512, 1024, 4096, 4096, 4096))
	c.P["keep"] = int64(pick(r, 0, 30, 50, 80, 95, 100))
	c.P["oldest"] = int64(pick(r, 0, 0, 20, 60))
	c.P["order"] = int64(pick(r, 0, 50, 80, 100, 100))
	c.S["first"] = pick(r, "", "kept", "kept", "lost")
}

func powerLoss(e *Env) *Violation {
	c := e.c
	ins := e.setup()
	before := e.snapshot(ins)
	var old []byte
	if c.P["old"] == 1 {
		switch c.S["cmd"] {
		case "nodeindex":
			old = encodeNodeIdx([]idLoc{{7, 99}, {8, 100}}, 1000, 0)
		default:
			old = encodeWayIdx([]int64{5, 9}, map[int64][]int64{5: {1, 2}, 9: {4}}, 3)
		}
		e.fs.Put("out", old)
	}
	d := e.dry()
	if d == nil {
		return nil
	}
	var faults []zsim.Fault
	r := rng(c.Sub, "faults")
	switch c.P["how"] {
	case 1:
		op, path, n, arg, ok := strike(r, opsOf(d.r, nil))
		if ok {
			faults = []zsim.Fault{{Kind: "crash", Op: op, Path: path, N: n, Arg: arg}}
		}
	case 2:
		faults = []zsim.Fault{{Kind: "crash", N: int64(r.Intn(int(d.r.Steps) + 1))}}
	case 3: // what could not be synced may be lost
		faults = []zsim.Fault{{Kind: "io", Op: "sync", N: int64(r.Intn(2)), Err: "EIO", Sticky: true}}
	}
	disk := e.fs.Clone()
	tr := &zsim.Trace{}
	res := e.program(RO{Faults: faults, Record: tr})
	if res.Hang != "" {
		return notOK(c.S["cmd"], res)
	}
	e.fs = zsim.PowerLoss(disk, tr, zsim.Loss{
		Page: c.P["page"], Keep: float64(c.P["keep"]) / 100, Oldest: float64(c.P["oldest"]) / 100, Order: float64(c.P["order"]) / 100, First: c.S["first"],
	}, rng(c.Sub, "power"))
	e.st.Faults["power-loss"]++
	if v := e.inputsKept(before); v != nil {
		return v
	}
	got, ok := e.fs.Get("out")
	if isOneOf(c.S["cmd"], "nodeindex", "wayindex") && ok && !bytes.Equal(got, d.out) && !(old != nil && bytes.Equal(got, old)) && e.expect() != nil {
		e.st.Probes["incomplete-on-disk"]++
		what := fmt.Sprintf("a power failure after %s had ended by %s (%s)", c.S["cmd"], res.Status(), faultNames(e.used))
		if v := e.refused(what, got, d); v != nil {
			return v
		}
	}
	// and once more
	e.fs.Del("probe.pbf")
	e.fs.Del("used")
	res = e.program(RO{})
	if v := notOK(c.S["cmd"]+" again after a power failure", res); v != nil {
		return v
	}
	return e.expect()
}

func isOneOf(s string, l ...string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// P28: an index is read while it is still being built.

func genUnfinished(c *Case, r *R) {
	switch user := pick(r, "rewritenodes", "rewritenodes", "relindex", "relindex", "dumpnodeindex", "dumpwayindex"); user {
	case "rewritenodes", "relindex":
		if r.Bool(0.2) {
			manyBlocks(c, r, user)
		} else {
			genWriter(c, r, user)
		}
		if c.P["p"] < 1 {
			c.P["p"] = int64(pick(r, 1, 2, 3, 5))
		}
	default:
		genReader(c, r, user)
	}
	c.P["old"] = int64(pick(r, 0, 0, 1))
	c.P["bw"] = int64(1 + r.Intn(4))
	c.P["ahead"] = int64(pick(r, 0, 20, 60, 100, 100, 100))
	c.P["left"] = int64(r.Intn(7))
	c.P["often"] = int64(pick(r, 2, 10, 30, 70, 100))
	c.P["burst"] = int64(pick(r, 1, 1, 2, 8, 40))
}

func unfinishedIndex(e *Env) *Violation {
	c := e.c
	cmd := c.S["cmd"]
	build := []string{"nodeindex", "-i", "in.pbf", "-o", "idx", "-r", "0", "-w", fmt.Sprint(c.P["bw"])}
	if cmd == "relindex" || cmd == "dumpwayindex" {
		build[0] = "wayindex"
	}
	if c.P["old"] == 1 {
		if build[0] == "nodeindex" {
			e.fs.Put("idx", encodeNodeIdx([]idLoc{{1, 99}, {2, 100}}, 1000, 0))
		} else {
			e.fs.Put("idx", encodeWayIdx([]int64{1, 2}, map[int64][]int64{1: {1, 2}, 2: {4}}, 3))
		}
	}
	use := func(ro RO) *zsim.Result {
		switch cmd {
		case "dumpnodeindex", "dumpwayindex":
			return e.run(ro, cmd, "-i", "idx", "-p", "-s")
		}
		return e.program(ro)
	}
	disk := e.fs
	e.fs = disk.Clone()
	tr := &zsim.Trace{}
	if res := e.run(RO{Record: tr, Pid: 1000}, build[0], build[1:]...); !res.OK() {
		return nil
	}
	d := use(RO{})
	if !d.OK() {
		return nil
	}
	want, _ := e.fs.Get("out")
	e.fs = disk

	ot := zsim.NewOther(e.fs, tr, rng(c.Sub, "other"), float64(c.P["often"])/100, int(c.P["burst"]))
	ot.Opened("idx")
	if c.P["ahead"] == 100 {
		ot.Run(tr.Len() - ot.At() - int(c.P["left"]))
	} else {
		ot.Run((tr.Len() - ot.At()) * int(c.P["ahead"]) / 100)
	}
	at := ot.At()
	res := use(RO{Other: ot, OnStep: func(*zsim.Proc) { ot.Tick() }, Poison: e.poison()})
	e.st.Faults["index-unfinished"] += min(1, int64(tr.Len()-at))
	what := fmt.Sprintf("%s, started after %d of %d operations of the %s that builds its index", cmd, at, tr.Len(), build[0])
	if res.Hang != "" {
		return notOK(what, res)
	}
	if !res.OK() {
		return nil
	}
	e.st.Probes["index-just-finished"]++
	if cmd == "dumpnodeindex" || cmd == "dumpwayindex" {
		if res.Stdout != d.Stdout {
			return viol("unfinished-index-used", "%s: the program succeeds and prints %d bytes instead of %d", what, len(res.Stdout), len(d.Stdout))
		}
		return nil
	}
	if got := e.out("out"); !bytes.Equal(got, want) {
		return viol("unfinished-index-used", "%s: the program succeeds with other data: %s", what, diffAt(want, got))
	}
	return nil
}

func init() {
	reg("P28", "unfinished-index", 100, genUnfinished, unfinishedIndex)
	reg("P27", "power-failure", 100, genPower, powerLoss)
}
