//go:build go1.23

package main

import (
	"bytes"
	"fmt"

	"github.com/squizzling/osmindex/internal/zsim"
)

// P26: two programs at work in one directory at the same time.

var bystanders = []string{"other.loc.tmp", "loc.tmp", ".loc.tmp", "in.pbf.loc.tmp", "in.pbf.tmp", "notes.txt", "outer", "out2.old", "0.tmp", "pass_0", "tmp", "idx.tmp", "in2.pbf.0"}

func genBeside(c *Case, r *R) {
	cmd := pick(r, writers...)
	genWriter(c, r, cmd)
	if cmd == "rewritenodes" && r.Bool(0.3) {
		bigIndex(c, r)
	}
	if _, ok := c.P["p"]; !ok || c.P["p"] < 1 {
		c.P["p"] = int64(pick(r, 1, 2, 3, 5))
	}
	c.S["cmd2"] = cmd
	if r.Bool(0.35) {
		c.S["cmd2"] = pick(r, writers...)
	}
	c.S["out2"] = pick(r, "out2", "out2", "o", "ou", "out.2", "x.out", "b/out", "b/out", "tuo")
	c.P["w2"] = int64(1 + r.Intn(4))
	c.P["half"] = int64(r.Intn(3))
	c.P["ahead"] = int64(pick(r, 0, 0, 0, 10, 30, 60, 90, 100))
	c.P["often"] = int64(pick(r, 2, 10, 30, 70, 100))
	c.P["burst"] = int64(pick(r, 1, 1, 2, 8, 40))
	for i := 0; i < 3; i++ {
		c.S[fmt.Sprintf("by%d", i)] = pick(r, bystanders...)
	}
	if r.Bool(0.2) {
		c.S["end"] = pick(r, "crash", "cancel", "io")
		c.P["at"] = int64(r.Intn(40))
	}
}

func besideRun(e *Env) *Violation {
	c := e.c
	ins := append(e.setup(), "in2.pbf")
	d2 := c.Data
	if c.P["half"] < 2 && len(d2.Blocks) > 1 {
		d2.Blocks = nil
		for i, b := range c.Data.Blocks {
			if int64(i&1) == c.P["half"] {
				d2.Blocks = append(d2.Blocks, b)
			}
		}
	}
	in2, _ := d2.encode()
	if len(in2) == 0 {
		return nil
	}
	e.fs.Put("in2.pbf", in2)
	e.fs.MkDir("b")
	o := c.clone()
	o.S["cmd"] = c.S["cmd2"]
	o.P["w"] = c.P["w2"]
	args := o.writerArgs(c.P["w2"], "0")
	idx := ""
	for i, a := range args {
		switch a {
		case "in.pbf":
			args[i] = "in2.pbf"
		case "out":
			args[i] = c.S["out2"]
		case "idx":
			if c.S["cmd2"] == c.S["cmd"] {
				break
			}
			idx = "idx2"
			args[i] = idx
			b, _ := nodeIndexFor(o)
			if c.S["cmd2"] == "relindex" {
				b, _ = wayIndexFor(o)
			}
			e.fs.Put(idx, b)
		}
	}
	if idx != "" {
		ins = append(ins, idx)
	}
	for i := 0; i < 3; i++ {
		if n := c.S[fmt.Sprintf("by%d", i)]; n != "" {
			e.fs.Put(n, []byte("what somebody else keeps in "+n))
			ins = append(ins, n)
		}
	}

	// the second program alone
	shared := e.fs
	e.fs = shared.Clone()
	tr := &zsim.Trace{}
	res := e.run(RO{Record: tr, Pid: 1000}, c.S["cmd2"], args...)
	alone, made := e.fs.Get(c.S["out2"])
	if v := e.untouched(shared); v != nil {
		return viol("foreign-file", "%s on its own: %s", c.S["cmd2"], v.Msg)
	}
	e.fs = shared
	if !res.OK() || !made {
		return nil
	}

	// and both
	before := shared.Clone()
	ot := zsim.NewOther(e.fs, tr, rng(c.Sub, "other"), float64(c.P["often"])/100, int(c.P["burst"]))
	ot.Run(tr.Len() * int(c.P["ahead"]) / 100)
	at := ot.At()
	var faults []zsim.Fault
	switch c.S["end"] {
	case "crash":
		faults = []zsim.Fault{{Kind: "crash", Op: "any", N: c.P["at"]}}
	case "cancel":
		faults = []zsim.Fault{{Kind: "cancelop", Op: "any", N: c.P["at"]}}
	case "io":
		faults = []zsim.Fault{{Kind: "io", Op: "mut", N: c.P["at"], Err: "EIO"}}
	}
	res = e.writer(RO{Other: ot, Faults: faults, Poison: e.poison()})
	e.st.Faults["second-program-ops"] += int64(ot.At() - at)
	ot.Run(tr.Len())
	what := fmt.Sprintf("%s and %s at work at the same time", c.S["cmd"], c.S["cmd2"])
	if ot.Broken != "" {
		return viol("disturbed", "%s: %s", what, ot.Broken)
	}
	if b, ok := e.fs.Get(c.S["out2"]); !ok || !bytes.Equal(b, alone) {
		return viol("disturbed", "%s: the second one's output is not what it is when alone: %s", what, diffAt(alone, b))
	}
	if res.Hang != "" {
		return notOK(what, res)
	}
	own := []string{"out", c.S["out2"]}
	if c.S["end"] == "" {
		if v := notOK(what, res); v != nil {
			return v
		}
		if v := e.expect(); v != nil {
			v.Msg = what + ": " + v.Msg
			return v
		}
		if v := e.onlyFiles(append(ins, own...)...); v != nil {
			return v
		}
	}
	return e.untouched(before)
}

// untouched compares the files that were there before.
func (e *Env) untouched(before *zsim.FS) *Violation {
	for _, n := range before.Names() {
		a, _ := before.Get(n)
		b, ok := e.fs.Get(n)
		if !ok {
			return viol("foreign-file", "%s is gone", n)
		}
		if !bytes.Equal(a, b) {
			return viol("foreign-file", "%s has changed: %s", n, diffAt(a, b))
		}
	}
	return nil
}

func init() {
	reg("P26", "side-by-side", 100, genBeside, besideRun)
}
