//go:build go1.23

package main

import (
	"bytes"
	"fmt"

	"github.com/squizzling/osmindex/internal/zsim"
)

// P23: an index file that was cut short is not used as if it were complete.

func shortIndexRun(e *Env) *Violation {
	c := e.c
	cmd := c.S["cmd"]
	var idx []byte
	if cmd == "rewritenodes" || cmd == "dumpnodeindex" {
		idx, _ = nodeIndexFor(c)
	} else {
		idx, _ = wayIndexFor(c)
	}
	e.fs.Put("idx", idx)
	run := func() *zsim.Result {
		switch cmd {
		case "dumpnodeindex", "dumpwayindex":
			return e.run(RO{}, cmd, "-i", "idx", "-p", "-s")
		}
		return e.program(RO{})
	}
	keep := e.fs
	e.fs = keep.Clone()
	d := run()
	want, _ := e.fs.Get("out")
	e.fs = keep
	if !d.OK() || len(idx) < 17 {
		return nil
	}
	r := rng(uint64(c.P["pos"]), "shorten")
	at := 0
	switch c.P["style"] {
	case 0: // anywhere
		at = r.Intn(len(idx))
	case 1: // the last bytes
		at = len(idx) - 1 - r.Intn(min(16, len(idx)))
	case 2: // the last words
		at = (len(idx)-1)/8*8 - 8*r.Intn(min(16, len(idx)/8))
	case 3: // whole words
		at = r.Intn(len(idx)) / 8 * 8
	case 4: // elements
		at = r.Intn(len(idx)) / 16 * 16
	default: // whole pages, or what stands for them in small files
		at = r.Intn(len(idx))
		at -= at % pick(r, 64, 512, 4096)
	}
	if at < 0 || at >= len(idx) {
		return nil
	}
	e.fs.Put("idx", append([]byte(nil), idx[:at]...))
	e.st.Faults["index-truncated"]++
	res := run()
	what := fmt.Sprintf("%s with an index cut off at byte %d of %d", cmd, at, len(idx))
	if res.Hang != "" {
		return notOK(what, res)
	}
	if !res.OK() {
		return nil
	}
	if cmd == "dumpnodeindex" || cmd == "dumpwayindex" {
		if res.Stdout != d.Stdout {
			return viol("short-index-used", "%s: the program succeeds and prints %d bytes instead of %d", what, len(res.Stdout), len(d.Stdout))
		}
		return nil
	}
	if got := e.out("out"); !bytes.Equal(got, want) {
		return viol("short-index-used", "%s: the program succeeds with other data: %s", what, diffAt(want, got))
	}
	return nil
}

func init() {
	reg("P23", "index-truncated", 100, func(c *Case, r *R) {
		switch cmd := pick(r, "rewritenodes", "rewritenodes", "relindex", "relindex", "dumpnodeindex", "dumpwayindex"); cmd {
		case "dumpnodeindex":
			genNodeIdxCase(c, r)
			c.S["cmd"] = cmd
		case "dumpwayindex":
			genWayIdxCase(c, r)
			c.S["cmd"] = cmd
		default:
			genWriter(c, r, cmd)
			if c.P["p"] > 3 {
				c.P["p"] = 2
			}
		}
		c.P["pos"] = int64(r.U64() >> 2)
		c.P["style"] = int64(r.Intn(6))
	}, shortIndexRun)
}
