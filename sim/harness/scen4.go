//go:build go1.23

package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"strings"
)

// P22: files with content that the format allows and the programs do not
// implement. A block's X says what is put into it (see codec.go).

var foreignKinds = []string{
	"node", "node", // a node outside a dense group
	"way-coordinates", "way-field", "relation-field", "dense-field", "group-field", "block-field",
	"lzma", "bzip2", "lz4", "zstd", // other compressions
	"indexdata", // a field of the block's header
	"block-type", "no-size",
	// the same content, divided in ways the encoding allows
	"split-refs", "split-way-tags", "split-members", "split-roles", "split-types", "split-rel-tags", "split-dense",
	"two-dense", "two-tables", "unpacked",
}

// divided tells whether a kind leaves the content as it is.
func divided(kind string) bool {
	return strings.HasPrefix(kind, "split-") || strings.HasPrefix(kind, "two-") || kind == "unpacked"
}

var foreignMark = []byte("\x01\x81\x02foreign-mark\x7f\x00")

const foreignID = 1<<40 + 12345 // the node outside a dense group

func foreignNode() []byte {
	m := putUvarint([]byte{1<<3 | 0}, zz(foreignID))
	m = putUvarint(append(m, 8<<3|0), zz(123456789))
	m = putUvarint(append(m, 9<<3|0), zz(-987654321))
	return fieldBytes(m, 20, foreignMark)
}

func genForeign(c *Case, r *R) {
	kind := pick(r, foreignKinds...)
	c.S["x"] = kind
	for tries := 0; tries < 30; tries++ {
		c.Data = Dataset{}
		if r.Bool(0.35) {
			genReader(c, r, pick(r, readers...))
		} else {
			genWriter(c, r, pick(r, writers...))
			if c.P["p"] > 3 {
				c.P["p"] = 2
			}
		}
		var at []int
		for i := range c.Data.Blocks {
			b := &c.Data.Blocks[i]
			if b.Type != "OSMData" || b.Fill != nil {
				continue
			}
			w, n, x := 0, 0, 0
			n2, refs, wtags, members, rtags := false, false, false, false, false
			for _, g := range b.Groups {
				w += len(g.Ways)
				n += len(g.Nodes)
				x += len(g.Rels)
				n2 = n2 || len(g.Nodes) > 1
				for _, y := range g.Ways {
					refs = refs || len(y.Refs) > 1
					wtags = wtags || len(y.Tags) > 1
				}
				for _, y := range g.Rels {
					members = members || len(y.Members) > 1
					rtags = rtags || len(y.Tags) > 1
				}
			}
			ok := false
			switch kind {
			case "way-coordinates", "way-field":
				ok = w > 0
			case "relation-field":
				ok = x > 0
			case "dense-field":
				ok = n > 0
			case "node", "group-field":
				ok = len(b.Groups) > 0
			case "no-size":
				ok = b.Comp == "zlib"
			case "block-type":
				ok = true
			case "split-refs", "unpacked":
				ok = refs
			case "split-way-tags":
				ok = wtags
			case "split-members", "split-roles", "split-types":
				ok = members
			case "split-rel-tags":
				ok = rtags
			case "split-dense", "two-dense":
				ok = n2
			case "two-tables":
				ok = (refs || wtags || rtags || n > 0) && !b.NoST
			default:
				ok = w+n+x > 0
			}
			if ok {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			continue
		}
		k := at[r.Intn(len(at))]
		if r.Bool(0.3) {
			k = at[len(at)-1]
		}
		c.P["at"] = int64(k)
		if c.S["cmd"] == "entityfind" && kind == "node" {
			c.L = append(c.L, foreignID)
		}
		return
	}
	c.P["at"] = -1
}

func extraType(at int) string {
	return []string{"OSMExtra", "OSMIndex", "Extra", "osmdata", "X", "OSMDataX", ""}[at%7]
}

// foreign encodes the case's data with the foreign content.
func (d *Dataset) foreign(kind string, at int) []byte {
	x := Dataset{Blocks: append([]Block(nil), d.Blocks...)}
	if kind == "block-type" {
		f, _ := (&Dataset{Blocks: d.Blocks[:at]}).encode()
		f = frame(f, extraType(at), fieldBytes(nil, 1, foreignMark), false)
		g, _ := (&Dataset{Blocks: d.Blocks[at:]}).encode()
		return append(f, g...)
	}
	x.Blocks[at].X = kind
	f, _ := x.encode()
	return f
}

// carries tells whether the mark is still somewhere in a PBF file.
func carries(f []byte) bool {
	for len(f) >= 4 {
		n := int(binary.BigEndian.Uint32(f))
		if 4+n > len(f) {
			break
		}
		m := pbMsg{b: f[4 : 4+n]}
		size := 0
		for {
			id, v, _, ok := m.next()
			if !ok {
				break
			}
			if id == 3 {
				size = int(v)
			}
		}
		if 4+n+size > len(f) {
			break
		}
		blob := f[4+n : 4+n+size]
		f = f[4+n+size:]
		b := pbMsg{b: blob}
		for {
			id, _, p, ok := b.next()
			if !ok {
				break
			}
			if id == 3 {
				if z, err := zlib.NewReader(bytes.NewReader(p)); err == nil {
					p, _ = io.ReadAll(z)
				}
			}
			if bytes.Contains(p, foreignMark) {
				return true
			}
		}
	}
	return false
}

func foreignRun(e *Env) *Violation {
	c := e.c
	e.setup()
	kind, at := c.S["x"], int(c.P["at"])
	if at < 0 || at >= len(c.Data.Blocks) {
		return nil
	}
	d := e.dry()
	if d == nil {
		return nil
	}
	e.fs.Put("in.pbf", c.Data.foreign(kind, at))
	cmd := c.S["cmd"]
	what := fmt.Sprintf("%s on a file with something it may not know (%s in block %d)", cmd, kind, at)
	e.st.Faults["foreign-"+kind]++
	res := e.program(RO{Poison: e.poison()})
	if res.Hang != "" {
		return notOK(what, res)
	}
	if !res.OK() {
		return nil // refused
	}
	bad := func(f string, a ...any) *Violation {
		return viol("silently-dropped", "%s: the program reports success, but %s", what, fmt.Sprintf(f, a...))
	}
	switch kind {
	case "lzma", "bzip2", "lz4", "zstd":
		if cmd != "blockcount" {
			return bad("nothing can decode that block")
		}
	case "node":
		switch cmd {
		case "nodeindex":
			x, err := decodeNodeIdx(e.out("out"))
			if err != nil || x.find(foreignID) == 0 {
				return bad("the node is not in the index")
			}
			return nil
		case "entitycount":
			got, want := intsIn(res.Stdout), c.Data.countsWanted()
			if len(got) < 2 || got[1] != want[1]+1 {
				return bad("the node is not counted: %q", res.Stdout)
			}
			return nil
		case "entityfind":
			id := fmt.Sprint(int64(foreignID))
			if !strings.Contains(res.Stdout, id) && !strings.Contains(res.Stdout, fmt.Sprintf("%#x", int64(foreignID))) {
				return bad("the node is not found")
			}
			return nil
		}
	}
	if c.isReader() {
		got, want := answer(res.Stdout), answer(d.r.Stdout)
		if kind == "block-type" && cmd != "entityfind" {
			return nil // whether such a block counts is a matter of taste
		}
		if got != want {
			return bad("the answer is %q instead of %q", got, want)
		}
		return nil
	}
	out := e.out("out")
	switch cmd {
	case "rewritenodes", "tagfilter", "decompress":
		if divided(kind) {
			want, _ := decodeFile(d.out)
			have, err := decodeFile(out)
			if err != nil {
				return bad("the output is no valid file: %v", err)
			}
			w, h := flatten(want), flatten(have)
			for i := range w {
				if i >= len(h) {
					return bad("%v is missing from the output", w[i])
				}
				if !flatEq(w[i], h[i]) {
					return bad("%v has become %v", w[i], h[i])
				}
			}
			if len(h) > len(w) {
				return bad("the output also has %v", h[len(w)])
			}
			return nil
		}
		switch kind {
		case "indexdata", "block-type", "no-size":
			want, _ := decodeFile(d.out)
			have, err := decodeFile(out)
			if err != nil {
				return bad("the output is no valid file: %v", err)
			}
			k := 0
			for _, b := range have {
				if kind == "block-type" && b.Type == extraType(at) {
					continue
				}
				if k >= len(want) || want[k].Type != b.Type || !bytes.Equal(want[k].Raw, b.Raw) {
					return bad("block %d of the output is not as it should be", k)
				}
				k++
			}
			if kind == "block-type" && !carries(out) {
				return bad("it is missing from the output")
			}
			if k != len(want) {
				return bad("the output has %d blocks instead of %d", k, len(want))
			}
		default:
			if !carries(out) {
				return bad("it is missing from the output")
			}
		}
	default:
		if !bytes.Equal(out, d.out) {
			return bad("the output is not what it is without it: %s", diffAt(d.out, out))
		}
	}
	return nil
}

func init() {
	reg("P22", "unsupported", 100, genForeign, foreignRun)
}
