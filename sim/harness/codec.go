//go:build go1.23

package main

// An encoder and decoder for OSM PBF and the index files, written from the
// format descriptions (and not from, or with, the code under test).

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"sort"
)

func putUvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func zz(v int64) uint64   { return uint64(v)<<1 ^ uint64(v>>63) }
func unzz(v uint64) int64 { return int64(v>>1) ^ -int64(v&1) }

func fieldBytes(b []byte, id int, p []byte) []byte {
	b = putUvarint(b, uint64(id)<<3|2)
	b = putUvarint(b, uint64(len(p)))
	return append(b, p...)
}

func fieldInt(b []byte, id int, v int64) []byte {
	b = putUvarint(b, uint64(id)<<3)
	return putUvarint(b, uint64(v))
}

func packDelta(v []int64) []byte {
	var b []byte
	last := int64(0)
	for _, x := range v {
		b = putUvarint(b, zz(x-last))
		last = x
	}
	return b
}

func packInts(v []int64) []byte {
	var b []byte
	for _, x := range v {
		b = putUvarint(b, uint64(x))
	}
	return b
}

type strTab struct {
	m map[string]int
	l []string
}

func newStrTab() *strTab { return &strTab{map[string]int{"": 0}, []string{""}} }

func (s *strTab) id(x string) int64 {
	if i, ok := s.m[x]; ok {
		return int64(i)
	}
	s.m[x] = len(s.l)
	s.l = append(s.l, x)
	return int64(len(s.l) - 1)
}

// kvID returns the id of a key or value in a dense node: never 0, which is the
// delimiter, so an empty string gets a second entry.
func (s *strTab) kvID(x string) int64 {
	if x != "" {
		return s.id(x)
	}
	return s.id0()
}

func (s *strTab) id0() int64 {
	if i, ok := s.m["\x00empty"]; ok {
		return int64(i)
	}
	s.m["\x00empty"] = len(s.l)
	s.l = append(s.l, "")
	return int64(len(s.l) - 1)
}

func strBytes(l []string) []byte {
	var b []byte
	for _, x := range l {
		b = fieldBytes(b, 1, []byte(x))
	}
	return b
}

// fieldPacked writes packed integers, possibly in two pieces.
func fieldPacked(m []byte, id int, p []byte, split bool) []byte {
	cut := len(p) / 2
	for split && cut > 0 && p[cut-1] >= 0x80 {
		cut--
	}
	if !split || cut == 0 {
		return fieldBytes(m, id, p)
	}
	return fieldBytes(fieldBytes(m, id, p[:cut]), id, p[cut:])
}

func infoBytes(id int64) []byte {
	b := fieldInt(nil, 1, 3)
	b = fieldInt(b, 2, 1000+id)
	b = fieldInt(b, 3, 77)
	return b
}

func encGroup(g *Group, st *strTab, x string) []byte {
	var dense, ways, rels []byte
	dense1 := func(nodes []Node) {
		var ids, lats, lons, kvs []int64
		anyTag := false
		for _, n := range nodes {
			ids = append(ids, n.ID)
			lats = append(lats, n.Lat)
			lons = append(lons, n.Lon)
			for _, t := range n.Tags {
				kvs = append(kvs, st.kvID(t.K), st.kvID(t.V))
				anyTag = true
			}
			kvs = append(kvs, 0)
		}
		split := x == "split-dense"
		m := fieldPacked(nil, 1, packDelta(ids), split)
		if g.DenseInfo {
			var ver, ts []int64
			for i := range ids {
				ver = append(ver, 1)
				ts = append(ts, int64(i)*10)
			}
			di := fieldBytes(nil, 1, packInts(ver))
			di = fieldBytes(di, 2, packDelta(ts))
			m = fieldBytes(m, 5, di)
		}
		m = fieldPacked(m, 8, packDelta(lats), split)
		m = fieldPacked(m, 9, packDelta(lons), split)
		if len(kvs) > 0 && (anyTag || !g.NoKV) {
			m = fieldPacked(m, 10, packInts(kvs), split)
		}
		if x == "dense-field" {
			m = fieldBytes(m, 20, foreignMark)
		}
		dense = fieldBytes(dense, 2, m)
	}
	if n := len(g.Nodes); x == "two-dense" && n > 1 {
		dense1(g.Nodes[:n/2])
		dense1(g.Nodes[n/2:])
	} else if n > 0 || g.EmptyDense {
		dense1(g.Nodes)
	}
	for i, w := range g.Ways {
		m := fieldInt(nil, 1, w.ID)
		if len(w.Tags) > 0 {
			var k, v []int64
			for _, t := range w.Tags {
				k = append(k, st.id(t.K))
				v = append(v, st.id(t.V))
			}
			m = fieldPacked(m, 2, packInts(k), x == "split-way-tags")
			m = fieldPacked(m, 3, packInts(v), x == "split-way-tags")
		}
		if w.Info {
			m = fieldBytes(m, 4, infoBytes(w.ID))
		}
		if x == "unpacked" {
			last := int64(0)
			for _, ref := range w.Refs {
				m = putUvarint(append(m, 8<<3), zz(ref-last))
				last = ref
			}
		} else if len(w.Refs) > 0 {
			m = fieldPacked(m, 8, packDelta(w.Refs), x == "split-refs")
		}
		if i == len(g.Ways)/2 {
			switch x {
			case "way-coordinates":
				m = fieldBytes(m, 9, foreignMark)
				m = fieldBytes(m, 10, foreignMark)
			case "way-field":
				m = fieldBytes(m, 15, foreignMark)
			}
		}
		ways = fieldBytes(ways, 3, m)
	}
	for i, r := range g.Rels {
		m := fieldInt(nil, 1, r.ID)
		if len(r.Tags) > 0 {
			var k, v []int64
			for _, t := range r.Tags {
				k = append(k, st.id(t.K))
				v = append(v, st.id(t.V))
			}
			m = fieldPacked(m, 2, packInts(k), x == "split-rel-tags")
			m = fieldPacked(m, 3, packInts(v), x == "split-rel-tags")
		}
		if r.Info {
			m = fieldBytes(m, 4, infoBytes(r.ID))
		}
		if len(r.Members) > 0 {
			var role, id, ty []int64
			for _, y := range r.Members {
				role = append(role, st.id(y.Role))
				id = append(id, y.ID)
				ty = append(ty, int64(y.Type))
			}
			m = fieldPacked(m, 8, packInts(role), x == "split-roles")
			m = fieldPacked(m, 9, packDelta(id), x == "split-members")
			m = fieldPacked(m, 10, packInts(ty), x == "split-types")
		}
		if x == "relation-field" && i == len(g.Rels)/2 {
			m = fieldBytes(m, 15, foreignMark)
		}
		rels = fieldBytes(rels, 4, m)
	}
	var out []byte
	if g.RelsFirst {
		out = append(append(append(out, rels...), ways...), dense...)
	} else {
		out = append(append(append(out, dense...), ways...), rels...)
	}
	switch x {
	case "node":
		out = fieldBytes(out, 1, foreignNode())
	case "group-field":
		out = fieldBytes(out, 6, foreignMark)
	}
	if g.Changeset {
		out = fieldBytes(out, 5, fieldInt(nil, 1, 42))
	}
	return out
}

func (b *Block) payload() []byte {
	if b.Type == "OSMHeader" {
		return b.Header
	}
	if b.spoiled != nil {
		return b.spoiled
	}
	st := newStrTab()
	if b.UnsortedST {
		st.id("zzz-unused")
		st.id("")
	}
	var gs []byte
	for _, g := range b.groups() {
		gs = fieldBytes(gs, 2, encGroup(&g, st, b.X))
	}
	if b.PadStr > 0 {
		pad := make([]byte, b.PadStr)
		for i := range pad {
			pad[i] = byte('a' + (i*7+i/26)%26)
		}
		st.id(string(pad))
	}
	var out []byte
	table := func() {
		n := 0
		if b.X == "two-tables" {
			n = len(st.l) / 2
			out = fieldBytes(out, 1, strBytes(st.l[:n]))
		}
		out = fieldBytes(out, 1, strBytes(st.l[n:]))
	}
	if !b.STLast && !b.NoST {
		table()
	}
	out = append(out, gs...)
	if b.STLast && !b.NoST {
		table()
	}
	if b.X == "block-field" {
		out = fieldBytes(out, 30, foreignMark)
	}
	if b.Gran != 0 {
		out = fieldInt(out, 17, b.Gran)
	}
	if b.DateGran != 0 {
		out = fieldInt(out, 18, b.DateGran)
	}
	if b.LatOff != 0 {
		out = fieldInt(out, 19, b.LatOff)
	}
	if b.LonOff != 0 {
		out = fieldInt(out, 20, b.LonOff)
	}
	return out
}

// span locates a block inside an encoded file.
type span struct {
	Start, Blob, End int // block start, start of blob message, end
	ZStart, ZEnd     int // compressed payload bytes (0,0 when raw)
	Type             string
}

func encBlob(b *Block) (blob []byte, zs, ze int) {
	p := b.payload()
	switch b.X {
	case "lzma", "bzip2", "lz4", "zstd":
		id := map[string]int{"lzma": 4, "bzip2": 5, "lz4": 6, "zstd": 7}[b.X]
		return fieldBytes(fieldInt(nil, 2, int64(len(p))), id, foreignMark), 0, 0
	}
	switch b.Comp {
	case "zlib", "store":
		lvl := b.Level
		if b.Comp == "store" {
			lvl = 0
		} else if lvl == 0 {
			lvl = 6
		}
		var zb bytes.Buffer
		w, err := zlib.NewWriterLevel(&zb, lvl)
		if err != nil {
			panic(err)
		}
		_, _ = w.Write(p)
		_ = w.Close()
		if !b.SizeLast && b.X != "no-size" {
			blob = fieldInt(blob, 2, int64(len(p)))
		}
		blob = fieldBytes(blob, 3, zb.Bytes())
		ze = len(blob)
		zs = ze - zb.Len()
		if b.SizeLast && b.X != "no-size" {
			blob = fieldInt(blob, 2, int64(len(p)))
		}
	default:
		if b.RawSizeOnRaw && !b.SizeLast {
			blob = fieldInt(blob, 2, int64(len(p)))
		}
		blob = fieldBytes(blob, 1, p)
		if b.RawSizeOnRaw && b.SizeLast {
			blob = fieldInt(blob, 2, int64(len(p)))
		}
	}
	return
}

func frame(out []byte, typ string, blob []byte, indexdata bool) []byte {
	h := fieldBytes(nil, 1, []byte(typ))
	if indexdata {
		h = fieldBytes(h, 2, foreignMark)
	}
	h = fieldInt(h, 3, int64(len(blob)))
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], uint32(len(h)))
	out = append(out, n[:]...)
	out = append(out, h...)
	return append(out, blob...)
}

func (d *Dataset) encode() ([]byte, []span) {
	var out []byte
	var sp []span
	for i := range d.Blocks {
		b := &d.Blocks[i]
		blob, zs, ze := encBlob(b)
		s := span{Start: len(out), Type: b.Type}
		out = frame(out, b.Type, blob, b.X == "indexdata")
		s.End = len(out)
		s.Blob = s.End - len(blob)
		if ze > 0 {
			s.ZStart, s.ZEnd = s.Blob+zs, s.Blob+ze
		}
		sp = append(sp, s)
	}
	return out, sp
}

// ---------------------------------------------------------------- decoding

type pbMsg struct {
	b   []byte
	err error
}

func (m *pbMsg) fail(f string, a ...any) {
	if m.err == nil {
		m.err = fmt.Errorf(f, a...)
	}
	m.b = nil
}

func (m *pbMsg) uvarint() uint64 {
	v, n := binary.Uvarint(m.b)
	if n <= 0 {
		m.fail("bad varint")
		return 0
	}
	m.b = m.b[n:]
	return v
}

// next returns the next field; bytes fields are sliced.
func (m *pbMsg) next() (id int, v uint64, p []byte, ok bool) {
	if len(m.b) == 0 || m.err != nil {
		return
	}
	t := m.uvarint()
	if m.err != nil {
		return
	}
	id = int(t >> 3)
	switch t & 7 {
	case 0:
		v = m.uvarint()
	case 2:
		n := m.uvarint()
		if n > uint64(len(m.b)) {
			m.fail("field %d: length %d beyond the message", id, n)
			return
		}
		p = m.b[:n:n]
		m.b = m.b[n:]
	default:
		m.fail("field %d: wire type %d", id, t&7)
	}
	return id, v, p, m.err == nil
}

func unpackDelta(p []byte) ([]int64, error) {
	var o []int64
	last := int64(0)
	m := pbMsg{b: p}
	for len(m.b) > 0 {
		last += unzz(m.uvarint())
		if m.err != nil {
			return nil, m.err
		}
		o = append(o, last)
	}
	return o, nil
}

func unpackInts(p []byte) ([]int64, error) {
	var o []int64
	m := pbMsg{b: p}
	for len(m.b) > 0 {
		v := m.uvarint()
		if m.err != nil {
			return nil, m.err
		}
		o = append(o, int64(v))
	}
	return o, nil
}

// decodeFile splits a PBF file into blocks and decodes them.
func decodeFile(f []byte) ([]EBlock, error) {
	var out []EBlock
	for off := 0; off < len(f); {
		if off+4 > len(f) {
			return out, fmt.Errorf("block %d at %d: truncated length", len(out), off)
		}
		hl := int(binary.BigEndian.Uint32(f[off:]))
		off += 4
		if hl > 64<<10 || off+hl > len(f) {
			return out, fmt.Errorf("block %d at %d: bad header length %d", len(out), off-4, hl)
		}
		m := pbMsg{b: f[off : off+hl]}
		off += hl
		typ, size := "", 0
		for {
			id, v, p, ok := m.next()
			if !ok {
				break
			}
			switch id {
			case 1:
				typ = string(p)
			case 3:
				size = int(v)
			}
		}
		if m.err != nil {
			return out, fmt.Errorf("block %d header: %v", len(out), m.err)
		}
		if size < 0 || off+size > len(f) {
			return out, fmt.Errorf("block %d: blob of %d bytes beyond the end of the file", len(out), size)
		}
		e, err := decodeBlob(typ, f[off:off+size])
		if err != nil {
			return out, fmt.Errorf("block %d: %v", len(out), err)
		}
		out = append(out, e)
		off += size
	}
	return out, nil
}

func decodeBlob(typ string, blob []byte) (EBlock, error) {
	e := EBlock{Type: typ}
	m := pbMsg{b: blob}
	rawSize := int64(-1)
	var raw, z []byte
	hasRaw, hasZ := false, false
	for {
		id, v, p, ok := m.next()
		if !ok {
			break
		}
		switch id {
		case 1:
			raw, hasRaw = p, true
		case 2:
			rawSize = int64(v)
		case 3:
			z, hasZ = p, true
		default:
			return e, fmt.Errorf("blob: field %d", id)
		}
	}
	if m.err != nil {
		return e, fmt.Errorf("blob: %v", m.err)
	}
	switch {
	case hasRaw && hasZ:
		return e, fmt.Errorf("blob: both raw and zlib data")
	case hasRaw:
		e.Raw, e.Comp = raw, "raw"
	case hasZ:
		r, err := zlib.NewReader(bytes.NewReader(z))
		if err != nil {
			return e, err
		}
		e.Raw, err = io.ReadAll(r)
		if err != nil {
			return e, err
		}
		e.Comp = "zlib"
		if rawSize != int64(len(e.Raw)) {
			return e, fmt.Errorf("blob: raw_size %d but %d bytes", rawSize, len(e.Raw))
		}
	default:
		return e, fmt.Errorf("blob: no data")
	}
	if hasRaw && rawSize >= 0 && rawSize != int64(len(raw)) {
		return e, fmt.Errorf("blob: raw_size %d but %d raw bytes", rawSize, len(raw))
	}
	if typ == "OSMData" {
		if err := decodePrimitiveBlock(e.Raw, &e); err != nil {
			return e, err
		}
	}
	return e, nil
}

// packedFields collects the packed integers of each field: a repeated field may
// come in several pieces, packed or not.
func packedFields(p []byte) (f [16][]byte, err error) {
	m := pbMsg{b: p}
	for {
		id, n, p, ok := m.next()
		if !ok {
			return f, m.err
		}
		switch {
		case id >= len(f):
		case p != nil:
			if f[id] == nil {
				f[id] = p[:len(p):len(p)]
			} else {
				f[id] = append(f[id], p...)
			}
		default:
			f[id] = putUvarint(f[id], n)
		}
	}
}

// lastInt is the value of a field that was given once, or several times.
func lastInt(p []byte) int64 {
	v, err := unpackInts(p)
	if err != nil || len(v) == 0 {
		return 0
	}
	return v[len(v)-1]
}

func decodePrimitiveBlock(p []byte, e *EBlock) error {
	var st []string
	var groups [][]byte
	gran, latOff, lonOff := int64(100), int64(0), int64(0)
	m := pbMsg{b: p}
	for {
		id, v, p, ok := m.next()
		if !ok {
			break
		}
		switch id {
		case 1:
			sm := pbMsg{b: p}
			for {
				id, _, p, ok := sm.next()
				if !ok {
					break
				}
				if id == 1 {
					st = append(st, string(p))
				}
			}
			if sm.err != nil {
				return fmt.Errorf("string table: %v", sm.err)
			}
		case 2:
			groups = append(groups, p)
		case 17:
			gran = int64(int32(v))
		case 19:
			latOff = int64(v)
		case 20:
			lonOff = int64(v)
		}
	}
	if m.err != nil {
		return fmt.Errorf("primitive block: %v", m.err)
	}
	str := func(i int64) (string, error) {
		if i == 0 && len(st) == 0 {
			return "", nil
		}
		if i < 0 || i >= int64(len(st)) {
			return "", fmt.Errorf("string %d of %d", i, len(st))
		}
		return st[i], nil
	}
	tags := func(k, v []int64) ([]KV, error) {
		if len(k) != len(v) {
			return nil, fmt.Errorf("%d keys, %d values", len(k), len(v))
		}
		var out []KV
		for i := range k {
			ks, err := str(k[i])
			if err != nil {
				return nil, err
			}
			vs, err := str(v[i])
			if err != nil {
				return nil, err
			}
			out = append(out, KV{ks, vs})
		}
		return out, nil
	}
	for _, g := range groups {
		m := pbMsg{b: g}
		for {
			id, _, p, ok := m.next()
			if !ok {
				break
			}
			switch id {
			case 1:
				return fmt.Errorf("plain node in output")
			case 2:
				var ids, lats, lons, kvs []int64
				f, err := packedFields(p)
				if err != nil {
					return fmt.Errorf("dense nodes: %v", err)
				}
				if ids, err = unpackDelta(f[1]); err != nil {
					return err
				}
				if lats, err = unpackDelta(f[8]); err != nil {
					return err
				}
				if lons, err = unpackDelta(f[9]); err != nil {
					return err
				}
				if kvs, err = unpackInts(f[10]); err != nil {
					return err
				}
				if len(ids) != len(lats) || len(ids) != len(lons) {
					return fmt.Errorf("dense nodes: %d ids, %d lats, %d lons", len(ids), len(lats), len(lons))
				}
				pos := 0
				for i := range ids {
					n := ENode{ID: ids[i], Lat: latOff + gran*lats[i], Lon: lonOff + gran*lons[i]}
					if len(kvs) > 0 {
						var k, v []int64
						for {
							if pos >= len(kvs) {
								return fmt.Errorf("dense nodes: keys_vals too short")
							}
							if kvs[pos] == 0 {
								pos++
								break
							}
							if pos+1 >= len(kvs) {
								return fmt.Errorf("dense nodes: keys_vals odd")
							}
							k = append(k, kvs[pos])
							v = append(v, kvs[pos+1])
							pos += 2
						}
						n.Tags, err = tags(k, v)
						if err != nil {
							return err
						}
					}
					e.Nodes = append(e.Nodes, n)
				}
				if pos != len(kvs) {
					return fmt.Errorf("dense nodes: %d keys_vals left over", len(kvs)-pos)
				}
			case 3:
				var w Way
				var k, v []int64
				f, err := packedFields(p)
				if err != nil {
					return fmt.Errorf("way: %v", err)
				}
				w.ID = lastInt(f[1])
				if k, err = unpackInts(f[2]); err != nil {
					return err
				}
				if v, err = unpackInts(f[3]); err != nil {
					return err
				}
				if w.Refs, err = unpackDelta(f[8]); err != nil {
					return err
				}
				if w.Tags, err = tags(k, v); err != nil {
					return fmt.Errorf("way %d: %v", w.ID, err)
				}
				e.Ways = append(e.Ways, w)
			case 4:
				var r Rel
				var k, v, role, mid, mt []int64
				f, err := packedFields(p)
				if err != nil {
					return fmt.Errorf("relation: %v", err)
				}
				r.ID = lastInt(f[1])
				if k, err = unpackInts(f[2]); err != nil {
					return err
				}
				if v, err = unpackInts(f[3]); err != nil {
					return err
				}
				if role, err = unpackInts(f[8]); err != nil {
					return err
				}
				if mid, err = unpackDelta(f[9]); err != nil {
					return err
				}
				if mt, err = unpackInts(f[10]); err != nil {
					return err
				}
				if r.Tags, err = tags(k, v); err != nil {
					return fmt.Errorf("relation %d: %v", r.ID, err)
				}
				if len(role) != len(mid) || len(mt) != len(mid) {
					return fmt.Errorf("relation %d: %d roles, %d ids, %d types", r.ID, len(role), len(mid), len(mt))
				}
				for i := range mid {
					rs, err := str(role[i])
					if err != nil {
						return fmt.Errorf("relation %d: role %v", r.ID, err)
					}
					r.Members = append(r.Members, Member{int(mt[i]), mid[i], rs})
				}
				e.Rels = append(e.Rels, r)
			}
		}
		if m.err != nil {
			return fmt.Errorf("group: %v", m.err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- Morton

// mortonOf encodes 1e-7 degree coordinates as ENCODING.md describes.
func mortonOf(lon, lat int64) int64 {
	var o uint64
	ux, uy := uint32(int32(lon)), uint32(int32(lat))|0x80000000
	for i := uint(0); i < 32; i++ {
		o |= uint64(ux>>i&1) << (2 * i)
		o |= uint64(uy>>i&1) << (2*i + 1)
	}
	return int64(o)
}

// ---------------------------------------------------------------- index files

// NodeIdx is a decoded node index.
type NodeIdx struct {
	first, count, off []uint64
	loc               []byte
}

func decodeNodeIdx(f []byte) (*NodeIdx, error) {
	if len(f) < 16 {
		return nil, fmt.Errorf("node index: %d bytes", len(f))
	}
	if v := binary.LittleEndian.Uint64(f); v != 1 {
		return nil, fmt.Errorf("node index: version %d", v)
	}
	n := binary.LittleEndian.Uint64(f[8:])
	if n > uint64(len(f)-16)/16 {
		return nil, fmt.Errorf("node index: %d elements in %d bytes", n, len(f))
	}
	x := &NodeIdx{}
	total := uint64(0)
	for i := uint64(0); i < n; i++ {
		a := binary.LittleEndian.Uint64(f[16+i*16:])
		b := binary.LittleEndian.Uint64(f[24+i*16:])
		x.first = append(x.first, a)
		x.count = append(x.count, b&0xffffff)
		x.off = append(x.off, b>>24)
		if b&0xffffff == 0 {
			return nil, fmt.Errorf("node index: element %d is empty", i)
		}
		if i > 0 && a < x.first[i-1]+x.count[i-1] {
			return nil, fmt.Errorf("node index: element %d (start %d) overlaps or precedes element %d (%d+%d)", i, a, i-1, x.first[i-1], x.count[i-1])
		}
		total += b & 0xffffff
	}
	x.loc = f[16+n*16:]
	if len(x.loc)%8 != 0 {
		return nil, fmt.Errorf("node index: location part of %d bytes", len(x.loc))
	}
	for i := range x.first {
		if x.off[i]+x.count[i] > uint64(len(x.loc)/8) {
			return nil, fmt.Errorf("node index: element %d ends at location %d of %d", i, x.off[i]+x.count[i], len(x.loc)/8)
		}
	}
	if total*8 != uint64(len(x.loc)) {
		return nil, fmt.Errorf("node index: %d ids but %d locations", total, len(x.loc)/8)
	}
	return x, nil
}

func (x *NodeIdx) find(id uint64) int64 {
	i := sort.Search(len(x.first), func(i int) bool { return x.first[i]+x.count[i] > id })
	if i < len(x.first) && x.first[i] <= id {
		return int64(binary.LittleEndian.Uint64(x.loc[(x.off[i]+id-x.first[i])*8:]))
	}
	return 0
}

// WayIdx maps way ids to locations.
type WayIdx struct {
	ids   []int64
	loc   map[int64][]int64
	align uint64
}

func decodeWayIdx(f []byte) (*WayIdx, error) {
	if len(f) < 16 {
		return nil, fmt.Errorf("way index: %d bytes", len(f))
	}
	n := binary.LittleEndian.Uint64(f)
	al := binary.LittleEndian.Uint64(f[8:])
	if al > 40 {
		return nil, fmt.Errorf("way index: alignment %d", al)
	}
	if n > uint64(len(f)-16)/8 {
		return nil, fmt.Errorf("way index: %d ways in %d bytes", n, len(f))
	}
	x := &WayIdx{loc: map[int64][]int64{}, align: al}
	l := f[16+n*8:]
	for i := uint64(0); i < n; i++ {
		d := binary.LittleEndian.Uint64(f[16+i*8:])
		id := int64(d >> 33)
		off := (d & (1<<33 - 1)) << al
		if i > 0 && id <= x.ids[i-1] {
			return nil, fmt.Errorf("way index: way %d after way %d", id, x.ids[i-1])
		}
		if off >= uint64(len(l)) {
			return nil, fmt.Errorf("way index: way %d at %d of %d", id, off, len(l))
		}
		m := pbMsg{b: l[off:]}
		var locs []int64
		last := int64(0)
		for {
			v := m.uvarint()
			if m.err != nil {
				return nil, fmt.Errorf("way index: way %d: %v", id, m.err)
			}
			if v == 0 {
				break
			}
			last += unzz(v)
			locs = append(locs, last)
		}
		x.ids = append(x.ids, id)
		x.loc[id] = locs
	}
	return x, nil
}

type RelWay struct {
	ID  int64
	Loc []int64
}

type RelEntry struct {
	ID   int64
	Ways []RelWay
}

func decodeRelIdx(f []byte) ([]RelEntry, error) {
	if len(f)%8 != 0 {
		return nil, fmt.Errorf("relation index: %d bytes", len(f))
	}
	w := make([]int64, len(f)/8)
	for i := range w {
		w[i] = int64(binary.LittleEndian.Uint64(f[i*8:]))
	}
	var out []RelEntry
	for i := 0; i < len(w); {
		if i+1 >= len(w) {
			return out, fmt.Errorf("relation index: truncated relation")
		}
		e := RelEntry{ID: w[i]}
		n := w[i+1]
		i += 2
		if n < 0 || n > int64(len(w)) {
			return out, fmt.Errorf("relation index: relation %d has %d ways", e.ID, n)
		}
		for j := int64(0); j < n; j++ {
			if i+1 >= len(w) {
				return out, fmt.Errorf("relation index: relation %d: truncated way", e.ID)
			}
			rw := RelWay{ID: w[i]}
			c := w[i+1]
			i += 2
			if c < 0 || int64(i)+c > int64(len(w)) {
				return out, fmt.Errorf("relation index: relation %d way %d has %d locations", e.ID, rw.ID, c)
			}
			rw.Loc = w[i : i+int(c)]
			i += int(c)
			e.Ways = append(e.Ways, rw)
		}
		out = append(out, e)
	}
	return out, nil
}
