//go:build go1.23

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// P32: files whose content contradicts itself. A well-formed file gets one
// defect, deep inside: everything around it (compression, checksum, the size of
// the blob and of the messages that contain it) agrees with the defective
// bytes, so that only the code that reads the content can notice.

// A wschema says what the fields of a message are: m message, p packed
// integers, s a string, x bytes that nobody looks into, v an integer.
type wschema map[int]wfield

type wfield struct {
	kind byte
	name string
	sub  wschema
}

var (
	schWay   = wschema{1: {'v', "id", nil}, 2: {'p', "keys", nil}, 3: {'p', "vals", nil}, 4: {'x', "info", nil}, 8: {'p', "refs", nil}}
	schRel   = wschema{1: {'v', "id", nil}, 2: {'p', "keys", nil}, 3: {'p', "vals", nil}, 4: {'x', "info", nil}, 8: {'p', "roles", nil}, 9: {'p', "memids", nil}, 10: {'p', "types", nil}}
	schDense = wschema{1: {'p', "id", nil}, 5: {'x', "denseinfo", nil}, 8: {'p', "lat", nil}, 9: {'p', "lon", nil}, 10: {'p', "keys_vals", nil}}
	schGroup = wschema{2: {'m', "dense", schDense}, 3: {'m', "way", schWay}, 4: {'m', "relation", schRel}, 5: {'x', "changeset", nil}}
	schTable = wschema{1: {'s', "string", nil}}
	schBlock = wschema{1: {'m', "stringtable", schTable}, 2: {'m', "group", schGroup}, 17: {'v', "granularity", nil}, 18: {'v', "date_granularity", nil}, 19: {'v', "lat_offset", nil}, 20: {'v', "lon_offset", nil}}
	schBlob  = wschema{1: {'x', "raw", nil}, 2: {'v', "raw_size", nil}, 3: {'x', "zlib_data", nil}}
	schHead  = wschema{1: {'s', "type", nil}, 3: {'v', "datasize", nil}}
)

// A wnode is a field of a message.
type wnode struct {
	up   *wnode
	id   int
	wt   int
	f    wfield
	v    uint64
	b    []byte   // 's', 'x'
	l    []uint64 // 'p'
	kids []*wnode // 'm'

	raw  []byte  // if set: the encoded field, defects included
	decl *uint64 // if set: the length it claims to have
	tail []byte  // appended to the bytes
}

func wparse(sch wschema, p []byte, up *wnode) []*wnode {
	var out []*wnode
	m := pbMsg{b: p}
	for {
		id, v, q, ok := m.next()
		if !ok {
			return out
		}
		n := &wnode{up: up, id: id, v: v, f: sch[id]}
		if n.f.kind != 'v' {
			n.wt = 2
		}
		switch n.f.kind {
		case 'm':
			n.kids = wparse(n.f.sub, q, n)
		case 'p':
			pm := pbMsg{b: q}
			for len(pm.b) > 0 {
				n.l = append(n.l, pm.uvarint())
			}
		default:
			n.b = q
		}
		out = append(out, n)
	}
}

func (n *wnode) content() []byte {
	var b []byte
	switch n.f.kind {
	case 'm':
		b = wencode(n.kids)
	case 'p':
		for _, v := range n.l {
			b = putUvarint(b, v)
		}
	default:
		b = append(b, n.b...)
	}
	return append(b, n.tail...)
}

func wencode(l []*wnode) []byte {
	var out []byte
	for _, n := range l {
		if n.raw != nil {
			out = append(out, n.raw...)
			continue
		}
		out = putUvarint(out, uint64(n.id)<<3|uint64(n.wt))
		if n.f.kind == 'v' {
			out = putUvarint(out, n.v)
			continue
		}
		c := n.content()
		d := uint64(len(c))
		if n.decl != nil {
			d = *n.decl
		}
		out = append(putUvarint(out, d), c...)
	}
	return out
}

// wstrict reports what is wrong with a message.
func wstrict(sch wschema, p []byte) error {
	m := pbMsg{b: p}
	for len(m.b) > 0 {
		t := m.uvarint()
		if m.err != nil {
			return m.err
		}
		id, wt := int(t>>3), int(t&7)
		f, known := sch[id]
		switch wt {
		case 0:
			m.uvarint()
			if known && f.kind != 'v' && f.kind != 'p' {
				return fmt.Errorf("%s: an integer", f.name)
			}
		case 2:
			n := m.uvarint()
			if m.err == nil && n > uint64(len(m.b)) {
				return fmt.Errorf("%s: %d bytes of %d", f.name, n, len(m.b))
			}
			if m.err != nil {
				return m.err
			}
			q := m.b[:n]
			m.b = m.b[n:]
			switch {
			case !known:
			case f.kind == 'v':
				return fmt.Errorf("%s: bytes", f.name)
			case f.kind == 'm':
				if err := wstrict(f.sub, q); err != nil {
					return fmt.Errorf("%s: %v", f.name, err)
				}
			case f.kind == 'p':
				if _, err := unpackInts(q); err != nil {
					return fmt.Errorf("%s: %v", f.name, err)
				}
			}
		default:
			return fmt.Errorf("field %d: wire type %d", id, wt)
		}
		if m.err != nil {
			return m.err
		}
	}
	return m.err
}

// malformedBlock reports what is wrong with the content of a block.
func malformedBlock(p []byte) error {
	if err := wstrict(schBlock, p); err != nil {
		return err
	}
	var e EBlock
	if err := decodePrimitiveBlock(p, &e); err != nil {
		return err
	}
	for _, g := range wparse(schBlock, p, nil) {
		for _, k := range g.kids {
			if k.f.name != "way" && k.f.name != "relation" {
				continue
			}
			has := false
			for _, x := range k.kids {
				has = has || x.id == 1
			}
			if !has {
				return fmt.Errorf("%s without an id", k.f.name)
			}
		}
	}
	return nil
}

// malformedFile tells whether a PBF file has a block with malformed content.
func malformedFile(f []byte) error {
	bs, err := decodeFile(f)
	if err != nil {
		return err
	}
	for i, b := range bs {
		if b.Type != "OSMData" {
			continue
		}
		if err := malformedBlock(b.Raw); err != nil {
			return fmt.Errorf("block %d: %v", i, err)
		}
	}
	return nil
}

func wwalk(l []*wnode, fn func(n *wnode)) {
	for _, n := range l {
		fn(n)
		wwalk(n.kids, fn)
	}
}

// wpick picks a field: first what kind of field, then which one.
func wpick(r *R, top []*wnode, ok func(n *wnode) bool) *wnode {
	var names []string
	by := map[string][]*wnode{}
	wwalk(top, func(n *wnode) {
		if !ok(n) {
			return
		}
		s := n.f.name
		if n.up != nil {
			s = n.up.f.name + "." + s
		}
		if by[s] == nil {
			names = append(names, s)
		}
		by[s] = append(by[s], n)
	})
	if len(names) == 0 {
		return nil
	}
	l := by[names[r.Intn(len(names))]]
	if r.Bool(0.3) {
		return l[len(l)-1] // there is nothing, or something else, behind the last one
	}
	return l[r.Intn(len(l))]
}

func (n *wnode) kid(id int) *wnode {
	for _, k := range n.kids {
		if k.id == id {
			return k
		}
	}
	return nil
}

// longVarint is v in more bytes than an integer can have.
func longVarint(r *R, v uint64) []byte {
	var b []byte
	for len(b) < 9 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	if r.Bool(0.5) {
		return append(b, byte(v&1)|byte(2<<r.Intn(5)))
	}
	return append(b, byte(v&1)|0x80, pick(r, byte(0), 1, 0x7f))
}

// otherType is the field with a wire type it cannot have.
func otherType(r *R, n *wnode) []byte {
	wt := pick(r, 1, 5, 3, 4, 6, 7)
	if n.f.kind != 'p' && r.Bool(0.5) {
		wt = 2 - n.wt
	}
	b := putUvarint(nil, uint64(n.id)<<3|uint64(wt))
	switch wt {
	case 0:
		return putUvarint(b, uint64(r.Intn(300)))
	case 1:
		return append(b, make([]byte, 8)...)
	case 5:
		return append(b, make([]byte, 4)...)
	case 2:
		return fieldBytes(nil, n.id, putUvarint(nil, n.v))
	}
	return b
}

// spoil puts a defect into the fields of a message; it returns what it did, and
// the bytes.
func spoil(r *R, kind string, top []*wnode) (string, []byte) {
	// fields may come in any order, and what is behind a defect matters
	wwalk(top, func(n *wnode) {
		switch n.f.name {
		case "way", "relation", "dense":
			if r.Bool(0.3) {
				for i := len(n.kids) - 1; i > 0; i-- {
					j := r.Intn(i + 1)
					n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
				}
			}
		}
	})
	path := func(n *wnode) string {
		s := n.f.name
		for u := n.up; u != nil; u = u.up {
			s = u.f.name + "." + s
		}
		return s
	}
	sibs := func(n *wnode) []*wnode {
		if n.up != nil {
			return n.up.kids
		}
		return top
	}
	switch kind {
	case "over":
		n := wpick(r, top, func(n *wnode) bool { return n.f.kind != 'v' })
		if n == nil {
			return "", nil
		}
		rest := 0
		l := sibs(n)
		for i, k := range l {
			if k == n {
				if r.Bool(0.5) && i < len(l)-1 && l[len(l)-1].id != n.id {
					// behind everything else
					m := append(append([]*wnode{}, l[:i]...), l[i+1:]...)
					l = append(m, n)
					if n.up != nil {
						n.up.kids = l
					} else {
						top = l
					}
					break
				}
				rest = len(wencode(l[i+1:]))
			}
		}
		left := uint64(len(n.content()) + rest)
		d := left + uint64(pick(r, 1, 1, 2, 3, 4, 5, 6, 8, 10, 16, 40, 100, 1000, 1<<20, 1<<31, 1<<32, 1<<40, 1<<62))
		if r.Bool(0.3) {
			d = -uint64(pick(r, 1, 2, 3, 1+r.Intn(12), 1+r.Intn(100), 1<<31, 1<<62, 1<<63-1))
			if r.Bool(0.1) {
				d = 1 << 63
			}
		}
		n.decl = &d
		return fmt.Sprintf("%s claims %d bytes of %d", path(n), int64(d), left), wencode(top)
	case "cut":
		n := wpick(r, top, func(n *wnode) bool {
			l := sibs(n)
			return n.f.kind == 'p' && len(n.l) > 0 || n.f.kind == 'v' && l[len(l)-1] == n || n.f.kind == 'm'
		})
		if n == nil {
			return "", nil
		}
		switch n.f.kind {
		case 'p':
			n.tail = bytes.Repeat([]byte{0x80}, 1+r.Intn(10))
		case 'v':
			n.raw = append(putUvarint(nil, uint64(n.id)<<3), bytes.Repeat([]byte{0x80 | byte(n.v)}, 1+r.Intn(9))...)
		case 'm':
			// a field's tag, or half of one, and nothing behind it
			n.tail = pick(r, []byte{1<<3 | 0}, []byte{1<<3 | 2}, []byte{0x80}, []byte{8<<3 | 2}, []byte{4<<3 | 2}, []byte{0x88})
		}
		return path(n) + " ends within a value", wencode(top)
	case "long":
		n := wpick(r, top, func(n *wnode) bool { return n.f.kind == 'v' || n.f.kind == 'p' && len(n.l) > 0 })
		if n == nil {
			return "", nil
		}
		if n.f.kind == 'v' {
			n.raw = append(putUvarint(nil, uint64(n.id)<<3), longVarint(r, n.v)...)
		} else {
			k := r.Intn(len(n.l))
			var b []byte
			for i, v := range n.l {
				if i == k {
					b = append(b, longVarint(r, v)...)
				} else {
					b = putUvarint(b, v)
				}
			}
			n.raw = fieldBytes(nil, n.id, b)
		}
		return path(n) + " has a value of more than 64 bits", wencode(top)
	case "type":
		n := wpick(r, top, func(n *wnode) bool { return true })
		if n == nil {
			return "", nil
		}
		n.raw = otherType(r, n)
		return path(n) + " is encoded as something it is not", wencode(top)
	case "lists":
		sets := map[string][][]int{"way": {{2, 3}}, "relation": {{2, 3}, {8, 9, 10}}, "dense": {{1, 8, 9}}}
		n := wpick(r, top, func(n *wnode) bool {
			l := sets[n.f.name]
			if k := n.kid(2); k == nil && len(l) == 1 && n.f.name == "way" {
				return false
			}
			return l != nil
		})
		if n == nil {
			return "", nil
		}
		l := sets[n.f.name]
		x := n.kid(pick(r, l[r.Intn(len(l))]...))
		if x == nil || len(x.l) == 0 {
			return "", nil
		}
		switch r.Intn(4) {
		case 0:
			x.l = x.l[:len(x.l)-1]
		case 1:
			x.l = x.l[:r.Intn(len(x.l))]
		case 2:
			x.l = append(x.l, 0)
		case 3:
			x.l = nil
		}
		if len(x.l) == 0 && r.Bool(0.5) {
			x.raw = []byte{}
		}
		return path(x) + " has another length than the lists it belongs to", wencode(top)
	case "tags":
		n := wpick(r, top, func(n *wnode) bool { return n.f.name == "keys_vals" && len(n.l) > 0 })
		if n == nil {
			return "", nil
		}
		var ends []int
		for i := 0; i < len(n.l); i++ {
			if n.l[i] == 0 {
				ends = append(ends, i)
			} else {
				i++
			}
		}
		switch k := r.Intn(5); {
		case k < 2 && len(ends) > 0:
			i := ends[len(ends)-1]
			if k == 1 {
				i = ends[r.Intn(len(ends))]
			}
			n.l = append(n.l[:i:i], n.l[i+1:]...)
		case k == 2:
			n.l = append(n.l, 0)
		case k == 3:
			n.l = append(n.l, 1)
		default:
			n.l = n.l[:r.Intn(len(n.l))]
		}
		return path(n) + " does not have the tags of every node", wencode(top)
	case "string":
		size := uint64(0)
		for _, n := range top {
			if n.f.name == "stringtable" {
				size += uint64(len(n.kids))
			}
		}
		n := wpick(r, top, func(n *wnode) bool {
			return len(n.l) > 0 && (n.f.name == "keys" || n.f.name == "vals" || n.f.name == "roles" || n.f.name == "keys_vals")
		})
		if n == nil || size == 0 {
			return "", nil
		}
		k := r.Intn(len(n.l))
		if n.l[k] == 0 && n.f.name == "keys_vals" {
			return "", nil
		}
		n.l[k] = pick(r, size, size, size+1, size+1000, 1<<31-1, 1<<31, 1<<32-1)
		return path(n) + " names a string that is not there", wencode(top)
	case "size":
		n := wpick(r, top, func(n *wnode) bool { return n.f.name == "raw_size" || n.f.name == "datasize" })
		if n == nil {
			return "", nil
		}
		was := n.v
		switch r.Intn(4) {
		case 0:
			n.v += uint64(1 + r.Intn(40))
		case 1:
			n.v -= uint64(1 + r.Intn(40))
		case 2:
			n.v = pick(r, uint64(0), 1, n.v*2, n.v+1000, 1<<20)
		case 3:
			n.v = pick(r, ^uint64(0), -n.v, 1<<31, 1<<63)
		}
		return fmt.Sprintf("%s is %d instead of %d", path(n), int64(n.v), was), wencode(top)
	case "absent":
		n := wpick(r, top, func(n *wnode) bool {
			return n.f.name == "id" && n.f.kind == 'v' || n.f.name == "datasize" || n.f.name == "raw" || n.f.name == "zlib_data"
		})
		if n == nil {
			return "", nil
		}
		n.raw = []byte{}
		return path(n) + " is missing", wencode(top)
	}
	panic("spoil: " + kind)
}

var malformedKinds = []string{"over", "over", "over", "over", "cut", "long", "type", "lists", "lists", "tags", "tags", "string", "absent", "size"}

// malformed encodes the data with the case's defect.
func (c *Case) malformed() (what string, file []byte) {
	at, kind, level := int(c.P["at"]), c.S["x"], c.S["level"]
	for i := range c.Data.Blocks {
		b := &c.Data.Blocks[i]
		if i != at {
			blob, _, _ := encBlob(b)
			file = frame(file, b.Type, blob, false)
			continue
		}
		r := rng(uint64(c.P["mal"]), "spoil")
		var blob []byte
		switch level {
		case "block":
			var p []byte
			if what, p = spoil(r, kind, wparse(schBlock, b.payload(), nil)); what == "" || malformedBlock(p) == nil {
				return "", nil
			}
			x := *b
			x.spoiled = p
			blob, _, _ = encBlob(&x)
		default:
			blob, _, _ = encBlob(b)
		}
		if level == "blob" {
			if what, blob = spoil(r, kind, wparse(schBlob, blob, nil)); what == "" {
				return "", nil
			}
			what = "blob." + what
		}
		if level == "header" {
			h := fieldBytes(nil, 1, []byte(b.Type))
			h = fieldInt(h, 3, int64(len(blob)))
			if what, h = spoil(r, kind, wparse(schHead, h, nil)); what == "" {
				return "", nil
			}
			what = "header." + what
			file = binary.BigEndian.AppendUint32(file, uint32(len(h)))
			file = append(append(file, h...), blob...)
			continue
		}
		file = frame(file, b.Type, blob, false)
	}
	if what != "" && malformedFile(file) == nil {
		return "", nil
	}
	return
}

func genMalformed(c *Case, r *R) {
	for tries := 0; tries < 40; tries++ {
		c.Data = Dataset{}
		c.L = nil
		if r.Bool(0.25) {
			genReader(c, r, pick(r, readers...))
		} else {
			genWriter(c, r, pick(r, writers...))
			if c.P["p"] > 3 {
				c.P["p"] = 2
			}
		}
		kind := pick(r, malformedKinds...)
		c.S["x"], c.S["level"] = kind, "block"
		if kind == "size" {
			c.S["level"] = pick(r, "blob", "header")
		} else if k := r.Intn(10); k == 0 && kind != "lists" && kind != "tags" && kind != "string" {
			c.S["level"] = "blob"
		} else if k == 1 && kind != "lists" && kind != "tags" && kind != "string" {
			c.S["level"] = "header"
		}
		var at []int
		for i := range c.Data.Blocks {
			b := &c.Data.Blocks[i]
			if b.Fill == nil && (c.S["level"] != "block" || b.Type == "OSMData") {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			continue
		}
		k := r.Intn(len(at))
		if r.Bool(0.3) {
			k = len(at) - 1
		}
		c.P["at"] = int64(at[k])
		c.P["mal"] = int64(r.Intn(1 << 30))
		if what, _ := c.malformed(); what != "" {
			return
		}
	}
	c.P["at"] = -1
}

func malformedRun(e *Env) *Violation {
	c := e.c
	e.setup()
	if at := c.P["at"]; at < 0 || at >= int64(len(c.Data.Blocks)) {
		return nil
	}
	how, f := c.malformed()
	if how == "" {
		return nil
	}
	d := e.dry()
	if d == nil {
		return nil
	}
	e.fs.Put("in.pbf", f)
	cmd := c.S["cmd"]
	what := fmt.Sprintf("%s on a malformed file (block %d: %s)", cmd, c.P["at"], how)
	e.st.Faults["malformed-"+c.S["level"]+"-"+c.S["x"]]++
	res := e.program(RO{Poison: e.poison(), Budget: 5_000_000})
	if res.Hang != "" {
		return notOK(what, res)
	}
	if !res.OK() {
		e.st.Probes["refused"]++
		return nil
	}
	bad := func(f string, a ...any) *Violation {
		return viol("guessed", "%s: the program reports success, but %s", what, fmt.Sprintf(f, a...))
	}
	if c.isReader() {
		if got, want := answer(res.Stdout), answer(d.r.Stdout); got != want {
			return bad("the answer is %q, and %q for the same file without the defect", got, want)
		}
		e.st.Probes["unaffected"]++
		return nil
	}
	out := e.out("out")
	if bytes.Equal(out, d.out) {
		e.st.Probes["unaffected"]++
		return nil
	}
	switch cmd {
	case "decompress", "rewritenodes", "tagfilter":
		// what is not looked at may be handed on as it is
		if err := malformedFile(out); err == nil {
			return bad("its output, which is well-formed, is not the one for the same file without the defect: %s", diffAt(d.out, out))
		}
		e.st.Probes["handed-on"]++
		return nil
	}
	return bad("the output is not the one for the same file without the defect: %s", diffAt(d.out, out))
}

func init() {
	reg("P32", "malformed", 100, genMalformed, malformedRun)
}
