//go:build go1.23

package main

import (
	"encoding/hex"
	"encoding/json"
	"strconv"
	"unicode/utf8"
)

// The data model of the harness: what an OSM PBF file contains, written down
// independently of the code under test.

type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

// Strings in a file need not be valid UTF-8; in a case's JSON form such a
// string is written in hexadecimal.

type kvJSON struct {
	K string `json:"k"`
	V string `json:"v"`
	X bool   `json:"x,omitempty"`
}

func (kv KV) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(kv.K) && utf8.ValidString(kv.V) {
		return json.Marshal(kvJSON{K: kv.K, V: kv.V})
	}
	return json.Marshal(kvJSON{K: hex.EncodeToString([]byte(kv.K)), V: hex.EncodeToString([]byte(kv.V)), X: true})
}

func (kv *KV) UnmarshalJSON(b []byte) error {
	var j kvJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	kv.K, kv.V = j.K, j.V
	if j.X {
		k, err := hex.DecodeString(j.K)
		if err != nil {
			return err
		}
		v, err := hex.DecodeString(j.V)
		if err != nil {
			return err
		}
		kv.K, kv.V = string(k), string(v)
	}
	return nil
}

type Node struct {
	ID   int64 `json:"id"`
	Lat  int64 `json:"la"` // in units of the block's granularity
	Lon  int64 `json:"lo"`
	Tags []KV  `json:"t,omitempty"`
}

type Way struct {
	ID   int64   `json:"id"`
	Refs []int64 `json:"r,omitempty"`
	Tags []KV    `json:"t,omitempty"`
	Info bool    `json:"i,omitempty"`
}

type Member struct {
	Type int    `json:"t"` // 0 node 1 way 2 relation
	ID   int64  `json:"id"`
	Role string `json:"r,omitempty"`
}

type memberJSON struct {
	Type int    `json:"t"`
	ID   int64  `json:"id"`
	Role string `json:"r,omitempty"`
	X    bool   `json:"x,omitempty"`
}

func (m Member) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(m.Role) {
		return json.Marshal(memberJSON{m.Type, m.ID, m.Role, false})
	}
	return json.Marshal(memberJSON{m.Type, m.ID, hex.EncodeToString([]byte(m.Role)), true})
}

func (m *Member) UnmarshalJSON(b []byte) error {
	var j memberJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	m.Type, m.ID, m.Role = j.Type, j.ID, j.Role
	if j.X {
		r, err := hex.DecodeString(j.Role)
		m.Role = string(r)
		return err
	}
	return nil
}

type Rel struct {
	ID      int64    `json:"id"`
	Members []Member `json:"m,omitempty"`
	Tags    []KV     `json:"t,omitempty"`
	Info    bool     `json:"i,omitempty"`
}

type Group struct {
	Nodes      []Node `json:"n,omitempty"`
	Ways       []Way  `json:"w,omitempty"`
	Rels       []Rel  `json:"r,omitempty"`
	DenseInfo  bool   `json:"di,omitempty"`
	EmptyDense bool   `json:"ed,omitempty"`   // a dense message with no nodes
	NoKV       bool   `json:"nokv,omitempty"` // leave keys_vals out when no node has tags
	Changeset  bool   `json:"cs,omitempty"`
	RelsFirst  bool   `json:"rf,omitempty"` // field order inside the group: relations, ways, nodes
}

// Fill is a compact description of many nodes, expanded deterministically.
type Fill struct {
	Kind   string `json:"kind"` // nodes ways rels
	N      int    `json:"n"`
	Start  int64  `json:"start"`
	Stride int64  `json:"stride"`
	Seed   int64  `json:"seed"`
	Refs   int    `json:"refs,omitempty"`   // ways: references per way; rels: members per relation
	RefMax int64  `json:"refmax,omitempty"` // ways: node ids up to this; rels: way ids
	Tags   bool   `json:"tags,omitempty"`   // tags on most entities
	Mixed  bool   `json:"mixed,omitempty"`  // rels: members of all types, with roles
	Unique bool   `json:"unique,omitempty"` // every tag with a value of its own
	TagN   int    `json:"tagn,omitempty"`   // this many tags on every entity
}

type Block struct {
	Type         string  `json:"type"`           // OSMHeader OSMData
	Comp         string  `json:"comp,omitempty"` // raw zlib store
	Level        int     `json:"level,omitempty"`
	SizeLast     bool    `json:"sl,omitempty"` // raw_size after the payload
	RawSizeOnRaw bool    `json:"rsr,omitempty"`
	Gran         int64   `json:"g,omitempty"` // 0: field absent (100)
	DateGran     int64   `json:"dg,omitempty"`
	LatOff       int64   `json:"lat,omitempty"`
	LonOff       int64   `json:"lon,omitempty"`
	Groups       []Group `json:"gr,omitempty"`
	Fill         *Fill   `json:"fill,omitempty"`
	Header       []byte  `json:"hdr,omitempty"` // OSMHeader payload
	PadStr       int     `json:"pad,omitempty"` // an unused string of this many bytes in the table
	STLast       bool    `json:"stl,omitempty"` // string table after the groups
	NoST         bool    `json:"nost,omitempty"`
	UnsortedST   bool    `json:"ust,omitempty"`
	X            string  `json:"x,omitempty"` // something the programs do not implement, see scen4.go

	spoiled []byte // encode this instead, see scen13.go
}

type Dataset struct {
	Blocks []Block `json:"blocks"`
}

func (b *Block) gran() int64 {
	if b.Gran == 0 {
		return 100
	}
	return b.Gran
}

// groups returns the block's groups with Fill expanded.
func (b *Block) groups() []Group {
	if b.Fill == nil {
		return b.Groups
	}
	return append(append([]Group(nil), b.Groups...), b.Fill.expand())
}

func mixBits(a, b int64) uint64 {
	z := uint64(a)*0x9e3779b97f4a7c15 + uint64(b)*0xbf58476d1ce4e5b9
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// three disjoint sets of seven keys each, for up to three tags per entity
var fillKeys = []string{
	"name", "note", "highway", "source", "tiger:x", "ref", "k1",
	"building", "import", "naptan:1", "source:2", "k2", "type", "created_by",
	"odbl:note", "odbl:", "k3", "layer", "gnis:3", "fixme", "Fixme",
}

var fillVals = []string{"", "yes", "no", "outer", "inner", "x", "note", "1", "2", "3"}

func (f *Fill) expand() Group {
	var g Group
	for i := 0; i < f.N; i++ {
		id := f.Start + int64(i)*f.Stride
		h := mixBits(f.Seed, id)
		var tags []KV
		if f.Tags {
			n := int(mixBits(f.Seed+7, id) % 4)
			for j := 0; j < n; j++ {
				x := mixBits(f.Seed+11+int64(j), id)
				tags = append(tags, KV{fillKeys[(x%7)+7*uint64(j)], fillVals[(x>>8)%uint64(len(fillVals))]})
				if f.Unique {
					tags[j].V = strconv.FormatUint(uint64(id)*3+uint64(j), 36)
				}
			}
		}
		for j := 0; j < f.TagN; j++ {
			tags = append(tags, KV{"t" + strconv.Itoa(j), strconv.FormatUint(mixBits(id, int64(j))%uint64(f.TagN), 36)})
		}
		switch f.Kind {
		case "nodes":
			g.Nodes = append(g.Nodes, Node{ID: id, Lat: int64(h%1800000000) - 900000000, Lon: int64((h>>11)%3600000000) - 1800000000, Tags: tags})
		case "ways":
			w := Way{ID: id, Tags: tags}
			for j := 0; j < f.Refs; j++ {
				r := 1 + int64(mixBits(f.Seed+int64(j)+1, id)%uint64(f.RefMax))
				w.Refs = append(w.Refs, r)
			}
			g.Ways = append(g.Ways, w)
		case "rels":
			r := Rel{ID: id, Tags: tags}
			for j := 0; j < f.Refs; j++ {
				x := mixBits(f.Seed+int64(j)+1, id)
				m := Member{Type: 1, ID: 1 + int64(x%uint64(f.RefMax))}
				if f.Mixed {
					m.Type = int(x>>50) % 3
					m.Role = fillVals[(x>>53)%uint64(len(fillVals))]
				}
				r.Members = append(r.Members, m)
			}
			g.Rels = append(g.Rels, r)
		}
	}
	return g
}

func (d *Dataset) each(fn func(b *Block, g *Group)) {
	for i := range d.Blocks {
		b := &d.Blocks[i]
		if b.Type != "OSMData" {
			continue
		}
		gs := b.groups()
		for j := range gs {
			fn(b, &gs[j])
		}
	}
}

// Entity forms with everything resolved, used to compare files.
type ENode struct {
	ID       int64
	Lat, Lon int64 // nanodegrees
	Tags     []KV
}

type EBlock struct {
	Type  string
	Raw   []byte // decompressed payload
	Comp  string
	Nodes []ENode
	Ways  []Way
	Rels  []Rel
}

// expectBlocks is what a faithful reader sees in the dataset.
func (d *Dataset) expectBlocks() []EBlock {
	var out []EBlock
	for i := range d.Blocks {
		b := &d.Blocks[i]
		e := EBlock{Type: b.Type}
		if b.Type == "OSMData" {
			for _, g := range b.groups() {
				for _, n := range g.Nodes {
					e.Nodes = append(e.Nodes, ENode{n.ID, b.LatOff + b.gran()*n.Lat, b.LonOff + b.gran()*n.Lon, n.Tags})
				}
				e.Ways = append(e.Ways, g.Ways...)
				e.Rels = append(e.Rels, g.Rels...)
			}
		}
		out = append(out, e)
	}
	return out
}
