//go:build go1.23

package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"github.com/squizzling/osmindex/internal/zsim"
)

// Swarm-style workload generator: every case draws its own mix of features.

type R = zsim.Rng

func pick[T any](r *R, xs ...T) T { return xs[r.Intn(len(xs))] }

func rng(seed uint64, salt string) *R {
	h := seed ^ 0x51ed270b0a1f39c1
	for _, c := range []byte(salt) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return zsim.NewRng(h)
}

type GenOpt struct {
	Nodes, Ways, Rels int // upper bounds; 0: none
	MinWays, MinRels  int
	MortonRefs        bool // some references already converted
	AllMorton         bool // every reference converted
	MissingRefs       bool
	LongWays          bool
	Tags              bool // rich tags
	BigStrings        bool
	ManyBlocks        bool
	RawOnly           bool
	ZlibOnly          bool
	Big               bool // occasionally one very large block
	NoExotic          bool // no mixed groups, stray headers
	MaxBlock          int
	HugeIDs           bool
}

var keyPool = []string{
	"name", "highway", "building", "amenity", "ref", "addr:street", "type", "natural", "waterway", "oneway", "k", "K",
	"note", "source", "source_ref", "attribution", "comment", "fixme", "created_by", "odbl", "odbl:note", "import", "OBJTYPE",
	"accuracy:meters", "waterway:type", "ref:ruian", "3dshapes:ggmodelk", "SK53_bulk:load", "nycdoitt:bin", "import_uuid",
	"note:de", "source:name", "CLC:code", "geobase:uuid", "canvec:x", "osak:y", "kms:z", "ngbe:1", "it:fvg:ctrn", "KSJ2:a", "yh:w",
	"LINZ2OSM:a", "linz2osm:b", "LINZ:c", "WroclawGIS:d", "naptan:Code", "tiger:cfcc", "gnis:id", "NHD:f", "nhd:g", "mvdgis:h",
	// near misses that must stay
	"notes", "Note", "sourc", "sources", "source_", "source_reference", "fixmes", "FIXME", "tiger", "gnis", "naptan", "NHD", "imports",
	"ref:", "ref:ruian:x", "import:x", "it:fv", "it:fvg", "CLC", "odbl:", "name:note:", "xsource:y", "created_by2", "objtype",
}

// the key pool's own copy of the filter rule, as the tool's help describes it
var dropKeys = map[string]bool{}
var dropPrefixes []string

func init() {
	for _, k := range []string{"note", "source", "source_ref", "attribution", "comment", "fixme", "created_by", "odbl", "odbl:note",
		"project:eurosha_2012", "ref:UrbIS", "accuracy:meters", "sub_sea:type", "waterway:type", "statscan:rbuid", "ref:ruian:addr",
		"ref:ruian", "building:ruian:type", "dibavod:id", "uir_adr:ADRESA_KOD", "gst:feat_id", "maaamet:ETAK", "ref:FR:FANTOIR",
		"3dshapes:ggmodelk", "AND_nosr_r", "OPPDATERIN", "addr:city:simc", "addr:street:sym_ul", "building:usage:pl", "building:use:pl",
		"teryt:simc", "raba:id", "dcgis:gis_id", "nycdoitt:bin", "chicago:building_id", "lojic:bgnum", "massgis:way_id", "import",
		"import_uuid", "OBJTYPE", "SK53_bulk:load"} {
		dropKeys[k] = true
	}
	dropPrefixes = []string{"note:", "source:", "CLC:", "geobase:", "canvec:", "osak:", "kms:", "ngbe:", "it:fvg:", "KSJ2:", "yh:",
		"LINZ2OSM:", "linz2osm:", "LINZ:", "WroclawGIS:", "naptan:", "tiger:", "gnis:", "NHD:", "nhd:", "mvdgis:"}
	for k := range dropKeys {
		dropKeyList = append(dropKeyList, k)
	}
	sort.Strings(dropKeyList)
}

var dropKeyList []string

func keepKey(k string) bool {
	if dropKeys[k] {
		return false
	}
	for _, p := range dropPrefixes {
		if strings.HasPrefix(k, p) {
			return false
		}
	}
	return true
}

var valPool = []string{"yes", "no", "1", "2", "residential", "x", "Straße", "東京", "a=b;c", "\xff\xfe", " ", "yes ", "highway", "name", "note"}

func genTags(r *R, max int, opt *GenOpt, node bool) []KV {
	n := r.Intn(max + 1)
	var out []KV
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var k string
		switch {
		case r.Bool(0.15):
			k = pick(r, dropKeyList...)
		case r.Bool(0.1):
			k = pick(r, dropPrefixes...) + fmt.Sprint(r.Intn(9))
		case r.Bool(0.05):
			k = pick(r, dropPrefixes...)
		case r.Bool(0.1):
			k = fmt.Sprintf("k%d", r.Intn(200))
		default:
			k = pick(r, keyPool...)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		v := pick(r, valPool...)
		switch {
		case r.Bool(0.05):
			v = ""
		case r.Bool(0.1):
			v = fmt.Sprintf("v%d", r.Intn(500))
		case opt.BigStrings && r.Bool(0.02):
			v = strings.Repeat(pick(r, "ab", "語", "z"), 1+r.Intn(200))
		}
		out = append(out, KV{k, v})
	}
	return out
}

type idGen struct {
	r    *R
	next int64
	mode int
	run  int
	max  int64
}

// newIDs makes ascending ids >= 1.
func newIDs(r *R, huge bool, max int64) *idGen {
	g := &idGen{r: r, mode: r.Intn(6), max: max}
	switch {
	case r.Bool(0.45):
		g.next = 1
	case r.Bool(0.3):
		g.next = 2
	case r.Bool(0.5):
		g.next = 1 + int64(r.Intn(50))
	case huge && r.Bool(0.6):
		g.next = pick(r, int64(1)<<31-5, int64(1)<<32-3, int64(1)<<33, int64(1)<<40, int64(1)<<62)
	default:
		g.next = 1 + int64(r.Intn(1_000_000_000))
	}
	return g
}

func (g *idGen) get() int64 {
	id := g.next
	var d int64
	switch g.mode {
	case 0:
		d = 1
	case 1:
		d = int64(1 + g.r.Intn(2))
	case 2:
		d = int64(1 + g.r.Intn(4))
	case 3:
		d = int64(1 + g.r.Intn(3))
		if g.r.Bool(0.2) {
			d = int64(1 + g.r.Intn(1000))
		}
	case 4:
		d = int64(2 + g.r.Intn(2))
	default:
		if g.run <= 0 {
			g.run = g.r.Intn(12)
			d = int64(1 + g.r.Intn(100000))
		} else {
			g.run--
			d = 1
		}
	}
	if g.max > 0 && id+d > g.max {
		d = 1
	}
	g.next = id + d
	return id
}

func genCoord(r *R, lim int64) int64 { // nanodegrees
	switch r.Intn(10) {
	case 0:
		return pick(r, 0, lim, -lim, 100, -100, 1, -1, 99, -99, 101, -101, lim-1, 1-lim)
	case 1, 2:
		return int64(r.U64()%20001) - 10000
	default:
		return int64(r.U64()%uint64(2*lim+1)) - lim
	}
}

func genData(r *R, o GenOpt) Dataset {
	var d Dataset
	if o.MaxBlock == 0 {
		o.MaxBlock = pick(r, 1, 2, 3, 5, 8, 20, 60)
	}
	richTags := o.Tags || r.Bool(0.3)
	tagP := pick(r, 0.0, 0.1, 0.5, 1.0)
	if o.Tags {
		tagP = pick(r, 0.2, 0.6, 1.0)
	}
	mixBlocks := !o.NoExotic && r.Bool(0.25)
	mixGroups := mixBlocks && r.Bool(0.4)
	compMix := r.Intn(4) // 0 raw 1 zlib 2 both 3 all
	if o.RawOnly {
		compMix = 0
	}
	if o.ZlibOnly {
		compMix = 1
	}
	gran := int64(0)
	latOff, lonOff := int64(0), int64(0)
	if r.Bool(0.45) {
		gran = pick(r, int64(1), 10, 50, 100, 150, 200, 1000, 10000)
	}
	offMode := r.Intn(3)
	densityInfo := r.Bool(0.5)

	newBlock := func() Block {
		b := Block{Type: "OSMData"}
		switch compMix {
		case 0:
			b.Comp = "raw"
		case 1:
			b.Comp = "zlib"
		case 2:
			b.Comp = pick(r, "raw", "zlib")
		default:
			b.Comp = pick(r, "raw", "zlib", "store")
		}
		if b.Comp == "zlib" {
			b.Level = pick(r, 1, 6, 9)
		}
		b.SizeLast = r.Bool(0.1)
		b.RawSizeOnRaw = r.Bool(0.2)
		b.Gran = gran
		if r.Bool(0.1) {
			b.Gran = pick(r, int64(0), 1, 100, 1000)
		}
		if r.Bool(0.15) {
			b.DateGran = pick(r, int64(1000), 1, 60000)
		}
		if offMode == 1 || offMode == 2 && r.Bool(0.5) {
			latOff, lonOff = genCoord(r, 1_000_000_000), genCoord(r, 1_000_000_000)
		} else {
			latOff, lonOff = 0, 0
		}
		b.LatOff, b.LonOff = latOff, lonOff
		b.STLast = r.Bool(0.05)
		b.UnsortedST = r.Bool(0.2)
		if o.BigStrings && r.Bool(0.12) {
			b.PadStr = pick(r, 300, 20000, 65536, 70000, 140000)
		}
		return b
	}
	newGroup := func() Group {
		return Group{DenseInfo: densityInfo && r.Bool(0.7), NoKV: r.Bool(0.5), Changeset: r.Bool(0.02), RelsFirst: r.Bool(0.2)}
	}
	raw := func(nano, off, g int64) int64 { return (nano - off) / g }

	nn := 0
	if o.Nodes > 0 {
		nn = r.Intn(o.Nodes + 1)
	}
	ids := newIDs(r, o.HugeIDs, 0)
	var nodeIDs []int64
	for i := 0; i < nn; i++ {
		nodeIDs = append(nodeIDs, ids.get())
	}
	nw := 0
	if o.Ways > 0 {
		nw = o.MinWays + r.Intn(o.Ways-o.MinWays+1)
	}
	wids := newIDs(r, false, 0)
	if r.Bool(0.05) {
		wids.next = 1<<31 - 1 - int64(nw)*3
		wids.mode = 1
	}
	var wayIDs []int64
	for i := 0; i < nw; i++ {
		wayIDs = append(wayIDs, wids.get())
	}
	nr := 0
	if o.Rels > 0 {
		nr = o.MinRels + r.Intn(o.Rels-o.MinRels+1)
	}
	rids := newIDs(r, false, 0)

	someNode := func() int64 {
		if len(nodeIDs) == 0 || o.MissingRefs && r.Bool(0.1) {
			if len(nodeIDs) > 0 && r.Bool(0.2) {
				// the same low bits as one that exists
				return nodeIDs[r.Intn(len(nodeIDs))] + pick(r, int64(1)<<16, 1<<24, 1<<31, 1<<32, 1<<40)
			}
			if len(nodeIDs) > 0 && r.Bool(0.7) {
				return max(1, nodeIDs[r.Intn(len(nodeIDs))]+pick(r, int64(-3), -2, -1, 1, 2, 3))
			}
			return pick(r, int64(1), 2, 3, 1<<31, 1<<33+7, 1+int64(r.Intn(1000)))
		}
		return nodeIDs[r.Intn(len(nodeIDs))]
	}
	mortonP := 0.0
	if o.MortonRefs {
		mortonP = pick(r, 0.0, 0.1, 0.9)
	}
	if o.AllMorton {
		mortonP = pick(r, 0.9, 1.0, 1.0)
	}
	someRef := func() int64 {
		if r.Bool(mortonP) {
			return mortonOf(genCoord(r, 1_800_000_000), genCoord(r, 900_000_000))
		}
		return someNode()
	}
	genRefs := func() []int64 {
		n := r.Intn(8)
		switch {
		case r.Bool(0.05):
			n = 0
		case r.Bool(0.1):
			n = 8 + r.Intn(40)
		case o.LongWays && r.Bool(0.03):
			n = pick(r, 500, 1800, 2000)
		}
		var out []int64
		wide := r.Bool(0.3)
		for len(out) < n {
			x := someRef()
			if wide && n > 100 && mortonP == 0 && len(nodeIDs) == 0 {
				x = 1 + int64(r.U64()>>2)
			}
			out = append(out, x)
			for r.Bool(0.08) && len(out) < n {
				out = append(out, x) // consecutive repeat
			}
			if len(nodeIDs) > 0 && r.Bool(0.2) {
				// runs of neighbouring ids, as real ways have
				k := sort.Search(len(nodeIDs), func(i int) bool { return nodeIDs[i] >= x })
				for j := 1; j < 1+r.Intn(6) && k+j < len(nodeIDs) && len(out) < n; j++ {
					out = append(out, nodeIDs[k+j])
				}
			}
		}
		if len(out) > 2 && r.Bool(0.3) {
			out[len(out)-1] = out[0]
		}
		return out
	}
	genMembers := func() []Member {
		n := r.Intn(7)
		if r.Bool(0.05) {
			n = 0
		} else if r.Bool(0.08) {
			n = 7 + r.Intn(60)
		}
		var out []Member
		onlyWays := r.Bool(0.4)
		for i := 0; i < n; i++ {
			m := Member{Type: r.Intn(3), Role: pick(r, "", "", "outer", "inner", "stop", "forward", "näme", "outer")}
			if onlyWays {
				m.Type = 1
			}
			switch m.Type {
			case 0:
				m.ID = someNode()
			case 1:
				if len(wayIDs) > 0 && !r.Bool(0.15) {
					m.ID = wayIDs[r.Intn(len(wayIDs))]
				} else {
					m.ID = pick(r, int64(1), 2, int64(1+r.Intn(2000)), 1<<31-1, 1<<31, 1<<40)
					if len(wayIDs) > 0 && r.Bool(0.2) {
						m.ID = wayIDs[r.Intn(len(wayIDs))] + pick(r, int64(1)<<16, 1<<30, 1<<31, 1<<32, 1<<33)
					} else if len(wayIDs) > 0 && r.Bool(0.6) {
						m.ID = max(1, wayIDs[r.Intn(len(wayIDs))]+pick(r, int64(-1), 1, 2))
					}
				}
			default:
				m.ID = 1 + int64(r.Intn(5000))
			}
			out = append(out, m)
			if r.Bool(0.05) {
				out = append(out, m)
			}
		}
		return out
	}
	maxTags := pick(r, 1, 2, 4, 8)

	// one stream of entities cut into blocks and groups
	if !r.Bool(0.04) || o.NoExotic {
		d.Blocks = append(d.Blocks, genHeader(r, compMix))
	}
	left := 0
	var cur *Block
	var grp *Group
	kind := -1
	openBlock := func() {
		b := newBlock()
		d.Blocks = append(d.Blocks, b)
		cur = &d.Blocks[len(d.Blocks)-1]
		cur.Groups = append(cur.Groups, newGroup())
		grp = &cur.Groups[0]
		left = 1 + r.Intn(o.MaxBlock)
		if !o.NoExotic && r.Bool(0.03) {
			// an empty block before this one
			e := newBlock()
			if r.Bool(0.5) {
				e.Groups = append(e.Groups, Group{EmptyDense: r.Bool(0.5)})
			}
			d.Blocks = append(d.Blocks[:len(d.Blocks)-1], e, d.Blocks[len(d.Blocks)-1])
			cur = &d.Blocks[len(d.Blocks)-1]
			grp = &cur.Groups[0]
		}
		if !o.NoExotic && r.Bool(0.01) {
			h := genHeader(r, compMix)
			last := d.Blocks[len(d.Blocks)-1]
			d.Blocks = append(d.Blocks[:len(d.Blocks)-1], h, last)
			cur = &d.Blocks[len(d.Blocks)-1]
			grp = &cur.Groups[0]
		}
	}
	place := func(k int) {
		switch {
		case cur == nil || left == 0 || k != kind && !mixBlocks:
			openBlock()
		case k != kind && !mixGroups, r.Bool(0.08):
			cur.Groups = append(cur.Groups, newGroup())
			grp = &cur.Groups[len(cur.Groups)-1]
		}
		kind = k
		left--
	}
	for _, id := range nodeIDs {
		place(0)
		n := Node{ID: id, Lat: raw(genCoord(r, 90_000_000_000), cur.LatOff, cur.gran()), Lon: raw(genCoord(r, 180_000_000_000), cur.LonOff, cur.gran())}
		if r.Bool(tagP) && richTags {
			n.Tags = genTags(r, maxTags, &o, true)
		}
		grp.Nodes = append(grp.Nodes, n)
	}
	for _, id := range wayIDs {
		place(1)
		w := Way{ID: id, Refs: genRefs(), Info: densityInfo && r.Bool(0.5)}
		if r.Bool(0.5) {
			w.Tags = genTags(r, maxTags, &o, false)
		}
		grp.Ways = append(grp.Ways, w)
	}
	for i := 0; i < nr; i++ {
		place(2)
		x := Rel{ID: rids.get(), Members: genMembers(), Info: densityInfo && r.Bool(0.5)}
		if r.Bool(0.7) {
			x.Tags = genTags(r, maxTags, &o, false)
		}
		grp.Rels = append(grp.Rels, x)
	}
	if o.Big && r.Bool(0.3) && o.Nodes > 0 {
		b := newBlock()
		start := ids.next + int64(r.Intn(100))
		b.Groups = nil
		b.Fill = &Fill{Kind: "nodes", N: 500 + r.Intn(8000), Start: start, Stride: pick(r, int64(1), 2, 3), Seed: int64(r.Intn(1 << 30))}
		b.Gran, b.LatOff, b.LonOff = 0, 0, 0
		// keep nodes before ways, and node ids in order
		at := len(d.Blocks)
		mixed := false
		for i, x := range d.Blocks {
			for _, g := range x.Groups {
				if len(g.Ways)+len(g.Rels) > 0 && i < at {
					at = i
				}
			}
		}
		for _, x := range d.Blocks[at:] {
			for _, g := range x.Groups {
				mixed = mixed || len(g.Nodes) > 0
			}
		}
		if !mixed {
			d.Blocks = append(d.Blocks[:at], append([]Block{b}, d.Blocks[at:]...)...)
		}
	}
	if r.Bool(0.03) && !o.Big {
		manyTags(r, &d)
	}
	if len(d.Blocks) == 0 {
		// a file of no bytes at all is not a PBF file
		d.Blocks = append(d.Blocks, genHeader(r, compMix))
	}
	return d
}

// manyTags gives one entity far more tags than usual.
func manyTags(r *R, d *Dataset) {
	var at []*[]KV
	for i := range d.Blocks {
		for j := range d.Blocks[i].Groups {
			g := &d.Blocks[i].Groups[j]
			for k := range g.Nodes {
				at = append(at, &g.Nodes[k].Tags)
			}
			for k := range g.Ways {
				at = append(at, &g.Ways[k].Tags)
			}
			for k := range g.Rels {
				at = append(at, &g.Rels[k].Tags)
			}
		}
	}
	if len(at) == 0 {
		return
	}
	t := at[r.Intn(len(at))]
	for j, n := 0, pick(r, 20, 64, 130, 300); j < n; j++ {
		*t = append(*t, KV{fmt.Sprintf("t%d", j), pick(r, valPool...)})
	}
}

func genHeader(r *R, compMix int) Block {
	h := Block{Type: "OSMHeader", Comp: "raw"}
	if compMix > 0 && r.Bool(0.6) {
		h.Comp = "zlib"
	}
	if r.Bool(0.9) {
		h.Header = fieldBytes(nil, 4, []byte("OsmSchema-V0.6"))
		h.Header = fieldBytes(h.Header, 4, []byte("DenseNodes"))
		if r.Bool(0.5) {
			h.Header = fieldBytes(h.Header, 16, []byte(fmt.Sprintf("prog %d", r.Intn(1000))))
		}
	}
	return h
}

// ---------------------------------------------------------------- index files made by the harness

type idLoc struct {
	id  int64
	loc int64
}

// encodeNodeIdx lays out a node index; maxRun splits runs so that the number of
// elements varies, fillGap fills gaps of that many missing ids with zeros.
func encodeNodeIdx(nodes []idLoc, maxRun int, fillGap int64) []byte {
	type el struct{ first, count, off uint64 }
	var els []el
	var locs []int64
	for i := 0; i < len(nodes); i++ {
		n := nodes[i]
		if len(els) > 0 {
			e := &els[len(els)-1]
			gap := n.id - int64(e.first+e.count)
			if gap >= 0 && gap <= fillGap && int(e.count) < maxRun {
				for k := int64(0); k < gap; k++ {
					locs = append(locs, 0)
					e.count++
				}
				locs = append(locs, n.loc)
				e.count++
				continue
			}
		}
		els = append(els, el{uint64(n.id), 1, uint64(len(locs))})
		locs = append(locs, n.loc)
	}
	out := make([]byte, 0, 16+16*len(els)+8*len(locs))
	out = binary.LittleEndian.AppendUint64(out, 1)
	out = binary.LittleEndian.AppendUint64(out, uint64(len(els)))
	for _, e := range els {
		out = binary.LittleEndian.AppendUint64(out, e.first)
		out = binary.LittleEndian.AppendUint64(out, e.off<<24|e.count)
	}
	for _, l := range locs {
		out = binary.LittleEndian.AppendUint64(out, uint64(l))
	}
	return out
}

func encodeWayIdx(ids []int64, locs map[int64][]int64, align uint) []byte {
	var blk []byte
	out := binary.LittleEndian.AppendUint64(nil, uint64(len(ids)))
	out = binary.LittleEndian.AppendUint64(out, uint64(align))
	for _, id := range ids {
		out = binary.LittleEndian.AppendUint64(out, uint64(id)<<33|uint64(len(blk)>>align))
		last := int64(0)
		for _, l := range locs[id] {
			blk = putUvarint(blk, zz(l-last))
			last = l
		}
		blk = append(blk, 0)
		for len(blk)&(1<<align-1) != 0 {
			blk = append(blk, 0)
		}
	}
	return append(out, blk...)
}

// ---------------------------------------------------------------- schedules

func genSched(r *R, heavy bool) zsim.Sched {
	s := zsim.Sched{Seed: r.U64()}
	s.Policy = pick(r, "random", "random", "sticky", "sticky", "pct", "starve", "lifo", "rr")
	if heavy {
		s.Mean = pick(r, 0, 5000, 50000)
	} else {
		s.Mean = pick(r, 0, 4, 15, 60, 250, 1000, 10000)
	}
	s.PTime = pick(r, 0.0, 0.0, 0.01, 0.1)
	s.PDrop = pick(r, 0.0, 0.05, 0.3, 1.0)
	switch s.Policy {
	case "starve":
		s.Victims = 1 << r.Intn(10)
		if r.Bool(0.5) {
			s.Victims |= 1 << r.Intn(10)
		}
	case "pct":
		s.PctD = 1 + r.Intn(6)
		s.PctN = pick(r, 50, 200, 1000, 5000)
	}
	return s
}
