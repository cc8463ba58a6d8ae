//go:build go1.23

package zsim

import (
	"os"
	"sort"
)

// Loss says how a power failure treats what was not synced.
type Loss struct {
	Page   int64   // what the disk writes at once
	Keep   float64 // share of the pages that reached the disk
	First  string  // "", "kept", "lost": the first page of every file
	Oldest float64 // chance that a page that was written several times is there in an older version
	Order  float64 // share of the file names' history that reached the disk (in order)
}

// PowerLoss returns the disk as it is after the power failed at the end of t,
// which was recorded on a disk that began as before. What was there at the
// start and what was synced is durable. Of the rest, a beginning of the
// sequence of creations, truncations, removals and renames survives, and of the
// data any set of pages, each as it was after some write to it; a file ends
// where the last page that survived ends, and pages that did not survive are
// zeros. Data written after a truncation only survives if the truncation does.
func PowerLoss(before *FS, t *Trace, l Loss, r *Rng) *FS {
	type write struct {
		meta int // metadata operations up to the last one of its file before it
		pos  int64
		data []byte
	}
	type pin struct {
		base []byte // durable
		from int    // metadata operations that base includes
		last int    // metadata operations up to the last truncation
		log  []write
	}
	type metaOp struct {
		kind     string
		path, to string
		pin      *pin
		n        int64
	}
	names := map[string]*pin{}
	same := map[*Inode]*pin{}
	start := map[string]*pin{}
	for _, n := range before.Names() {
		i := before.files[n]
		if same[i] == nil {
			same[i] = &pin{base: i.Data}
		}
		names[n], start[n] = same[i], same[i]
	}
	var meta []metaOp
	synced := 0
	open := map[int]*pin{}
	cut := func(p *pin, n int64) {
		meta = append(meta, metaOp{kind: "truncate", pin: p, n: n})
		p.last = len(meta)
	}
	settle := func(p *pin, upTo int, pick func(page int64, versions []int) int) []byte {
		// contents of p with the metadata operations before upTo
		b := append([]byte(nil), p.base...)
		k := p.from
		trunc := func(to int) {
			for ; k < to; k++ {
				if m := meta[k]; m.kind == "truncate" && m.pin == p {
					if m.n < int64(len(b)) {
						b = b[:m.n]
					} else {
						b = append(b, make([]byte, m.n-int64(len(b)))...)
					}
				}
			}
		}
		// the version of each page that survives: the number of writes to it
		vers := map[int64][]int{}
		for i, w := range p.log {
			if w.meta > upTo {
				break
			}
			for g := w.pos / l.Page; g*l.Page < w.pos+int64(len(w.data)); g++ {
				vers[g] = append(vers[g], i)
			}
		}
		keep := map[int64]int{}
		var pages []int64
		for g := range vers {
			pages = append(pages, g)
		}
		sort.Slice(pages, func(i, j int) bool { return pages[i] < pages[j] })
		for _, g := range pages {
			keep[g] = pick(g, vers[g])
		}
		for i, w := range p.log {
			if w.meta > upTo {
				break
			}
			trunc(w.meta)
			for g := w.pos / l.Page; g*l.Page < w.pos+int64(len(w.data)); g++ {
				if keep[g] < i {
					continue
				}
				from, to := max(w.pos, g*l.Page), min(w.pos+int64(len(w.data)), (g+1)*l.Page)
				if to > int64(len(b)) {
					b = append(b, make([]byte, to-int64(len(b)))...)
				}
				copy(b[from:to], w.data[from-w.pos:to-w.pos])
			}
		}
		trunc(upTo)
		return b
	}
	all := func(_ int64, v []int) int { return v[len(v)-1] }
	for i := range t.ops {
		op := &t.ops[i]
		switch op.kind {
		case "open":
			p := names[op.path]
			if p == nil {
				p = &pin{from: len(meta), last: len(meta) + 1}
				names[op.path] = p
				meta = append(meta, metaOp{kind: "create", path: op.path, pin: p})
			} else if op.flag&os.O_TRUNC != 0 {
				cut(p, 0)
			}
			open[op.h] = p
		case "write":
			p := open[op.h]
			p.log = append(p.log, write{p.last, op.off, op.data})
		case "truncate":
			cut(open[op.h], op.off)
		case "truncatename":
			cut(names[op.path], op.off)
		case "remove":
			delete(names, op.path)
			meta = append(meta, metaOp{kind: "remove", path: op.path})
		case "rename":
			names[op.to] = names[op.path]
			delete(names, op.path)
			meta = append(meta, metaOp{kind: "rename", path: op.path, to: op.to})
		case "sync":
			p := open[op.h]
			p.base = settle(p, len(meta), all)
			p.from, p.last, p.log = len(meta), len(meta), nil
			synced = len(meta)
		}
	}

	upTo := synced
	for upTo < len(meta) && r.Float() < l.Order {
		upTo++
	}
	dir := map[string]*pin{}
	for n, p := range start {
		dir[n] = p
	}
	for _, m := range meta[:upTo] {
		switch m.kind {
		case "create":
			dir[m.path] = m.pin
		case "remove":
			delete(dir, m.path)
		case "rename":
			if p := dir[m.path]; p != nil {
				delete(dir, m.path)
				dir[m.to] = p
			}
		}
	}
	out := NewFS()
	for k := range before.dirs {
		out.dirs[k] = true
	}
	var left []string
	for n := range dir {
		left = append(left, n)
	}
	sort.Strings(left)
	done := map[*pin]*Inode{}
	for _, n := range left {
		p := dir[n]
		if done[p] == nil {
			done[p] = &Inode{Data: settle(p, upTo, func(g int64, v []int) int {
				if k := r.Float() < l.Keep; g == 0 && l.First == "lost" || !k && !(g == 0 && l.First == "kept") {
					return -1
				}
				if r.Float() < l.Oldest {
					return v[r.Intn(len(v))]
				}
				return v[len(v)-1]
			})}
		}
		out.files[n] = done[p]
	}
	return out
}
