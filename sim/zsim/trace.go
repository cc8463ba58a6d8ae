//go:build go1.23

package zsim

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"strings"
)

// A Trace is what one process did to the disk. It can be played back next to
// another process, as a second process that runs at the same time: its reads
// must then return what they returned when it was alone.
type Trace struct {
	ops  []traceOp
	next int
}

type traceOp struct {
	kind string
	h    int
	path string
	to   string
	flag int
	off  int64
	data []byte
}

func (t *Trace) Len() int { return len(t.ops) }

func (p *Proc) trace(o traceOp) {
	if t := p.cfg.Record; t != nil {
		o.data = append([]byte(nil), o.data...)
		t.ops = append(t.ops, o)
	}
}

func (p *Proc) handle() int {
	if p.cfg.Record == nil {
		return 0
	}
	p.cfg.Record.next++
	return p.cfg.Record.next
}

// Other plays a trace back.
type Other struct {
	fs    *FS
	t     *Trace
	at    int
	open  map[int]*Inode
	maps  map[int]*Inode
	rng   *Rng
	p     float64
	burst int
	// Broken is set when the second process would have noticed the first.
	Broken string
}

// NewOther plays t back on fs: before every operation of the first process, with
// probability p, up to burst operations of the second.
func NewOther(fs *FS, t *Trace, r *Rng, p float64, burst int) *Other {
	return &Other{fs: fs, t: t, open: map[int]*Inode{}, maps: map[int]*Inode{}, rng: r, p: p, burst: burst}
}

func (o *Other) tick() {
	if o.rng.Bool(o.p) {
		o.Run(1 + o.rng.Intn(o.burst))
	}
}

// Tick is a chance for the second process to do something.
func (o *Other) Tick() { o.tick() }

// Opened plays the trace to the point where the process has opened name for writing.
func (o *Other) Opened(name string) {
	for o.at < len(o.t.ops) {
		op := &o.t.ops[o.at]
		o.Run(1)
		if op.kind == "open" && op.path == clean(name) && op.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return
		}
	}
}

func (o *Other) At() int { return o.at }

// Run plays the next n operations.
func (o *Other) Run(n int) {
	for ; n > 0 && o.at < len(o.t.ops) && o.Broken == ""; n-- {
		if s := o.do(&o.t.ops[o.at]); s != "" {
			o.Broken = fmt.Sprintf("operation %d of %d of the other program: %s", o.at, len(o.t.ops), s)
		}
		o.at++
	}
}

func (o *Other) do(op *traceOp) string {
	switch op.kind {
	case "open":
		ino := o.fs.files[op.path]
		if ino == nil {
			if op.flag&os.O_CREATE == 0 {
				return "cannot open " + op.path
			}
			if !o.fs.dirs[path.Dir(op.path)] {
				return "no directory for " + op.path
			}
			ino = &Inode{}
			o.fs.files[op.path] = ino
		} else if op.flag&os.O_CREATE != 0 && op.flag&os.O_EXCL != 0 {
			return op.path + " exists already"
		} else if op.flag&os.O_TRUNC != 0 {
			ino.truncate(0)
		}
		o.open[op.h] = ino
	case "write":
		ino := o.open[op.h]
		ino.put(op.off, op.data)
	case "read":
		d := o.open[op.h].Data
		if op.off < int64(len(d)) {
			d = d[op.off:]
		} else {
			d = nil
		}
		if len(op.data) == 0 && len(d) > 0 {
			return "reads more than it wrote from " + op.path
		}
		if len(d) < len(op.data) || !bytes.Equal(d[:len(op.data)], op.data) {
			return "reads something else from " + op.path
		}
	case "close":
		delete(o.open, op.h)
	case "truncate":
		o.open[op.h].truncate(op.off)
	case "truncatename":
		if o.fs.files[op.path] == nil {
			return "cannot truncate " + op.path
		}
		o.fs.files[op.path].truncate(op.off)
	case "remove":
		if o.fs.files[op.path] == nil {
			return "cannot remove " + op.path
		}
		delete(o.fs.files, op.path)
	case "removeall":
		for _, k := range o.fs.Names() {
			if k == op.path || strings.HasPrefix(k, op.path+"/") {
				delete(o.fs.files, k)
			}
		}
	case "rename":
		i := o.fs.files[op.path]
		if i == nil {
			return "cannot rename " + op.path
		}
		delete(o.fs.files, op.path)
		o.fs.files[op.to] = i
	case "mkdir":
		o.fs.dirs[op.path] = true
	case "mmap":
		ino := o.open[op.h]
		o.maps[op.flag] = ino
		return sameMem(ino, op)
	case "munmap":
		return sameMem(o.maps[op.flag], op)
	}
	return ""
}

func sameMem(ino *Inode, op *traceOp) string {
	if ino == nil {
		return "maps an unknown file"
	}
	d := ino.Data
	if op.off > int64(len(d)) {
		return "maps beyond the end of " + op.path
	}
	d = d[op.off:]
	if len(d) < len(op.data) || !bytes.Equal(d[:len(op.data)], op.data) {
		return "sees something else in its mapping of " + op.path
	}
	return ""
}

// put writes b at pos.
func (i *Inode) put(pos int64, b []byte) {
	if len(b) == 0 {
		return
	}
	end := pos + int64(len(b))
	if end > int64(len(i.Data)) {
		if end > int64(cap(i.Data)) {
			nd := make([]byte, end, end*2)
			copy(nd, i.Data)
			i.Data = nd
		} else {
			old := len(i.Data)
			i.Data = i.Data[:end]
			for k := old; k < int(pos); k++ {
				i.Data[k] = 0
			}
		}
	}
	copy(i.Data[pos:end], b)
	for _, m := range i.maps {
		m.written(pos, b)
	}
}

// MkDir adds a directory.
func (f *FS) MkDir(name string) { f.dirs[clean(name)] = true }
