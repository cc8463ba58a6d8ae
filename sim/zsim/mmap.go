//go:build go1.23

package zsim

import (
	"io/fs"
	"os"
	"syscall"
	"unsafe"
)

// Mapping is one live memory mapping, backed by real pages so that stray
// accesses fault as they would in production.
type Mapping struct {
	name string
	mem  []byte // page-rounded real memory
	off  int64
	n    int64
	ino  *Inode
	live bool
	rw   bool
	priv bool
	h    int
}

const pageSize = 4096

// MapFile maps [off, off+n) of f.
func MapFile(f *OsFile, n int64, off int64, rw, priv bool) ([]byte, error) {
	p := fsProc()
	if f == nil {
		return nil, os.ErrInvalid
	}
	if f.closed {
		p.point()
		return nil, syscall.EBADF
	}
	if err, _, _ := p.fsop("mmap", f.key, n); err != nil {
		return nil, err.(*fs.PathError).Err
	}
	if n < 0 {
		n = int64(len(f.ino.Data)) - off
	}
	if off%pageSize != 0 || n <= 0 {
		return nil, syscall.EINVAL
	}
	if rw && !priv && f.flag&os.O_RDWR == 0 {
		return nil, syscall.EACCES
	}
	sz := (n + pageSize - 1) / pageSize * pageSize
	mem, err := syscall.Mmap(-1, 0, int(sz), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil, err
	}
	if off < int64(len(f.ino.Data)) {
		copy(mem, f.ino.Data[off:])
	}
	m := &Mapping{name: f.key, mem: mem, off: off, n: n, ino: f.ino, live: true, rw: rw, priv: priv}
	if !rw {
		if err := syscall.Mprotect(mem, syscall.PROT_READ); err != nil {
			panic(err)
		}
	}
	m.truncated(int64(len(f.ino.Data)))
	p.mapSeq++
	m.h = p.handle()
	p.trace(traceOp{kind: "mmap", h: f.h, flag: m.h, path: f.key, off: off, data: mem[:max(0, min(n, int64(len(f.ino.Data))-off))]})
	p.maps[m] = p.mapSeq
	p.hbForget(unsafe.Pointer(&mem[0]), len(mem))
	f.ino.maps = append(f.ino.maps, m)
	if p.cfg.Other != nil {
		p.cfg.Other.tick() // between mapping a file and the first look at it
	}
	return mem[:n:n], nil
}

// UnmapMem unmaps the mapping that b starts at; later accesses fault.
func UnmapMem(b []byte) error {
	p := fsProc()
	p.point()
	if len(b) == 0 {
		return syscall.EINVAL
	}
	var hit *Mapping
	for m := range p.maps {
		if m.live && unsafe.Pointer(&m.mem[0]) == unsafe.Pointer(&b[0]) {
			hit = m
		}
	}
	if hit == nil {
		return syscall.EINVAL
	}
	if err, _, _ := p.fsop("munmap", hit.name, hit.n); err != nil {
		return err.(*fs.PathError).Err
	}
	hit.flush()
	if p.cfg.Record != nil && !hit.rw {
		p.trace(traceOp{kind: "munmap", flag: hit.h, path: hit.name, off: hit.off, data: hit.ino.Data[min(hit.off, int64(len(hit.ino.Data))):min(hit.off+hit.n, int64(len(hit.ino.Data)))]})
	}
	hit.live = false
	if err := syscall.Mprotect(hit.mem, syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return nil
}

// FlushMem is msync.
func FlushMem(b []byte) error {
	p := fsProc()
	p.point()
	for m := range p.maps {
		if m.live && len(b) > 0 && unsafe.Pointer(&m.mem[0]) == unsafe.Pointer(&b[0]) {
			m.flush()
		}
	}
	return nil
}

func (m *Mapping) flush() {
	if m.rw && !m.priv && m.live {
		copy(m.ino.Data[min(m.off, int64(len(m.ino.Data))):], m.mem[:m.n])
	}
}

func (m *Mapping) written(pos int64, b []byte) {
	if !m.live || m.priv {
		return
	}
	lo, hi := pos-m.off, pos-m.off+int64(len(b))
	if hi <= 0 || lo >= int64(len(m.mem)) {
		return
	}
	if lo < 0 {
		b = b[-lo:]
		lo = 0
	}
	_ = syscall.Mprotect(m.mem, syscall.PROT_READ|syscall.PROT_WRITE)
	copy(m.mem[lo:], b)
	if !m.rw {
		_ = syscall.Mprotect(m.mem, syscall.PROT_READ)
	}
}

// truncated makes whole pages beyond the end of the file fault, as SIGBUS does.
func (m *Mapping) truncated(size int64) {
	if !m.live {
		return
	}
	keep := (size - m.off + pageSize - 1) / pageSize * pageSize
	if keep < 0 {
		keep = 0
	}
	if keep < int64(len(m.mem)) {
		_ = syscall.Mprotect(m.mem[keep:], syscall.PROT_NONE)
	}
	if in := size - m.off; in >= 0 && in < keep && keep <= int64(len(m.mem)) {
		// the tail of the last page reads as zeros
		_ = syscall.Mprotect(m.mem[:keep], syscall.PROT_READ|syscall.PROT_WRITE)
		t := m.mem[in:keep]
		for i := range t {
			t[i] = 0
		}
		if !m.rw {
			_ = syscall.Mprotect(m.mem[:keep], syscall.PROT_READ)
		}
	}
}

func (m *Mapping) release() {
	if m.mem != nil {
		m.flush()
		m.live = false
		_ = syscall.Munmap(m.mem)
		m.mem = nil
		for i, x := range m.ino.maps {
			if x == m {
				m.ino.maps = append(m.ino.maps[:i], m.ino.maps[i+1:]...)
				break
			}
		}
	}
}
