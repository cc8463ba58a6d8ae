//go:build go1.23

package zsim

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// FS is the simulated disk: it outlives simulated processes.
type FS struct {
	files map[string]*Inode
	dirs  map[string]bool
	seq   int64
	// Free is the number of bytes that may still be added before ENOSPC; <0: unlimited.
	Free int64
	// Removed, if not nil, keeps the contents of removed files.
	Removed map[string][]byte
}

type Inode struct {
	Data  []byte
	maps  []*Mapping
	mtime int64
	ro    bool
}

func NewFS() *FS {
	return &FS{files: map[string]*Inode{}, dirs: map[string]bool{"/": true, ".": true, "/w": true}, Free: -1}
}

// Heap is the memory a process held at a system call.
type Heap struct {
	Op    string
	Bytes int64
}

// heapNow is the memory reachable now, without the disk and the simulator's
// own record of operations.
func (p *Proc) heapNow() int64 {
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	n := int64(ms.HeapAlloc) - int64(cap(p.ops))*int64(unsafe.Sizeof(FsOp{})) - 16*int64(cap(p.d.rec)) - 8*int64(cap(p.d.pre))
	same := map[*Inode]bool{}
	for _, v := range p.fs.files {
		if !same[v] {
			same[v] = true
			n -= int64(cap(v.Data))
		}
	}
	return n
}

// sampleHeap keeps between 32 and 64 samples.
func (p *Proc) sampleHeap() {
	if len(p.samples) == 64 {
		for i := range 32 {
			p.samples[i], p.gsamples[i] = p.samples[2*i+1], p.gsamples[2*i+1]
		}
		p.samples, p.gsamples = p.samples[:32], p.gsamples[:32]
		p.heapEvery *= 2
	}
	p.samples = append(p.samples, p.heapNow()-p.heap0)
	p.gsamples = append(p.gsamples, len(p.gs))
	p.heapNext = p.steps + p.heapEvery
}

func (f *FS) Clone() *FS {
	n := NewFS()
	same := map[*Inode]*Inode{}
	for k, v := range f.files {
		if same[v] == nil {
			same[v] = &Inode{Data: append([]byte(nil), v.Data...)}
		}
		n.files[k] = same[v]
	}
	for k := range f.dirs {
		n.dirs[k] = true
	}
	n.Free = f.Free
	return n
}

func (f *FS) Put(name string, data []byte) {
	f.files[clean(name)] = &Inode{Data: append([]byte(nil), data...)}
}

func (f *FS) Get(name string) ([]byte, bool) {
	i, ok := f.files[clean(name)]
	if !ok {
		return nil, false
	}
	return i.Data, true
}

// Link makes to another name of the file.
func (f *FS) Link(from, to string) { f.files[clean(to)] = f.files[clean(from)] }

func (f *FS) Del(name string) { delete(f.files, clean(name)) }

func (f *FS) Names() []string {
	var r []string
	for k := range f.files {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func clean(n string) string {
	if !path.IsAbs(n) {
		n = "/w/" + n
	}
	return path.Clean(n)
}

// FsOp is one recorded file-system operation.
type FsOp struct {
	Op   string
	Path string
	N    int64
}

type OsFile struct {
	name   string
	key    string
	ino    *Inode
	pos    int64
	wrote  int64 // bytes written through this handle
	flag   int
	closed bool
	h      int // number in a recorded trace
	std    int // 1 stdout 2 stderr 3 stdin
}

var errOf = map[string]error{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EMFILE": syscall.EMFILE, "EACCES": syscall.EACCES,
	"EINTR": syscall.EINTR, "ENOMEM": syscall.ENOMEM, "EPERM": syscall.EPERM, "EROFS": syscall.EROFS,
	"EBUSY": syscall.EBUSY, "ENOENT": syscall.ENOENT, "EDQUOT": syscall.EDQUOT,
}

var mutating = map[string]bool{"create": true, "write": true, "remove": true, "rename": true, "truncate": true, "close": true, "seek": true}

// fsop is called before every file-system operation. It returns an injected
// error and, for writes, how many bytes to write before failing or crashing.
func (p *Proc) fsop(op, name string, n int64) (err error, partial int64, crash bool) {
	p.point()
	if p.over {
		p.yieldOut()
	}
	if p.cfg.Other != nil {
		p.cfg.Other.tick()
	}
	p.steps++
	p.ops = append(p.ops, FsOp{op, name, n})
	partial = -1
	for _, f := range p.faults {
		if f.Op == "" || (f.Kind != "io" && f.Kind != "crash" && f.Kind != "shortread" && f.Kind != "cancelop" && f.Kind != "slow" && f.Kind != "heap") {
			continue
		}
		if f.Op != op && !(f.Op == "any") && !(f.Op == "mut" && mutating[op]) {
			continue
		}
		if f.Path != "" && !strings.HasSuffix(name, f.Path) || f.Path == "" && strings.HasPrefix(name, "/dev/") {
			continue
		}
		f.seen++
		hit := f.seen == f.N+1 || f.Sticky && f.seen > f.N+1
		if !hit {
			continue
		}
		switch f.Kind {
		case "io":
			f.fired++
			p.fired["io-"+op+"-"+f.Err]++
			err = &fs.PathError{Op: op, Path: name, Err: errOf[f.Err]}
			if op == "write" {
				partial = f.Arg
				if partial >= n {
					partial = n - 1
				}
				if partial < 0 {
					partial = 0
				}
			}
			if op == "close" {
				partial = f.Arg
			}
		case "slow":
			f.fired++
			p.fired["slow-"+op]++
			was := p.slow
			p.slow = op
			p.slowN++
			TimeSleep(time.Duration(f.Arg))
			p.slow, p.idle = was, 0
		case "heap":
			if (f.seen-f.N-1)%max(1, f.Arg) == 0 {
				p.heaps = append(p.heaps, Heap{op, p.heapNow() - p.heap0})
			}
		case "shortread":
			if op == "read" && n > 1 {
				f.fired++
				p.fired["shortread"]++
				partial = 1 + f.Arg%(n-1)
			}
		case "cancelop":
			if f.fired == 0 && len(p.ctxs) > 0 {
				f.fired++
				p.fired["cancel"]++
				p.cancelled = true
				p.cancelAt = p.steps
				for _, c := range p.ctxs {
					c.cancelNow(ctxCanceled)
				}
			}
		case "crash":
			f.fired++
			p.fired["crash-"+op]++
			crash = true
			if op == "write" {
				partial = f.Arg
				if partial > n {
					partial = n
				}
			}
		}
	}
	if crash && op != "write" {
		p.kill()
		p.yieldOut()
	}
	return
}

func (p *Proc) die() {
	p.kill()
	p.yieldOut()
}

func (p *Proc) track(f *OsFile) error {
	if len(p.open)+3 >= p.cfg.FDLimit {
		p.fired["fd-limit"]++
		return &fs.PathError{Op: "open", Path: f.name, Err: syscall.EMFILE}
	}
	p.openSeq++
	p.open[f] = p.openSeq
	if len(p.open) > p.maxfd {
		p.maxfd = len(p.open)
	}
	return nil
}

func fsProc() *Proc {
	if P == nil || P.cur == nil {
		panic("zsim: file-system call outside a simulated process")
	}
	return P
}

func OsOpenFile(name string, flag int, perm os.FileMode) (*OsFile, error) {
	p := fsProc()
	key := clean(name)
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	if err, _, _ := p.fsop(op, key, 0); err != nil {
		return nil, err
	}
	if p.fs.dirs[key] {
		if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EISDIR}
		}
	}
	ino := p.fs.files[key]
	if ino != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
	}
	if ino == nil && flag&os.O_CREATE == 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	if ino == nil && !p.fs.dirs[path.Dir(key)] {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	f := &OsFile{name: name, key: key, flag: flag}
	if err := p.track(f); err != nil {
		return nil, err
	}
	if ino == nil {
		ino = &Inode{}
		p.fs.files[key] = ino
	} else if flag&os.O_TRUNC != 0 {
		ino.truncate(0)
	}
	f.ino = ino
	f.h = p.handle()
	p.trace(traceOp{kind: "open", h: f.h, path: key, flag: flag})
	return f, nil
}

func OsOpen(name string) (*OsFile, error) { return OsOpenFile(name, os.O_RDONLY, 0) }
func OsCreate(name string) (*OsFile, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (i *Inode) truncate(n int64) {
	if n <= int64(len(i.Data)) {
		i.Data = append([]byte(nil), i.Data[:n]...)
	} else {
		i.Data = append(i.Data, make([]byte, n-int64(len(i.Data)))...)
	}
	for _, m := range i.maps {
		m.truncated(n)
	}
}

func (f *OsFile) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if p := P; p != nil && p.cur != nil {
		p.hbBoth(unsafe.Pointer(f))
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

func (f *OsFile) Name() string { return f.name }

func (f *OsFile) Write(b []byte) (int, error) {
	p := P
	if f != nil && f.std != 0 {
		if p == nil {
			return len(b), nil
		}
		if p.cur != nil {
			p.point()
			p.hbBoth(unsafe.Pointer(f))
			p.hbAccess(unsafe.Pointer(unsafe.SliceData(b)), len(b), false)
		}
		if f.std == 1 {
			if err, partial, crash := p.fsop("write", "/dev/stdout", int64(len(b))); err != nil || crash {
				if partial > 0 && partial <= int64(len(b)) {
					p.stdout.Write(b[:partial])
				}
				if crash {
					p.die()
				}
				return int(partial), err
			}
			p.stdout.Write(b)
		} else {
			p.stderr.Write(b)
		}
		return len(b), nil
	}
	n, err := f.writeAt(b, -1)
	return n, err
}

func (f *OsFile) writeAt(b []byte, off int64) (int, error) {
	p := fsProc()
	p.hbAccess(unsafe.Pointer(unsafe.SliceData(b)), len(b), false)
	if err := f.check("write"); err != nil {
		p.point()
		return 0, err
	}
	err, partial, crash := p.fsop("write", f.key, int64(len(b)))
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	n := int64(len(b))
	if partial >= 0 && partial < n {
		n = partial
	}
	pos := off
	if off < 0 {
		pos = f.pos
		if f.flag&os.O_APPEND != 0 {
			pos = int64(len(f.ino.Data))
		}
	}
	if n < int64(len(b)) {
		// a write stops at a page boundary: small aligned writes are all or nothing
		if n = (pos+n)/4096*4096 - pos; n < 0 {
			n = 0
		}
	}
	if grow := pos + n - int64(len(f.ino.Data)); grow > 0 && p.fs.Free >= 0 {
		if grow > p.fs.Free {
			p.fired["disk-full"]++
			n -= grow - p.fs.Free
			if n < 0 {
				n = 0
			}
			if err == nil {
				err = &fs.PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}
			}
			grow = p.fs.Free
		}
		p.fs.Free -= grow
	}
	if n > 0 {
		f.ino.put(pos, b[:n])
		p.trace(traceOp{kind: "write", h: f.h, path: f.key, off: pos, data: b[:n]})
		f.wrote += n
		if off < 0 {
			f.pos = pos + n
		}
	}
	p.fs.seq++
	f.ino.mtime = p.now
	if crash {
		p.die()
	}
	if err == nil && n < int64(len(b)) {
		err = io.ErrShortWrite
	}
	return int(n), err
}

func (f *OsFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *OsFile) WriteAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, &fs.PathError{Op: "writeat", Path: f.name, Err: errors.New("negative offset")}
	}
	return f.writeAt(b, off)
}

func (f *OsFile) Read(b []byte) (int, error) { return f.readAt(b, -1) }

func (f *OsFile) readAt(b []byte, off int64) (int, error) {
	p := fsProc()
	if f != nil && f.std != 0 {
		return 0, io.EOF
	}
	if err := f.check("read"); err != nil {
		return 0, err
	}
	err, partial, _ := p.fsop("read", f.key, int64(len(b)))
	if err != nil {
		return 0, err
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EBADF}
	}
	if len(b) == 0 {
		return 0, nil
	}
	pos := off
	if off < 0 {
		pos = f.pos
	}
	if pos >= int64(len(f.ino.Data)) {
		p.trace(traceOp{kind: "read", h: f.h, path: f.key, off: pos})
		return 0, io.EOF
	}
	if partial >= 0 && partial < int64(len(b)) {
		b = b[:partial]
	}
	n := copy(b, f.ino.Data[pos:])
	p.hbAccess(unsafe.Pointer(unsafe.SliceData(b)), n, true)
	p.trace(traceOp{kind: "read", h: f.h, path: f.key, off: pos, data: b[:n]})
	if off < 0 {
		f.pos += int64(n)
	}
	return n, nil
}

func (f *OsFile) ReadAt(b []byte, off int64) (int, error) {
	t := 0
	for t < len(b) {
		n, err := f.readAt(b[t:], off+int64(t))
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (f *OsFile) Seek(off int64, whence int) (int64, error) {
	p := fsProc()
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if err, _, _ := p.fsop("seek", f.key, off); err != nil {
		return 0, err
	}
	var n int64
	switch whence {
	case io.SeekStart:
		n = off
	case io.SeekCurrent:
		n = f.pos + off
	case io.SeekEnd:
		n = int64(len(f.ino.Data)) + off
	default:
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	if n < 0 {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	f.pos = n
	return n, nil
}

func (f *OsFile) Close() error {
	p := P
	if f == nil {
		return os.ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	p = fsProc()
	if err := f.check("close"); err != nil {
		p.point()
		return err
	}
	err, lost, _ := p.fsop("close", f.key, 0)
	if err != nil && lost > 0 && f.wrote > 0 && len(f.ino.maps) == 0 {
		// a failing close is how some file systems report that data written
		// earlier did not reach the disk
		p.fired["close-lost-data"]++
		f.ino.truncate(int64(len(f.ino.Data)) - min(lost, f.wrote, int64(len(f.ino.Data))))
	}
	f.closed = true
	delete(p.open, f)
	p.trace(traceOp{kind: "close", h: f.h})
	return err
}

func (f *OsFile) Sync() error {
	p := fsProc()
	if err := f.check("sync"); err != nil {
		return err
	}
	err, _, _ := p.fsop("sync", f.key, 0)
	if err == nil {
		p.trace(traceOp{kind: "sync", h: f.h})
	}
	return err
}

func (f *OsFile) Truncate(n int64) error {
	p := fsProc()
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err, _, _ := p.fsop("truncate", f.key, n); err != nil {
		return err
	}
	f.ino.truncate(n)
	p.trace(traceOp{kind: "truncate", h: f.h, off: n})
	return nil
}

func (f *OsFile) Chmod(os.FileMode) error { return nil }
func (f *OsFile) Fd() uintptr {
	if f.std != 0 {
		return uintptr(f.std % 3)
	}
	return 99
}

type fileInfo struct {
	name string
	size int64
	dir  bool
	mt   int64
	ino  *Inode
}

func (i fileInfo) Name() string       { return path.Base(i.name) }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) ModTime() time.Time { return epoch.Add(time.Duration(i.mt)) }
func (i fileInfo) IsDir() bool        { return i.dir }
func (i fileInfo) Sys() any           { return nil }
func (i fileInfo) Mode() os.FileMode {
	if i.dir {
		return os.ModeDir | 0755
	}
	return 0644
}

func (f *OsFile) Stat() (os.FileInfo, error) {
	p := fsProc()
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return fileInfo{name: f.name}, nil
	}
	if err, _, _ := p.fsop("stat", f.key, 0); err != nil {
		return nil, err
	}
	return fileInfo{name: f.name, size: int64(len(f.ino.Data)), mt: f.ino.mtime, ino: f.ino}, nil
}

func OsStat(name string) (os.FileInfo, error) {
	p := fsProc()
	key := clean(name)
	if err, _, _ := p.fsop("stat", key, 0); err != nil {
		return nil, err
	}
	if p.fs.dirs[key] {
		return fileInfo{name: key, dir: true}, nil
	}
	if i, ok := p.fs.files[key]; ok {
		return fileInfo{name: key, size: int64(len(i.Data)), mt: i.mtime, ino: i}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
}

func OsRemove(name string) error {
	p := fsProc()
	key := clean(name)
	if err, _, _ := p.fsop("remove", key, 0); err != nil {
		return err
	}
	if i, ok := p.fs.files[key]; ok {
		if p.fs.Free >= 0 {
			p.fs.Free += int64(len(i.Data))
		}
		if p.fs.Removed != nil {
			p.fs.Removed[key] = i.Data
		}
		delete(p.fs.files, key)
		p.trace(traceOp{kind: "remove", path: key})
		return nil
	}
	if p.fs.dirs[key] {
		delete(p.fs.dirs, key)
		return nil
	}
	return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
}

func OsRemoveAll(name string) error {
	p := fsProc()
	key := clean(name)
	if err, _, _ := p.fsop("remove", key, 0); err != nil {
		return err
	}
	p.trace(traceOp{kind: "removeall", path: key})
	for _, k := range p.fs.Names() {
		if k == key || strings.HasPrefix(k, key+"/") {
			delete(p.fs.files, k)
		}
	}
	return nil
}

func OsRename(a, b string) error {
	p := fsProc()
	ka, kb := clean(a), clean(b)
	if err, _, _ := p.fsop("rename", kb, 0); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err.(*fs.PathError).Err}
	}
	i, ok := p.fs.files[ka]
	if !ok {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if o, ok := p.fs.files[kb]; ok && ka != kb && p.fs.Free >= 0 {
		p.fs.Free += int64(len(o.Data))
	}
	delete(p.fs.files, ka)
	p.fs.files[kb] = i
	p.trace(traceOp{kind: "rename", path: ka, to: kb})
	return nil
}

func OsTruncate(name string, n int64) error {
	p := fsProc()
	key := clean(name)
	if err, _, _ := p.fsop("truncate", key, n); err != nil {
		return err
	}
	if i, ok := p.fs.files[key]; ok {
		i.truncate(n)
		p.trace(traceOp{kind: "truncatename", path: key, off: n})
		return nil
	}
	return &fs.PathError{Op: "truncate", Path: name, Err: syscall.ENOENT}
}

func OsMkdir(name string, _ os.FileMode) error {
	fsProc().point()
	P.fs.dirs[clean(name)] = true
	P.trace(traceOp{kind: "mkdir", path: clean(name)})
	return nil
}

func OsMkdirAll(name string, m os.FileMode) error { return OsMkdir(name, m) }

func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func OsCreateTemp(dir, pattern string) (*OsFile, error) {
	p := fsProc()
	if dir == "" {
		dir = "/tmp"
		p.fs.dirs["/tmp"] = true
	}
	for {
		p.tmpSeq++
		n := fmt.Sprintf("%d", 100000+p.cfg.Pid+p.tmpSeq)
		nm := pattern + n
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			nm = pattern[:i] + n + pattern[i+1:]
		}
		f, err := OsOpenFile(path.Join(dir, nm), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}

func OsTempDir() string                 { return "/tmp" }
func OsGetpid() int                     { return 4242 + P.cfg.Pid }
func OsGetenv(string) string            { return "" }
func OsLookupEnv(string) (string, bool) { return "", false }
func OsEnviron() []string               { return nil }
func OsGetwd() (string, error)          { return "/w", nil }
func OsHostname() (string, error)       { return "sim", nil }
func OsGetpagesize() int                { return 4096 }

func OsArgs() []string {
	if P == nil {
		return []string{"zsim"}
	}
	return P.args
}

var stdFiles = [4]*OsFile{nil, {name: "/dev/stdout", std: 1}, {name: "/dev/stderr", std: 2}, {name: "/dev/stdin", std: 3}}

func OsStdout() *OsFile { return stdFiles[1] }
func OsStderr() *OsFile { return stdFiles[2] }
func OsStdin() *OsFile  { return stdFiles[3] }

func FmtPrint(a ...any) (int, error)            { return fmt.Fprint(OsStdout(), a...) }
func FmtPrintln(a ...any) (int, error)          { return fmt.Fprintln(OsStdout(), a...) }
func FmtPrintf(f string, a ...any) (int, error) { return fmt.Fprintf(OsStdout(), f, a...) }

func LogPrint(a ...any)            { fmt.Fprintln(OsStderr(), a...) }
func LogPrintln(a ...any)          { fmt.Fprintln(OsStderr(), a...) }
func LogPrintf(f string, a ...any) { fmt.Fprintf(OsStderr(), f+"\n", a...) }
func LogFatal(a ...any)            { LogPrint(a...); OsExit(1) }
func LogFatalln(a ...any)          { LogPrint(a...); OsExit(1) }
func LogFatalf(f string, a ...any) { LogPrintf(f, a...); OsExit(1) }
func LogPanic(a ...any)            { s := fmt.Sprint(a...); LogPrint(s); panic(s) }
func LogPanicln(a ...any)          { s := fmt.Sprintln(a...); LogPrint(s); panic(s) }
func LogPanicf(f string, a ...any) { s := fmt.Sprintf(f, a...); LogPrint(s); panic(s) }
func LogSetFlags(int)              {}
func LogSetPrefix(string)          {}
func LogSetOutput(io.Writer)       {}

// ---------------------------------------------------------------- profiles, signals

type Profile struct{ name string }

func PprofLookup(name string) *Profile { return &Profile{name} }
func (p *Profile) WriteTo(w io.Writer, _ int) error {
	_, err := io.WriteString(w, p.name+" profile: simulated\n")
	return err
}
func (p *Profile) Count() int { return 0 }
func PprofStart(w io.Writer) error {
	_, err := io.WriteString(w, "cpu profile\n")
	return err
}
func PprofStop() {}
func PprofHeap(w io.Writer) error {
	_, err := io.WriteString(w, "heap profile\n")
	return err
}

type sigReg struct{ ch chan<- os.Signal }

func SignalNotify(ch chan<- os.Signal, _ ...os.Signal) { P.notify = append(P.notify, sigReg{ch}) }
func SignalStop(ch chan<- os.Signal)                   {}
func SignalIgnore(...os.Signal)                        {}

func NotifyContext(parent context.Context, _ ...os.Signal) (context.Context, context.CancelFunc) {
	return WithCancel(parent)
}

func OsChmod(name string, _ os.FileMode) error { _, err := OsStat(name); return err }

func OsChtimes(name string, _, _ time.Time) error { _, err := OsStat(name); return err }

// SameFile compares what Stat returned by name.
func OsSameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(fileInfo)
	y, ok2 := b.(fileInfo)
	return ok1 && ok2 && x.ino == y.ino && (x.ino != nil || x.name == y.name)
}

func OsExecutable() (string, error) { return "/w/" + P.args[0], nil }

// LogLogger stands for log.Logger.
type LogLogger struct {
	w      io.Writer
	prefix string
}

func LogNew(w io.Writer, prefix string, _ int) *LogLogger { return &LogLogger{w, prefix} }
func LogDefault() *LogLogger                              { return &LogLogger{OsStderr(), ""} }
func (l *LogLogger) Print(a ...any)                       { fmt.Fprintln(l.w, l.prefix+fmt.Sprint(a...)) }
func (l *LogLogger) Println(a ...any)                     { fmt.Fprint(l.w, l.prefix+fmt.Sprintln(a...)) }
func (l *LogLogger) Printf(f string, a ...any)            { fmt.Fprintln(l.w, l.prefix+fmt.Sprintf(f, a...)) }
func (l *LogLogger) Fatal(a ...any)                       { l.Print(a...); OsExit(1) }
func (l *LogLogger) Fatalln(a ...any)                     { l.Println(a...); OsExit(1) }
func (l *LogLogger) Fatalf(f string, a ...any)            { l.Printf(f, a...); OsExit(1) }
func (l *LogLogger) Panic(a ...any)                       { s := fmt.Sprint(a...); l.Print(s); panic(s) }
func (l *LogLogger) Panicln(a ...any)                     { s := fmt.Sprintln(a...); l.Print(s); panic(s) }
func (l *LogLogger) Panicf(f string, a ...any)            { s := fmt.Sprintf(f, a...); l.Print(s); panic(s) }
func (l *LogLogger) SetFlags(int)                         {}
func (l *LogLogger) SetPrefix(p string)                   { l.prefix = p }
func (l *LogLogger) SetOutput(w io.Writer)                { l.w = w }

func PathAbs(p string) (string, error) { return clean(p), nil }

// PathGlob matches files only.
func PathGlob(pattern string) ([]string, error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	p := fsProc()
	if err, _, _ := p.fsop("readdir", clean(path.Dir(pattern)), 0); err != nil {
		return nil, nil
	}
	var out []string
	for _, n := range p.fs.Names() {
		if ok, _ := path.Match(clean(pattern), n); ok {
			if !path.IsAbs(pattern) {
				n = strings.TrimPrefix(n, "/w/")
			}
			out = append(out, n)
		}
	}
	return out, nil
}

type dirEntry struct{ fileInfo }

func (d dirEntry) Type() os.FileMode          { return d.Mode().Type() }
func (d dirEntry) Info() (os.FileInfo, error) { return d.fileInfo, nil }

func OsReadDir(name string) ([]os.DirEntry, error) {
	p := fsProc()
	key := clean(name)
	if err, _, _ := p.fsop("readdir", key, 0); err != nil {
		return nil, err
	}
	var out []os.DirEntry
	for _, n := range p.fs.Names() {
		if path.Dir(n) == key {
			i := p.fs.files[n]
			out = append(out, dirEntry{fileInfo{name: n, size: int64(len(i.Data)), mt: i.mtime}})
		}
	}
	return out, nil
}
