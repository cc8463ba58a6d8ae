//go:build go1.23 && zrace

package zsim

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"

	"zrt"
)

// With the tag zrace, and the packages under test compiled with the compiler's
// race instrumentation, this file is the race detector: vector clocks follow
// the simulated synchronisation operations, and every instrumented access is
// checked against the earlier ones of the same address (FastTrack). Two
// accesses that are not ordered in one simulated execution are reported
// whatever their order in that execution was.

const RaceDetection = true

type vclock []uint32

type raceState struct {
	off    bool
	timer  vclock // clock of whoever set the timer that is firing
	sync   map[unsafe.Pointer]vclock
	chans  map[*chanState]*chanClk
	pages  map[uintptr]*racePage
	lastK  uintptr
	last   *racePage
	slabs  []*[1024]cell
	ncell  uint32
	seen   map[[2]uintptr]bool
	found  []string
	nacc   int64
	nsync  int64
	npages int
	gcs    uint32
	mem    runtime.MemStats
}

type racePage [4096]uint32

// cell is what is known about the accesses of one address. Epochs are
// goroutine<<32 | clock; 0 is none.
type cell struct {
	w, r     uint64
	wpc, rpc uintptr
	more     *moreAcc
}

// moreAcc: several unordered readers; atomic accesses.
type moreAcc struct {
	readers []acc
	atomR   []acc
	atomW   []acc
}

type acc struct {
	e  uint64
	pc uintptr
}

type chanClk struct {
	slots  []vclock
	sx, rx int
	closed vclock
}

//
//go:linkname raceread runtime.raceread
//go:nosplit
func raceread(addr uintptr) {
	// before the stack can move
	if g := zrt.CurG(); addr-*(*uintptr)(unsafe.Pointer(g)) >= *(*uintptr)(unsafe.Pointer(g + 8))-*(*uintptr)(unsafe.Pointer(g)) {
		raceAcc(addr, 1, false, *(*uintptr)(unsafe.Pointer(zrt.FrameBase() + 8)))
	}
}

//
//go:linkname racewrite runtime.racewrite
//go:nosplit
func racewrite(addr uintptr) {
	// before the stack can move
	if g := zrt.CurG(); addr-*(*uintptr)(unsafe.Pointer(g)) >= *(*uintptr)(unsafe.Pointer(g + 8))-*(*uintptr)(unsafe.Pointer(g)) {
		raceAcc(addr, 1, true, *(*uintptr)(unsafe.Pointer(zrt.FrameBase() + 8)))
	}
}

//
//go:linkname racereadrange runtime.racereadrange
//go:nosplit
func racereadrange(addr, n uintptr) {
	// before the stack can move
	if g := zrt.CurG(); addr-*(*uintptr)(unsafe.Pointer(g)) >= *(*uintptr)(unsafe.Pointer(g + 8))-*(*uintptr)(unsafe.Pointer(g)) {
		raceAcc(addr, n, false, *(*uintptr)(unsafe.Pointer(zrt.FrameBase() + 8)))
	}
}

//
//go:linkname racewriterange runtime.racewriterange
//go:nosplit
func racewriterange(addr, n uintptr) {
	// before the stack can move
	if g := zrt.CurG(); addr-*(*uintptr)(unsafe.Pointer(g)) >= *(*uintptr)(unsafe.Pointer(g + 8))-*(*uintptr)(unsafe.Pointer(g)) {
		raceAcc(addr, n, true, *(*uintptr)(unsafe.Pointer(zrt.FrameBase() + 8)))
	}
}

//go:linkname racefuncenter runtime.racefuncenter
func racefuncenter(pc uintptr) {}

//go:linkname racefuncexit runtime.racefuncexit
func racefuncexit() {}

//go:linkname racefuncenterfp runtime.racefuncenterfp
func racefuncenterfp() {}

// ---------------------------------------------------------------- accesses

//go:noinline
func raceAcc(a, n uintptr, w bool, pc uintptr) {
	if p := P; p != nil && p.cur != nil && !p.dead && p.race != nil && !p.race.off {
		p.race.access(p.cur, a, n, w, pc)
	}
}

func (r *raceState) access(g *G, a, n uintptr, w bool, pc uintptr) {
	r.nacc++
	e := uint64(g.id)<<32 | uint64(g.vc[g.id])
	step := uintptr(1)
	if n > 64 {
		step = 8
	}
	for i := uintptr(0); i < n; i += step {
		if w {
			r.write(g, a+i, e, pc)
		} else {
			r.read(g, a+i, e, pc)
		}
	}
	if r.nacc&(1<<20-1) == 0 {
		r.limit()
	}
}

func (r *raceState) cell(a uintptr) *cell {
	k := a >> 12
	pg := r.last
	if k != r.lastK || pg == nil {
		pg = r.pages[k]
		if pg == nil {
			pg = new(racePage)
			r.pages[k] = pg
			if r.npages++; r.npages%1024 == 0 {
				r.limit()
			}
		}
		r.lastK, r.last = k, pg
	}
	i := pg[a&4095]
	if i == 0 {
		r.ncell++
		i = r.ncell
		if int(i>>10) >= len(r.slabs) {
			r.slabs = append(r.slabs, new([1024]cell))
		}
		pg[a&4095] = i
	}
	return &r.slabs[i>>10][i&1023]
}

// limit gives up on a process that has used too much memory: nothing is
// collected while races are looked for, as an address must not be used twice.
func (r *raceState) limit() {
	if r.collected() || r.mem.HeapAlloc > 1300<<20 {
		r.off = true
		debug.SetGCPercent(100)
	}
}

// collected: memory was collected, so an address may have been used twice.
func (r *raceState) collected() bool {
	runtime.ReadMemStats(&r.mem)
	if r.mem.NumGC != r.gcs {
		r.found = nil
		return true
	}
	return false
}

func (v vclock) has(e uint64) bool {
	g := e >> 32
	return g < uint64(len(v)) && v[g] >= uint32(e)
}

func (r *raceState) read(g *G, a uintptr, e uint64, pc uintptr) {
	c := r.cell(a)
	if c.r == e {
		return
	}
	if c.w != 0 && !g.vc.has(c.w) {
		r.report(g, "write", c.w, c.wpc, "read", pc)
	}
	m := c.more
	if m != nil {
		for _, x := range m.atomW {
			if !g.vc.has(x.e) {
				r.report(g, "atomic write", x.e, x.pc, "read", pc)
			}
		}
		if m.readers != nil {
			for i := range m.readers {
				if m.readers[i].e>>32 == e>>32 {
					m.readers[i] = acc{e, pc}
					return
				}
			}
			m.readers = append(m.readers, acc{e, pc})
			return
		}
	}
	if c.r == 0 || g.vc.has(c.r) {
		c.r, c.rpc = e, pc
		return
	}
	if m == nil {
		m = &moreAcc{}
		c.more = m
	}
	m.readers = []acc{{c.r, c.rpc}, {e, pc}}
	c.r = 0
}

func (r *raceState) write(g *G, a uintptr, e uint64, pc uintptr) {
	c := r.cell(a)
	if c.w == e && c.r == 0 && c.more == nil {
		return
	}
	if c.w != 0 && !g.vc.has(c.w) {
		r.report(g, "write", c.w, c.wpc, "write", pc)
	}
	if c.r != 0 && !g.vc.has(c.r) {
		r.report(g, "read", c.r, c.rpc, "write", pc)
	}
	if m := c.more; m != nil {
		for _, x := range m.readers {
			if !g.vc.has(x.e) {
				r.report(g, "read", x.e, x.pc, "write", pc)
			}
		}
		for _, x := range m.atomR {
			if !g.vc.has(x.e) {
				r.report(g, "atomic read", x.e, x.pc, "write", pc)
			}
		}
		for _, x := range m.atomW {
			if !g.vc.has(x.e) {
				r.report(g, "atomic write", x.e, x.pc, "write", pc)
			}
		}
		c.more = nil
	}
	c.w, c.wpc = e, pc
	c.r = 0
}

// hbAtomic: an atomic operation, 0 load, 1 store, 2 both.
func (p *Proc) hbAtomic(k unsafe.Pointer, kind int) {
	r, g := p.race, p.cur
	if r == nil || r.off || g == nil {
		return
	}
	pc := callerPC()
	e := uint64(g.id)<<32 | uint64(g.vc[g.id])
	c := r.cell(uintptr(k))
	word := "atomic write"
	if kind == 0 {
		word = "atomic read"
	}
	if c.w != 0 && !g.vc.has(c.w) {
		r.report(g, "write", c.w, c.wpc, word, pc)
	}
	if kind != 0 {
		if c.r != 0 && !g.vc.has(c.r) {
			r.report(g, "read", c.r, c.rpc, word, pc)
		}
		if c.more != nil {
			for _, x := range c.more.readers {
				if !g.vc.has(x.e) {
					r.report(g, "read", x.e, x.pc, word, pc)
				}
			}
		}
	}
	if c.more == nil {
		c.more = &moreAcc{}
	}
	l := &c.more.atomR
	if kind != 0 {
		l = &c.more.atomW
	}
	put := false
	for i := range *l {
		if (*l)[i].e>>32 == e>>32 {
			(*l)[i], put = acc{e, pc}, true
		}
	}
	if !put {
		*l = append(*l, acc{e, pc})
	}
	switch kind {
	case 0:
		p.hbAcq(k)
	default:
		p.hbBoth(k)
	}
}

// hbAccess notes an access that the compiler does not report.
func (p *Proc) hbAccess(k unsafe.Pointer, n int, w bool) {
	r, g := p.race, p.cur
	if r == nil || r.off || g == nil || k == nil || n <= 0 {
		return
	}
	pc := callerPC()
	s := zrt.CurG()
	lo, hi := *(*uintptr)(unsafe.Pointer(s)), *(*uintptr)(unsafe.Pointer(s + 8))
	if a := uintptr(k); a < lo || a >= hi {
		r.access(g, a, uintptr(n), w, pc)
	}
}

// hbForget: the address range is put to a new use.
func (p *Proc) hbForget(k unsafe.Pointer, n int) {
	r := p.race
	if r == nil || n <= 0 {
		return
	}
	for a := uintptr(k) &^ 4095; a < uintptr(k)+uintptr(n); a += 4096 {
		delete(r.pages, a>>12)
	}
	r.last = nil
}

// callerPC is the place in the code under test that called the simulator.
func callerPC() uintptr {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	for _, pc := range pcs[:n] {
		if f := runtime.FuncForPC(pc - 1); f != nil && !ownFunc(f.Name()) {
			return pc
		}
	}
	return 0
}

func ownFunc(n string) bool {
	return strings.Contains(n, "/internal/zsim.") || strings.HasPrefix(n, "runtime.")
}

// ---------------------------------------------------------------- reports

const pkgPrefix = "github.com/squizzling/osmindex/"

func place(pc uintptr) string {
	if pc == 0 {
		return "?"
	}
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	if raceLines {
		return fmt.Sprintf("%s (%s:%d)", strings.TrimPrefix(f.Function, pkgPrefix), f.File, f.Line)
	}
	return strings.TrimPrefix(f.Function, pkgPrefix)
}

// raceLines adds the lines of the instrumented sources.
var raceLines = os.Getenv("ZRACE_LINES") != ""

func (r *raceState) report(g *G, k1 string, e1 uint64, pc1 uintptr, k2 string, pc2 uintptr) {
	key := [2]uintptr{pc1, pc2}
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	a, b := place(pc1), place(pc2)
	if ownFunc(a) || ownFunc(b) || strings.Contains(a, "internal/zsim.") || strings.Contains(b, "internal/zsim.") {
		return
	}
	var st []string
	var pcs [32]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "github.com/") && !strings.Contains(f.Function, "/internal/z") || strings.Contains(f.Function, "/zcmds/") || strings.Contains(f.Function, "/zviews") {
			st = append(st, strings.TrimPrefix(f.Function, pkgPrefix))
		}
		if !more {
			break
		}
	}
	s1, s2 := k1+" in "+a, k2+" in "+b
	head := s1 + " and " + s2
	if s2 < s1 {
		head = s2 + " and " + s1
	}
	r.found = append(r.found, fmt.Sprintf("%s\x00goroutines %d and %d; the later one in %s", head, e1>>32, g.id, strings.Join(st, " < ")))
}

// ---------------------------------------------------------------- clocks

func (p *Proc) hbStart() {
	p.race = &raceState{sync: map[unsafe.Pointer]vclock{}, chans: map[*chanState]*chanClk{}, pages: map[uintptr]*racePage{}, seen: map[[2]uintptr]bool{}, slabs: []*[1024]cell{new([1024]cell)}}
	debug.SetGCPercent(-1)
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 200<<20 {
		runtime.GC()
		runtime.ReadMemStats(&m)
	}
	p.race.gcs = m.NumGC
}

func (p *Proc) hbEnd(res *Result) {
	r := p.race
	p.race = nil
	if r.off || r.collected() {
		res.Probes["race-detection-cut"]++
	}
	debug.SetGCPercent(100)
	sort.Strings(r.found)
	res.Races = r.found
	res.Accesses, res.SyncOps = r.nacc, r.nsync
}

// clk is the clock of whoever is acting: a goroutine, or a timer.
func (p *Proc) clk(g *G) *vclock {
	if g != nil {
		return &g.vc
	}
	return &p.race.timer
}

func join(v *vclock, o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func tick(g *G) {
	if g != nil {
		g.vc[g.id]++
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (p *Proc) hbSpawn(g *G) {
	r := p.race
	if r == nil || r.off {
		return
	}
	var v vclock
	join(&v, *p.clk(p.cur))
	for len(v) <= g.id {
		v = append(v, 0)
	}
	v[g.id] = 1
	g.vc = v
	tick(p.cur)
}

func (p *Proc) hbSet(t *timer) {
	r := p.race
	if r == nil || r.off {
		return
	}
	t.vc = p.clk(p.cur).clone()
	tick(p.cur)
}

func (p *Proc) hbFire(t *timer) {
	if p.race != nil {
		p.race.timer = t.vc
	}
}

func (p *Proc) hbFired() {
	if p.race != nil {
		p.race.timer = nil
	}
}

func (p *Proc) hbRel(k unsafe.Pointer) {
	r := p.race
	if r == nil || r.off {
		return
	}
	r.nsync++
	v := r.sync[k]
	join(&v, *p.clk(p.cur))
	r.sync[k] = v
	tick(p.cur)
}

func (p *Proc) hbAcq(k unsafe.Pointer) {
	r := p.race
	if r == nil || r.off {
		return
	}
	r.nsync++
	if v := r.sync[k]; v != nil {
		join(p.clk(p.cur), v)
	}
}

func (p *Proc) hbBoth(k unsafe.Pointer) {
	p.hbAcq(k)
	p.hbRel(k)
}

func (r *raceState) chanClk(c *chanState) *chanClk {
	x := r.chans[c]
	if x == nil {
		x = &chanClk{slots: make([]vclock, c.cap)}
		r.chans[c] = x
	}
	return x
}

func (p *Proc) slot(g *G, s *vclock) {
	p.race.nsync++
	v := p.clk(g)
	join(v, *s)
	*s = v.clone()
	tick(g)
}

// hbSend and hbRecv: g puts a value into the channel's buffer, or takes one.
// The k-th send happens before the k-th receive, which happens before the
// (k+cap)-th send is complete.
func (p *Proc) hbSend(c *chanState, g *G) {
	r := p.race
	if r == nil || r.off || c.cap == 0 {
		return
	}
	x := r.chanClk(c)
	p.slot(g, &x.slots[x.sx])
	x.sx = (x.sx + 1) % c.cap
}

func (p *Proc) hbRecv(c *chanState, g *G) {
	r := p.race
	if r == nil || r.off || c.cap == 0 {
		return
	}
	x := r.chanClk(c)
	p.slot(g, &x.slots[x.rx])
	x.rx = (x.rx + 1) % c.cap
}

// hbHand: s gives a value to r directly.
func (p *Proc) hbHand(c *chanState, s, t *G) {
	r := p.race
	if r == nil || r.off {
		return
	}
	if c.cap > 0 {
		p.hbSend(c, s)
		p.hbRecv(c, t)
		return
	}
	r.nsync++
	a, b := p.clk(s), p.clk(t)
	join(a, *b)
	join(b, *a)
	tick(s)
	tick(t)
}

func (p *Proc) hbClose(c *chanState) {
	r := p.race
	if r == nil || r.off {
		return
	}
	r.chanClk(c).closed = p.clk(p.cur).clone()
	tick(p.cur)
}

func (p *Proc) hbClosed(c *chanState, g *G) {
	r := p.race
	if r == nil || r.off {
		return
	}
	join(p.clk(g), r.chanClk(c).closed)
}

func anyPtr(v any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1] }
