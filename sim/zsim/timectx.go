//go:build go1.23

package zsim

import (
	"container/heap"
	"context"
	"errors"
	"time"
	"unsafe"
)

var epoch = time.Unix(1_600_000_000, 0).UTC()

func simNow(p *Proc) time.Time { return epoch.Add(time.Duration(p.now)) }

type timer struct {
	when int64
	seq  int64
	f    func(p *Proc)
	idx  int
	vc   vclock
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any     { o := *h; t := o[len(o)-1]; *h = o[:len(o)-1]; t.idx = -1; return t }

func (p *Proc) addTimer(d int64, f func(p *Proc)) *timer {
	if d < 0 {
		d = 0
	}
	p.tseq++
	t := &timer{when: p.now + d, seq: p.tseq, f: f}
	p.hbSet(t)
	heap.Push(&p.timers, t)
	return t
}

func (p *Proc) delTimer(t *timer) bool {
	if t == nil || t.idx < 0 || t.idx >= len(p.timers) || p.timers[t.idx] != t {
		return false
	}
	heap.Remove(&p.timers, t.idx)
	return true
}

func (p *Proc) fireTimer() {
	t := heap.Pop(&p.timers).(*timer)
	if t.when > p.now {
		p.now = t.when
	}
	p.probes["timer-fired"]++
	p.hbFire(t)
	t.f(p)
	p.hbFired()
}

func TimeNow() time.Time {
	p := P
	if p == nil {
		return epoch
	}
	p.point()
	return simNow(p)
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeSleep(d time.Duration) {
	p := need()
	p.point()
	g := p.cur
	p.addTimer(int64(d), func(p *Proc) { p.ready(g) })
	p.park("sleep")
}

type Timer struct {
	C  <-chan time.Time
	t  *timer
	fn func(p *Proc)
}

func chanTimer(ch chan time.Time) func(p *Proc) {
	return func(p *Proc) {
		key := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
		p.trySend(p.chanOf(key, ch, 1), simNow(p))
	}
}

func NewTimer(d time.Duration) *Timer {
	p := need()
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, fn: chanTimer(ch)}
	t.t = p.addTimer(int64(d), t.fn)
	return t
}

func (t *Timer) Stop() bool { Point(); return need().delTimer(t.t) }
func (t *Timer) Reset(d time.Duration) bool {
	p := need()
	p.point()
	ok := p.delTimer(t.t)
	t.t = p.addTimer(int64(d), t.fn)
	return ok
}

func TimeAfter(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	p := need()
	t := &Timer{fn: func(p *Proc) { p.spawn(f) }}
	t.t = p.addTimer(int64(d), t.fn)
	return t
}

type Ticker struct {
	C <-chan time.Time
	d int64
	t *timer
	f func(p *Proc)
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic(errors.New("non-positive interval for NewTicker"))
	}
	p := need()
	ch := make(chan time.Time, 1)
	send := chanTimer(ch)
	t := &Ticker{C: ch, d: int64(d)}
	t.f = func(p *Proc) {
		send(p)
		p.fired["tick"]++
		t.t = p.addTimer(t.d, t.f)
	}
	t.t = p.addTimer(t.d, t.f)
	return t
}

func (t *Ticker) Stop() { p := need(); p.point(); p.delTimer(t.t) }
func (t *Ticker) Reset(d time.Duration) {
	p := need()
	p.point()
	p.delTimer(t.t)
	t.d = int64(d)
	t.t = p.addTimer(t.d, t.f)
}

func TimeTick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---------------------------------------------------------------- context

var ctxCanceled = context.Canceled

type cancelCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	kids     []*cancelCtx
	deadline time.Time
	hasDl    bool
	tm       *timer
}

type ctxKey struct{}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { ap(); return c.done }
func (c *cancelCtx) Err() error {
	ap()
	if p := P; p != nil && c.err != nil {
		p.hbAcq(unsafe.Pointer(c))
	}
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) cancelNow(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	if c.cause == nil {
		c.cause = err
	}
	p := P
	if p != nil {
		p.hbRel(unsafe.Pointer(c))
		key := *(*unsafe.Pointer)(unsafe.Pointer(&c.done))
		p.closeChan(p.chanOf(key, c.done, 0))
		p.delTimer(c.tm)
	}
	for _, k := range c.kids {
		if k.cause == nil {
			k.cause = c.cause
		}
		k.cancelNow(err)
	}
}

func newCtx(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if pc, ok := parent.Value(ctxKey{}).(*cancelCtx); ok {
		if pc.err != nil {
			c.cancelNow(pc.err)
		} else {
			pc.kids = append(pc.kids, c)
		}
	} else if P != nil {
		P.ctxs = append(P.ctxs, c)
		if P.cancelled {
			// the process was asked to stop before this context existed; a user
			// who pressed Ctrl-C earlier is not asked again
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { ap(); c.cancelNow(context.Canceled); ap() }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) {
		ap()
		if c.err == nil {
			c.cause = e
		}
		c.cancelNow(context.Canceled)
		ap()
	}
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.deadline, c.hasDl = t, true
	p := need()
	if c.err == nil {
		c.tm = p.addTimer(int64(t.Sub(simNow(p))), func(p *Proc) { c.cancelNow(context.DeadlineExceeded) })
	}
	return c, func() { ap(); c.cancelNow(context.Canceled); ap() }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, simNow(need()).Add(d))
}

func Cause(ctx context.Context) error {
	if c, ok := ctx.Value(ctxKey{}).(*cancelCtx); ok {
		return c.cause
	}
	return context.Cause(ctx)
}

// CtxAfterFunc models context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	stopped := false
	stop := make(chan struct{})
	Go(func() {
		if Select(false, RecvCase(ctx.Done()), RecvCase((<-chan struct{})(stop))).I == 0 && !stopped {
			stopped = true
			f()
		}
	})
	return func() bool {
		if stopped {
			return false
		}
		stopped = true
		Close(stop)
		return true
	}
}

// ---------------------------------------------------------------- runtime, rand

func NumCPU() int {
	if P == nil {
		return 4
	}
	return P.cfg.NumCPU
}

func GOMAXPROCS(n int) int { return NumCPU() }
func Gosched() {
	if p := P; p != nil && p.cur != nil {
		p.point()
	}
}
func NumGoroutine() int           { return len(P.gs) }
func GC()                         {}
func SetFinalizer(obj any, f any) {}
func LockOSThread()               {}
func UnlockOSThread()             {}

func rnd(n int64) int64 {
	if P == nil {
		return 0
	}
	d := P.d
	return d.choose(kRand, n, func() int64 { return int64(d.rng.U64() % uint64(n)) })
}

func RandInt() int             { return int(rnd(1 << 62)) }
func RandIntn(n int) int       { return int(rnd(int64(n))) }
func RandInt63() int64         { return rnd(1 << 62) }
func RandInt63n(n int64) int64 { return rnd(n) }
func RandInt31() int32         { return int32(rnd(1 << 31)) }
func RandInt31n(n int32) int32 { return int32(rnd(int64(n))) }
func RandUint32() uint32       { return uint32(rnd(1 << 32)) }
func RandUint64() uint64       { return uint64(rnd(1 << 62)) }
func RandFloat64() float64     { return float64(rnd(1<<52)) / (1 << 52) }
func RandSeed(int64)           {}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(rnd(int64(i+1))))
	}
}
func RandPerm(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	RandShuffle(n, func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

// ---------------------------------------------------------------- TSC

func tsc() uint64 {
	p := P
	if p == nil {
		return 0
	}
	if p.cur != nil {
		p.point()
	}
	d := p.d
	switch p.cfg.TscMode {
	case 1: // coarse counter: many reads return the same value
		p.tsc += uint64(d.choose(kOther, 2, func() int64 { return int64(d.rng.Intn(2)) })) * 1000
	case 2: // jumps between cores, backwards and forwards, slow page faults
		k := d.choose(kOther, 64, func() int64 { return int64(d.rng.Intn(64)) })
		if k >= 32 {
			p.fired["tsc-jump"]++
		}
		switch {
		case k < 32:
			p.tsc += 30 + uint64(k)
		case k < 40:
			p.tsc -= 1 << uint(10+k%30)
		case k < 50:
			p.tsc += 1 << uint(k-18)
		case k < 56:
			p.tsc += 3_000_000_000 + uint64(k)*60_000_000
		default:
			p.tsc ^= 0xffff_0000_0000
		}
	case 3: // readings whose difference is about the overhead
		p.tsc += 21 + uint64(d.choose(kOther, 8, func() int64 { return int64(d.rng.Intn(8)) }))
	default:
		p.tsc += 120
	}
	return p.tsc
}

func BenchStart() uint64  { return tsc() }
func BenchEnd() uint64    { return tsc() }
func TSCOverhead() uint64 { return 24 }
