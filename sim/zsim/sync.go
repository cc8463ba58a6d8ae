//go:build go1.23

package zsim

import (
	"sort"
	"unsafe"
)

func quick(n int, l func(i, j int) bool, s func(i, j int)) { sort.Sort(sorter{n, l, s}) }

type Mutex struct {
	locked bool
	q      []*G
}

func (m *Mutex) Lock() {
	p := P
	if p == nil || p.cur == nil {
		m.locked = true
		return
	}
	p.point()
	for m.locked {
		m.q = append(m.q, p.cur)
		p.park("mutex lock")
	}
	m.locked = true
	p.hbAcq(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	p := P
	if p != nil && p.cur != nil {
		p.point()
	}
	if m.locked {
		return false
	}
	m.locked = true
	if p != nil {
		p.hbAcq(unsafe.Pointer(m))
	}
	return true
}

func (m *Mutex) Unlock() {
	p := P
	if p == nil || p.cur == nil {
		m.locked = false
		return
	}
	if p.dead {
		panic(killTok{})
	}
	if !m.locked {
		p.fatal("sync: unlock of unlocked mutex")
	}
	p.hbRel(unsafe.Pointer(m))
	m.locked = false
	for _, g := range m.q {
		p.ready(g)
	}
	m.q = nil
	p.point()
}

type RWMutex struct {
	w       bool
	readers int
	waitW   int
	q       []*G
}

func (m *RWMutex) wake(p *Proc) {
	for _, g := range m.q {
		p.ready(g)
	}
	m.q = nil
}

func (m *RWMutex) Lock() {
	p := P
	if p == nil || p.cur == nil {
		m.w = true
		return
	}
	p.point()
	m.waitW++
	for m.w || m.readers > 0 {
		m.q = append(m.q, p.cur)
		p.park("rwmutex lock")
	}
	m.waitW--
	m.w = true
	p.hbAcq(unsafe.Pointer(&m.w))
	p.hbAcq(unsafe.Pointer(&m.readers))
}

func (m *RWMutex) TryLock() bool {
	Point()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	if P != nil {
		P.hbAcq(unsafe.Pointer(&m.w))
		P.hbAcq(unsafe.Pointer(&m.readers))
	}
	return true
}

func (m *RWMutex) Unlock() {
	p := P
	if p == nil || p.cur == nil {
		m.w = false
		return
	}
	if p.dead {
		panic(killTok{})
	}
	if !m.w {
		p.fatal("sync: Unlock of unlocked RWMutex")
	}
	p.hbRel(unsafe.Pointer(&m.w))
	m.w = false
	m.wake(p)
	p.point()
}

func (m *RWMutex) RLock() {
	p := P
	if p == nil || p.cur == nil {
		m.readers++
		return
	}
	p.point()
	for m.w || m.waitW > 0 {
		m.q = append(m.q, p.cur)
		p.park("rwmutex rlock")
	}
	m.readers++
	p.hbAcq(unsafe.Pointer(&m.w))
}

func (m *RWMutex) TryRLock() bool {
	Point()
	if m.w || m.waitW > 0 {
		return false
	}
	m.readers++
	if P != nil {
		P.hbAcq(unsafe.Pointer(&m.w))
	}
	return true
}

func (m *RWMutex) RUnlock() {
	p := P
	if p == nil || p.cur == nil {
		m.readers--
		return
	}
	if p.dead {
		panic(killTok{})
	}
	if m.readers <= 0 {
		p.fatal("sync: RUnlock of unlocked RWMutex")
	}
	p.hbRel(unsafe.Pointer(&m.readers))
	m.readers--
	m.wake(p)
	p.point()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return rlocker{m}
}

type WaitGroup struct {
	n int
	q []*G
}

func (w *WaitGroup) Add(d int) {
	p := P
	if p == nil || p.cur == nil {
		w.n += d
		return
	}
	if p.dead {
		panic(killTok{})
	}
	p.point()
	if d > 0 && w.n == 0 {
		p.hbAccess(unsafe.Pointer(&w.q), 1, false) // must be ordered with Wait
	}
	if d < 0 {
		p.hbRel(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.q {
			p.ready(g)
		}
		w.q = nil
	}
	p.point()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	p := P
	if p == nil || p.cur == nil {
		return
	}
	p.point()
	if w.n > 0 && len(w.q) == 0 {
		p.hbAccess(unsafe.Pointer(&w.q), 1, true)
	}
	for w.n > 0 {
		w.q = append(w.q, p.cur)
		p.park("waitgroup wait")
	}
	p.hbAcq(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	Point()
	if o.done {
		if P != nil {
			P.hbAcq(unsafe.Pointer(&o.m))
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

//go:norace
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type Locker interface {
	Lock()
	Unlock()
}

type Cond struct {
	L Locker
	q []*G
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	p := need()
	g := p.cur
	c.q = append(c.q, g)
	c.L.Unlock()
	for {
		in := false
		for _, x := range c.q {
			if x == g {
				in = true
			}
		}
		if !in {
			break
		}
		p.park("cond wait")
	}
	p.hbAcq(unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) Signal() {
	p := need()
	p.point()
	p.hbRel(unsafe.Pointer(c))
	if len(c.q) > 0 {
		g := c.q[0]
		c.q = c.q[1:]
		p.ready(g)
	}
}

func (c *Cond) Broadcast() {
	p := need()
	p.point()
	p.hbRel(unsafe.Pointer(c))
	q := c.q
	c.q = nil
	for _, g := range q {
		p.ready(g)
	}
}

// Pool may lose items at any time, and hands them out in any order.
type Pool struct {
	New   func() any
	items []any
}

func (o *Pool) Get() any {
	p := P
	if p == nil || p.cur == nil {
		if o.New != nil {
			return o.New()
		}
		return nil
	}
	p.point()
	d := p.d
	if n := len(o.items); n > 0 {
		// default (0): most recently stored; 1: miss; k: another item
		k := d.choose(kPool, int64(n+1), func() int64 {
			if d.sc.PDrop > 0 && d.rng.Float() < d.sc.PDrop {
				return 1 + int64(d.rng.Intn(n))
			}
			return 0
		})
		if k == 1 {
			p.fired["pool-miss"]++
			k = -1
		} else if k == 0 {
			k = int64(n - 1)
		} else {
			k -= 2
		}
		if k >= 0 {
			p.probes["pool-reuse"]++
			v := o.items[k]
			p.hbAcq(anyPtr(v))
			o.items = append(o.items[:k], o.items[k+1:]...)
			return v
		}
	}
	if o.New != nil {
		return o.New()
	}
	return nil
}

func (o *Pool) Put(v any) {
	p := P
	if p == nil || p.cur == nil {
		return
	}
	if p.dead {
		panic(killTok{})
	}
	if v == nil {
		return
	}
	if b, ok := v.([]byte); ok && p.cfg.Poison {
		// what another user of the buffer could write at any moment from now on
		b = b[:cap(b)]
		if len(b) > 0 {
			p.hbAccess(unsafe.Pointer(&b[0]), len(b), true)
		}
		for i := range b {
			b[i] = 0xdb
		}
	}
	p.hbRel(anyPtr(v))
	d := p.d
	if d.choose(kPool, 2, func() int64 {
		if d.sc.PDrop > 0 && d.rng.Float() < d.sc.PDrop/4 {
			return 1
		}
		return 0
	}) == 1 {
		p.fired["pool-drop"]++
	} else {
		o.items = append(o.items, v)
	}
	p.point()
}

// Map is a sync.Map with deterministic iteration.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) pt() {
	Point()
	if p := P; p != nil && p.cur != nil {
		p.hbBoth(unsafe.Pointer(m))
	}
}

func (m *Map) Load(k any) (any, bool) { m.pt(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.Swap(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, nw any) bool {
	m.pt()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = nw
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.pt()
	if v, ok := m.m[k]; ok && v == old {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.m = nil; m.keys = nil }
func (m *Map) Range(f func(k, v any) bool) {
	ks := append([]any(nil), m.keys...)
	for _, k := range ks {
		m.pt()
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- atomics

func ap() {
	if p := P; p != nil && p.cur != nil {
		p.point()
	}
}

type intish interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

//go:norace
func aLoad[T any](a *T) T { ap(); hb(unsafe.Pointer(a), 0); v := *a; return v }

//go:norace
func aStore[T any](a *T, v T) { ap(); hb(unsafe.Pointer(a), 1); *a = v }

//go:norace
func aSwap[T any](a *T, v T) T { ap(); hb(unsafe.Pointer(a), 2); o := *a; *a = v; return o }

//go:norace
func aAdd[T intish](a *T, d T) T { ap(); hb(unsafe.Pointer(a), 2); *a += d; return *a }

//go:norace
func aAnd[T intish](a *T, d T) T { ap(); hb(unsafe.Pointer(a), 2); o := *a; *a &= d; return o }

//go:norace
func aOr[T intish](a *T, d T) T { ap(); hb(unsafe.Pointer(a), 2); o := *a; *a |= d; return o }

//go:norace
func aCas[T comparable](a *T, o, n T) bool {
	ap()
	if *a == o {
		hb(unsafe.Pointer(a), 2)
		*a = n
		return true
	}
	hb(unsafe.Pointer(a), 0)
	return false
}

func hb(a unsafe.Pointer, kind int) {
	if p := P; p != nil && p.cur != nil {
		p.hbAtomic(a, kind)
	}
}

func AtomicLoadInt32(a *int32) int32                            { return aLoad(a) }
func AtomicLoadInt64(a *int64) int64                            { return aLoad(a) }
func AtomicLoadUint32(a *uint32) uint32                         { return aLoad(a) }
func AtomicLoadUint64(a *uint64) uint64                         { return aLoad(a) }
func AtomicLoadUintptr(a *uintptr) uintptr                      { return aLoad(a) }
func AtomicLoadPointer(a *unsafe.Pointer) unsafe.Pointer        { return aLoad(a) }
func AtomicStoreInt32(a *int32, v int32)                        { aStore(a, v) }
func AtomicStoreInt64(a *int64, v int64)                        { aStore(a, v) }
func AtomicStoreUint32(a *uint32, v uint32)                     { aStore(a, v) }
func AtomicStoreUint64(a *uint64, v uint64)                     { aStore(a, v) }
func AtomicStoreUintptr(a *uintptr, v uintptr)                  { aStore(a, v) }
func AtomicStorePointer(a *unsafe.Pointer, v unsafe.Pointer)    { aStore(a, v) }
func AtomicSwapInt32(a *int32, v int32) int32                   { return aSwap(a, v) }
func AtomicSwapInt64(a *int64, v int64) int64                   { return aSwap(a, v) }
func AtomicSwapUint32(a *uint32, v uint32) uint32               { return aSwap(a, v) }
func AtomicSwapUint64(a *uint64, v uint64) uint64               { return aSwap(a, v) }
func AtomicAddInt32(a *int32, v int32) int32                    { return aAdd(a, v) }
func AtomicAddInt64(a *int64, v int64) int64                    { return aAdd(a, v) }
func AtomicAddUint32(a *uint32, v uint32) uint32                { return aAdd(a, v) }
func AtomicAddUint64(a *uint64, v uint64) uint64                { return aAdd(a, v) }
func AtomicAddUintptr(a *uintptr, v uintptr) uintptr            { return aAdd(a, v) }
func AtomicCompareAndSwapInt32(a *int32, o, n int32) bool       { return aCas(a, o, n) }
func AtomicCompareAndSwapInt64(a *int64, o, n int64) bool       { return aCas(a, o, n) }
func AtomicCompareAndSwapUint32(a *uint32, o, n uint32) bool    { return aCas(a, o, n) }
func AtomicCompareAndSwapUint64(a *uint64, o, n uint64) bool    { return aCas(a, o, n) }
func AtomicCompareAndSwapUintptr(a *uintptr, o, n uintptr) bool { return aCas(a, o, n) }
func AtomicCompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return aCas(a, o, n)
}

type atomicInt[T intish] struct{ v T }

//go:norace
func (x *atomicInt[T]) Load() T { return aLoad(&x.v) }

//go:norace
func (x *atomicInt[T]) Store(v T) { aStore(&x.v, v) }

//go:norace
func (x *atomicInt[T]) Swap(v T) T { return aSwap(&x.v, v) }

//go:norace
func (x *atomicInt[T]) Add(d T) T { return aAdd(&x.v, d) }

//go:norace
func (x *atomicInt[T]) And(d T) T { return aAnd(&x.v, d) }

//go:norace
func (x *atomicInt[T]) Or(d T) T { return aOr(&x.v, d) }

//go:norace
func (x *atomicInt[T]) CompareAndSwap(o, n T) bool { return aCas(&x.v, o, n) }

type AtomicInt32 = atomicInt[int32]
type AtomicInt64 = atomicInt[int64]
type AtomicUint32 = atomicInt[uint32]
type AtomicUint64 = atomicInt[uint64]
type AtomicUintptr = atomicInt[uintptr]

type AtomicBool struct{ v bool }

func (x *AtomicBool) Load() bool                    { return aLoad(&x.v) }
func (x *AtomicBool) Store(v bool)                  { aStore(&x.v, v) }
func (x *AtomicBool) Swap(v bool) bool              { return aSwap(&x.v, v) }
func (x *AtomicBool) CompareAndSwap(o, n bool) bool { return aCas(&x.v, o, n) }

type AtomicPointer[T any] struct{ v *T }

//go:norace
func (x *AtomicPointer[T]) Load() *T { return aLoad(&x.v) }

//go:norace
func (x *AtomicPointer[T]) Store(v *T) { aStore(&x.v, v) }

//go:norace
func (x *AtomicPointer[T]) Swap(v *T) *T { return aSwap(&x.v, v) }

//go:norace
func (x *AtomicPointer[T]) CompareAndSwap(o, n *T) bool { return aCas(&x.v, o, n) }

type AtomicValue struct{ v any }

func (x *AtomicValue) Load() any      { return aLoad(&x.v) }
func (x *AtomicValue) Store(v any)    { aStore(&x.v, v) }
func (x *AtomicValue) Swap(v any) any { return aSwap(&x.v, v) }
func (x *AtomicValue) CompareAndSwap(o, n any) bool {
	return aCas(&x.v, o, n)
}
