//go:build go1.23

package zsim

import (
	"reflect"
	"unsafe"
)

type chanState struct {
	keep   any
	cap    int
	buf    []any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

type selState struct {
	g     *G
	fired bool
	idx   int
	val   any
	ok    bool
}

type waiter struct {
	s   *selState
	idx int
	val any
}

// Case is one case of a select.
type Case struct {
	key  unsafe.Pointer
	ch   any
	cap  int
	send bool
	val  any
}

func (p *Proc) chanOf(key unsafe.Pointer, ch any, cp int) *chanState {
	if key == nil {
		return nil
	}
	c := p.chans[key]
	if c == nil {
		c = &chanState{keep: ch, cap: cp}
		p.chans[key] = c
	}
	return c
}

//go:norace
func keyR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func keyS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func RecvCase[T any](ch <-chan T) Case { return Case{key: keyR(ch), ch: ch, cap: cap(ch)} }

// SendCase is curried so that the value is converted to the element type.
//
//go:norace
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case { return Case{key: keyS(ch), ch: ch, cap: cap(ch), send: true, val: v} }
}

// Sel is the outcome of a select.
type Sel struct {
	I  int
	v  any
	ok bool
}

func need() *Proc {
	if P == nil {
		panic("zsim: channel operation outside a simulated process")
	}
	return P
}

func (c *chanState) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !w.s.fired {
			return w
		}
	}
	return nil
}

func (c *chanState) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !w.s.fired {
			return w
		}
	}
	return nil
}

func (c *chanState) hasRecv() bool {
	for len(c.recvq) > 0 && c.recvq[0].s.fired {
		c.recvq = c.recvq[1:]
	}
	return len(c.recvq) > 0
}

func (c *chanState) hasSend() bool {
	for len(c.sendq) > 0 && c.sendq[0].s.fired {
		c.sendq = c.sendq[1:]
	}
	return len(c.sendq) > 0
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// without takes the waiters of a select that has gone on out of a queue.
func without(q []*waiter, s *selState) []*waiter {
	for i := 0; i < len(q); i++ {
		if q[i].s == s {
			q = append(q[:i], q[i+1:]...)
			i--
		}
	}
	return q
}

// Select performs a select over cs; blocking unless hasDefault.
func Select(hasDefault bool, cs ...Case) Sel {
	p := need()
	p.point()
	var states [8]*chanState
	st := states[:0]
	for i := range cs {
		st = append(st, p.chanOf(cs[i].key, cs[i].ch, cs[i].cap))
	}
	var rdyA [8]int
	rdy := rdyA[:0]
	for i, c := range st {
		if c == nil {
			continue
		}
		if cs[i].send {
			if c.closed || c.hasRecv() || len(c.buf) < c.cap {
				rdy = append(rdy, i)
			}
		} else if c.closed || len(c.buf) > 0 || c.hasSend() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 {
			d := p.d
			k = int(d.choose(kSelect, int64(len(rdy)), func() int64 { return int64(d.rng.Intn(len(rdy))) }))
			p.probes["select-multi-ready"]++
		}
		i := rdy[k]
		c := st[i]
		if cs[i].send {
			p.hbAccess(cs[i].key, 1, false)
			p.doSend(c, cs[i].val)
			return Sel{I: i}
		}
		v, ok := p.doRecv(c)
		return Sel{I: i, v: v, ok: ok}
	}
	if hasDefault {
		return Sel{I: -1}
	}
	s := &selState{g: p.cur}
	any := false
	for i, c := range st {
		if c == nil {
			continue
		}
		any = true
		w := &waiter{s: s, idx: i, val: cs[i].val}
		if cs[i].send {
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	why := "select"
	if len(cs) == 1 {
		why = "chan receive"
		if cs[0].send {
			why = "chan send"
		}
		if !any {
			why += " (nil chan)"
		}
	}
	p.park(why)
	if !s.fired {
		panic("zsim: woken without a fired case")
	}
	if len(cs) > 1 {
		for i, c := range st {
			if c != nil && i != s.idx {
				c.recvq, c.sendq = without(c.recvq, s), without(c.sendq, s)
			}
		}
	}
	if cs[s.idx].send {
		p.hbAccess(cs[s.idx].key, 1, false)
	}
	if cs[s.idx].send && !s.ok {
		panic(plainError("send on closed channel"))
	}
	return Sel{I: s.idx, v: s.val, ok: s.ok}
}

func (p *Proc) doSend(c *chanState, v any) {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if w := c.popRecv(); w != nil {
		p.hbHand(c, p.cur, w.s.g)
		w.s.fired, w.s.idx, w.s.val, w.s.ok = true, w.idx, v, true
		p.ready(w.s.g)
		return
	}
	p.hbSend(c, p.cur)
	c.buf = append(c.buf, v)
}

func (p *Proc) doRecv(c *chanState) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf[0] = nil
		c.buf = c.buf[1:]
		p.hbRecv(c, p.cur)
		if w := c.popSend(); w != nil {
			p.hbSend(c, w.s.g)
			c.buf = append(c.buf, w.val)
			w.s.fired, w.s.idx, w.s.ok = true, w.idx, true
			p.ready(w.s.g)
		}
		return v, true
	}
	if w := c.popSend(); w != nil {
		p.hbHand(c, w.s.g, p.cur)
		w.s.fired, w.s.idx, w.s.ok = true, w.idx, true
		p.ready(w.s.g)
		return w.val, true
	}
	p.hbClosed(c, p.cur)
	return nil, false // closed
}

// trySend is used by timers: never blocks, never schedules.
func (p *Proc) trySend(c *chanState, v any) bool {
	if c.closed {
		return false
	}
	if c.hasRecv() || len(c.buf) < c.cap {
		p.doSend(c, v)
		return true
	}
	return false
}

func (p *Proc) closeChan(c *chanState) {
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	p.hbClose(c)
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		p.hbClosed(c, w.s.g)
		w.s.fired, w.s.idx, w.s.val, w.s.ok = true, w.idx, nil, false
		p.ready(w.s.g)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.s.fired, w.s.idx, w.s.ok = true, w.idx, false
		p.ready(w.s.g)
	}
}

//go:norace
func SelVal[T any](ch <-chan T, s Sel) T {
	v, _ := s.v.(T)
	return v
}

//go:norace
func SelVal2[T any](ch <-chan T, s Sel) (T, bool) {
	v, _ := s.v.(T)
	return v, s.ok
}

//go:norace
func Recv[T any](ch <-chan T) T {
	s := Select(false, RecvCase(ch))
	v, _ := s.v.(T)
	return v
}

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	s := Select(false, RecvCase(ch))
	v, _ := s.v.(T)
	return v, s.ok
}

//go:norace
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		Select(false, Case{key: keyS(ch), ch: ch, cap: cap(ch), send: true, val: v})
		need().point()
	}
}

//go:norace
func Close[T any](ch chan<- T) {
	p := need()
	p.point()
	if ch == nil {
		panic(plainError("close of nil channel"))
	}
	p.hbAccess(keyS(ch), 1, true)
	p.closeChan(p.chanOf(keyS(ch), ch, cap(ch)))
	p.point()
}

//go:norace
func LenR[T any](ch <-chan T) int {
	p := need()
	p.point()
	if c := p.chanOf(keyR(ch), ch, cap(ch)); c != nil {
		return len(c.buf)
	}
	return 0
}

//go:norace
func LenS[T any](ch chan<- T) int {
	p := need()
	p.point()
	if c := p.chanOf(keyS(ch), ch, cap(ch)); c != nil {
		return len(c.buf)
	}
	return 0
}

// ---------------------------------------------------------------- maps

// KeySet notes the first time a pointer-like key is stored in a map, which
// gives map iteration a deterministic base order.
//
//go:norace
func KeySet[K comparable](k K) K {
	if p := P; p != nil {
		if _, ok := p.keyIDs[k]; !ok {
			p.keyIDs[k] = uint64(len(p.keyIDs) + 1)
		}
	}
	return k
}

func lessVal(p *Proc, a, b reflect.Value) int {
	for a.Kind() == reflect.Interface && !a.IsNil() {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface && !b.IsNil() {
		b = b.Elem()
	}
	if a.Kind() != b.Kind() {
		return int(a.Kind()) - int(b.Kind())
	}
	cmp := func(x, y bool) int {
		if x {
			return -1
		}
		if y {
			return 1
		}
		return 0
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp(a.Int() < b.Int(), b.Int() < a.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp(a.Uint() < b.Uint(), b.Uint() < a.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp(a.Float() < b.Float(), b.Float() < a.Float())
	case reflect.String:
		return cmp(a.String() < b.String(), b.String() < a.String())
	case reflect.Bool:
		return cmp(!a.Bool() && b.Bool(), a.Bool() && !b.Bool())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := lessVal(p, a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := lessVal(p, a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	}
	return 0
}

// MapKeys returns the keys of m in a simulator-chosen order.
//
//go:norace
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	note(mapPtr(m), 1, false)
	p := P
	if p == nil || len(ks) < 2 {
		return ks
	}
	ids := make([]uint64, len(ks))
	vals := make([]reflect.Value, len(ks))
	for i, k := range ks {
		ids[i] = p.keyIDs[k]
		vals[i] = reflect.ValueOf(k)
	}
	// insertion sort on (id, value): maps ranged over here are small
	less := func(i, j int) bool {
		if ids[i] != ids[j] {
			return ids[i] < ids[j]
		}
		return lessVal(p, vals[i], vals[j]) < 0
	}
	quick(len(ks), less, func(i, j int) {
		ks[i], ks[j] = ks[j], ks[i]
		ids[i], ids[j] = ids[j], ids[i]
		vals[i], vals[j] = vals[j], vals[i]
	})
	d := p.d
	if seed := d.choose(kMap, 1<<20, func() int64 { return int64(d.rng.Intn(1 << 20)) }); seed != 0 {
		r := NewRng(uint64(seed))
		for i := len(ks) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

type sorter struct {
	n int
	l func(i, j int) bool
	s func(i, j int)
}

func (s sorter) Len() int           { return s.n }
func (s sorter) Less(i, j int) bool { return s.l(i, j) }
func (s sorter) Swap(i, j int)      { s.s(i, j) }

// ZeroR, ZeroK and ZeroV give loop variables their type.
//
//go:norace
func ZeroR[T any](ch <-chan T) (z T) { return }

//go:norace
func ZeroK[M ~map[K]V, K comparable, V any](m M) (z K) { return }

//go:norace
func ZeroV[M ~map[K]V, K comparable, V any](m M) (z V) { return }
