//go:build go1.23 && api_pool

package main

import (
	"fmt"
	"unsafe"

	"github.com/squizzling/osmindex/internal/pool"
	"github.com/squizzling/osmindex/internal/zsim"
)

// P16 through the pool itself: goroutines take buffers of arbitrary sizes,
// fill them, pass them on, hold them for a while and give them back.

func init() {
	reg("P16", "pool", 40, func(c *Case, r *R) {
		c.Data = Dataset{}
		c.P["gs"] = int64(pick(r, 1, 2, 3, 5, 8))
		c.P["n"] = int64(pick(r, 5, 20, 60))
		c.P["def"] = int64(pick(r, 0, 1, 16, 64, 65536))
		c.P["max"] = int64(pick(r, 8, 100, 3000, 70000))
		c.P["shared"] = int64(r.Intn(2)) // the process-wide pool
	}, poolCase)
}

type held struct {
	b    pool.BorrowedBuffer
	mark byte
	own  bool
}

func poolCase(e *Env) *Violation {
	c := e.c
	e.api = true
	var v *Violation
	fail := func(class, f string, a ...any) {
		if v == nil {
			v = viol(class, f, a...)
		}
	}
	type span struct {
		lo, hi uintptr
		g      int
	}
	res := e.exec(RO{}, "pool", nil, func() {
		p := pool.NewByteSlicePool(uint64(c.P["def"]))
		if c.P["shared"] == 1 {
			p = pool.ByteSlice
		}
		var out []span
		var keep [][]held // (so that no address is used twice)
		at := func(b []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b))) }
		ch := make(chan held, 3)
		var wg zsim.WaitGroup
		wg.Add(int(c.P["gs"]))
		check := func(g int, h held, when string) {
			for i, x := range h.b.Buffer {
				if x != h.mark {
					fail("buffer-shared", "goroutine %d: a buffer of %d bytes it holds changed at %d (%s)", g, len(h.b.Buffer), i, when)
					return
				}
			}
		}
		for g := 0; g < int(c.P["gs"]); g++ {
			zsim.Go(func() {
				r := rng(c.Sub, fmt.Sprintf("pool%d", g))
				var mine []held
				mark := byte(g * 29)
				for i := int64(0); i < c.P["n"]; i++ {
					switch k := r.Intn(10); {
					case k < 4 || len(mine) == 0:
						sz := r.Intn(int(c.P["max"]) + 1)
						if r.Bool(0.1) {
							sz = 0
						}
						mark++
						var h held
						if r.Bool(0.15) {
							raw := make([]byte, sz)
							h = held{pool.NonBorrowedBuffer(raw), mark, true}
							if len(h.b.Buffer) != sz || sz > 0 && at(h.b.Buffer) != at(raw) {
								fail("buffer-size", "wrapping %d bytes gives another buffer of %d", sz, len(h.b.Buffer))
							}
						} else {
							h = held{p.Get(uint64(sz)), mark, false}
							if len(h.b.Buffer) != sz {
								fail("buffer-size", "a buffer of %d bytes was asked for, one of %d was handed out", sz, len(h.b.Buffer))
								return
							}
						}
						if cap(h.b.Buffer) > 0 {
							s := span{at(h.b.Buffer), at(h.b.Buffer) + uintptr(cap(h.b.Buffer)), g}
							for _, o := range out {
								if s.lo < o.hi && o.lo < s.hi {
									fail("buffer-shared", "goroutines %d and %d hold the same memory", o.g, g)
								}
							}
							out = append(out, s)
						}
						for j := range h.b.Buffer {
							h.b.Buffer[j] = mark
						}
						mine = append(mine, h)
					case k < 7:
						j := r.Intn(len(mine))
						h := mine[j]
						mine = append(mine[:j], mine[j+1:]...)
						check(g, h, "before giving it back")
						if !h.own && cap(h.b.Buffer) > 0 {
							for n, o := range out {
								if o.lo == at(h.b.Buffer) {
									out = append(out[:n], out[n+1:]...)
									break
								}
							}
						}
						p.Put(h.b)
						if h.own {
							// still its owner's: keeps the contents
							zsim.Point()
							check(g, h, "after giving back a buffer that was never borrowed")
							mine = append(mine, h)
						}
					case k < 8:
						// hand one to whoever takes it
						j := r.Intn(len(mine))
						s := zsim.Select(true, zsim.SendCase[held](ch)(mine[j]))
						if s.I == 0 {
							mine = append(mine[:j], mine[j+1:]...)
						}
					case k < 9:
						if s := zsim.Select(true, zsim.RecvCase[held](ch)); s.I == 0 {
							mine = append(mine, zsim.SelVal[held](ch, s))
						}
					default:
						zsim.Point()
						for _, h := range mine {
							check(g, h, "while holding it")
						}
					}
				}
				for _, h := range mine {
					check(g, h, "at the end")
				}
				keep = append(keep, mine)
				wg.Done()
			})
		}
		wg.Wait()
		_ = keep
	})
	if v != nil {
		return v
	}
	return notOK("pool", res)
}
