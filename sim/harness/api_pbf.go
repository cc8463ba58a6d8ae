//go:build go1.23 && api_pbf

package main

import (
	"bytes"
	"context"
	"fmt"
	"reflect"

	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/zsim"
)

// P18 through the engine itself, with workers and a writer that record what
// they are given.

func blockBytes(x interface{}) []byte {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Slice || v.Type().Elem().Kind() != reflect.Uint8 {
		return nil
	}
	return v.Bytes()
}

func genEngine(c *Case, r *R) {
	n := pick(r, 3, 10, 40, 150)
	c.Data = genData(r, GenOpt{Nodes: n, Ways: n / 4, Rels: n / 8, MaxBlock: 1 + r.Intn(3), RawOnly: true})
	c.P["w"] = int64(pick(r, 1, 2, 3, 4, 8, 16))
	c.P["nowriter"] = int64(b2i(r.Bool(0.25)))
	c.P["watch"] = int64(b2i(r.Bool(0.5)))
	c.P["slow"] = int64(pick(r, 0, 0, 1, 5, 30))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type engineRun struct {
	res       *zsim.Result
	got       map[uint64]int
	written   []uint64
	sent      int
	waited    bool
	cancelled bool
	v         *Violation
}

func runEngine(e *Env, faults []zsim.Fault) *engineRun {
	c := e.c
	e.api = true
	o := &engineRun{got: map[uint64]int{}}
	fail := func(class, f string, a ...any) {
		if o.v == nil {
			o.v = viol(class, f, a...)
		}
	}
	// where every block's data lies in the file
	var data [][]byte
	for _, s := range e.spans {
		data = append(data, e.file[s.Blob:s.End])
	}
	type workProduct struct {
		idx  uint64
		data []byte
	}
	o.res = e.exec(RO{Faults: faults}, "engine", nil, func() {
		ctx, cancel := zsim.WithCancel(context.Background())
		defer cancel()
		busyWorkers, writing := 0, false
		writersDone := true
		work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
			busyWorkers++
			r := rng(c.Sub, fmt.Sprintf("worker%d", busyWorkers))
			for {
				b, ok := zsim.Recv2[pbf.Block](in)
				if !ok {
					break
				}
				o.got[b.Index]++
				if o.got[b.Index] > 1 {
					fail("delivered-twice", "block %d is given to workers %d times", b.Index, o.got[b.Index])
				}
				if b.Index >= uint64(len(data)) {
					fail("wrong-block", "block %d of %d", b.Index, len(data))
					continue
				}
				if b.BlobType != c.Data.Blocks[b.Index].Type {
					fail("wrong-block", "block %d: type %q, not %q", b.Index, b.BlobType, c.Data.Blocks[b.Index].Type)
				}
				d := blockBytes(b.Data)
				if d == nil {
					continue
				}
				if !bytes.Equal(d, data[b.Index]) {
					fail("wrong-block", "block %d: the data is not that of the file: %s", b.Index, diffAt(data[b.Index], d))
				}
				if s := int(c.P["slow"]); s > 0 {
					for k := r.Intn(s + 1); k > 0; k-- {
						zsim.Point()
					}
				}
				if !bytes.Equal(d, data[b.Index]) {
					fail("wrong-block", "block %d: the data changed under the worker", b.Index)
				}
				if out != nil {
					zsim.Send[pbf.Block](out)(pbf.Block{Index: b.Index, Data: &workProduct{b.Index, d}, BlobType: b.BlobType})
					o.sent++
				}
			}
			busyWorkers--
		}
		var write pbf.WriteFunc
		if c.P["nowriter"] == 0 {
			writersDone = false
			write = func(ctx context.Context, in <-chan pbf.Block) {
				writing = true
				r := rng(c.Sub, "writer")
				for {
					b, ok := zsim.Recv2[pbf.Block](in)
					if !ok {
						break
					}
					wp, ok := b.Data.(*workProduct)
					if !ok || wp.idx != b.Index {
						fail("wrong-block", "the writer is given something no worker made for block %d", b.Index)
						continue
					}
					if b.Index != uint64(len(o.written)) {
						fail("out-of-order", "the writer is given block %d after %d blocks", b.Index, len(o.written))
					}
					o.written = append(o.written, b.Index)
					if s := int(c.P["slow"]); s > 0 {
						for k := r.Intn(s + 1); k > 0; k-- {
							zsim.Point()
						}
					}
				}
				for k := r.Intn(20); k > 0; k-- {
					zsim.Point()
				}
				writing = false
				writersDone = true
			}
		}
		pfs := pbf.ProcessFileAsync(ctx, "in.pbf", work, write, int(c.P["w"]))
		stop := false
		var wg zsim.WaitGroup
		if c.P["watch"] == 1 {
			wg.Add(1)
			zsim.Go(func() { // the progress display
				last := uint64(0)
				for !stop {
					at := pfs.At()
					if at < last || at > uint64(len(e.file)) {
						fail("progress", "progress goes from %d to %d of %d bytes", last, at, len(e.file))
					}
					last = at
					zsim.Point()
				}
				wg.Done()
			})
		}
		pfs.Wait()
		o.waited = true
		if busyWorkers > 0 || writing || !writersDone {
			fail("done-early", "the file counts as processed while %d workers and writer=%v are still at work", busyWorkers, writing || !writersDone)
		}
		o.cancelled = ctx.Err() != nil
		if !o.cancelled && (pfs.At() != pfs.Max() || pfs.Max() != uint64(len(e.file))) {
			fail("progress", "processed %d of %d bytes of a file of %d", pfs.At(), pfs.Max(), len(e.file))
		}
		stop = true
		wg.Wait()
	})
	if o.v == nil {
		o.v = notOK("the block engine", o.res)
	}
	if o.v != nil {
		return o
	}
	n := len(data)
	if c.P["nowriter"] == 0 && len(o.written) != o.sent {
		o.v = viol("lost-block", "workers handed over %d blocks, the writer was given %d", o.sent, len(o.written))
	}
	if !o.cancelled {
		if len(o.got) != n {
			o.v = viol("lost-block", "%d of %d blocks were given to workers", len(o.got), n)
		}
		if c.P["nowriter"] == 0 && len(o.written) != n {
			o.v = viol("lost-block", "%d of %d blocks were given to the writer", len(o.written), n)
		}
	}
	for i := range o.got {
		if i >= uint64(len(o.got)) {
			o.v = viol("lost-block", "block %d was given to a worker, but only %d blocks in all", i, len(o.got))
			break
		}
	}
	if o.v == nil {
		o.v = tidy("the block engine", o.res)
	}
	return o
}

func init() {
	reg("P18", "engine", 60, genEngine, func(e *Env) *Violation { return runEngine(e, nil).v })
	reg("P18", "engine-cancelled", 30, genEngine, func(e *Env) *Violation {
		o := runEngine(e, nil)
		if o.v != nil {
			return o.v
		}
		r := rng(e.c.Sub, "cancel")
		return runEngine(e, []zsim.Fault{{Kind: "cancel", N: int64(r.Intn(int(o.res.Steps) + 1))}}).v
	})
}
