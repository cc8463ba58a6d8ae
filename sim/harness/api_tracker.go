//go:build go1.23 && api_tracker

package main

import (
	"fmt"

	"github.com/squizzling/osmindex/internal/tracker"
	"github.com/squizzling/osmindex/internal/zsim"
	"github.com/squizzling/osmindex/internal/zviews"
)

// P17 through the list of workers the user interface shows: workers come and
// go while it is refreshed.

type trackedWorker struct {
	n                        int
	trackStart, trackEnd     int64 // 0: not yet; otherwise the order of events
	untrackStart, untrackEnd int64
}

type trackProvider struct {
	tracker.WorkerTracker
}

func (*trackProvider) WriterState() interface{} { return nil }

func init() {
	reg("P17", "worker-list", 40, func(c *Case, r *R) {
		c.Data = Dataset{}
		c.P["gs"] = int64(pick(r, 1, 2, 3, 5, 8))
		c.P["rounds"] = int64(pick(r, 1, 2, 5))
		c.P["refreshes"] = int64(pick(r, 2, 8, 30))
		c.P["left"] = int64(r.Intn(3)) // workers that stay
	}, func(e *Env) *Violation {
		c := e.c
		e.api = true
		var v *Violation
		fail := func(class, f string, a ...any) {
			if v == nil {
				v = viol(class, f, a...)
			}
		}
		res := e.exec(RO{}, "worker list", nil, func() {
			sp := &trackProvider{}
			var all []*trackedWorker
			shown := map[views.Widget]*trackedWorker{}
			made := map[*trackedWorker]int{}
			ww := tracker.NewWidgetWorkers(sp, func(s interface{}) views.Widget {
				w := views.NewText()
				t, ok := s.(*trackedWorker)
				if !ok {
					fail("worker-list", "a widget is made for %v, which is no worker", s)
				}
				shown[w] = t
				made[t]++
				return w
			})
			clock := int64(0)
			tick := func() int64 { clock++; return clock }
			refresh := func(final bool) {
				start := tick()
				ww.RefreshStates()
				end := tick()
				on := map[*trackedWorker]int{}
				for _, w := range ww.WorkerBox.Widgets() {
					t := shown[w]
					if t == nil {
						fail("worker-list", "a widget nobody made is shown")
						return
					}
					on[t]++
				}
				for _, t := range all {
					must := t.trackEnd != 0 && t.trackEnd < start && (t.untrackStart == 0 || t.untrackStart > end)
					may := t.trackStart != 0 && t.trackStart < end && (t.untrackEnd == 0 || t.untrackEnd > start)
					switch {
					case on[t] > 1:
						fail("worker-list", "worker %d is shown %d times", t.n, on[t])
					case must && on[t] == 0:
						fail("worker-list", "worker %d has been at work since before the refresh and is not shown", t.n)
					case !may && on[t] > 0:
						fail("worker-list", "worker %d is shown, although it had ended before the refresh began", t.n)
					}
				}
			}
			var wg zsim.WaitGroup
			wg.Add(int(c.P["gs"]))
			for g := 0; g < int(c.P["gs"]); g++ {
				zsim.Go(func() {
					r := rng(c.Sub, fmt.Sprintf("tracker%d", g))
					for i := int64(0); i < c.P["rounds"]; i++ {
						for k := r.Intn(6); k > 0; k-- {
							zsim.Point()
						}
						t := &trackedWorker{n: len(all)}
						all = append(all, t)
						t.trackStart = tick()
						sp.TrackWorker(t)
						t.trackEnd = tick()
						for k := r.Intn(10); k > 0; k-- {
							zsim.Point()
						}
						if i == c.P["rounds"]-1 && int64(g) < c.P["left"] {
							break
						}
						t.untrackStart = tick()
						sp.UntrackWorker(t)
						t.untrackEnd = tick()
					}
					wg.Done()
				})
			}
			done := make(chan struct{})
			zsim.Go(func() { // the user interface
				r := rng(c.Sub, "ui")
				for i := int64(0); i < c.P["refreshes"]; i++ {
					for k := r.Intn(8); k > 0; k-- {
						zsim.Point()
					}
					refresh(false)
				}
				zsim.Close[struct{}](done)
			})
			wg.Wait()
			zsim.Recv[struct{}](done)
			refresh(true)
			refresh(true)
			n := 0
			for _, t := range all {
				if t.untrackEnd == 0 {
					n++
				}
			}
			if got := len(ww.WorkerBox.Widgets()); got != n {
				fail("worker-list", "%d workers are left, %d are shown", n, got)
			}
			if got := len(sp.WorkerStates()); got != n {
				fail("worker-list", "%d workers are left, %d are tracked", n, got)
			}
		})
		if v != nil {
			return v
		}
		return notOK("worker list", res)
	})
}
