//go:build go1.23

package e2e

import (
	"runtime"
	"time"
	"weak"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/rx"
)

// over tells whether both directions of r's stream have ended.
func (r *req) over() bool {
	if r.kind < kRS || r.badOp != 0 || r.shortMeta >= 0 {
		return true
	}
	if len(r.res.finals) != 1 {
		return false
	}
	if r.res.finals[0] != rx.SignalComplete || r.kind == kRS {
		return true
	}
	if r.noIn {
		return false // the channel's input never begins or ends
	}
	return r.inSlice && (r.shape == cEcho || r.shape == cSum) || r.in.ended || r.in.cancels > 0
}

// leak checks that a living connection keeps nothing of the requests which
// have ended on it.
func leak(o opts) func(c *vlib.C) { return leakOn(o, newWorld) }

func leakOn(o opts, mk func(c *vlib.C) *world) func(c *vlib.C) {
	return func(c *vlib.C) {
		w := mk(c)
		o := o
		o.n = 1 + c.Rng.Intn(o.n)
		for i := 0; i < o.n; i++ {
			r := w.genReq(i, o)
			if r.demand == dExplicit && c.Rng.Intn(2) == 0 {
				r.grants = append(r.grants, 100)
			}
			w.reqs = append(w.reqs, r)
		}
		w.ready()
		w.connect(2)
		vlib.Settle()
		before := runtime.NumGoroutine()
		for _, r := range w.reqs {
			w.launch(r)
		}
		time.Sleep(time.Hour)
		vlib.Settle()
		w.verdict()
		type dead struct {
			p    weak.Pointer[req]
			desc string
		}
		var ended []dead
		open := 0
		for _, r := range w.reqs {
			if r.over() {
				ended = append(ended, dead{weak.Make(r), sprintf("%s %d: %s%s", kindName[r.kind], r.i, r.describe(), w.wireOf(r))})
				c.Count("ended_"+kindName[r.kind], 1)
			} else {
				open++
			}
		}
		c.Count("open", open)
		keep := w.reqs
		w.reqs = nil
		var rest []*req
		for _, r := range keep {
			if !r.over() {
				rest = append(rest, r)
			}
		}
		clear(keep)
		keep = nil
		left := 0
		for k := 0; k < 5; k++ {
			runtime.GC()
			left = 0
			for _, d := range ended {
				if d.p.Value() != nil {
					left++
				}
			}
			if left == 0 {
				break
			}
		}
		if left > 0 {
			for _, d := range ended {
				if d.p.Value() != nil {
					c.Failf("stream-leak", "%d of %d ended requests are still reachable from the living connection, such as %s", left, len(ended), d.desc)
					break
				}
			}
		}
		if n := runtime.NumGoroutine(); open == 0 && n > before {
			c.Failf("goroutine-leak", "%d goroutines are left of %d ended requests", n-before, len(ended))
		} else if open == 0 {
			c.Count("goroutine_counts", 1)
		}
		c.Count("collected", len(ended)-left)
		w.reqs = rest
		w.shutdown()
	}
}
