//go:build go1.23

package e2e

import (
	"context"
	"encoding/binary"
	"runtime"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// loss runs requests on a connection which is lost at an arbitrary byte or
// moment.
func loss(o opts) func(c *vlib.C) {
	return func(c *vlib.C) {
		w := newWorld(c)
		o := o
		o.n = 1 + c.Rng.Intn(o.n)
		rng := w.rng
		for i := 0; i < o.n; i++ {
			w.reqs = append(w.reqs, w.genReq(i, o))
		}
		for _, r := range w.reqs {
			r.atClose = rng.Intn(4) == 0
		}
		w.ready()
		w.connect(0)
		for i, e := range w.ends {
			turns := 1 + rng.Intn(200)
			e.slow = func() {
				// Requests are made while the connection is being closed.
				for _, r := range w.reqs {
					if r.atClose && r.from == i {
						w.wg.Add(1)
						go func() { defer w.wg.Done(); w.issue(r) }()
						c.Count("requests_while_closing", 1)
					}
				}
				for range turns {
					runtime.Gosched()
				}
			}
		}
		var ctxs [2]context.Context
		var stops [2]context.CancelFunc
		for i := range ctxs {
			ctxs[i], stops[i] = context.WithCancel(context.Background())
			w.start(ctxs[i], i)
		}
		side := rng.Intn(2)
		mode := rng.Intn(4)
		var at time.Duration
		switch mode {
		case 0, 1:
			n := []int{30, 300, 3000, 30000}[rng.Intn(4)]
			w.ducts[side].cutAt = 1 + rng.Intn(n)
			other := w.ducts[1-side]
			w.ducts[side].onCut = func() { other.shut(rng.Intn(2) == 0) }
		default:
			at = time.Duration(rng.Intn(60000)) * time.Microsecond
		}
		for _, r := range w.reqs {
			w.launch(r)
		}
		time.Sleep(at)
		switch mode {
		case 2:
			w.tp[side].Close()
		case 3:
			stops[side]()
		}
		time.Sleep(time.Minute)
		if mode < 2 && !w.over[0].Load() && !w.over[1].Load() {
			// Too little was sent for the cut.
			w.tp[side].Close()
		}
		time.Sleep(time.Hour)
		vlib.Settle()
		for i := range w.over {
			if !w.over[i].Load() {
				c.Failf("hang", "mode %d: Start of side %d does not return although the connection is lost", mode, i)
			}
		}
		if mode == 3 && w.over[side].Load() && w.errs[side] != context.Canceled {
			c.Failf("start-result", "Start returned %v after its context was cancelled", w.errs[side])
		}
		for _, r := range w.reqs {
			w.checkLost(r)
		}
		if n := w.unknown.Load(); n != 0 {
			c.Failf("invocation", "%d invocations which nobody requested", n)
		}
		w.lateRequests(0, 1)
		w.mon.mu.Lock()
		for _, b := range w.mon.bad {
			c.Failf("wire", "%s", b)
		}
		fp := ""
		for _, l := range w.mon.log {
			fp += l
		}
		c.Count("frames", w.mon.frames)
		w.mon.mu.Unlock()
		c.Nontrivial("%d %s", mode, fp)
		c.Sample("mode %d, %d requests: %s", mode, len(w.reqs), fp)
		for _, s := range stops {
			s()
		}
		w.shutdown()
	}
}

// source tells what the responder's flux consists of.
func (r *req) source() (want []pl, fail string, push, endless bool) {
	want, fail, push, endless = r.src.items, r.src.fail, r.src.push, r.src.endless
	if r.kind == kRC {
		in := r.in.items
		if r.noIn {
			in = nil
		}
		switch r.shape {
		case cEcho:
			want, fail, push, endless = nil, r.in.fail, r.in.push, false
			for _, p := range in {
				want = append(want, echo(p))
			}
		case cSum:
			n := 0
			for _, p := range in {
				n += len(p.data)
			}
			want, fail, push, endless = []pl{{data: []byte(sprintf("%d", n))}}, r.in.fail, true, false
			if fail != "" {
				want = nil
			}
		}
	}
	return
}

// checkLost is the verdict about a request whose connection was lost.
func (w *world) checkLost(r *req) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.mu.Lock()
	defer r.res.mu.Unlock()
	r.inLog.mu.Lock()
	defer r.inLog.mu.Unlock()
	r.src.mu.Lock()
	defer r.src.mu.Unlock()
	if r.in != nil {
		r.in.mu.Lock()
		defer r.in.mu.Unlock()
	}
	valid := r.badOp == 0 && r.shortMeta < 0
	w.c.Count("requests_"+kindName[r.kind], 1)
	if !valid && len(r.invoked) > 0 {
		w.failf(r, "invocation", "an operation was invoked for an invalid request")
	}
	w.checkInvoked(r, 0)
	if r.kind == kFNF {
		w.silent(r, "result", &r.res)
		return
	}
	if w.blind && r.from == 0 {
		w.lostServed(r)
		return
	}
	l := &r.res
	if len(l.finals) != 1 {
		w.failf(r, "terminal", "the call ended %d times after the connection was lost (%q)", len(l.finals), l.order)
		return
	}
	sig := l.finals[0]
	msg := ""
	var want []pl
	var fail string
	if r.kind == kRR {
		want, fail = []pl{r.answer}, r.failRR
		if fail != "" {
			want = nil
		}
	} else {
		want, fail, _, _ = r.source()
	}
	if !valid {
		want = nil
	}
	w.terminal(r, "result", l, sig, msg, 1)
	w.prefix(r, "result", l.got, want)
	switch {
	case sig == rx.SignalComplete && (len(l.got) != len(want) || fail != "" || !valid):
		w.failf(r, "terminal", "the result was reported complete with %d of %d payloads", len(l.got), len(want))
	case sig == rx.SignalError && valid && fail != "" && l.errs[0] == fail && len(l.got) != len(want):
		w.failf(r, "delivery", "the operation's error was reported after %d of %d payloads", len(l.got), len(want))
	case sig == rx.SignalError && valid && (l.errs[0] == "not_found" || l.errs[0] == "Invalid metadata"):
		w.failf(r, "error-text", "a valid request was refused with %q", l.errs[0])
	case sig == rx.SignalCancel && r.cancelAt == 0 && r.cancelConc == nil:
		w.failf(r, "terminal", "the call was reported cancelled")
	case sig == rx.SignalError && l.errs[0] != fail:
		w.c.Count("lost_calls", 1)
	}
	if r.kind < kRS || !valid || w.blind {
		w.lostInput(r)
		return
	}
	w.lostServed(r)
	w.lostInput(r)
}

// lostServed is the verdict about the serving side.
func (w *world) lostServed(r *req) {
	if r.kind < kRS || r.badOp != 0 || r.shortMeta >= 0 {
		return
	}
	if r.src.runs == 1 && !r.src.ended && r.src.cancels != 1 {
		w.failf(r, "producer-cancel", "the producer was told %d times that its stream is gone (%d of %d emitted)", r.src.cancels, r.src.emitted, len(r.src.items))
	}
	if r.src.runs == 1 && r.src.cancels == 1 {
		w.c.Count("producers_stopped", 1)
	}
	if r.kind != kRC || r.noIn {
		return
	}
	w.prefix(r, "input", r.inLog.got, r.in.items)
	failed := r.shape == cIndependent && r.src.fail != "" && (r.src.ended || r.how == 1)
	if (r.shape == cIndependent && !failed || r.shape == cSum) && len(r.invoked) == 1 {
		if len(r.inLog.finals) != 1 {
			w.failf(r, "input-terminal", "the input ended %d times", len(r.inLog.finals))
		}
		w.wholeInput(r)
		w.c.Count("inputs_checked", 1)
	}
}

// lostInput is the verdict about the requester's own input.
func (w *world) lostInput(r *req) {
	if r.kind != kRC || r.noIn || r.badOp != 0 || r.shortMeta >= 0 {
		return
	}
	if !r.inSlice && r.in.runs == 1 && !r.in.ended && r.in.cancels != 1 {
		w.failf(r, "input-cancel", "the requester's input was cancelled %d times (%d of %d emitted)", r.in.cancels, r.in.emitted, len(r.in.items))
	}
}

// wholeInput checks that the operation was not told that its input is complete
// when it is not.
func (w *world) wholeInput(r *req) {
	for _, s := range r.inLog.finals {
		if s == rx.SignalComplete && (r.in.fail != "" || len(r.inLog.got) != len(r.in.items)) {
			w.failf(r, "input-terminal", "the input was reported complete with %d of %d payloads", len(r.inLog.got), len(r.in.items))
		}
	}
}

// lateRequests makes requests on both sides of the lost connection.
func (w *world) lateRequests(sides ...int) {
	before := w.unknown.Load()
	for _, side := range sides {
		h := w.h[side]
		p := payload.New(binary.BigEndian.AppendUint32(nil, 1<<30), make([]byte, 8))
		logs := make([]*sinkLog, 3)
		for i := range logs {
			logs[i] = &sinkLog{}
		}
		src := &psource{step: func() {}, items: w.items(2, false)}
		go func() {
			h.FireAndForget(context.Background(), p)
			h.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(payload.Payload) { logs[0].complete() }, OnError: logs[0].error, Finally: logs[0].final})
			h.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[payload.Payload]{
				OnComplete: logs[1].complete, OnError: logs[1].error, Finally: logs[1].final})
			h.RequestChannel(context.Background(), p, src.flux()).Subscribe(flux.Subscribe[payload.Payload]{
				OnComplete: logs[2].complete, OnError: logs[2].error, Finally: logs[2].final})
		}()
		time.Sleep(time.Minute)
		vlib.Settle()
		for i, l := range logs {
			l.mu.Lock()
			if l.order != "EF" {
				w.c.Failf("late-request", "request of kind %s made on side %d after the connection was lost: final callbacks %q, want an error",
					[]string{"request-response", "request-stream", "request-channel"}[i], side, l.order)
			}
			l.mu.Unlock()
			w.c.Count("late_requests", 1)
		}
		src.mu.Lock()
		if src.runs > 0 && src.cancels == 0 {
			w.c.Failf("late-request", "the input of a channel opened after the connection was lost is never cancelled")
		}
		src.mu.Unlock()
		src.release()
	}
	if n := w.unknown.Load() - before; n != 0 {
		w.c.Failf("invocation", "%d invocations which nobody requested", n)
	}
}
