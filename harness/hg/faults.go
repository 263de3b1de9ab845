//go:build go1.23

package e2e

import (
	"context"
	"encoding/binary"
	"errors"
	"sync"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// gone runs requests on an instance which is closed at an arbitrary moment,
// or whose guest traps in an arbitrary call.
func gone(o opts) func(c *vlib.C) {
	return func(c *vlib.C) {
		w, p := newPair(c)
		rng := w.rng
		o := o
		o.n = 1 + rng.Intn(o.n)
		for i := 0; i < o.n; i++ {
			w.reqs = append(w.reqs, w.genReq(i, o))
		}
		w.blind = true
		w.ready()
		w.connect(2)
		trap := rng.Intn(2) == 0
		at := time.Duration(rng.Intn(30000)) * time.Microsecond
		if trap {
			p.m.mu.Lock()
			p.m.trapAt = 1 + rng.Intn(40)
			p.m.mu.Unlock()
		}
		for _, r := range w.reqs {
			w.launch(r)
		}
		time.Sleep(at)
		if !trap {
			p.inst.Close()
		}
		time.Sleep(time.Hour)
		vlib.Settle()
		p.m.mu.Lock()
		trapped := p.m.trapped
		p.m.mu.Unlock()
		if trap && trapped {
			// The streams which were opened after the trap are over or live
			// on. Closing ends them.
			c.Count("traps", 1)
		}
		if n := p.m.closed.Load(); trap && n != 0 {
			c.Failf("release", "the guest of an instance which is not closed was released")
		}
		p.g.stop()
		p.inst.Close()
		time.Sleep(time.Hour)
		vlib.Settle()
		c.Count("closed", 1)
		if p.m.closed.Load() == 0 {
			c.Failf("release", "the guest of a closed instance is not released")
		}
		for _, r := range w.reqs {
			r.mu.Lock()
			issued := r.issued
			r.mu.Unlock()
			if issued || r.from == hostSide {
				w.checkLost(r)
			}
		}
		w.lateRequests(hostSide)
		w.mon.mu.Lock()
		fp := ""
		for _, l := range w.mon.log {
			fp += l
		}
		c.Count("frames", w.mon.frames)
		w.mon.mu.Unlock()
		c.Nontrivial("%v %s", trap, fp)
		w.shutdown()
	}
}

// trapped checks that a trap ends what is open at once, without any help by
// closing the instance.
func trapped(c *vlib.C) {
	w, p := newPair(c)
	rng := w.rng
	w.blind = true
	o := opts{quick: true, kinds: []int{1, 0, 2, 2}, n: 12}
	for i := 0; i < 1+rng.Intn(12); i++ {
		r := w.genReq(i, o)
		// Nothing ends by itself.
		r.from = hostSide
		r.src.endless, r.src.fail = true, ""
		r.demand, r.cancelAt, r.cancelConc, r.how = dMax, 0, nil, 3
		if r.kind == kRC {
			r.shape, r.inSlice, r.noIn = cIndependent, false, false
			r.in.endless, r.in.fail, r.inCancelAt = true, "", 0
		}
		w.reqs = append(w.reqs, r)
	}
	w.ready()
	w.connect(2)
	for _, r := range w.reqs {
		if r.kind == kRR {
			r.respGo = func(func()) {} // never answers
		}
		if rng.Intn(3) == 0 {
			// The same the other way round.
			r.from = guestSide
			r.respGo, r.src.post = func(f func()) { go f() }, nil
			if r.kind == kRR {
				r.respGo = func(func()) {}
			}
			if r.in != nil {
				r.in.post = p.g.post
			}
			r.reqGo, r.delay = p.g.post, func() {}
		}
	}
	for _, r := range w.reqs {
		w.launch(r)
	}
	time.Sleep(time.Minute)
	vlib.Settle()
	for _, r := range w.reqs {
		r.res.mu.Lock()
		if r.res.order != "" {
			w.failf(r, "terminal", "ended %q before the trap", r.res.order)
		}
		r.res.mu.Unlock()
	}
	p.g.stop()
	p.m.mu.Lock()
	switch rng.Intn(3) {
	case 0: // the guest traps
		p.m.trapAt = p.m.calls + 1
	case 1: // it hands over bytes which are no frames
		bad := malformed(rng.Intn, len(p.m.recv))
		p.m.onSend = func(uint32) {
			n := copy(p.m.recv, bad.b)
			if bad.n > 0 {
				n = bad.n
			}
			p.m.hostSend(uint32(n))
			c.Failf("malformed", "the guest got away with invalid frames %x (%d)", bad.b, bad.n)
		}
	case 2:
		p.m.unreadable = true
	}
	p.m.mu.Unlock()
	p.inst.FireAndForget(context.Background(), kick())
	time.Sleep(time.Minute)
	vlib.Settle()
	for _, r := range w.reqs {
		w.checkLost(r)
	}
	c.Count("traps", 1)
	// Later requests are not affected, as far as the guest can still serve
	// them.
	p.m.mu.Lock()
	p.m.unreadable = false
	p.m.onSend = func(n uint32) {}
	p.m.mu.Unlock()
	log := &sinkLog{}
	p.inst.RequestResponse(context.Background(), payload.New(nil, make([]byte, 8))).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(payload.Payload) { log.complete() }, OnError: log.error, Finally: log.final})
	time.Sleep(time.Minute)
	vlib.Settle()
	log.mu.Lock()
	if log.order != "" {
		c.Failf("later", "a request made after the trap ended with %q", log.order)
	}
	log.mu.Unlock()
	p.inst.Close()
	vlib.Settle()
	log.mu.Lock()
	if log.order != "EF" {
		c.Failf("close", "closing the instance ended an open request with %q", log.order)
	}
	log.mu.Unlock()
	c.Nontrivial("%d requests, trap %d", len(w.reqs), p.m.trapAt)
	w.shutdown()
}

type bad struct {
	b []byte
	n int // what is announced, 0: len(b)
}

// malformed are bytes which are no sequence of frames.
func malformed(intn func(int) int, size int) bad {
	good := refs.Prefixed(refs.EncodeFrame(refs.Frame{Type: refs.TPayload, StreamID: 4242, Next: true, Data: make([]byte, 5)}))
	var b []byte
	if intn(2) == 0 {
		b = append(b, good...)
	}
	switch intn(6) {
	case 0: // no header
		return bad{b: append(b, 0, 0, byte(intn(6)), 1, 2, 3, 4, 5)}
	case 1: // a frame which is longer than what was sent
		return bad{b: append(append(b, 0, 0, byte(9+intn(200))), make([]byte, 6+intn(3))...)}
	case 2: // a cut length
		return bad{b: append(b, make([]byte, 1+intn(2))...)}
	case 3: // huge
		return bad{b: append(append(b, 255, 255, 255), make([]byte, 20)...)}
	case 4: // longer than the buffer
		return bad{b: b, n: size + 1 + intn(1000)}
	default: // overflows
		return bad{b: b, n: 1<<32 - 1 - intn(3)}
	}
}

// oversize makes requests whose request, input or response has one payload
// which is larger than the buffers between host and guest.
func oversize(c *vlib.C) {
	w, p := newPair(c)
	rng := w.rng
	o := opts{quick: true, kinds: []int{2, 1, 2, 3}, errors: 1}
	huge := func() []byte {
		n := 16*1024 - 30 + rng.Intn(60)
		switch rng.Intn(4) {
		case 0:
			n = 16*1024 + rng.Intn(100000)
		case 1:
			n = 1<<20 + rng.Intn(1000)
		}
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	type plan struct {
		where, at int
		req       refs.Frame
	}
	plans := map[*req]*plan{}
	for i := 0; i < 1+rng.Intn(10); i++ {
		r := w.genReq(i, o)
		r.demand, r.cancelAt, r.cancelConc, r.src.endless, r.noIn = dMax, 0, nil, false, false
		if r.kind == kRC {
			r.shape, r.inSlice, r.inDelay, r.inCancelAt, r.inDemand = cIndependent, false, nil, 0, dMax
			r.in.push = false
		}
		pl := &plan{where: rng.Intn(5), at: -1}
		switch pl.where {
		case 3: // the message of an error
			r.failRR, r.src.fail = string(huge()), string(huge())
		case 4: // that of the input
			if r.kind == kRC {
				r.in.fail = string(huge())
			}
		case 0: // the request
			h := huge()
			copy(h, r.data[:4])
			r.data = h
		case 1: // the response
			if r.kind == kRR {
				r.answer.data = huge()
			} else if r.kind != kFNF && len(r.src.items) > 0 {
				pl.at = rng.Intn(len(r.src.items))
				r.src.items[pl.at].data = huge()
			}
		case 2:
			if r.kind == kRC && len(r.in.items) > 0 {
				pl.at = rng.Intn(len(r.in.items))
				r.in.items[pl.at].data = huge()
				r.in.endless = len(r.in.items[pl.at].data) > 16*1024 && rng.Intn(2) == 0
			}
		}
		if r.kind == kRC && rng.Intn(3) == 0 {
			// An input which emits all it has at once.
			r.in.push, r.in.sync = true, true
		}
		if r.kind >= kRS && rng.Intn(3) == 0 {
			r.src.push, r.src.sync = true, true
		}
		plans[r] = pl
		w.reqs = append(w.reqs, r)
	}
	w.ready()
	w.connect(2)
	for _, r := range w.reqs {
		w.launch(r)
	}
	time.Sleep(time.Hour)
	vlib.Settle()
	fits := func(f refs.Frame) bool { return len(refs.EncodeFrame(f)) <= 16*1024-3 }
	fp := ""
	for _, r := range w.reqs {
		pl := plans[r]
		c.Count("requests", 1)
		r.mu.Lock()
		r.res.mu.Lock()
		r.inLog.mu.Lock()
		fail := func(class, f string, a ...any) {
			w.failf(r, class, "oversize %d at %d: "+f, append([]any{pl.where, pl.at}, a...)...)
		}
		f := refs.Frame{Type: refs.TRequestResponse + r.kind, Metadata: r.metadata(), Data: r.data}
		if !fits(f) {
			if len(r.invoked) != 0 {
				fail("invocation", "invoked by a request which cannot be sent")
			}
			if r.kind != kFNF && (r.res.order != "EF" || len(r.res.got) != 0) {
				fail("terminal", "a request which cannot be sent ended with %q", r.res.order)
			}
			c.Count("too_large_requests", 1)
		} else if w.checkInvoked(r, 1) && r.kind != kFNF {
			want := r.src.items
			end := "CF"
			if r.src.fail != "" {
				end = "EF"
			}
			if r.kind == kRR {
				want = nil
				if r.failRR == "" {
					want = append(want, r.answer)
				}
			}
			for k, it := range want {
				if !fits(refs.Frame{Type: refs.TPayload, Data: it.data, Metadata: it.md, Next: true}) {
					want, end = want[:k], "EF"
					c.Count("too_large_responses", 1)
					break
				}
			}
			w.prefix(r, "result", r.res.got, want)
			if len(r.res.got) != len(want) || r.res.order != end {
				fail("terminal", "%d payloads and %q, want %d and %q", len(r.res.got), r.res.order, len(want), end)
			}
			if r.kind == kRC && end == "EF" && r.src.fail == "" && r.inLog.order != "EF" && r.inLog.order != "CF" {
				fail("input-terminal", "the output ended because of its size, the input with %q", r.inLog.order)
			}
			if r.kind == kRC && !(end == "EF") {
				in, inEnd := r.in.items, "CF"
				if r.in.fail != "" {
					inEnd = "EF"
				}
				for k, it := range in {
					if !fits(refs.Frame{Type: refs.TPayload, Data: it.data, Metadata: it.md, Next: true}) {
						in, inEnd = in[:k], "EF"
						c.Count("too_large_inputs", 1)
						if !r.in.sync {
							r.in.mu.Lock()
							if r.in.cancels != 1 && !r.in.ended {
								fail("input-cancel", "the input with a payload which is too large was cancelled %d times", r.in.cancels)
							}
							r.in.mu.Unlock()
						}
						break
					}
				}
				w.prefix(r, "input", r.inLog.got, in)
				if len(r.inLog.got) != len(in) || r.inLog.order != inEnd {
					fail("input-terminal", "%d input payloads and %q, want %d and %q", len(r.inLog.got), r.inLog.order, len(in), inEnd)
				}
			}
		}
		fp += sprintf(" %d/%d/%d/%s", r.kind, pl.where, len(r.res.got), r.res.order)
		r.inLog.mu.Unlock()
		r.res.mu.Unlock()
		r.mu.Unlock()
	}
	w.mon.mu.Lock()
	for _, b := range w.mon.bad {
		c.Failf("wire", "%s", b)
	}
	w.mon.mu.Unlock()
	if p.m.trapped {
		c.Failf("trap", "a payload which is too large made the guest's call fail")
	}
	c.Nontrivial("%s", fp)
	w.shutdown()
}

// hostileGuest is a scripted guest of the real host.
func hostileGuest(c *vlib.C) {
	h := newHostAlone(c)
	w := h.w
	rng := w.rng
	hostileOn(w, hostSide, h.start, func(p *peer, judge func(live bool)) {
		w.refusals(p, hostSide)
		judge(true)
		m := h.m
		mode := rng.Intn(4)
		switch mode {
		case 0:
			h.inst.Close()
		default:
			m.mu.Lock()
			b := malformed(rng.Intn, len(m.recv))
			h.fail = func() error {
				if mode == 1 {
					return errors.New("unreachable")
				}
				n := copy(m.recv, b.b)
				if b.n > 0 {
					n = b.n
				}
				m.hostSend(uint32(n))
				c.Failf("malformed", "the guest got away with invalid frames %x (%d)", b.b, b.n)
				return nil
			}
			m.mu.Unlock()
			h.inst.FireAndForget(context.Background(), kick())
		}
		time.Sleep(time.Hour)
		vlib.Settle()
		judge(false)
		if mode == 0 {
			w.lateRequests(hostSide)
		}
		c.Count("ends", 1)
	})
}

// hostileHost is a scripted host of the real guest.
func hostileHost(c *vlib.C) {
	h := newGuestAlone(c)
	w := h.w
	rng := w.rng
	hostileOn(w, guestSide, h.start, func(p *peer, judge func(live bool)) {
		w.refusals(p, guestSide)
		for i := rng.Intn(4); i >= 0; i-- {
			b := malformed(rng.Intn, len(h.m.send))
			if b.n > 0 {
				b.b = append(b.b, make([]byte, 16*1024-len(b.b))...)
			}
			h.inject <- b.b
			c.Count("malformed_batches", 1)
		}
		time.Sleep(time.Second)
		vlib.Settle()
		judge(true)
		// The guest is still there.
		w.refusals(p, guestSide)
		c.Count("ends", 1)
	})
}

var refusalID uint32 = 2000000

// refusals sends requests which cannot be served as they are.
func (w *world) refusals(p *peer, own int) {
	id := refusalID + uint32(2-own)
	md := make([]byte, 8)
	mk := func(t int, flags int, cut bool) uint32 {
		id += 2
		f := refs.Frame{Type: t, StreamID: id, Metadata: md, Data: []byte("abc"), N: 5}
		b := refs.EncodeFrameFlags(f, flags|refs.FMetadata)
		if cut {
			at := 6
			if t == refs.TRequestStream || t == refs.TRequestChannel {
				at += 4
			}
			b[at+1] = 200 // more metadata than there is
		}
		w.ends[1-own].Write(refs.Prefixed(b))
		return id
	}
	type expect struct {
		id   uint32
		fnf  bool
		what string
	}
	var es []expect
	for t := refs.TRequestResponse; t <= refs.TRequestChannel; t++ {
		es = append(es, expect{mk(t, 0, true), t == refs.TRequestFNF, sprintf("cut %s", typeName(t))})
		es = append(es, expect{mk(t, refs.FFollows, false), t == refs.TRequestFNF, sprintf("fragmented %s", typeName(t))})
	}
	refusalID = id &^ 1
	before := w.unknown.Load()
	time.Sleep(time.Minute)
	vlib.Settle()
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, e := range es {
		got := p.frames[e.id]
		if e.fnf {
			if len(got) != 0 {
				w.c.Failf("refusal", "the %s was answered with %v", e.what, brief(got))
			}
			continue
		}
		if len(got) != 1 || got[0].Type != refs.TError {
			w.c.Failf("refusal", "the %s was answered with %v, want one error", e.what, brief(got))
		}
		w.c.Count("refusals", 1)
	}
	if w.unknown.Load() != before {
		w.c.Failf("invocation", "a request which cannot be decoded invoked an operation")
	}
}

// contexts checks which context the operations of the host get that a guest
// invokes on behalf of a host's request.
func contexts(c *vlib.C) {
	h := newHostAlone(c)
	w := h.w
	rng := w.rng
	w.connect(0)
	h.start(context.Background(), hostSide)
	p := &peer{w: w, side: guestSide, frames: map[uint32][]refs.Frame{}}
	var mu sync.Mutex
	ids := map[int]uint32{}
	p.onReq = func(f refs.Frame) {
		mu.Lock()
		ids[int(binary.BigEndian.Uint32(f.Data))] = f.StreamID
		mu.Unlock()
	}
	go p.read()
	seen := map[int][]any{}
	note := func(ctx context.Context, q payload.Payload) {
		mu.Lock()
		i := int(binary.BigEndian.Uint32(q.Data()))
		seen[i] = append(seen[i], ctx.Value(ctxKey{}))
		mu.Unlock()
	}
	h.inst.SetRequestResponseHandler(7, func(ctx context.Context, q payload.Payload) mono.Mono[payload.Payload] {
		note(ctx, q)
		return mono.Just[payload.Payload](q)
	})
	h.inst.SetFireAndForgetHandler(7, func(ctx context.Context, q payload.Payload) { note(ctx, q) })
	h.inst.SetRequestStreamHandler(7, func(ctx context.Context, q payload.Payload) flux.Flux[payload.Payload] {
		note(ctx, q)
		return flux.FromSlice([]payload.Payload{})
	})
	h.inst.SetRequestChannelHandler(7, func(ctx context.Context, q payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		note(ctx, q)
		return flux.FromSlice([]payload.Payload{})
	})
	n := 1 + rng.Intn(8)
	for i := 0; i < n; i++ {
		ctx := context.WithValue(context.Background(), ctxKey{}, i)
		q := payload.New(binary.BigEndian.AppendUint32(nil, uint32(i)), make([]byte, 8))
		switch rng.Intn(3) {
		case 0:
			h.inst.RequestResponse(ctx, q).Subscribe(mono.Subscribe[payload.Payload]{})
		case 1:
			h.inst.RequestStream(ctx, q).Subscribe(flux.Subscribe[payload.Payload]{})
		default:
			h.inst.RequestChannel(ctx, q, (&psource{step: func() {}}).flux()).Subscribe(flux.Subscribe[payload.Payload]{})
		}
	}
	time.Sleep(time.Second)
	vlib.Settle()
	m := rng.Intn(20)
	want := map[int]any{}
	desc := ""
	for k := 0; k < m; k++ {
		i := rng.Intn(n + 1)
		parent := uint32(0)
		if i < n {
			mu.Lock()
			parent = ids[i]
			mu.Unlock()
			want[k] = i
		} else if rng.Intn(2) == 0 {
			parent = 77777
		}
		md := binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, 7), parent)
		t := refs.TRequestResponse + rng.Intn(4)
		desc += sprintf(" %s/%d", typeName(t), i)
		p.send(refs.Frame{Type: t, StreamID: uint32(1 + 2*k), N: 1, Metadata: md, Data: binary.BigEndian.AppendUint32(nil, uint32(k))})
		if rng.Intn(3) == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	time.Sleep(time.Second)
	vlib.Settle()
	mu.Lock()
	for k := 0; k < m; k++ {
		if len(seen[k]) != 1 || seen[k][0] != want[k] {
			c.Failf("context", "operation %d of%s got the context %v, want that of request %v", k, desc, seen[k], want[k])
		}
		c.Count("contexts", 1)
	}
	mu.Unlock()
	c.Nontrivial("%d %s", n, desc)
	w.reqs = nil
	w.shutdown()
}

// starts checks that modules which are no guests, or lie about themselves, are
// refused.
func starts(c *vlib.C) {
	rng := c.Rng
	table := operations.Table{}
	for i := rng.Intn(5); i >= 0; i-- {
		table = append(table, operations.Operation{Index: uint32(i), Type: operations.RequestType(1 + rng.Intn(4)), Direction: operations.Direction(1 + rng.Intn(2)),
			Namespace: sprintf("ns%d", rng.Intn(3)), Operation: sprintf("op%d", i)})
	}
	list := table.ToBytes()
	ok := true
	m := &vm{}
	mode := rng.Intn(7)
	size := uint32(len(list))
	at := uint32(listAt)
	switch mode {
	case 0:
	case 1:
		list, ok = list[:rng.Intn(len(list))], false
		size = uint32(len(list))
	case 2: // outside of the memory
		size, ok = uint32(len(list))+1+uint32(rng.Intn(1000)), false
	case 3:
		at, ok = listAt+0x8000+uint32(rng.Intn(1000)), false
	case 4:
		list = append([]byte(nil), list...)
		list[rng.Intn(4)] ^= byte(1 + rng.Intn(255))
		ok = false
	case 5, 6:
		ok = false
	}
	vmGuest.start = func(m *vm, send, recv, frame uint32) {
		if mode == 5 {
			panic(errors.New("wasm error: unreachable"))
		}
		m.send, m.recv = make([]byte, send), make([]byte, recv)
		imports["__init_buffers"](m.ctx, []uint64{sendAt, recvAt})
	}
	vmGuest.opList = func(m *vm) {
		if mode == 6 {
			panic(errors.New("wasm error: unreachable"))
		}
		m.list = list
		imports["__op_list"](m.ctx, []uint64{uint64(at), uint64(size)})
	}
	m.onSend = func(uint32) {}
	inst, err := host.NewInstance(context.Background(), m)
	if (err == nil) != ok {
		c.Failf("start", "mode %d: starting the guest: %v, list %x size %d", mode, err, list, size)
	}
	if err == nil {
		got := inst.Operations()
		if len(got) != len(table) {
			c.Failf("operations", "%d operations, want %d", len(got), len(table))
		} else {
			for i := range got {
				if got[i] != table[i] {
					c.Failf("operations", "operation %d is %v, want %v", i, got[i], table[i])
				}
			}
		}
		inst.Close()
		c.Count("started", 1)
	} else {
		c.Count("refused_starts", 1)
	}
	c.Nontrivial("%d %x", mode, list)
}

func hostGrowing(c *vlib.C) {
	h := newHostAlone(c)
	growthOn(h.w, hostSide, h.start, nil, true)
}

func guestGrowing(c *vlib.C) {
	h := newGuestAlone(c)
	growthOn(h.w, guestSide, h.start, h.g.post, true)
}
