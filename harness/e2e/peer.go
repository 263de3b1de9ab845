//go:build go1.23

package e2e

import (
	"context"
	"encoding/binary"
	"io"
	"math/rand"
	"sync"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
)

// peer is a scripted side of a connection: it follows the protocol's wire
// format but none of its rules.
type peer struct {
	w    *world
	side int

	mu      sync.Mutex
	frames  map[uint32][]refs.Frame // received, by stream
	order   string
	bad     int
	onReq   func(f refs.Frame)
	sent    []string
	gone    bool
	scripts sync.WaitGroup
}

func (p *peer) send(f refs.Frame) {
	b := refs.Prefixed(refs.EncodeFrame(f))
	p.mu.Lock()
	if len(p.sent) < 80 {
		p.sent = append(p.sent, sprintf("%s#%d n=%d %d+%d%s%s", typeName(f.Type), f.StreamID, f.N, len(f.Metadata), len(f.Data), flag(f.Next, "N"), flag(f.Complete, "C")))
	}
	p.mu.Unlock()
	p.w.ends[p.side].Write(b)
}

func (p *peer) read() {
	e := p.w.ends[p.side]
	var hdr [3]byte
	for {
		if _, err := io.ReadFull(e, hdr[:]); err != nil {
			return
		}
		b := make([]byte, int(hdr[0])<<16|int(hdr[1])<<8|int(hdr[2]))
		if _, err := io.ReadFull(e, b); err != nil {
			return
		}
		f, _, ok := refs.DecodeFrame(b)
		p.mu.Lock()
		if !ok {
			p.bad++
			p.mu.Unlock()
			continue
		}
		p.frames[f.StreamID] = append(p.frames[f.StreamID], f)
		if len(p.order) < 600 {
			p.order += sprintf(" %s#%d", typeName(f.Type), f.StreamID)
		}
		p.mu.Unlock()
		if f.Type >= refs.TRequestResponse && f.Type <= refs.TRequestChannel {
			p.onReq(f)
		}
	}
}

func payloadFrame(rng *rand.Rand, id uint32) refs.Frame {
	f := refs.Frame{Type: refs.TPayload, StreamID: id, Data: body(rng, false)}
	if rng.Intn(3) == 0 {
		f.Metadata = body(rng, false)
	}
	f.Next = rng.Intn(8) != 0
	f.Complete = rng.Intn(7) == 0
	if !f.Next && rng.Intn(2) == 0 {
		f.Data, f.Metadata = nil, nil
	}
	return f
}

func anyN(rng *rand.Rand) uint32 {
	return []uint32{0, 1, 1, 2, 3, 5, 1000, 1<<31 - 1}[rng.Intn(8)]
}

// script is what the peer sends on one stream, whoever opened it.
func script(rng *rand.Rand, id uint32, n int) []refs.Frame {
	var fs []refs.Frame
	for i := 0; i < n; i++ {
		switch rng.Intn(12) {
		case 0, 1:
			fs = append(fs, refs.Frame{Type: refs.TRequestN, StreamID: id, N: anyN(rng)})
		case 2:
			if rng.Intn(3) == 0 {
				fs = append(fs, refs.Frame{Type: refs.TCancel, StreamID: id})
			}
		case 3:
			if rng.Intn(3) == 0 {
				fs = append(fs, refs.Frame{Type: refs.TError, StreamID: id, N: rng.Uint32(), Data: []byte(sprintf("peer error %d", i))})
			}
		default:
			fs = append(fs, payloadFrame(rng, id))
		}
	}
	return fs
}

// call is a request made by the real side.
type call struct {
	r      *req
	id     uint32
	script []refs.Frame
}

// serve is a request made by the peer.
type serve struct {
	r       *req
	id      uint32
	initial refs.Frame
	script  []refs.Frame
}

func hostile(c *vlib.C) {
	w := newWorld(c)
	hostileOn(w, w.rng.Intn(2), w.start, nil)
}

// hostileOn plays the peer of side own. finish replaces what happens at the end.
func hostileOn(w *world, own int, start func(ctx context.Context, own int), finish func(p *peer, judge func(live bool))) {
	c := w.c
	rng := w.rng
	w.mon.foreign, w.mon.own = true, own
	p := &peer{w: w, side: 1 - own, frames: map[uint32][]refs.Frame{}}
	o := opts{quick: true, kinds: []int{2, 1, 2, 3}, errors: 2, bad: 1}
	nCalls, nServes := rng.Intn(6), rng.Intn(6)
	calls := map[int]*call{}
	for i := 0; i < nCalls; i++ {
		o2 := o
		o2.bad = 0
		r := w.genReq(i, o2)
		r.from, r.demand, r.grants = own, dMax, nil
		r.noIn = false
		if r.in != nil {
			r.in.push = false
		}
		w.reqs = append(w.reqs, r)
		calls[i] = &call{r: r}
	}
	// the peer's ids: dense ones for served requests
	next := uint32(1 + p.side)
	var serves []*serve
	for i := 0; i < nServes; i++ {
		r := w.genReq(nCalls+i, o)
		r.from = 1 - own
		r.src.push = false
		if r.kind == kRC {
			r.shape = cIndependent
			r.inDemand, r.inCancelAt = dMax, 0
		}
		w.reqs = append(w.reqs, r)
		s := &serve{r: r, id: next}
		next += 2
		s.initial = refs.Frame{Type: refs.TRequestResponse + r.kind, StreamID: s.id, Metadata: r.metadata(), Data: r.data, N: anyN(rng)}
		if len(s.initial.Metadata) == 0 {
			s.initial.Metadata = nil
		}
		if r.kind == kRC {
			s.initial.Complete = rng.Intn(5) == 0
		}
		s.script = script(rng, s.id, rng.Intn(12))
		serves = append(serves, s)
	}
	w.ready()
	w.connect(0)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	start(ctx, own)
	spawn := func(fs []refs.Frame, pause func(), seed int64) {
		p.scripts.Add(1)
		sr := rand.New(rand.NewSource(seed))
		go func() {
			defer p.scripts.Done()
			for _, f := range fs {
				pause()
				if sr.Intn(4) == 0 {
					time.Sleep(time.Duration(sr.Intn(5000)) * time.Microsecond)
				}
				p.send(f)
			}
		}()
	}
	seen := 0
	reqRng := rand.New(rand.NewSource(rng.Int63()))
	p.onReq = func(f refs.Frame) {
		if len(f.Data) < 4 {
			c.Failf("request", "the request frame %v carries other data than the request", f)
			return
		}
		i := int(binary.BigEndian.Uint32(f.Data))
		cl := calls[i]
		if cl == nil || cl.id != 0 {
			c.Failf("request", "the peer got request %d twice or unasked", i)
			return
		}
		cl.id = f.StreamID
		if f.Type != refs.TRequestResponse+cl.r.kind || !(pl{f.Data, f.Metadata}).eq(pl{cl.r.data, cl.r.metadata()}) {
			c.Failf("request", "request %d arrived as %s with %v", i, typeName(f.Type), pl{f.Data, f.Metadata})
		}
		cl.script = script(reqRng, f.StreamID, reqRng.Intn(14))
		seen++
		spawn(cl.script, pauseFn(reqRng), reqRng.Int63())
	}
	go p.read()
	for _, r := range w.reqs[:nCalls] {
		w.launch(r)
	}
	for _, s := range serves {
		spawn(append([]refs.Frame{s.initial}, s.script...), pauseFn(rng), rng.Int63())
	}
	// Frames which belong to nothing, and requests under ids in use.
	var junk []refs.Frame
	for i := rng.Intn(20); i > 0; i-- {
		id := []uint32{0, 1<<31 - 1, 1<<31 - 2, 100001, 100002, uint32(rng.Intn(1<<31 - 1))}[rng.Intn(6)]
		if id > 0 && id < 50000 {
			id += 50000
		}
		switch rng.Intn(4) {
		case 0:
			f := refs.Frame{Type: refs.TRequestResponse + rng.Intn(4), StreamID: id, N: anyN(rng), Data: body(rng, false), Metadata: make([]byte, rng.Intn(12)), Complete: rng.Intn(2) == 0}
			if len(f.Data) >= 4 {
				f.Data = f.Data[:3] // no known request
			}
			junk = append(junk, f)
			if rng.Intn(2) == 0 {
				junk = append(junk, f)
			}
		default:
			junk = append(junk, script(rng, id, 1+rng.Intn(3))...)
		}
	}
	spawn(junk, pauseFn(rng), rng.Int63())
	time.Sleep(time.Hour)
	p.scripts.Wait()
	time.Sleep(time.Hour)
	vlib.Settle()
	judge := func(live bool) {
		p.mu.Lock()
		defer p.mu.Unlock()
		for _, cl := range calls {
			w.judgeCall(p, cl, live)
		}
		for _, s := range serves {
			w.judgeServe(p, s, live)
		}
	}
	if w.over[own].Load() {
		c.Failf("connection", "the connection ended because of frames which are to be ignored: %v\nsent: %v", w.errs[own], p.sent)
	} else {
		p.mu.Lock()
		if p.bad > 0 {
			c.Failf("wire", "%d frames are none", p.bad)
		}
		p.mu.Unlock()
		judge(true)
		if seen != nCalls {
			c.Failf("request", "%d of %d requests arrived at the peer", seen, nCalls)
		}
	}
	defer w.shutdown()
	defer func() {
		p.mu.Lock()
		fp := sprintf("%v %s", p.sent, p.order)
		p.mu.Unlock()
		c.Nontrivial("%s", fp)
		c.Sample("%d calls, %d served: %s", nCalls, nServes, fp)
		c.Count("junk_frames", len(junk))
	}()
	if finish != nil {
		finish(p, judge)
		return
	}
	// The end: garbage, or the peer goes away.
	mode := rng.Intn(3)
	switch mode {
	case 0:
		b := make([]byte, 10+rng.Intn(40))
		rng.Read(b)
		switch rng.Intn(4) {
		case 0: // no length
			b[0], b[1], b[2] = 0, 0, 0
		case 1: // shorter than a header
			b[0], b[1], b[2] = 0, 0, byte(1+rng.Intn(5))
			b = b[:3+int(b[2])]
		case 2: // unknown type
			b = refs.Prefixed(refs.EncodeFrameFlags(refs.Frame{Type: []int{0, 1, 2, 3, 12, 13, 14, 15, 63}[rng.Intn(9)], StreamID: 1}, 0))
		default: // declared metadata exceeds the frame
			f := refs.EncodeFrameFlags(refs.Frame{Type: refs.TPayload, StreamID: 1, Metadata: make([]byte, 10), Data: make([]byte, 3)}, refs.FMetadata|refs.FNext)
			f[6+2] = 200
			b = refs.Prefixed(f)
		}
		w.ends[1-own].Write(b)
		time.Sleep(time.Second)
		vlib.Settle()
		if !w.over[own].Load() {
			c.Failf("garbage", "the connection goes on after malformed bytes %x", b)
		}
	case 1:
		stop()
	}
	w.ends[1-own].Close()
	time.Sleep(time.Hour)
	vlib.Settle()
	if !w.over[own].Load() {
		c.Failf("hang", "Start does not return although the peer is gone (mode %d)", mode)
	} else {
		judge(false)
	}
	w.tp[1-own] = nil
}

// judgeCall compares what the caller saw with what the peer sent.
func (w *world) judgeCall(p *peer, cl *call, live bool) {
	r := cl.r
	r.res.mu.Lock()
	defer r.res.mu.Unlock()
	if r.kind == kFNF {
		w.silent(r, "result", &r.res)
		return
	}
	fail := func(class, f string, a ...any) {
		w.c.Failf(class, "call %d (%s, live=%v): %s\nscript: %v\n%s", r.i, kindName[r.kind], live, sprintf(f, a...), brief(cl.script), r.describe())
	}
	var want []pl
	end, msg := "", ""
	asked, broken := 0, false
	cancelled := r.cancelAt > 0 || r.cancelConc != nil
	for _, f := range cl.script {
		if end == "" {
			switch f.Type {
			case refs.TPayload:
				if r.kind == kRR {
					if f.Next {
						want, end = append(want, pl{f.Data, f.Metadata}), "CF"
					} else if f.Complete {
						end = "EF"
					}
					break
				}
				if f.Next {
					want = append(want, pl{f.Data, f.Metadata})
				}
				if f.Complete {
					end = "CF"
				}
			case refs.TError:
				end, msg = "EF", string(f.Data)
				broken = true
			}
		}
		if f.Type == refs.TError || f.Type == refs.TCancel {
			broken = true
		}
		if f.Type == refs.TRequestN && !broken {
			asked += int(f.N)
		}
	}
	if cancelled {
		// Cancelling races with the script: only the basics are judged.
		if len(r.res.got) > len(want) {
			fail("delivery", "%d payloads delivered, %d sent", len(r.res.got), len(want))
		}
		for k, g := range r.res.got {
			if k < len(want) && !g.eq(want[k]) {
				fail("delivery", "payload %d is %v, want %v", k, g, want[k])
			}
		}
		if len(r.res.finals) > 1 || !live && len(r.res.finals) != 1 {
			fail("terminal", "the call ended %d times", len(r.res.finals))
		}
		return
	}
	if !live && end == "" {
		end = "EF"
	}
	if len(r.res.got) != len(want) {
		fail("delivery", "%d payloads delivered, %d sent", len(r.res.got), len(want))
	} else {
		for k, g := range r.res.got {
			if !g.eq(want[k]) {
				fail("delivery", "payload %d is %v, want %v", k, g, want[k])
			}
		}
	}
	if r.res.order != end {
		fail("terminal", "final callbacks %q, want %q", r.res.order, end)
	} else if msg != "" && r.res.errs[0] != msg {
		fail("error-text", "error %q, want %q", r.res.errs[0], msg)
	}
	w.c.Count("calls_judged", 1)
	if r.kind != kRC || r.inSlice {
		return
	}
	r.in.mu.Lock()
	defer r.in.mu.Unlock()
	if r.in.asked > asked {
		fail("demand", "the input was asked for %d, the peer asked for %d", r.in.asked, asked)
	}
	if live && !broken {
		if r.in.asked != asked && !r.in.ended {
			fail("demand", "the input was asked for %d, the peer asked for %d", r.in.asked, asked)
		}
		if r.in.cancels != 0 {
			fail("input-cancel", "the input was cancelled by nobody")
		}
		// The input must have arrived at the peer.
		n := min(asked, len(r.in.items))
		var got []pl
		ended := ""
		for _, f := range p.frames[cl.id] {
			if f.Type == refs.TPayload && f.Next {
				got = append(got, pl{f.Data, f.Metadata})
			}
			if f.Type == refs.TPayload && f.Complete {
				ended += "C"
			}
			if f.Type == refs.TError {
				ended += "E"
			}
		}
		if len(got) != n {
			fail("delivery", "%d of %d input payloads sent", len(got), n)
		}
		for k := range got {
			if k < len(r.in.items) && !got[k].eq(r.in.items[k]) {
				fail("delivery", "input payload %d is %v, want %v", k, got[k], r.in.items[k])
			}
		}
		wantEnd := ""
		if n == len(r.in.items) {
			wantEnd = "C"
			if r.in.fail != "" {
				wantEnd = "E"
			}
		}
		if ended != wantEnd {
			fail("input-terminal", "the input ended with %q on the wire, want %q", ended, wantEnd)
		}
		w.c.Count("inputs_judged", 1)
	}
	if broken && r.in.runs == 1 && !r.in.ended && r.in.cancels != 1 || !live && r.in.runs == 1 && !r.in.ended && r.in.cancels != 1 {
		fail("input-cancel", "the input was cancelled %d times", r.in.cancels)
	}
}

func brief(fs []refs.Frame) (s []string) {
	for _, f := range fs {
		s = append(s, sprintf("%s n=%d %d+%d%s%s", typeName(f.Type), f.N, len(f.Metadata), len(f.Data), flag(f.Next, "N"), flag(f.Complete, "C")))
	}
	return
}

// judgeServe compares what the peer got with what its requests call for.
func (w *world) judgeServe(p *peer, s *serve, live bool) {
	r := s.r
	r.mu.Lock()
	defer r.mu.Unlock()
	r.inLog.mu.Lock()
	defer r.inLog.mu.Unlock()
	r.src.mu.Lock()
	defer r.src.mu.Unlock()
	got := p.frames[s.id]
	fail := func(class, f string, a ...any) {
		w.c.Failf(class, "served %d (%s, live=%v): %s\nrequest: %v script: %v\nanswers: %v\n%s", r.i, kindName[r.kind], live, sprintf(f, a...), brief([]refs.Frame{s.initial}), brief(s.script), brief(got), r.describe())
	}
	valid := r.badOp == 0 && r.shortMeta < 0
	n := 1
	if !valid {
		n = 0
	}
	if len(r.invoked) != n {
		fail("invocation", "the operation was invoked %d times", len(r.invoked))
		return
	}
	var out []pl
	end, msg := "", ""
	for _, f := range got {
		switch f.Type {
		case refs.TPayload, refs.TError:
			if end != "" {
				fail("after-end", "frames after the end of the response")
				return
			}
			if f.Next {
				out = append(out, pl{f.Data, f.Metadata})
			}
			if f.Complete {
				end = "C"
			}
			if f.Type == refs.TError {
				end, msg = "E", string(f.Data)
			}
		case refs.TRequestN, refs.TCancel:
			if r.kind != kRC {
				fail("wire", "a %s frame was sent", typeName(f.Type))
			}
		default:
			fail("wire", "a %s frame was sent", typeName(f.Type))
		}
	}
	w.c.Count("served_judged", 1)
	if r.kind == kFNF {
		if len(got) != 0 {
			fail("fnf-answered", "a fire and forget request was answered")
		}
		return
	}
	if !valid {
		t := "not_found"
		if r.shortMeta >= 0 {
			t = "Invalid metadata"
		}
		if end != "E" || msg != t || len(out) != 0 {
			fail("refusal", "want the error %q", t)
		}
		return
	}
	want := r.src.items
	text := r.src.fail
	granted, cancelled, errored := len(want)+1, false, false
	if r.kind == kRR {
		want, text = []pl{r.answer}, r.failRR
		if text != "" {
			want = nil
		}
	} else {
		granted = int(s.initial.N)
		for _, f := range s.script {
			if cancelled {
				break
			}
			switch f.Type {
			case refs.TRequestN:
				granted += int(f.N)
			case refs.TCancel:
				cancelled = true
			case refs.TError:
				errored = true
			}
		}
	}
	if len(out) > len(want) || len(out) > granted {
		fail("demand", "%d payloads sent, %d asked for, %d produced", len(out), granted, len(want))
		return
	}
	for k := range out {
		if !out[k].eq(want[k]) {
			fail("delivery", "payload %d is %v, want %v", k, out[k], want[k])
		}
	}
	if !cancelled {
		m := min(granted, len(want))
		e := ""
		if granted >= len(want) {
			e = "C"
			if text != "" {
				e = "E"
			}
			if r.kind != kRR && r.src.endless {
				e = ""
			}
		}
		if r.how == 1 && r.kind != kRR && text != "" && len(want) == 0 && !r.src.endless {
			m, e = 0, "E"
		}
		if len(out) != m || end != e {
			if !errored {
				fail("delivery", "%d payloads and %q, want %d and %q", len(out), end, m, e)
			}
		}
		if e == "E" && end == "E" && msg != text {
			fail("error-text", "error %q, want %q", msg, text)
		}
	}
	if r.kind == kRR {
		return
	}
	if (cancelled || !live) && r.src.runs == 1 && !r.src.ended && r.src.cancels != 1 {
		fail("producer-cancel", "the producer was cancelled %d times", r.src.cancels)
	}
	if live && !cancelled && !errored && r.src.cancels != 0 {
		fail("producer-cancel", "the producer was cancelled by nobody")
	}
	if r.kind != kRC || r.shape != cIndependent {
		return
	}
	// the input: everything up to its end
	var in []pl
	inEnd := ""
	if s.initial.Complete {
		inEnd = "CF"
	}
	for _, f := range s.script {
		if inEnd != "" {
			break
		}
		switch f.Type {
		case refs.TPayload:
			if f.Next {
				in = append(in, pl{f.Data, f.Metadata})
			}
			if f.Complete {
				inEnd = "CF"
			}
		case refs.TError:
			inEnd = "EF"
		case refs.TCancel:
			inEnd = "EF"
		}
	}
	failed := r.src.fail != "" && (r.src.ended || r.how == 1) // the response broke the channel off
	if failed {
		if len(r.inLog.got) > len(in) {
			fail("delivery", "%d input payloads delivered, %d sent", len(r.inLog.got), len(in))
		}
		return
	}
	if inEnd == "" && !live {
		inEnd = "EF"
	}
	if len(r.inLog.got) != len(in) || r.inLog.order != inEnd {
		fail("input", "%d input payloads delivered with %q, want %d with %q", len(r.inLog.got), r.inLog.order, len(in), inEnd)
		return
	}
	for k := range in {
		if !r.inLog.got[k].eq(in[k]) {
			fail("input", "input payload %d is %v, want %v", k, r.inLog.got[k], in[k])
		}
	}
	w.c.Count("served_inputs", 1)
}
