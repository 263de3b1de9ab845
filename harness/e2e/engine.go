//go:build go1.23

package e2e

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

func sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

const (
	kRR = iota
	kFNF
	kRS
	kRC
)

var kindName = []string{"request-response", "fire-and-forget", "request-stream", "request-channel"}

// pl is a payload by value.
type pl struct{ data, md []byte }

func (p pl) payload() payload.Payload {
	return payload.New(append([]byte(nil), p.data...), append([]byte(nil), p.md...))
}
func (p pl) eq(q pl) bool { return bytes.Equal(p.data, q.data) && bytes.Equal(p.md, q.md) }
func (p pl) String() string {
	return fmt.Sprintf("{%d bytes %s, %d bytes %s}", len(p.data), hexs(p.data), len(p.md), hexs(p.md))
}

func hexs(b []byte) string {
	if len(b) > 12 {
		return fmt.Sprintf("%x..", b[:12])
	}
	return fmt.Sprintf("%x", b)
}

func copyOf(p payload.Payload) pl {
	return pl{append([]byte(nil), p.Data()...), append([]byte(nil), p.Metadata()...)}
}

// psource produces payloads as far as it is asked to.
type psource struct {
	items   []pl
	fail    string // final error message
	endless bool   // never ends by itself
	push    bool   // does not wait for demand
	sync    bool   // pushes everything within the subscription
	before  func() // takes place while the subscription is being made, if any
	after   func() // … once it is made
	step    func()
	post    func(func()) // runs a task on a single-threaded side, nil: goroutines

	mu      sync.Mutex
	pumping bool
	next    int
	wake    chan struct{}
	asked   int
	emitted int
	cancels int
	runs    int
	ended   bool // emitted everything and its final signal
	quit    bool
}

// hesitate makes some sources slow to be subscribed to. They do not sleep: the
// library may hold a lock meanwhile, and time only goes on in a bubble while
// nobody waits for one.
func (s *psource) hesitate(rng *rand.Rand) {
	k, n := rng.Intn(8), 1<<rng.Intn(11)
	wait := func() {
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	}
	switch k {
	case 0:
		s.before = wait
	case 1:
		s.after = wait
	}
}

func (s *psource) flux() flux.Flux[payload.Payload] {
	return flux.Create(s.run)
}

func (s *psource) kick() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (s *psource) run(sink flux.Sink[payload.Payload]) {
	s.mu.Lock()
	s.runs++
	s.wake = make(chan struct{}, 1)
	s.mu.Unlock()
	if s.before != nil && s.post == nil {
		s.before()
	}
	sink.OnSubscribe(flux.OnSubscribe{
		Request: func(n int) {
			s.mu.Lock()
			s.asked += n
			s.mu.Unlock()
			s.kick()
			s.pump(sink)
		},
		Cancel: func() {
			s.mu.Lock()
			s.cancels++
			s.mu.Unlock()
			s.kick()
		},
	})
	if s.after != nil && s.post == nil {
		s.after()
	}
	if s.sync && s.push {
		for _, it := range s.items {
			s.mu.Lock()
			s.emitted++
			s.mu.Unlock()
			sink.Next(it.payload())
		}
		if s.endless {
			return
		}
		s.mu.Lock()
		s.ended = true
		s.mu.Unlock()
		if s.fail != "" {
			sink.Error(errors.New(s.fail))
		} else {
			sink.Complete()
		}
		return
	}
	if s.post != nil {
		s.pump(sink)
		return
	}
	go func() {
		for _, it := range s.items {
			s.step()
			for {
				s.mu.Lock()
				stop := s.cancels > 0 || s.quit
				ok := s.push || s.asked > s.emitted
				if ok && !stop {
					s.emitted++
				}
				s.mu.Unlock()
				if stop {
					return
				}
				if ok {
					break
				}
				<-s.wake
			}
			sink.Next(it.payload())
		}
		if s.endless {
			return
		}
		s.step()
		s.mu.Lock()
		stop := s.cancels > 0 || s.quit
		s.ended = !stop
		s.mu.Unlock()
		if stop {
			return
		}
		if s.fail != "" {
			sink.Error(errors.New(s.fail))
		} else {
			sink.Complete()
		}
	}()
}

// pump lets a single-threaded side emit what it may, a payload per task.
func (s *psource) pump(sink flux.Sink[payload.Payload]) {
	s.mu.Lock()
	busy := s.sync && s.push || s.pumping || s.post == nil
	s.pumping = true
	s.mu.Unlock()
	if !busy {
		s.post(func() { s.pumpOne(sink) })
	}
}

func (s *psource) pumpOne(sink flux.Sink[payload.Payload]) {
	s.mu.Lock()
	stop := s.cancels > 0 || s.quit || s.ended
	more := s.next < len(s.items)
	ok := !more && !s.endless || more && (s.push || s.asked > s.emitted)
	if stop || !ok {
		s.pumping = false
		s.mu.Unlock()
		return
	}
	if !more {
		s.ended = true
		s.mu.Unlock()
		if s.fail != "" {
			sink.Error(errors.New(s.fail))
		} else {
			sink.Complete()
		}
		return
	}
	it := s.items[s.next]
	s.next++
	s.emitted++
	s.mu.Unlock()
	sink.Next(it.payload())
	s.post(func() { s.pumpOne(sink) })
}

func (s *psource) release() {
	s.mu.Lock()
	s.quit = true
	w := s.wake
	s.mu.Unlock()
	if w != nil {
		select {
		case w <- struct{}{}:
		default:
		}
	}
}

// sinkLog records what a subscriber of payloads sees.
type sinkLog struct {
	mu        sync.Mutex
	subs      int
	got       []pl
	late      int
	completes int
	errs      []string
	finals    []rx.SignalType
	at        time.Time
	ended     bool
	order     string
	cancelRet bool // Cancel has returned
	afterCan  int
}

func (l *sinkLog) next(p payload.Payload) int {
	q := copyOf(p)
	l.mu.Lock()
	defer l.mu.Unlock()
	l.got = append(l.got, q)
	if l.ended {
		l.late++
	}
	if l.cancelRet {
		l.afterCan++
	}
	return len(l.got)
}
func (l *sinkLog) complete() {
	l.mu.Lock()
	l.completes++
	l.ended = true
	l.order += "C"
	l.mu.Unlock()
}
func (l *sinkLog) error(err error) {
	l.mu.Lock()
	l.errs = append(l.errs, err.Error())
	l.ended = true
	l.order += "E"
	l.mu.Unlock()
}
func (l *sinkLog) final(s rx.SignalType) {
	l.mu.Lock()
	l.finals = append(l.finals, s)
	l.at = time.Now()
	l.ended = true
	l.order += "F"
	l.mu.Unlock()
}

// demand strategies of a subscriber
const (
	dMax = iota
	dBatch
	dExplicit
)

// Response shapes of a channel.
const (
	cIndependent = iota // subscribes to the input, answers from a source
	cEcho               // answers with the mapped input
	cSum                // answers once the input has ended
	cIgnore             // never looks at the input
)

type req struct {
	i, from, kind, op int
	data, extra       []byte
	badOp             uint32 // operation id when != 0
	shortMeta         int    // metadata length when >= 0
	delay             func()
	respDelay         func()
	answer            pl
	failRR            string
	how               int // how the response is built
	src               *psource
	demand            int
	batch             int
	grants            []int
	grantDelay        func()
	cancelAt          int // cancel in this OnNext, 0: never
	cancelConc        func()
	shape             int
	in                *psource
	inSlice           bool
	inDemand, inBatch int
	inPieces          bool // a batch is asked for in several steps
	inCancelAt        int
	inDelay           func()
	atClose           bool   // made while the connection is being closed
	inWork, resWork   func() // what takes time in OnNext of the input and of the result, nil: nothing
	noIn              bool
	unsent            bool         // the subscriber never asks for anything
	long              bool         // the operation blocks for a long time
	respGo            func(func()) // how the serving side runs something later
	reqGo             func(func()) // how the requesting side runs something later, nil: goroutines
	promptly          time.Time

	mu      sync.Mutex
	invoked []pl
	ops     []int
	res     sinkLog
	inLog   sinkLog
	started bool
	refused bool
	issued  bool
	done    chan struct{}
}

// caller is a side that makes requests.
type caller interface {
	RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload]
	FireAndForget(ctx context.Context, p payload.Payload)
	RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload]
	RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

// world is one case.
type world struct {
	c     *vlib.C
	rng   *rand.Rand
	reqs  []*req
	mon   *wireMon
	h     [2]caller
	tp    [2]*rsocket.Transport
	ends  [2]*end
	ducts [2]*duct // ducts[i]: written by side i
	errs  [2]error
	over  [2]atomic.Bool
	wg    sync.WaitGroup
	blind bool         // nothing is known about what side 0 sees after the loss
	prep  func(r *req) // adapts requests to their sides
	dial  func()       // replaces the connection
	hang  func()       // replaces closing the connection
	begun time.Time

	lean *plainOps // serves what is no request of reqs

	unknown atomic.Int32
}

// plain serves p on its own.
func plain() *plainOps {
	if w := cur.Load(); w != nil {
		return w.lean
	}
	return nil
}

var cur atomic.Pointer[world]

func find(p payload.Payload) *req {
	w := cur.Load()
	d := p.Data()
	if w == nil || len(d) < 4 {
		if w != nil {
			w.unknown.Add(1)
		}
		return nil
	}
	i := int(binary.BigEndian.Uint32(d))
	if i >= len(w.reqs) {
		w.unknown.Add(1)
		return nil
	}
	return w.reqs[i]
}

func (r *req) invokedWith(op int, p payload.Payload) {
	q := copyOf(p)
	r.mu.Lock()
	r.invoked = append(r.invoked, q)
	r.ops = append(r.ops, op)
	r.promptly = time.Now()
	r.mu.Unlock()
}

const nOps = 3

func opRR(k int) invoke.RequestResponseHandler {
	return func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		if l := plain(); l != nil {
			return l.rr(ctx, p)
		}
		r := find(p)
		if r == nil {
			return mono.Just[payload.Payload](payload.New([]byte("?")))
		}
		r.invokedWith(k, p)
		return r.respondMono()
	}
}

func opFNF(k int) invoke.FireAndForgetHandler {
	return func(ctx context.Context, p payload.Payload) {
		if r := find(p); r != nil {
			r.invokedWith(k, p)
			r.respDelay()
		}
	}
}

func opRS(k int) invoke.RequestStreamHandler {
	return func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		if l := plain(); l != nil {
			return l.rs(ctx, p)
		}
		r := find(p)
		if r == nil {
			return flux.FromSlice([]payload.Payload{})
		}
		r.invokedWith(k, p)
		r.respDelay()
		return r.respondFlux()
	}
}

func opRC(k int) invoke.RequestChannelHandler {
	return func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		if l := plain(); l != nil {
			return l.rc(ctx, p, in)
		}
		r := find(p)
		if r == nil {
			return flux.FromSlice([]payload.Payload{})
		}
		r.invokedWith(k, p)
		r.respDelay()
		return r.respondChannel(in)
	}
}

func init() {
	for k := 0; k < nOps; k++ {
		invoke.ExportRequestResponse("verif", fmt.Sprintf("rr%d", k), opRR(k))
		invoke.ExportFireAndForget("verif", fmt.Sprintf("fnf%d", k), opFNF(k))
		invoke.ExportRequestStream("verif", fmt.Sprintf("rs%d", k), opRS(k))
		invoke.ExportRequestChannel("verif", fmt.Sprintf("rc%d", k), opRC(k))
	}
}

func (r *req) respondMono() mono.Mono[payload.Payload] {
	emit := func(s mono.Sink[payload.Payload]) {
		if r.failRR != "" {
			s.Error(errors.New(r.failRR))
		} else {
			s.Success(r.answer.payload())
		}
	}
	switch r.how {
	case 0:
		r.respDelay()
		if r.failRR != "" {
			return mono.Error[payload.Payload](errors.New(r.failRR))
		}
		return mono.Just(r.answer.payload())
	case 1:
		return mono.Create(func(s mono.Sink[payload.Payload]) { r.respGo(func() { r.respDelay(); emit(s) }) })
	case 2:
		p := mono.NewProcessor[payload.Payload]()
		r.respGo(func() { r.respDelay(); emit(p) })
		return p
	default:
		m := mono.Create(func(s mono.Sink[int]) { r.respGo(func() { r.respDelay(); s.Success(1) }) })
		return mono.Map(m, func(int) (payload.Payload, error) {
			if r.failRR != "" {
				return nil, errors.New(r.failRR)
			}
			return r.answer.payload(), nil
		})
	}
}

func (r *req) respondFlux() flux.Flux[payload.Payload] {
	if r.how == 1 && r.src.fail != "" && len(r.src.items) == 0 && !r.src.endless {
		return flux.Error[payload.Payload](errors.New(r.src.fail))
	}
	return r.src.flux()
}

func echo(p pl) pl {
	return pl{append([]byte("echo:"), p.data...), append([]byte("e"), p.md...)}
}

func (r *req) respondChannel(in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	switch r.shape {
	case cEcho:
		return flux.Map(in, func(p payload.Payload) (payload.Payload, error) {
			r.inLog.next(p)
			return echo(copyOf(p)).payload(), nil
		})
	case cSum:
		return flux.Create(func(sink flux.Sink[payload.Payload]) {
			n := 0
			in.Subscribe(flux.Subscribe[payload.Payload]{
				OnNext: func(p payload.Payload) {
					r.inLog.next(p)
					n += len(p.Data())
					if r.inWork != nil {
						r.inWork()
					}
				},
				OnComplete: func() {
					r.inLog.complete()
					sink.Next(pl{data: []byte(fmt.Sprint(n))}.payload())
					sink.Complete()
				},
				OnError: func(err error) {
					r.inLog.error(err)
					sink.Error(err)
				},
				Finally: r.inLog.final,
			})
		})
	case cIgnore:
		return r.respondFlux()
	}
	sub := flux.Subscribe[payload.Payload]{
		OnComplete: r.inLog.complete,
		OnError:    r.inLog.error,
		Finally:    r.inLog.final,
	}
	sub.OnNext = func(p payload.Payload) {
		if r.inLog.next(p) == r.inCancelAt {
			in.Subscription().Cancel()
		}
		if r.inWork != nil {
			r.inWork()
		}
	}
	if r.inDemand == dBatch {
		sub.OnRequest = func(s rx.Subscription) {
			if !r.inPieces {
				s.Request(r.inBatch)
				return
			}
			for i := 0; i < r.inBatch; i++ {
				s.Request(1)
			}
		}
	}
	if r.inDelay != nil {
		r.respGo(func() { r.inDelay(); in.Subscribe(sub) })
	} else {
		in.Subscribe(sub)
	}
	return r.respondFlux()
}

func (r *req) metadata() []byte {
	op := uint32(r.op)
	if r.badOp != 0 {
		op = r.badOp
	}
	md := binary.BigEndian.AppendUint32(nil, op)
	md = binary.BigEndian.AppendUint32(md, 0)
	md = append(md, r.extra...)
	if r.shortMeta >= 0 {
		md = md[:r.shortMeta]
	}
	return md
}

// issue makes the request.
func (w *world) issue(r *req) {
	r.delay()
	h := w.h[r.from]
	md := r.metadata()
	p := payload.New(append([]byte(nil), r.data...), md)
	ctx := context.Background()
	r.mu.Lock()
	r.issued = true
	r.mu.Unlock()
	switch r.kind {
	case kFNF:
		h.FireAndForget(ctx, p)
		return
	case kRR:
		m := h.RequestResponse(ctx, p)
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { r.res.next(p); r.res.complete() },
			OnError:   r.res.error,
			Finally:   r.res.final,
		})
		return
	}
	var f flux.Flux[payload.Payload]
	if r.kind == kRS {
		f = h.RequestStream(ctx, p)
	} else {
		var in flux.Flux[payload.Payload]
		if !r.noIn {
			in = r.in.flux()
			if r.inSlice {
				var ps []payload.Payload
				for _, it := range r.in.items {
					ps = append(ps, it.payload())
				}
				in = flux.FromSlice(ps)
			}
		}
		f = h.RequestChannel(ctx, p, in)
	}
	sub := flux.Subscribe[payload.Payload]{
		OnComplete: r.res.complete,
		OnError:    r.res.error,
		Finally:    r.res.final,
	}
	sub.OnNext = func(p payload.Payload) {
		if r.res.next(p) == r.cancelAt {
			f.Subscription().Cancel()
			r.res.mu.Lock()
			r.res.cancelRet = true
			r.res.mu.Unlock()
		}
		if r.resWork != nil {
			r.resWork()
		}
	}
	switch r.demand {
	case dBatch:
		sub.OnRequest = func(s rx.Subscription) { s.Request(r.batch) }
	case dExplicit:
		sub.NoRequest = true
	}
	f.Subscribe(sub)
	if r.cancelConc != nil {
		cancel := func() {
			r.cancelConc()
			f.Subscription().Cancel()
			r.res.mu.Lock()
			r.res.cancelRet = true
			r.res.mu.Unlock()
		}
		if r.reqGo != nil {
			r.reqGo(cancel)
		} else {
			w.wg.Add(1)
			go func() { defer w.wg.Done(); cancel() }()
		}
	}
	if r.demand == dExplicit {
		grants := r.grants
		var grant func()
		grant = func() {
			r.grantDelay()
			f.Subscription().Request(grants[0])
			if grants = grants[1:]; len(grants) > 0 {
				r.reqGo(grant)
			}
		}
		if r.reqGo != nil {
			if len(grants) > 0 {
				r.reqGo(grant)
			}
			return
		}
		for _, n := range r.grants {
			r.grantDelay()
			f.Subscription().Request(n)
		}
	}
}

// opts shape the workload.
type opts struct {
	kinds    []int // weights of kRR, kFNF, kRS, kRC
	n        int
	cancels  int // out of 10
	errors   int // out of 10: handler errors
	bad      int // out of 10: unknown operations, invalid metadata
	explicit bool
	big      bool
	quick    bool // no operation blocks
	flood    bool // hundreds of payloads
}

func (o opts) most(n int) int {
	if o.flood {
		return 40 * n
	}
	return n
}

// longTime is how long a blocking operation blocks: much longer than
// everything else takes together.
const longTime = 30 * time.Minute

func pauseFn(rng *rand.Rand) func() {
	switch rng.Intn(6) {
	case 0, 1:
		return func() {}
	case 2:
		return runtime.Gosched
	default:
		d := time.Duration(rng.Intn(30)) * time.Millisecond / 10
		return func() { time.Sleep(d) }
	}
}

// maxBody limits the size of data.
var maxBody = 70000

func body(rng *rand.Rand, big bool) []byte {
	n := rng.Intn(20)
	switch rng.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = rng.Intn(600)
	case 2:
		if big {
			// two of them fill the buffers of 16 KiB between host and guest,
			// often to the last few bytes
			n = min(8150+rng.Intn(100), maxBody)
			if rng.Intn(2) == 0 {
				n = min(8165+rng.Intn(24), maxBody)
			}
		}
	case 3:
		if big {
			n = rng.Intn(maxBody)
		}
	}
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func (w *world) items(n int, big bool) []pl {
	var out []pl
	for i := 0; i < n; i++ {
		p := pl{data: body(w.rng, big)}
		if w.rng.Intn(2) == 0 {
			p.md = body(w.rng, false)
		}
		out = append(out, p)
	}
	return out
}

func (w *world) genReq(i int, o opts) *req {
	rng := w.rng
	total := 0
	for _, k := range o.kinds {
		total += k
	}
	x := rng.Intn(total)
	kind := 0
	for x >= o.kinds[kind] {
		x -= o.kinds[kind]
		kind++
	}
	r := &req{i: i, from: rng.Intn(2), kind: kind, op: rng.Intn(nOps), shortMeta: -1,
		delay: pauseFn(rng), respDelay: pauseFn(rng), how: rng.Intn(4), grantDelay: pauseFn(rng),
		respGo: func(f func()) { go f() }}
	if !o.quick && rng.Intn(8) == 0 {
		r.long = true
		r.respDelay = func() { time.Sleep(longTime) }
	}
	r.data = append(binary.BigEndian.AppendUint32(nil, uint32(i)), body(rng, o.big)...)
	if rng.Intn(2) == 0 {
		r.extra = body(rng, false)
	}
	if rng.Intn(10) < o.bad {
		if rng.Intn(2) == 0 {
			r.badOp = []uint32{nOps + 1, nOps + 2, 1000, 1 << 31, 0xffffffff}[rng.Intn(5)]
		} else {
			r.shortMeta = rng.Intn(8)
		}
	}
	fails := rng.Intn(10) < o.errors
	r.answer = pl{data: body(rng, o.big), md: body(rng, false)}
	if fails {
		r.failRR = fmt.Sprintf("failure %d of %x", i, body(rng, false))
	}
	r.src = &psource{items: w.items(rng.Intn(o.most(14)), o.big && rng.Intn(3) == 0), step: pauseFn(rng), push: rng.Intn(4) == 0}
	r.src.sync = r.src.push && rng.Intn(3) == 0
	r.src.hesitate(rng)
	if fails {
		r.src.fail = r.failRR
	}
	if kind < kRS {
		return r
	}
	r.demand = rng.Intn(3)
	if o.explicit && r.demand == dMax {
		r.demand = 1 + rng.Intn(2)
	}
	r.batch = 1 + rng.Intn(5)
	if r.demand == dExplicit {
		for k := rng.Intn(4); k >= 0; k-- {
			r.grants = append(r.grants, 1+rng.Intn(6))
		}
	}
	if rng.Intn(10) < o.cancels {
		if rng.Intn(2) == 0 {
			r.cancelAt = 1 + rng.Intn(6)
			if rng.Intn(3) == 0 {
				r.src.endless = true
			}
		} else {
			d := pauseFn(rng)
			k := 1 + rng.Intn(5)
			r.cancelConc = func() {
				for j := 0; j < k; j++ {
					d()
				}
			}
			r.src.endless = rng.Intn(3) == 0
		}
	}
	if rng.Intn(5) == 0 {
		r.resWork = pauseFn(rng)
	}
	if kind == kRC {
		if rng.Intn(4) == 0 {
			r.inWork = pauseFn(rng)
		}
		r.shape = rng.Intn(4)
		r.in = &psource{items: w.items(rng.Intn(o.most(12)), o.big && rng.Intn(3) == 0), step: pauseFn(rng), push: rng.Intn(5) == 0}
		r.in.sync = r.in.push && rng.Intn(3) == 0
		r.in.hesitate(rng)
		r.inSlice = !r.in.push && rng.Intn(4) == 0
		if !r.inSlice && rng.Intn(10) < o.errors {
			r.in.fail = fmt.Sprintf("input failure %d", i)
		}
		r.inDemand, r.inBatch = rng.Intn(2), 1+rng.Intn(4)
		r.inPieces = rng.Intn(3) == 0
		if r.demand == dMax && rng.Intn(6) == 0 {
			// nobody else waits for the lock of the subscriber
			d := time.Duration(1+rng.Intn(20)) * time.Millisecond
			r.in.before = func() { time.Sleep(d) }
		}
		if r.shape == cIndependent && rng.Intn(10) < o.cancels {
			r.inCancelAt = 1 + rng.Intn(5)
			r.inSlice = false
		}
		if r.shape == cIndependent && rng.Intn(3) == 0 {
			r.inDelay = pauseFn(rng)
		}
		if r.shape == cIgnore && rng.Intn(3) == 0 {
			r.noIn = true
		}
		if rng.Intn(6) == 0 {
			r.inBatch, r.inPieces = huge(rng), false
		}
	}
	switch {
	case rng.Intn(6) != 0:
	case r.demand == dBatch:
		r.batch = huge(rng)
	case r.demand == dExplicit && len(r.grants) > 0:
		r.grants[rng.Intn(len(r.grants))] = huge(rng)
	}
	return r
}

// huge returns a number of items to ask for whose lower bits say little.
func huge(rng *rand.Rand) int {
	return 1<<[]int{7, 8, 15, 16, 16, 24, 30}[rng.Intn(7)] + rng.Intn(3)
}

func (w *world) honour(f refs.Frame) (bool, bool) {
	if len(f.Data) < 4 {
		return false, false
	}
	i := int(binary.BigEndian.Uint32(f.Data))
	if i >= len(w.reqs) {
		return false, false
	}
	r := w.reqs[i]
	if r.kind != kRS && r.kind != kRC {
		return false, false
	}
	out := !r.src.push
	if r.kind == kRC && (r.shape == cSum || r.shape == cEcho && r.in.push) {
		out = false
	}
	return out, r.in != nil && !r.in.push
}

// connect sets up the connection and both sides.
func (w *world) connect(sides int) {
	if w.dial != nil && sides == 2 {
		w.dial()
		return
	}
	rng := w.rng
	mk := func() *duct {
		k := []int{1, 3, 7, 50, 1000, 1 << 20}[rng.Intn(6)]
		cr := rand.New(rand.NewSource(rng.Int63()))
		var cmu sync.Mutex
		chunk := func() int { return 1 + cr.Intn(k) }
		lat := time.Duration(0)
		if rng.Intn(2) == 0 {
			lat = time.Duration(rng.Intn(3000)) * time.Microsecond
		}
		delay := func() time.Duration {
			if lat == 0 {
				return 0
			}
			cmu.Lock()
			defer cmu.Unlock()
			return time.Duration(cr.Int63n(int64(lat) + 1))
		}
		return newDuct(chunk, delay)
	}
	w.ducts[0], w.ducts[1] = mk(), mk()
	w.ends[0] = &end{in: w.ducts[1], out: w.ducts[0]}
	w.ends[1] = &end{in: w.ducts[0], out: w.ducts[1]}
	for i := range w.ducts {
		w.ducts[i].tap = func(b []byte) { w.mon.bytes(i, b) }
	}
	for i := 0; i < sides; i++ {
		w.start(context.Background(), i)
	}
}

func (w *world) start(ctx context.Context, i int) {
	mode := handler.ClientMode
	if i == 1 {
		mode = handler.ServerMode
	}
	h := handler.New(ctx, mode)
	tp := rsocket.NewTransport(rsocket.NewTCPConn(w.ends[i]), h)
	h.SetFrameSender(func(f frames.Frame) error { return tp.Send(f, true) })
	w.h[i], w.tp[i] = h, tp
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		w.errs[i] = tp.Start(ctx)
		w.over[i].Store(true)
	}()
}

// ready makes the requests known to the operations.
func (w *world) ready() {
	if w.prep != nil {
		for _, r := range w.reqs {
			w.prep(r)
		}
	}
	cur.Store(w)
}

// launch makes the request in its own time.
func (w *world) launch(r *req) {
	if r.atClose {
		return
	}
	if r.reqGo != nil {
		r.reqGo(func() { w.issue(r) })
		return
	}
	w.wg.Add(1)
	go func() { defer w.wg.Done(); w.issue(r) }()
}

func (w *world) shutdown() {
	if w.hang != nil {
		w.hang()
	}
	for _, tp := range w.tp {
		if tp != nil {
			tp.Close()
		}
	}
	for _, r := range w.reqs {
		r.src.release()
		if r.in != nil {
			r.in.release()
		}
	}
	vlib.Settle()
	for i, tp := range w.tp {
		if tp != nil && !w.over[i].Load() {
			w.c.Failf("hang", "Start of side %d does not return although its connection is closed", i)
		}
	}
	w.wg.Wait()
	cur.Store(nil)
}

func newWorld(c *vlib.C) *world {
	w := &world{c: c, rng: c.Rng, mon: newWireMon()}
	w.mon.honour = w.honour
	return w
}

// run makes all requests at once and lets virtual time pass until nothing
// moves any more.
func (w *world) run(o opts) {
	for i := 0; i < o.n; i++ {
		w.reqs = append(w.reqs, w.genReq(i, o))
	}
	w.ready()
	w.begun = time.Now()
	w.connect(2)
	for _, r := range w.reqs {
		w.launch(r)
	}
	time.Sleep(time.Hour)
	vlib.Settle()
}

// ---- what each request must have led to when nothing went wrong ----

func (w *world) failf(r *req, class, f string, a ...any) {
	w.c.Failf(class, "%s %d (op %d, from side %d): %s\n%s\nwire: %v", kindName[r.kind], r.i, r.op, r.from, sprintf(f, a...), r.describe(), w.wireOf(r))
}

// wireOf is what was seen on the wire of the stream of r.
func (w *world) wireOf(r *req) string {
	w.mon.mu.Lock()
	defer w.mon.mu.Unlock()
	s := ""
	for id, st := range w.mon.streams {
		if st.req == r.i {
			s += sprintf(" #%d%s", id, st.log)
		}
	}
	return s
}

func (r *req) describe() string {
	s := sprintf("plan: items=%d fail=%q push=%v endless=%v demand=%d batch=%d grants=%v cancelAt=%d conc=%v", len(r.src.items), r.src.fail, r.src.push, r.src.endless,
		r.demand, r.batch, r.grants, r.cancelAt, r.cancelConc != nil)
	if r.in != nil {
		s += sprintf(" shape=%d in=%d infail=%q slice=%v noIn=%v inDemand=%d/%d inCancelAt=%d", r.shape, len(r.in.items), r.in.fail, r.inSlice, r.noIn, r.inDemand, r.inBatch, r.inCancelAt)
	}
	return s + sprintf("; seen: invoked=%d got=%d %s finals=%v errs=%q; input: %d %s %v %q", len(r.invoked), len(r.res.got), r.res.order, r.res.finals, r.res.errs,
		len(r.inLog.got), r.inLog.order, r.inLog.finals, r.inLog.errs)
}

func sum(v []int) (s int) {
	for _, x := range v {
		s += x
	}
	return
}

func (w *world) prefix(r *req, what string, got, want []pl) {
	for k, g := range got {
		if k >= len(want) {
			w.failf(r, "delivery", "%s: %d payloads delivered, only %d sent", what, len(got), len(want))
			return
		}
		if !g.eq(want[k]) {
			w.failf(r, "delivery", "%s: payload %d is %v, want %v", what, k, g, want[k])
			return
		}
	}
	w.c.Count("payloads", len(got))
}

func (w *world) checkInvoked(r *req, min int) bool {
	if len(r.invoked) < min || len(r.invoked) > 1 {
		w.failf(r, "invocation", "the operation was invoked %d times", len(r.invoked))
		return false
	}
	if len(r.invoked) == 0 {
		return false
	}
	if r.ops[0] != r.op {
		w.failf(r, "invocation", "operation %d was invoked", r.ops[0])
	}
	g := r.invoked[0]
	md := r.metadata()
	if !bytes.Equal(g.data, r.data) || !(bytes.Equal(g.md, md) || bytes.Equal(g.md, md[8:])) {
		w.failf(r, "invocation", "the operation got %v, want %v", g, pl{r.data, md})
	}
	w.c.Count("invocations", 1)
	return true
}

// terminal checks the final callbacks of l: sig is the expected signal.
func (w *world) terminal(r *req, what string, l *sinkLog, sig rx.SignalType, msg string, finals int) {
	order := map[rx.SignalType]string{rx.SignalComplete: "CF", rx.SignalError: "EF", rx.SignalCancel: "F"}[sig]
	if l.order != order || len(l.finals) != finals || l.finals[0] != sig {
		w.failf(r, "terminal", "%s: final callbacks %q %v, want %q with %v", what, l.order, l.finals, order, sig)
		return
	}
	if sig == rx.SignalError && msg != "" && l.errs[0] != msg {
		w.failf(r, "error-text", "%s: error %q, want %q", what, l.errs[0], msg)
	}
	if l.late > 0 && sig != rx.SignalCancel || l.late > 1 {
		w.failf(r, "after-end", "%s: %d payloads delivered after the final signal", what, l.late)
	}
	if l.afterCan > 1 {
		w.failf(r, "after-cancel", "%s: %d payloads delivered after Cancel had returned", what, l.afterCan)
	}
	w.c.Count("ends_"+sig.String(), 1)
}

func (w *world) silent(r *req, what string, l *sinkLog) {
	if l.order != "" {
		w.failf(r, "terminal", "%s: final callbacks %q %v before the end", what, l.order, l.finals)
	}
}

// check is the verdict about a request on a connection without faults.
func (w *world) check(r *req) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.mu.Lock()
	defer r.res.mu.Unlock()
	r.inLog.mu.Lock()
	defer r.inLog.mu.Unlock()
	r.src.mu.Lock()
	defer r.src.mu.Unlock()
	if r.in != nil {
		r.in.mu.Lock()
		defer r.in.mu.Unlock()
	}
	w.c.Count("requests_"+kindName[r.kind], 1)
	// Operations that block hold up nobody else.
	if r.long {
		w.c.Count("blocking_operations", 1)
	} else if !w.begun.IsZero() && len(r.res.finals) > 0 && r.res.at.Sub(w.begun) > longTime*2/3 {
		w.failf(r, "stalled", "ended %v after the start, while other operations blocked", r.res.at.Sub(w.begun))
	}
	if !w.begun.IsZero() && !r.promptly.IsZero() && r.promptly.Sub(w.begun) > longTime*2/3 {
		w.failf(r, "stalled", "invoked %v after the start, while other operations blocked", r.promptly.Sub(w.begun))
	}
	if r.badOp != 0 || r.shortMeta >= 0 {
		if len(r.invoked) != 0 {
			w.failf(r, "invocation", "an operation was invoked for an invalid request")
		}
		if r.kind == kFNF {
			w.silent(r, "result", &r.res)
			return
		}
		if r.demand == dExplicit && len(r.grants) == 0 {
			return
		}
		msg := "not_found"
		if r.shortMeta >= 0 {
			msg = "Invalid metadata"
		}
		if r.cancelConc != nil && r.res.order == "F" {
			w.terminal(r, "result", &r.res, rx.SignalCancel, "", 1)
			return
		}
		w.terminal(r, "result", &r.res, rx.SignalError, msg, 1)
		if len(r.res.got) != 0 {
			w.failf(r, "delivery", "payloads delivered for an invalid request")
		}
		w.c.Count("refused_requests", 1)
		return
	}
	cancelledEarly := r.cancelConc != nil
	min := 1
	if cancelledEarly {
		min = 0
	}
	if !w.checkInvoked(r, min) && !cancelledEarly {
		return
	}
	switch r.kind {
	case kFNF:
		return
	case kRR:
		if r.failRR != "" {
			w.terminal(r, "response", &r.res, rx.SignalError, r.failRR, 1)
			if len(r.res.got) != 0 {
				w.failf(r, "delivery", "a payload was delivered for a failed request")
			}
			return
		}
		w.terminal(r, "response", &r.res, rx.SignalComplete, "", 1)
		if len(r.res.got) != 1 {
			w.failf(r, "delivery", "%d responses", len(r.res.got))
			return
		}
		w.prefix(r, "response", r.res.got, []pl{r.answer})
		return
	}
	want, fail, push, endless := r.source()
	w.prefix(r, "result", r.res.got, want)
	reach := len(want)
	limited := false
	if r.demand == dExplicit && !push && sum(r.grants) < reach {
		reach, limited = sum(r.grants), true
	}
	ended := !limited && !endless
	// echo of a slice ends as soon as the slice is used up
	cancelled := false
	switch {
	case r.cancelAt > 0 && r.cancelAt <= reach:
		cancelled = true
		w.terminal(r, "result", &r.res, rx.SignalCancel, "", 1)
		if len(r.res.got) != r.cancelAt {
			w.failf(r, "after-cancel", "%d payloads delivered, cancelled in number %d", len(r.res.got), r.cancelAt)
		}
	case r.cancelConc != nil && len(r.res.finals) == 1 && r.res.finals[0] == rx.SignalCancel:
		cancelled = true
		w.terminal(r, "result", &r.res, rx.SignalCancel, "", 1)
	default:
		if len(r.res.got) != reach {
			w.failf(r, "delivery", "%d of %d payloads delivered", len(r.res.got), reach)
		}
		switch {
		case r.cancelConc != nil && !ended:
			w.failf(r, "terminal", "the cancelled stream has not ended")
		case !ended:
			w.silent(r, "result", &r.res)
		case fail != "":
			w.terminal(r, "result", &r.res, rx.SignalError, fail, 1)
		default:
			w.terminal(r, "result", &r.res, rx.SignalComplete, "", 1)
		}
	}
	usesSrc := r.kind == kRS || r.shape == cIndependent || r.shape == cIgnore
	if usesSrc && !(r.how == 1 && fail != "" && len(want) == 0) {
		if cancelled && r.src.runs == 1 && !r.src.ended && !(r.src.endless && r.src.emitted == len(r.src.items)) && r.src.cancels != 1 {
			w.failf(r, "producer-cancel", "the producer was told %d times that its stream is cancelled (%d of %d emitted)", r.src.cancels, r.src.emitted, len(r.src.items))
		}
		if cancelled && r.src.runs == 1 && !r.src.ended && r.src.cancels != 1 {
			w.failf(r, "producer-cancel", "the producer was told %d times that its stream is cancelled", r.src.cancels)
		}
		if cancelled && r.src.runs == 1 {
			w.c.Count("producers_cancelled", 1)
		}
		if !cancelled && r.src.cancels != 0 {
			w.failf(r, "producer-cancel", "the producer was cancelled although the requester never cancelled")
		}
		if r.src.runs != 1 && !(cancelled && r.src.runs == 0) {
			w.failf(r, "subscriptions", "the producer was subscribed to %d times", r.src.runs)
		}
		if r.demand == dExplicit && limited && !cancelled && r.src.asked != sum(r.grants) {
			w.failf(r, "demand", "the requester asked for %d, the producer for %d", sum(r.grants), r.src.asked)
		}
		if r.demand == dBatch && r.src.asked > r.batch*(1+len(r.res.got)/r.batch) {
			w.failf(r, "demand", "batches of %d, %d delivered, but the producer was asked for %d", r.batch, len(r.res.got), r.src.asked)
		}
		w.c.Count("demand_checked", 1)
	}
	if r.kind == kRC && !r.noIn {
		w.checkInput(r, cancelled, ended, fail, limited)
	}
}

// checkInput is the verdict about the requester's payloads of a channel.
func (w *world) checkInput(r *req, cancelled, ended bool, fail string, limited bool) {
	w.prefix(r, "input", r.inLog.got, r.in.items)
	w.wholeInput(r)
	broken := cancelled || ended && fail != "" // the response broke the stream off
	if broken {
		if cancelled && !r.inSlice && r.in.runs == 1 && !r.in.ended && r.in.cancels != 1 {
			w.failf(r, "input-cancel", "the requester's input was cancelled %d times when its channel was", r.in.cancels)
		}
		if !cancelled && r.shape != cEcho && r.shape != cSum && !r.inSlice && r.in.runs == 1 && !r.in.ended && r.in.cancels != 1 {
			w.failf(r, "input-cancel", "the requester's input was cancelled %d times when its channel failed", r.in.cancels)
		}
		// A response which failed has ended the channel before the
		// cancellation could arrive.
		failed := r.shape == cIndependent && fail != "" && (r.src.ended || r.how == 1)
		if cancelled && !failed && r.shape != cEcho && r.shape != cIgnore && len(r.invoked) == 1 && len(r.inLog.finals) != 1 {
			w.failf(r, "input-terminal", "the input of the cancelled channel ended %d times", len(r.inLog.finals))
		}
		return
	}
	switch r.shape {
	case cIgnore:
		if len(r.inLog.got) != 0 || r.in.emitted != 0 && !r.in.push {
			w.failf(r, "demand", "input was sent although the operation never asked for any")
		}
		return
	case cEcho:
		return // the result says it all
	}
	inCancelled := r.shape == cIndependent && r.inCancelAt > 0 && r.inCancelAt <= len(r.in.items)
	if inCancelled {
		w.terminal(r, "input", &r.inLog, rx.SignalCancel, "", 1)
		if len(r.inLog.got) != r.inCancelAt {
			w.failf(r, "after-cancel", "%d input payloads delivered, cancelled in number %d", len(r.inLog.got), r.inCancelAt)
		}
		if !r.in.ended && r.in.cancels != 1 {
			w.failf(r, "input-cancel", "the requester's input was cancelled %d times by the operation", r.in.cancels)
		}
		w.c.Count("inputs_cancelled", 1)
		return
	}
	if r.shape == cIndependent && r.inDemand == dBatch && !r.inSlice && r.in.asked > r.inBatch*(1+len(r.inLog.got)/r.inBatch) {
		w.failf(r, "demand", "batches of %d, %d delivered, but the input was asked for %d", r.inBatch, len(r.inLog.got), r.in.asked)
	}
	if len(r.inLog.got) != len(r.in.items) {
		w.failf(r, "delivery", "%d of %d input payloads delivered", len(r.inLog.got), len(r.in.items))
	}
	if r.in.fail != "" {
		w.terminal(r, "input", &r.inLog, rx.SignalError, r.in.fail, 1)
	} else {
		w.terminal(r, "input", &r.inLog, rx.SignalComplete, "", 1)
	}
	if r.in.cancels != 0 {
		w.failf(r, "input-cancel", "the requester's input was cancelled by nobody")
	}
	w.c.Count("inputs_checked", 1)
}

// verdict checks every request and the frames on the wire.
func (w *world) verdict() {
	for _, r := range w.reqs {
		w.check(r)
	}
	for i := range w.over {
		if w.over[i].Load() {
			w.c.Failf("connection", "the connection of side %d ended: %v", i, w.errs[i])
		}
	}
	if n := w.unknown.Load(); n != 0 {
		w.c.Failf("invocation", "%d invocations which nobody requested", n)
	}
	w.mon.mu.Lock()
	defer w.mon.mu.Unlock()
	for _, b := range w.mon.bad {
		w.c.Failf("wire", "%s", b)
	}
	w.c.Count("frames", w.mon.frames)
	fp := ""
	for _, l := range w.mon.log {
		fp += l
	}
	w.c.Nontrivial("%s", fp)
	w.c.Sample("%d requests, %d frames: %s", len(w.reqs), w.mon.frames, fp)
}

// mixOn runs requests on a connection without faults.
func mixOn(o opts, mk func(c *vlib.C) *world) func(c *vlib.C) {
	return func(c *vlib.C) {
		w := mk(c)
		o := o
		o.n = 1 + c.Rng.Intn(o.n)
		w.run(o)
		w.verdict()
		w.shutdown()
	}
}
