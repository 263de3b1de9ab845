//go:build go1.23

package e2e

import (
	"context"
	"encoding/binary"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// growth repeats one kind of exchange with a scripted peer hundreds of times
// and compares what is allocated before and after: whatever stays behind of an
// exchange which has ended shows up once per repetition. Unlike leak this needs
// no hold on the objects of the exchange, so it also covers requests which are
// refused before anything of this harness is involved.

// growth keeps nothing of past exchanges itself.
type growth struct {
	w    *world
	own  int
	rng  *rand.Rand
	post func(func()) // runs a task where the real side does, nil: anywhere

	mu   sync.Mutex
	got  []refs.Frame // sent by the real side in the current exchange
	ends string       // how the callers of the current exchange ended
	next uint32
	auto func(f refs.Frame)

	n    int // payloads per direction
	size int
	pad  int
}

func (x *growth) step() {
	time.Sleep(20 * time.Millisecond)
	vlib.Settle()
}

func (x *growth) put(f refs.Frame) {
	x.w.ends[1-x.own].Write(refs.Prefixed(refs.EncodeFrame(f)))
}

func (x *growth) cutRequest(t int, id uint32, flags int, cut bool) {
	f := refs.Frame{Type: t, StreamID: id, Metadata: make([]byte, 8), Data: []byte("abc"), N: 5}
	b := refs.EncodeFrameFlags(f, flags|refs.FMetadata)
	if cut {
		at := 6
		if t >= refs.TRequestStream {
			at += 4
		}
		b[at+1] = 200
	}
	x.w.ends[1-x.own].Write(refs.Prefixed(b))
}

func (x *growth) read() {
	e := x.w.ends[1-x.own]
	var hdr [3]byte
	for {
		if _, err := io.ReadFull(e, hdr[:]); err != nil {
			return
		}
		b := make([]byte, int(hdr[0])<<16|int(hdr[1])<<8|int(hdr[2]))
		if _, err := io.ReadFull(e, b); err != nil {
			return
		}
		f, _, ok := refs.DecodeFrame(b)
		if !ok {
			x.w.c.Failf("wire", "a frame is none: %x", b[:min(len(b), 60)])
			continue
		}
		x.mu.Lock()
		if len(x.got) < 1000 {
			x.got = append(x.got, f)
		}
		auto := x.auto
		x.mu.Unlock()
		if auto != nil {
			auto(f)
		}
	}
}

// id is that of the request the real side has made in this exchange.
func (x *growth) id() uint32 {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, f := range x.got {
		if f.Type >= refs.TRequestResponse && f.Type <= refs.TRequestChannel {
			return f.StreamID
		}
	}
	return 0
}

func (x *growth) source(n int, fail string, endless bool) *psource {
	s := &psource{fail: fail, endless: endless, step: func() {}, post: x.post}
	for i := 0; i < n; i++ {
		s.items = append(s.items, pl{data: make([]byte, x.size)})
	}
	return s
}

// The operations do what the first byte of the request says.
const (
	gJust = iota
	gError
	gLater
	gItems
	gEndless
	gFail
	gEcho
	gIgnore
	gStop
	gFirst
)

// plainOps serve what belongs to no request of a world.
type plainOps struct {
	rr func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload]
	rs func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload]
	rc func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

type gerr struct{}

func (gerr) Error() string { return "growth" }

func (x *growth) later(f func()) {
	if x.post != nil {
		x.post(f)
		return
	}
	go func() { time.Sleep(time.Millisecond); f() }()
}

func (x *growth) ops() *plainOps {
	mode := func(p payload.Payload) byte {
		if d := p.Data(); len(d) > 0 {
			return d[0]
		}
		return gItems
	}
	return &plainOps{
		rr: func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			switch mode(p) {
			case gError:
				return mono.Error[payload.Payload](gerr{})
			case gLater:
				return mono.Create(func(s mono.Sink[payload.Payload]) {
					x.later(func() { s.Success(payload.New(make([]byte, x.size))) })
				})
			case gFail:
				return mono.Create(func(s mono.Sink[payload.Payload]) { x.later(func() { s.Error(gerr{}) }) })
			}
			return mono.Just[payload.Payload](payload.New(make([]byte, x.size)))
		},
		rs: func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			switch mode(p) {
			case gError:
				return flux.Error[payload.Payload](gerr{})
			case gEndless:
				return x.source(x.n, "", true).flux()
			case gFail:
				return x.source(x.n, "growth", false).flux()
			case gJust:
				return flux.FromSlice(make([]payload.Payload, 0))
			}
			return x.source(x.n, "", false).flux()
		},
		rc: func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			switch mode(p) {
			case gError:
				return flux.Error[payload.Payload](gerr{})
			case gIgnore:
				return x.source(x.n, "", false).flux()
			case gStop:
				in.Subscribe(flux.Subscribe[payload.Payload]{OnNext: func(payload.Payload) { in.Subscription().Cancel() }})
				return x.source(x.n, "", false).flux()
			case gEcho:
				return flux.Map(in, func(p payload.Payload) (payload.Payload, error) { return payload.New(p.Data()), nil })
			}
			in.Subscribe(flux.Subscribe[payload.Payload]{})
			switch mode(p) {
			case gEndless:
				return x.source(x.n, "", true).flux()
			case gFail:
				return x.source(x.n, "growth", false).flux()
			}
			return x.source(x.n, "", false).flux()
		},
	}
}

// request opens a stream of the peer.
func (x *growth) request(t int, mode byte, more func(f *refs.Frame)) uint32 {
	id := x.next
	x.next += 2
	f := refs.Frame{Type: t, StreamID: id, Metadata: make([]byte, 8), Data: append([]byte{mode}, make([]byte, x.pad)...), N: 1000}
	if more != nil {
		more(&f)
	}
	x.put(f)
	x.step()
	return id
}

func (x *growth) payloads(id uint32) {
	for i := 0; i < x.n; i++ {
		x.put(refs.Frame{Type: refs.TPayload, StreamID: id, Next: true, Data: make([]byte, x.size)})
	}
}

func (x *growth) complete(id uint32) {
	x.put(refs.Frame{Type: refs.TPayload, StreamID: id, Complete: true})
}

func (x *growth) fail(id uint32) {
	x.put(refs.Frame{Type: refs.TError, StreamID: id, N: 0x201, Data: []byte("peer")})
}

func (x *growth) cancel(id uint32) { x.put(refs.Frame{Type: refs.TCancel, StreamID: id}) }

func (x *growth) grant(id uint32, n uint32) {
	x.put(refs.Frame{Type: refs.TRequestN, StreamID: id, N: n})
}

func unknownOp(f *refs.Frame) { binary.BigEndian.PutUint32(f.Metadata, 12345) }
func shortMD(f *refs.Frame)   { f.Metadata = f.Metadata[:3] }

// on runs f where the real side's callers are.
func (x *growth) on(f func()) {
	if x.post != nil {
		x.post(f)
	} else {
		f()
	}
	x.step()
}

func (x *growth) req(mode byte, size int) payload.Payload {
	return payload.New(append([]byte{mode}, make([]byte, size)...), make([]byte, 8))
}

func (x *growth) end(s rx.SignalType) {
	x.mu.Lock()
	x.ends += "F"
	x.mu.Unlock()
}

func (x *growth) callRR(size int) {
	x.on(func() {
		x.w.h[x.own].RequestResponse(context.Background(), x.req(0, size)).Subscribe(mono.Subscribe[payload.Payload]{Finally: x.end})
	})
}

// callFlux subscribes to f. stop says after how many payloads it is cancelled,
// -1: at once, without any demand.
func (x *growth) callFlux(mk func() flux.Flux[payload.Payload], stop int) {
	x.on(func() {
		f := mk()
		n := 0
		f.Subscribe(flux.Subscribe[payload.Payload]{Finally: x.end, NoRequest: stop < 0, OnNext: func(payload.Payload) {
			if n++; n == stop {
				f.Subscription().Cancel()
			}
		}})
		if stop < 0 {
			f.Subscription().Cancel()
		}
	})
}

func (x *growth) callRS(size, stop int) {
	x.callFlux(func() flux.Flux[payload.Payload] {
		return x.w.h[x.own].RequestStream(context.Background(), x.req(0, size))
	}, stop)
}

func (x *growth) callRC(size, stop int, in flux.Flux[payload.Payload]) {
	x.callFlux(func() flux.Flux[payload.Payload] {
		return x.w.h[x.own].RequestChannel(context.Background(), x.req(0, size), in)
	}, stop)
}

type exchange struct {
	name string
	f    func(x *growth)
	want string // the real side's last frame on it: P(ayload), E(rror), C(ancel), empty: any
	ends string
}

const tooLarge = 20000 // more than fits between host and guest

// exchanges are all kinds of exchanges which end.
var exchanges = []exchange{
	// Served by the real side.
	{"rr served", func(x *growth) { x.request(refs.TRequestResponse, gJust, nil) }, "P", ""},
	{"rr served later", func(x *growth) { x.request(refs.TRequestResponse, gLater, nil); x.step() }, "P", ""},
	{"rr fails", func(x *growth) { x.request(refs.TRequestResponse, gError, nil) }, "E", ""},
	{"rr fails later", func(x *growth) { x.request(refs.TRequestResponse, gFail, nil); x.step() }, "E", ""},
	{"rr unknown", func(x *growth) { x.request(refs.TRequestResponse, gJust, unknownOp) }, "E", ""},
	{"rr short metadata", func(x *growth) { x.request(refs.TRequestResponse, gJust, shortMD) }, "E", ""},
	{"fnf served", func(x *growth) { x.request(refs.TRequestFNF, gJust, nil) }, "", ""},
	{"fnf unknown", func(x *growth) { x.request(refs.TRequestFNF, gJust, unknownOp) }, "", ""},
	{"fnf short metadata", func(x *growth) { x.request(refs.TRequestFNF, gJust, shortMD) }, "", ""},
	{"rs served", func(x *growth) { x.request(refs.TRequestStream, gItems, nil) }, "P", ""},
	{"rs empty", func(x *growth) { x.request(refs.TRequestStream, gJust, nil) }, "P", ""},
	{"rs fails", func(x *growth) { x.request(refs.TRequestStream, gFail, nil) }, "E", ""},
	{"rs fails at once", func(x *growth) { x.request(refs.TRequestStream, gError, nil) }, "E", ""},
	{"rs unknown", func(x *growth) { x.request(refs.TRequestStream, gItems, unknownOp) }, "E", ""},
	{"rs short metadata", func(x *growth) { x.request(refs.TRequestStream, gItems, shortMD) }, "E", ""},
	{"rs cancelled", func(x *growth) { x.cancel(x.request(refs.TRequestStream, gEndless, nil)) }, "P", ""},
	{"rs cancelled without demand", func(x *growth) {
		x.cancel(x.request(refs.TRequestStream, gEndless, func(f *refs.Frame) { f.N = 0 }))
	}, "", ""},
	{"rs granted one by one", func(x *growth) {
		id := x.request(refs.TRequestStream, gItems, func(f *refs.Frame) { f.N = 1 })
		for i := 0; i <= x.n; i++ {
			x.grant(id, 1)
			x.step()
		}
	}, "P", ""},
	{"rc served", func(x *growth) {
		id := x.request(refs.TRequestChannel, gItems, nil)
		x.payloads(id)
		x.complete(id)
	}, "", ""},
	{"rc input first", func(x *growth) {
		id := x.request(refs.TRequestChannel, gItems, func(f *refs.Frame) { f.N = 0 })
		x.payloads(id)
		x.complete(id)
		x.step()
		x.grant(id, 1000)
	}, "P", ""},
	{"rc echoed", func(x *growth) {
		id := x.request(refs.TRequestChannel, gEcho, nil)
		x.payloads(id)
		x.complete(id)
	}, "P", ""},
	{"rc ends in the request", func(x *growth) {
		x.request(refs.TRequestChannel, gItems, func(f *refs.Frame) { f.Complete = true })
	}, "", ""},
	{"rc ends in the request, echoed", func(x *growth) {
		x.request(refs.TRequestChannel, gEcho, func(f *refs.Frame) { f.Complete = true })
	}, "", ""},
	{"rc input ignored", func(x *growth) {
		id := x.request(refs.TRequestChannel, gIgnore, nil)
		x.payloads(id)
		x.complete(id)
	}, "", ""},
	{"rc fails", func(x *growth) { x.payloads(x.request(refs.TRequestChannel, gFail, nil)) }, "", ""},
	{"rc fails at once", func(x *growth) { x.request(refs.TRequestChannel, gError, nil) }, "E", ""},
	{"rc requester fails", func(x *growth) {
		id := x.request(refs.TRequestChannel, gEndless, nil)
		x.payloads(id)
		x.fail(id)
		x.step()
		x.cancel(id) // only its own direction is over
	}, "", ""},
	{"rc cancelled", func(x *growth) {
		id := x.request(refs.TRequestChannel, gEndless, nil)
		x.payloads(id)
		x.cancel(id)
		x.step()
		x.complete(id)
	}, "", ""},
	{"rc cancelled after the input", func(x *growth) {
		id := x.request(refs.TRequestChannel, gEndless, nil)
		x.complete(id)
		x.step()
		x.cancel(id)
	}, "", ""},
	{"rc stops its input", func(x *growth) {
		id := x.request(refs.TRequestChannel, gStop, nil)
		x.payloads(id)
		x.step()
		x.complete(id)
	}, "", ""},
	{"rc unknown", func(x *growth) { x.request(refs.TRequestChannel, gItems, unknownOp) }, "E", ""},
	{"rc short metadata", func(x *growth) { x.request(refs.TRequestChannel, gItems, shortMD) }, "E", ""},
	{"nothing", func(x *growth) {
		for _, id := range []uint32{900001, 900002} {
			x.payloads(id)
			x.grant(id, 3)
			x.cancel(id)
			x.fail(id)
			x.complete(id)
		}
	}, "", ""},
	// Requested by the real side.
	{"rr answered", func(x *growth) {
		x.callRR(x.pad)
		x.put(refs.Frame{Type: refs.TPayload, StreamID: x.id(), Next: true, Complete: true, Data: make([]byte, x.size)})
	}, "", "F"},
	{"rr refused", func(x *growth) { x.callRR(x.pad); x.fail(x.id()) }, "", "F"},
	{"rr completed", func(x *growth) { x.callRR(x.pad); x.complete(x.id()) }, "", "F"},
	{"rs answered", func(x *growth) { x.callRS(x.pad, 0); x.payloads(x.id()); x.complete(x.id()) }, "", "F"},
	{"rs refused", func(x *growth) { x.callRS(x.pad, 0); x.payloads(x.id()); x.fail(x.id()) }, "", "F"},
	{"rs given up", func(x *growth) { x.callRS(x.pad, 1); x.payloads(x.id()) }, "C", "F"},
	{"rs given up at once", func(x *growth) { x.callRS(x.pad, -1) }, "", "F"},
	{"rc answered", func(x *growth) {
		x.callRC(x.pad, 0, x.source(x.n, "", false).flux())
		id := x.id()
		x.grant(id, 1000)
		x.step()
		x.payloads(id)
		x.complete(id)
	}, "P", "F"},
	{"rc answered first", func(x *growth) {
		x.callRC(x.pad, 0, x.source(x.n, "", false).flux())
		id := x.id()
		x.payloads(id)
		x.complete(id)
		x.step()
		x.grant(id, 1000)
	}, "P", "F"},
	{"rc input unwanted", func(x *growth) {
		x.callRC(x.pad, 0, x.source(x.n, "", true).flux())
		id := x.id()
		x.grant(id, 1)
		x.step()
		x.cancel(id)
		x.payloads(id)
		x.complete(id)
	}, "", "F"},
	{"rc refused", func(x *growth) {
		x.callRC(x.pad, 0, x.source(x.n, "", true).flux())
		id := x.id()
		x.grant(id, 1)
		x.step()
		x.fail(id)
	}, "", "F"},
	{"rc given up", func(x *growth) {
		x.callRC(x.pad, 1, x.source(x.n, "", true).flux())
		id := x.id()
		x.grant(id, 1)
		x.step()
		x.payloads(id)
	}, "C", "F"},
	{"rc given up at once", func(x *growth) { x.callRC(x.pad, -1, x.source(x.n, "", true).flux()) }, "", "F"},
	{"rc without input", func(x *growth) {
		x.callRC(x.pad, 0, flux.FromSlice([]payload.Payload{}))
		id := x.id()
		x.grant(id, 1000)
		x.step()
		x.complete(id)
	}, "P", "F"},
}

// bounded are exchanges which end where frames cannot have any size.
var bounded = []exchange{
	{"rr request too large", func(x *growth) { x.callRR(tooLarge) }, "", "F"},
	{"rs request too large", func(x *growth) { x.callRS(tooLarge, 0) }, "", "F"},
	{"rc request too large", func(x *growth) { x.callRC(tooLarge, 0, x.source(x.n, "", true).flux()) }, "", "F"},
	{"rr response too large", func(x *growth) {
		x.size = tooLarge
		x.request(refs.TRequestResponse, gJust, nil)
	}, "E", ""},
	{"rs response too large", func(x *growth) {
		x.size = tooLarge
		x.request(refs.TRequestStream, gItems, nil)
	}, "E", ""},
	{"rc response too large", func(x *growth) {
		x.size = tooLarge
		x.request(refs.TRequestChannel, gItems, nil)
	}, "", ""},
	{"rc input too large", func(x *growth) {
		x.size = tooLarge
		x.callRC(x.pad, 0, x.source(x.n, "", false).flux())
		x.grant(x.id(), 1000)
		x.step()
		x.complete(x.id())
	}, "E", "F"},
	{"rr fragmented", func(x *growth) {
		x.cutRequest(refs.TRequestResponse, x.next, refs.FFollows, false)
		x.next += 2
	}, "E", ""},
	{"rs fragmented", func(x *growth) {
		x.cutRequest(refs.TRequestStream, x.next, refs.FFollows, false)
		x.next += 2
	}, "E", ""},
	{"rc fragmented", func(x *growth) {
		x.cutRequest(refs.TRequestChannel, x.next, refs.FFollows, false)
		x.next += 2
	}, "E", ""},
	{"rr cut", func(x *growth) { x.cutRequest(refs.TRequestResponse, x.next, 0, true); x.next += 2 }, "E", ""},
	{"rs cut", func(x *growth) { x.cutRequest(refs.TRequestStream, x.next, 0, true); x.next += 2 }, "E", ""},
	{"rc cut", func(x *growth) { x.cutRequest(refs.TRequestChannel, x.next, 0, true); x.next += 2 }, "E", ""},
}

// open are exchanges which do not end: what they need has to show.
var open = []exchange{
	{"rs open", func(x *growth) { x.request(refs.TRequestStream, gEndless, nil) }, "P", ""},
	{"rc half open", func(x *growth) { x.complete(x.request(refs.TRequestChannel, gEndless, nil)) }, "", ""},
	{"rr unanswered", func(x *growth) { x.callRR(x.pad) }, "", ""},
	{"rs unanswered", func(x *growth) { x.callRS(x.pad, 0) }, "", ""},
}

func objects() (n, bytes int) {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		vlib.Settle()
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int(m.HeapObjects), int(m.HeapAlloc)
}

func lastLetter(fs []refs.Frame) string {
	if len(fs) == 0 {
		return ""
	}
	switch fs[len(fs)-1].Type {
	case refs.TPayload:
		return "P"
	case refs.TError:
		return "E"
	case refs.TCancel:
		return "C"
	}
	return "?"
}

// growthOn has side own of w, which start sets up, repeat exchanges.
func growthOn(w *world, own int, start func(ctx context.Context, own int), post func(func()), small bool) {
	c := w.c
	all := exchanges
	if small {
		all = append(append([]exchange(nil), exchanges...), bounded...)
	}
	k := c.Idx % (len(all) + 1)
	control := k == len(all)
	var ex exchange
	if control {
		ex = open[w.rng.Intn(len(open))]
	} else {
		ex = all[k]
	}
	w.connect(0)
	for i := range w.ducts {
		w.ducts[i].tap = nil
	}
	x := &growth{w: w, own: own, rng: w.rng, post: post, next: uint32(1 + (1 - own)), n: 1 + w.rng.Intn(4), size: w.rng.Intn(200), pad: w.rng.Intn(200)}
	size := x.size
	w.lean = x.ops()
	w.ready()
	start(context.Background(), own)
	go x.read()
	defer func() {
		w.lean = nil
		w.ends[0].Close()
		w.ends[1].Close()
		w.shutdown()
	}()
	stray := w.rng.Intn(2) == 0 && !control
	seen := ""
	repeat := func(n int) bool {
		for i := 0; i < n; i++ {
			x.mu.Lock()
			x.got, x.ends = nil, ""
			x.mu.Unlock()
			x.size = size
			from := x.next
			ex.f(x)
			x.step()
			id := x.id()
			if x.next != from {
				id = from
			}
			x.mu.Lock()
			last, ends, got := lastLetter(x.got), x.ends, x.got
			x.mu.Unlock()
			seen = sprintf("%v, its caller ended %q", brief(got), ends)
			if ex.want != "" && last != ex.want || ends != ex.ends {
				c.Failf("exchange", "%s: the frames %v and %q at the caller, want a final %s and %q", ex.name, brief(got), ends, ex.want, ex.ends)
				return false
			}
			if stray && id != 0 {
				// Frames which come too late.
				for _, f := range script(x.rng, id, 1+x.rng.Intn(3)) {
					x.put(f)
				}
				x.step()
			}
		}
		x.mu.Lock()
		x.got, x.ends = nil, ""
		x.mu.Unlock()
		return true
	}
	const warm, count = 40, 300
	if !repeat(warm) {
		return
	}
	// What is left of an exchange is at least an object. Growth which is no
	// leak, such as that of a queue, does not come again.
	rounds, grown, gone := 0, 0, 0
	var n, b, g int
	for rounds < 3 && rounds == grown || rounds == 0 {
		n0, b0 := objects()
		g0 := runtime.NumGoroutine()
		if !repeat(count) {
			return
		}
		n1, b1 := objects()
		rounds++
		n, b, g = n1-n0, b1-b0, runtime.NumGoroutine()-g0
		if n >= count*9/10 || g >= count*9/10 {
			grown++
		}
		if g >= count*9/10 {
			gone++
		}
	}
	switch {
	case control:
		c.Count("controls", 1)
		if grown == rounds {
			c.Count("controls_seen", 1)
		}
	case grown == rounds && gone == rounds:
		c.Failf("growth", "%d exchanges (%s) on a living connection left %d goroutines behind", count, ex.name, g)
	case grown == rounds:
		c.Failf("growth", "%d exchanges (%s, %d payloads of %d) on a living connection left %d objects (%d bytes) behind; the frames of one are %s", count, ex.name, x.n, size, n, b, seen)
	default:
		c.Count("exchanges", count)
	}
	c.Nontrivial("%s %v %d %d", ex.name, stray, x.n, size)
	c.Sample("%s, stray frames %v, %d payloads of %d bytes", ex.name, stray, x.n, size)
}

func growing(c *vlib.C) {
	w := newWorld(c)
	growthOn(w, w.rng.Intn(2), w.start, nil, false)
}
