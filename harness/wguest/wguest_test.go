//go:build go1.23

// Package wguest monitors the real guest packages compiled to WebAssembly and
// run by the real host on the real runtime.
package wguest

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

func TestCheck(t *testing.T) {
	vlib.Run(t, map[string]func(r *vlib.R){
		"P36": func(r *vlib.R) {
			r.Bubble("mix", r.N(2400, 40000), mix)
			r.Bubble("components", r.N(600, 10000), components)
		},
		"P41": func(r *vlib.R) {
			r.Bubble("mix", r.N(3000, 60000), rmix)
		},
	})
}

// module is the guest, compiled once. Go's reactors are started by another
// name than TinyGo's.
var module = sync.OnceValue(func() *host.Module { return compile("gguest.wasm") })

func compile(name string) *host.Module {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_WORK"), name))
	if err != nil {
		panic(err)
	}
	b = bytes.ReplaceAll(b, []byte("_initialize"), []byte("wasmrs_init"))
	ctx := context.Background()
	h, err := host.New(ctx)
	if err != nil {
		panic(err)
	}
	m, err := h.Compile(ctx, b)
	if err != nil {
		panic(err)
	}
	return m
}

type pl struct{ data, md []byte }

func (p pl) eq(q pl) bool { return bytes.Equal(p.data, q.data) && bytes.Equal(p.md, q.md) }

func brief(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)..%x", b[:12], len(b), b[len(b)-12:])
	}
	return fmt.Sprintf("%x", b)
}

func (p pl) String() string { return brief(p.data) + "/" + brief(p.md) }

func (p pl) payload() payload.Payload {
	return payload.New(bytes.Clone(p.data), bytes.Clone(p.md))
}

func copyOf(p payload.Payload) pl { return pl{bytes.Clone(p.Data()), bytes.Clone(p.Metadata())} }

// plan is what a request asks the guest, or the guest the host, for.
type plan struct {
	mode            byte
	n, failAt, size int
	id              uint32
	rest            []byte
}

func (p plan) bytes() []byte {
	b := []byte{p.mode}
	for _, v := range []uint32{uint32(p.n), uint32(int32(p.failAt)), uint32(p.size), p.id} {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	return append(b, p.rest...)
}

func parse(b []byte) plan {
	at := func(i int) int { return int(int32(binary.BigEndian.Uint32(b[i:]))) }
	return plan{b[0], at(1), at(5), at(9), binary.BigEndian.Uint32(b[13:]), b[17:]}
}

func (p plan) item(i int) pl {
	b := make([]byte, p.size)
	for k := range b {
		b[k] = byte(int(p.id) + i*7 + k)
	}
	return pl{binary.BigEndian.AppendUint32(b, uint32(i)), []byte{byte(i), byte(p.id)}}
}

func (p plan) failure() string { return fmt.Sprintf("failure %d of %d", p.failAt, p.id) }

// items are those before the failure, and the failure.
func (p plan) items() (l []pl, fail string) {
	for i := 0; i < p.n; i++ {
		if i == p.failAt {
			return l, p.failure()
		}
		l = append(l, p.item(i))
	}
	if p.failAt == p.n {
		fail = p.failure()
	}
	return l, fail
}

// mapped is what the guest makes of items which end with fail.
func (p plan) mapped(in []pl, fail string) (l []pl, f string) {
	for i, x := range in {
		if i == p.failAt {
			return l, p.failure()
		}
		l = append(l, pl{append([]byte("mapped "), x.data...), x.md})
	}
	return l, fail
}

// source produces the items of a plan as far as it is asked to.
type source struct {
	p   plan
	log *log

	mu      sync.Mutex
	asked   int
	emitted int
	cancels int
	ended   bool
	wake    chan struct{}
}

// endless is how many items a source has which has to be cancelled.
const endless = 4000

func newSource(p plan) *source { return &source{p: p, wake: make(chan struct{}, 1)} }

func (s *source) kick() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (s *source) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) { s.mu.Lock(); s.asked += n; s.mu.Unlock(); s.kick() },
			Cancel:  func() { s.mu.Lock(); s.cancels++; s.mu.Unlock(); s.kick() },
		})
		go func() {
			l, fail := s.p.items()
			for _, x := range l {
				time.Sleep(time.Duration(s.p.id%5) * 37 * time.Microsecond)
				if len(l) == endless {
					time.Sleep(50 * time.Microsecond)
				}
				for {
					s.mu.Lock()
					stop, ok := s.cancels > 0, s.asked > s.emitted
					if ok && !stop {
						s.emitted++
					}
					s.mu.Unlock()
					if stop {
						return
					}
					if ok {
						break
					}
					<-s.wake
				}
				sink.Next(x.payload())
			}
			s.mu.Lock()
			stop := s.cancels > 0
			s.ended = !stop
			s.mu.Unlock()
			switch {
			case stop:
			case fail != "":
				sink.Error(errors.New(fail))
			default:
				sink.Complete()
			}
		}()
	})
}

func (s *source) cancelled() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.cancels > 0 }

// log is what a subscriber has seen.
type log struct {
	mu     sync.Mutex
	got    []pl
	order  string // C complete, E error, F final notification
	err    string
	late   int
	signal rx.SignalType
}

func (l *log) add(s string) {
	l.mu.Lock()
	l.order += s
	l.mu.Unlock()
}

func (l *log) next(p payload.Payload) int {
	q := copyOf(p)
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.order != "" {
		l.late++
	}
	l.got = append(l.got, q)
	return len(l.got)
}

func (l *log) failed(err error) {
	l.mu.Lock()
	l.err = err.Error()
	l.order += "E"
	l.mu.Unlock()
}

func (l *log) final(s rx.SignalType) {
	l.mu.Lock()
	l.order += "F"
	l.signal = s
	l.mu.Unlock()
}

// world is an instance of the guest and everything known about it.
type world struct {
	c    *vlib.C
	rng  *rand.Rand
	inst *host.Instance
	ops  map[string]uint32 // exported ones

	mu     sync.Mutex
	events map[uint32]string
	served map[uint32]*source // by identity, of streams the guest has asked for
	inputs map[uint32]*log    // of channels the guest has asked for
	nAsked int
	hist   []string
	rust   bool
}

func newWorld(c *vlib.C) *world {
	w := &world{c: c, rng: c.Rng}
	if !w.start(module()) {
		return nil
	}
	return w
}

func (w *world) start(m *host.Module) bool {
	c := w.c
	w.ops, w.events, w.served, w.inputs = map[string]uint32{}, map[uint32]string{}, map[uint32]*source{}, map[uint32]*log{}
	inst, err := m.Instantiate(context.Background())
	if err != nil {
		c.Failf("start", "the guest does not start: %v", err)
		return false
	}
	w.inst = inst
	imp := map[string]uint32{}
	for _, op := range inst.Operations() {
		k := fmt.Sprintf("%d %s %s", op.Type, op.Namespace, op.Operation)
		if op.Direction == operations.Export {
			w.ops[k] = op.Index
		} else {
			imp[k] = op.Index
		}
	}
	c.Count("listed_operations", len(inst.Operations()))
	want := func(m map[string]uint32, t operations.RequestType, ns, name string, index uint32) uint32 {
		k := fmt.Sprintf("%d %s %s", t, ns, name)
		i, ok := m[k]
		if !ok || i != index {
			c.Failf("operations", "the host lists %q as %d (%v), the guest has it as %d\nall: %v", k, i, ok, index, inst.Operations())
		}
		return i
	}
	want(w.ops, operations.RequestResponse, "wasm", "rr", 0)
	want(w.ops, operations.RequestResponse, "wasm", "echo", 1)
	want(w.ops, operations.FireAndForget, "wasm", "fnf", 0)
	want(w.ops, operations.RequestStream, "wasm", "rs", 0)
	want(w.ops, operations.RequestChannel, "wasm", "rc", 0)
	exports := 9
	if w.rust {
		want(w.ops, operations.RequestResponse, "wasm", "no", 2)
		want(w.ops, operations.FireAndForget, "wasm", "no", 1)
		want(w.ops, operations.RequestStream, "wasm", "no", 1)
		want(w.ops, operations.RequestChannel, "wasm", "no", 1)
	} else {
		exports = 8
		want(w.ops, operations.RequestChannel, "concat", "Concat", 1)
		want(w.ops, operations.RequestChannel, "greeter", "Greeter", 2)
		want(w.ops, operations.RequestChannel, "wordfrequency", "WordFrequency", 3)
	}
	want(imp, operations.RequestResponse, "host", "unused", 0)
	want(imp, operations.RequestStream, "host", "unused", 0)
	if len(w.ops) != exports || len(imp) != 6 {
		c.Failf("operations", "the guest has %d exports and 6 imports, listed are %v", exports, inst.Operations())
	}
	inst.SetRequestResponseHandler(want(imp, operations.RequestResponse, "host", "rr", 1), w.rr)
	inst.SetFireAndForgetHandler(want(imp, operations.FireAndForget, "host", "fnf", 0), w.fnf)
	inst.SetRequestStreamHandler(want(imp, operations.RequestStream, "host", "rs", 1), w.rs)
	inst.SetRequestChannelHandler(want(imp, operations.RequestChannel, "host", "rc", 0), w.rc)
	return true
}

func (w *world) failf(class, f string, a ...any) {
	w.mu.Lock()
	h := w.hist
	w.mu.Unlock()
	w.c.Failf(class, "%s\nrequests: %v", fmt.Sprintf(f, a...), h)
}

// metadata checks that of a request of the guest.
func (w *world) metadata(index uint32, p payload.Payload) {
	want := append(binary.BigEndian.AppendUint32(nil, index), 0, 0, 0, 0, 1, 2, 3)
	if !bytes.Equal(p.Metadata(), want) {
		w.failf("metadata", "the host was called with the metadata %x, not with %x", p.Metadata(), want)
	}
	w.mu.Lock()
	w.nAsked++
	w.mu.Unlock()
}

// answer is the host's to what the guest asks it: the first byte of the last
// four tells how it is given.
func answer(q []byte) (r pl, fail string, delay time.Duration) {
	switch tag := q[len(q)-4]; {
	case tag < 40:
		return r, fmt.Sprintf("the host refuses %x", tag), time.Duration(tag%4) * 100 * time.Microsecond
	default:
		return pl{append([]byte("host "), q...), []byte{7, tag}}, "", time.Duration(tag%4) * 300 * time.Microsecond
	}
}

func (w *world) rr(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	w.metadata(1, p)
	r, fail, delay := answer(p.Data())
	return mono.Create(func(sink mono.Sink[payload.Payload]) {
		end := func() {
			if fail != "" {
				sink.Error(errors.New(fail))
			} else {
				sink.Success(r.payload())
			}
		}
		if delay == 0 {
			end()
			return
		}
		go func() { time.Sleep(delay); end() }()
	})
}

func (w *world) fnf(ctx context.Context, p payload.Payload) {
	w.metadata(0, p)
	d := p.Data()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.events[binary.BigEndian.Uint32(d[1:])] += string(d[:1])
}

func (w *world) rs(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	w.metadata(1, p)
	s := newSource(parse(p.Data()))
	w.mu.Lock()
	w.served[s.p.id] = s
	w.mu.Unlock()
	return s.flux()
}

func (w *world) rc(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	w.metadata(0, p)
	l := &log{}
	w.mu.Lock()
	w.inputs[parse(p.Data()).id] = l
	w.mu.Unlock()
	return flux.Map(in, func(x payload.Payload) (payload.Payload, error) {
		l.next(x)
		return payload.New(append([]byte("h "), x.Data()...), x.Metadata()), nil
	})
}

func (w *world) event(id uint32) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.events[id]
}

// call is a request to the guest.
type call struct {
	w      *world
	kind   operations.RequestType
	name   string
	p      plan
	log    log
	want   []pl
	fail   string
	grants []int // explicit demand
	cancel int   // within the handling of this payload
	in     *source
	settle time.Duration
	wrong  bool   // settled on another instance first
	md     []byte // instead of the operation's metadata
	sub    func() rx.Subscription
}

func (c *call) String() string {
	return fmt.Sprintf("%s mode %d n %d fail %d size %d id %d grants %v cancel %d", c.name, c.p.mode, c.p.n, c.p.failAt, c.p.size, c.p.id, c.grants, c.cancel)
}

func (c *call) request(p plan) payload.Payload {
	md := binary.BigEndian.AppendUint32(nil, c.w.ops[fmt.Sprintf("%d wasm %s", c.kind, c.name)])
	md = append(md, 0, 0, 0, 0, 9, byte(p.id))
	if c.md != nil {
		md = c.md
	}
	return payload.New(p.bytes(), md)
}

func (c *call) issue() {
	ctx := context.Background()
	switch c.name {
	case "fnf":
		c.w.inst.FireAndForget(ctx, c.request(c.p))
		return
	case "echo", "rr":
		m := c.w.inst.RequestResponse(ctx, c.request(c.p))
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { c.log.next(p); c.log.add("C") },
			OnError:   c.log.failed,
			Finally:   c.log.final,
		})
		return
	}
	var f flux.Flux[payload.Payload]
	if c.name == "rs" {
		f = c.w.inst.RequestStream(ctx, c.request(c.p))
	} else {
		f = c.w.inst.RequestChannel(ctx, c.request(c.p), c.in.flux())
	}
	s := flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			if c.log.next(p) == c.cancel {
				f.Subscription().Cancel()
				c.log.add("x")
			}
		},
		OnComplete: func() { c.log.add("C") },
		OnError:    c.log.failed,
		Finally:    c.log.final,
		NoRequest:  c.grants != nil,
	}
	f.Subscribe(s)
	for i, n := range c.grants {
		if i > 0 {
			time.Sleep(time.Duration(50+int(c.p.id)%300) * time.Microsecond)
		}
		f.Subscription().Request(n)
	}
}

func size(rng *rand.Rand) int {
	switch rng.Intn(12) {
	case 0:
		return 4000 + rng.Intn(8000)
	case 1:
		return 250 + rng.Intn(20)
	case 2:
		return rng.Intn(2000)
	}
	return rng.Intn(40)
}

// gen makes a call.
func (w *world) gen(id uint32) *call {
	rng := w.rng
	c := &call{w: w, p: plan{id: id, failAt: -1}}
	p := &c.p
	p.size = size(rng)
	p.n = rng.Intn(9)
	if rng.Intn(12) == 0 {
		p.n = rng.Intn(60)
	}
	if rng.Intn(4) == 0 {
		p.failAt = rng.Intn(p.n + 1)
	}
	tail := make([]byte, 4+rng.Intn(30))
	rng.Read(tail)
	switch rng.Intn(11) {
	case 0, 1, 2, 3:
		c.kind, c.name = operations.RequestResponse, "rr"
		p.mode = byte(rng.Intn(4))
		p.rest = tail
		switch p.mode {
		case 0:
			c.want = []pl{p.item(p.n)}
			if p.failAt >= 0 {
				c.want, c.fail = nil, p.failure()
			}
		case 1:
			r, fail, _ := answer(tail)
			c.want, c.fail = []pl{{append([]byte("asked "), r.data...), r.md}}, fail
			if fail != "" {
				c.want = nil
			} else if p.failAt >= 0 {
				c.want, c.fail = nil, p.failure()
			}
		case 2:
			c.settle = time.Duration(1+rng.Intn(3000)) * time.Microsecond
			c.want = []pl{p.item(p.n)}
			if p.failAt >= 0 {
				c.want, c.fail = nil, p.failure()
			}
		case 3:
			p.n = rng.Intn(6)
			if p.failAt > p.n {
				p.failAt = p.n
			}
			sum := []byte{}
			for i := 0; i < p.n && c.fail == ""; i++ {
				if i == p.failAt {
					c.fail = p.failure()
					break
				}
				for k := 0; k <= i%3; k++ {
					r, fail, _ := answer(append([]byte{'s', byte(i), byte(k)}, tail...))
					if fail != "" {
						c.fail = fail
						break
					}
					sum = append(append(sum, r.data...), '|')
				}
			}
			if c.fail == "" {
				c.want = []pl{{sum, nil}}
			}
		}
		return c
	case 4:
		if rng.Intn(2) == 0 {
			c.kind, c.name = operations.RequestResponse, "echo"
			p.rest = bytes.Repeat(tail, rng.Intn(300))
			c.want = []pl{{p.bytes(), []byte{9, byte(id)}}}
			return c
		}
		c.kind, c.name = operations.FireAndForget, "fnf"
		p.mode = byte(rng.Intn(2))
		return c
	case 5, 6, 7:
		c.kind, c.name = operations.RequestStream, "rs"
		p.mode = byte(rng.Intn(4))
		if p.mode == 1 || p.mode == 3 {
			p.failAt = -1
		}
		c.want, c.fail = p.items()
		if p.mode == 2 {
			h := plan{n: rng.Intn(9), failAt: -1, size: size(rng), id: id}
			if rng.Intn(4) == 0 {
				h.failAt = rng.Intn(h.n + 1)
			}
			p.rest = h.bytes()
			c.want, c.fail = p.mapped(h.items())
		}
	default:
		c.kind, c.name = operations.RequestChannel, "rc"
		p.mode = byte(rng.Intn(5))
		h := plan{n: rng.Intn(9), failAt: -1, size: size(rng), id: id}
		if rng.Intn(4) == 0 {
			h.failAt = rng.Intn(h.n + 1)
		}
		c.in = newSource(h)
		in, fail := h.items()
		switch p.mode {
		case 0:
			c.want, c.fail = p.mapped(in, fail)
		case 1:
			c.want = in
			if fail != "" {
				c.want, c.fail = nil, "input: "+fail
			}
		case 2:
			p.rest = plan{id: id}.bytes()
			for i := range in {
				in[i].data = append([]byte("h "), in[i].data...)
			}
			c.want, c.fail = p.mapped(in, fail)
		case 3:
			c.want, c.fail = p.items()
		case 4:
			p.n = 1 + rng.Intn(8)
			c.want, c.fail = in, ""
			if len(in) >= p.n {
				c.want = in[:p.n]
			} else if fail != "" {
				c.fail = "input: " + fail
			}
			return c // it does not wait for demand
		}
	}
	switch {
	case rng.Intn(3) == 0:
		left := rng.Intn(len(c.want) + 4)
		if len(c.want) > 1 && rng.Intn(3) == 0 {
			left = 1 + rng.Intn(len(c.want)-1)
		}
		c.grants = []int{}
		for left > 0 {
			n := 1 + rng.Intn(left)
			c.grants = append(c.grants, n)
			left -= n
		}
		if len(c.grants) > 0 && rng.Intn(3) == 0 {
			c.cancel = 1 + rng.Intn(c.granted())
		}
	case len(c.want) > 0 && rng.Intn(5) == 0:
		c.cancel = 1 + rng.Intn(len(c.want))
	}
	return c
}

func (c *call) granted() (n int) {
	for _, g := range c.grants {
		n += g
	}
	return n
}

func mix(c *vlib.C) {
	w := newWorld(c)
	if w == nil {
		return
	}
	var other *world
	if w.rng.Intn(4) == 0 {
		if other = newWorld(c); other == nil {
			return
		}
		c.Count("second_instances", 1)
	}
	run(w, other, w.gen)
}

// run makes calls and judges them.
func run(w, other *world, gen func(id uint32) *call) {
	c := w.c
	var calls []*call
	for i, n := 0, 1+w.rng.Intn(12); i < n; i++ {
		k := gen(uint32(1000 + i*37 + w.rng.Intn(37)))
		k.wrong = other != nil && k.settle > 0 && w.rng.Intn(2) == 0
		calls = append(calls, k)
		w.hist = append(w.hist, k.String())
	}
	spread := time.Duration(w.rng.Intn(4)) * time.Millisecond
	var wg sync.WaitGroup
	for _, k := range calls {
		k := k
		var at time.Duration
		if spread > 0 {
			at = time.Duration(w.rng.Int63n(int64(spread)))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(at)
			k.issue()
			if k.settle == 0 {
				return
			}
			time.Sleep(k.settle)
			k.log.mu.Lock()
			if k.log.order != "" {
				w.failf("early", "%s: outcome %q (%s) before the guest has given one", k, k.log.order, k.log.err)
			}
			k.log.mu.Unlock()
			s := k.p
			s.mode = 1
			do := &call{w: w, kind: operations.FireAndForget, name: "fnf", p: s}
			if k.wrong {
				do.w = other
				do.issue()
				time.Sleep(time.Millisecond)
				if e := other.event(s.id); e != "?" {
					w.failf("isolation", "%s: another instance knows it: %q", k, e)
				}
				do.w = w
			}
			do.issue()
		}()
	}
	wg.Wait()
	time.Sleep(10 * time.Second)
	vlib.Settle()
	for _, k := range calls {
		k.check()
	}
	w.c.Nontrivial("%v", w.hist)
	w.c.Sample("%v", w.hist)
	w.mu.Lock()
	c.Count("calls_of_the_host", w.nAsked)
	w.mu.Unlock()
	w.inst.Close()
	if other != nil {
		other.inst.Close()
	}
	for _, k := range calls {
		if k.in != nil {
			k.in.mu.Lock()
			k.in.cancels++
			k.in.mu.Unlock()
			k.in.kick()
		}
	}
	for _, s := range w.served {
		s.mu.Lock()
		s.cancels++
		s.mu.Unlock()
		s.kick()
	}
	time.Sleep(10 * time.Second)
	vlib.Settle()
	for _, k := range calls {
		k.log.mu.Lock()
		asked := k.grants == nil || len(k.grants) > 0
		if k.kind != operations.FireAndForget && asked && !strings.Contains(k.log.order, "F") {
			w.failf("lost", "%s: no outcome after the instance was closed: %q", k, k.log.order)
		}
		k.log.mu.Unlock()
	}
}

func (c *call) check() {
	w, l := c.w, &c.log
	l.mu.Lock()
	defer l.mu.Unlock()
	w.c.Count("requests_"+c.name, 1)
	w.c.Count("payloads", len(l.got))
	ev := w.event(c.p.id)
	if c.name == "fnf" {
		want := "f"
		if c.md != nil {
			want = ""
		}
		if c.p.mode == 1 && c.md == nil {
			want = "?"
		}
		if ev != want {
			w.failf("fnf", "%s: the guest has reported %q", c, ev)
		}
		return
	}
	if l.late > 0 {
		w.failf("late", "%s: %d payloads after the end", c, l.late)
	}
	for i, p := range l.got {
		if i >= len(c.want) || !p.eq(c.want[i]) {
			exp := "none"
			if i < len(c.want) {
				exp = c.want[i].String()
			}
			w.failf("payload", "%s: payload %d is %v, not %v", c, i, p, exp)
			return
		}
	}
	must := len(c.want)
	open := false // there may be no end
	sure := c.grants == nil || c.granted() > len(c.want)
	if c.grants != nil {
		if len(l.got) > c.granted() {
			w.failf("demand", "%s: got %d of %d payloads asked for", c, len(l.got), c.granted())
		}
		must = min(must, c.granted())
		open = c.granted() <= len(c.want)
		w.c.Count("demand_checked", 1)
		if len(c.grants) == 0 {
			// Nothing has been asked for, not even the operation itself.
			if l.order != "" {
				w.failf("demand", "%s: ended %q without having been requested", c, l.order)
			}
			return
		}
	}
	if c.cancel > 0 && c.cancel <= must {
		w.c.Count("cancelled", 1)
		if len(l.got) != c.cancel || (l.order != "xF" && l.order != "Fx") {
			w.failf("cancel", "%s: cancelled, but got %d payloads and %q", c, len(l.got), l.order)
		}
		late := 1 // one more may have been on its way
		if c.name == "rc" {
			late = 2 // and one is taken by the task which forwards them
		}
		if w.rust && c.p.mode == 3 && c.cancel < len(c.want)-late {
			// Paced by the host: it must have been stopped on its way.
			w.c.Count("cancels_reported", 1)
			if n := strings.Count(ev, "c"); n != 1 {
				w.failf("cancel", "%s: the guest's operation has been cancelled %d times: %q", c, n, ev)
			}
		}
		src := c.name == "rs" && c.p.mode == 0 || c.name == "rc" && c.p.mode == 3
		if src && c.grants != nil && c.granted() < len(c.want) {
			w.c.Count("cancels_reported", 1)
			if n := bytes.Count([]byte(ev), []byte("c")); n != 1 {
				w.failf("cancel", "%s: the guest's operation has been cancelled %d times: %q", c, n, ev)
			}
		}
		if s := w.source(c.p.id); c.name == "rs" && c.p.mode == 2 && s != nil {
			s.mu.Lock()
			if s.cancels == 0 && !s.ended {
				w.failf("cancel", "%s: the host's stream behind it has not been cancelled", c)
			}
			s.mu.Unlock()
			w.c.Count("relayed_cancels", 1)
		}
		return
	}
	if len(l.got) != must {
		w.failf("lost", "%s: got %d of %d payloads, end %q %s", c, len(l.got), must, l.order, l.err)
		return
	}
	end := "CF"
	if c.fail != "" {
		end = "EF"
	}
	switch {
	case l.order == end:
		if l.err != c.fail && c.fail != "*" {
			w.failf("error", "%s: failed with %q instead of %q", c, l.err, c.fail)
		}
		w.c.Count("ends_"+end[:1], 1)
	case l.order == "" && open && !sure:
		w.c.Count("waiting", 1)
	default:
		w.failf("end", "%s: ended as %q (%s) instead of %q (%s)", c, l.order, l.err, end, c.fail)
	}
	if s := w.source(c.p.id); s != nil && c.name == "rs" && c.grants != nil {
		s.mu.Lock()
		if s.asked > c.granted() {
			w.failf("demand", "%s: the host's stream behind it was asked for %d", c, s.asked)
		}
		s.mu.Unlock()
	}
	if c.name != "rc" {
		return
	}
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	in, fail := c.in.p.items()
	w.c.Count("inputs_checked", 1)
	switch c.p.mode {
	case 3:
		// Read independently of the output, which may have failed before.
		want := "C"
		if fail != "" {
			want = "E"
		}
		if c.fail == "" && ev != want {
			w.failf("input", "%s: the guest's input ended as %q instead of %q", c, ev, want)
		}
	case 4:
		if len(in) > c.p.n && c.in.emitted != c.p.n && !w.rust {
			w.failf("input", "%s: the guest has asked for %d payloads, %d were taken", c, c.p.n, c.in.emitted)
		}
		if len(in) > c.p.n && c.in.cancels == 0 && !c.in.ended {
			w.failf("input", "%s: the input has not been cancelled", c)
		}
		if len(in) == endless {
			w.c.Count("endless_inputs", 1)
			if c.in.ended {
				w.failf("input", "%s: all %d payloads of the input were taken", c, endless)
			}
		}
	case 1:
		if c.in.emitted != len(in) {
			w.failf("input", "%s: the guest has taken %d of %d payloads", c, c.in.emitted, len(in))
		}
	}
}

func (w *world) source(id uint32) *source {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.served[id]
}
