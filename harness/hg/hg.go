//go:build go1.23

package e2e

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

const (
	guestSide = 0 // odd stream ids
	hostSide  = 1 // even stream ids

	kickOp = nOps // wakes the guest up

	sendAt = 0x10000
	recvAt = 0x20000
	listAt = 0x30000
)

func init() {
	maxBody = 12000 // what surely fits into the buffers, echoed too
	invoke.ExportFireAndForget("verif", "kick", func(ctx context.Context, p payload.Payload) {})
	invoke.ImportRequestResponse("verif.host", "rr0")
	invoke.ImportRequestChannel("verif.host", "rc0")
}

// guestThread is the goroutine on which the guest runs at the moment.
var guestThread atomic.Int64

func goid() int64 {
	var buf [64]byte
	b := bytes.TrimPrefix(buf[:runtime.Stack(buf[:], false)], []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i > 0 {
		b = b[:i]
	}
	n, _ := strconv.ParseInt(string(b), 10, 64)
	return n
}

// asGuest runs f as the guest does: on a single thread without others.
func asGuest(f func()) {
	if !guestThread.CompareAndSwap(0, goid()) {
		panic("verif: the guest runs twice")
	}
	defer guestThread.Store(0)
	f()
}

func onGuestThread() bool {
	t := guestThread.Load()
	return t != 0 && t == goid()
}

func init() { flux.VerifInline = onGuestThread }

// vm is a module as the host sees it. Its memory consists of the two buffers
// and, while it is announced, the list of operations.
type vm struct {
	api.Module
	mu         sync.Mutex
	send, recv []byte // the guest's buffers for frames from and to the host
	list       []byte
	ctx        context.Context // of the call the guest is in
	onSend     func(n uint32)  // the guest handles n bytes of frames
	calls      int
	trapAt     int // number of the call that traps, 0: none
	trapped    bool
	unreadable bool // the memory has shrunk
	async      bool // the guest also runs by itself
	closed     atomic.Int64
}

// Close releases the guest. Nothing may call it any more.
func (m *vm) Close(context.Context) error {
	if !m.async && !m.mu.TryLock() {
		panic("verif: the guest was released while it was running")
	} else if !m.async {
		m.mu.Unlock()
	}
	m.closed.Add(1)
	return nil
}

func (m *vm) Memory() api.Memory { return vmMemory{m: m} }

type vmMemory struct {
	api.Memory
	m *vm
}

func (m vmMemory) Read(at, n uint32) ([]byte, bool) {
	if m.m.unreadable {
		return nil, false
	}
	for base, b := range map[uint32][]byte{sendAt: m.m.send, recvAt: m.m.recv, listAt: m.m.list} {
		if at >= base && uint64(at-base)+uint64(n) <= uint64(len(b)) {
			return b[at-base : at-base+n : at-base+n], true
		}
	}
	return nil, false
}

type vmFunc struct {
	api.Function
	m    *vm
	name string
}

func (m *vm) ExportedFunction(name string) api.Function {
	switch name {
	case "__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send":
		return vmFunc{m: m, name: name}
	}
	return nil
}

// Call recovers like wazero does: a guest that traps, or a host function that
// panics, ends the call with an error.
func (f vmFunc) Call(ctx context.Context, params ...uint64) (res []uint64, err error) {
	m := f.m
	if m.async {
		m.mu.Lock()
	} else if !m.mu.TryLock() {
		panic("verif: the guest was called while it was running")
	}
	defer m.mu.Unlock()
	if m.closed.Load() != 0 {
		panic("verif: the guest was called after its release")
	}
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(error); ok {
				err = fmt.Errorf("%w (recovered by wazero)", e)
			} else {
				err = fmt.Errorf("%v (recovered by wazero)", p)
			}
			m.trapped = true
		}
	}()
	m.ctx = ctx
	defer func() { m.ctx = nil }()
	switch f.name {
	case "__wasmrs_init":
		m.start(uint32(params[0]), uint32(params[1]), uint32(params[2]))
		return []uint64{1}, nil
	case "__wasmrs_op_list_request":
		m.opList()
		return nil, nil
	}
	m.calls++
	m.onSend(uint32(params[0]))
	if m.calls == m.trapAt {
		panic(errors.New("wasm error: unreachable"))
	}
	return nil, nil
}

// start and opList are those of the guest in use.
var vmGuest struct {
	start  func(m *vm, send, recv, frame uint32)
	opList func(m *vm)
}

func (m *vm) start(send, recv, frame uint32) { vmGuest.start(m, send, recv, frame) }
func (m *vm) opList()                        { vmGuest.opList(m) }

var imports = host.VerifFunctions()

func (m *vm) hostSend(n uint32) { imports["__send"](m.ctx, []uint64{uint64(n)}) }

// rt runs the guest's own tasks, a few whenever it is called.
type rt struct {
	mu    sync.Mutex
	rng   *rand.Rand
	tasks []func()
	total int
	dead  bool
	wake  chan struct{}
}

func (g *rt) post(f func()) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if !g.dead {
		g.tasks = append(g.tasks, f)
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
}

func (g *rt) pending() bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return len(g.tasks) > 0
}

func (g *rt) ran() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.total
}

func (g *rt) stop() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.dead, g.tasks = true, nil
}

func (g *rt) run() {
	burst := []int{1, 3, 10, 200}[g.rng.Intn(4)]
	for i := 0; i < burst; i++ {
		g.mu.Lock()
		n := len(g.tasks)
		if n == 0 {
			g.mu.Unlock()
			return
		}
		k := g.rng.Intn(n)
		f := g.tasks[k]
		g.tasks[k] = g.tasks[n-1]
		g.tasks[n-1] = nil
		g.tasks = g.tasks[:n-1]
		g.total++
		g.mu.Unlock()
		f()
	}
}

func newRT(rng *rand.Rand) *rt {
	return &rt{rng: rand.New(rand.NewSource(rng.Int63())), wake: make(chan struct{}, 1)}
}

//go:nocheckptr
func bytesAt(p uintptr, n uint32) []byte {
	return append([]byte(nil), unsafe.Slice((*byte)(unsafe.Pointer(p)), n)...)
}

func base(b []byte) uintptr {
	if len(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[0]))
}

// nativeGuest makes the real guest package the guest of new modules.
func nativeGuest(c *vlib.C) {
	guest.VerifReset()
	vmGuest.start = func(m *vm, send, recv, frame uint32) {
		guest.VerifInitBuffers = func(g, h uintptr) {
			m.send, m.recv = guest.VerifBuffers()
			if g != base(m.send) || h != base(m.recv) || len(m.send) != int(send) || len(m.recv) != int(recv) {
				c.Failf("buffers", "the guest announced other buffers than it has")
			}
			imports["__init_buffers"](m.ctx, []uint64{sendAt, recvAt})
		}
		if !guest.Init(send, recv, frame) {
			c.Failf("buffers", "the guest refused to start")
		}
	}
	vmGuest.opList = func(m *vm) {
		guest.VerifOpList = func(p uintptr, n uint32) {
			m.list = bytesAt(p, n)
			imports["__op_list"](m.ctx, []uint64{listAt, uint64(n)})
			m.list = nil
		}
		old := debug.SetGCPercent(-1)
		guest.OperationList()
		debug.SetGCPercent(old)
	}
}

// onGuest makes r run on the single thread of the guest as far as it is on its
// side.
func onGuest(g *rt) func(r *req) {
	return func(r *req) {
		nop := func() {}
		if r.from == hostSide {
			r.respGo, r.respDelay, r.inWork = g.post, nop, nil
			r.src.post = g.post
			if r.inDelay != nil {
				r.inDelay = nop
			}
			return
		}
		r.reqGo, r.delay, r.grantDelay, r.resWork = g.post, nop, nop, nil
		if r.cancelConc != nil {
			r.cancelConc = nop
		}
		if r.in != nil {
			r.in.post = g.post
		}
	}
}

type pair struct {
	w    *world
	m    *vm
	g    *rt
	inst *host.Instance
	stop chan struct{}
}

// hostOps sets up the operations of the host.
func hostOps(inst *host.Instance) {
	for _, k := range []uint32{1, 0, 2} {
		inst.SetRequestResponseHandler(k, opRR(int(k)))
		inst.SetFireAndForgetHandler(k, opFNF(int(k)))
		inst.SetRequestStreamHandler(k, opRS(int(k)))
		inst.SetRequestChannelHandler(k, opRC(int(k)))
	}
}

func kick() payload.Payload {
	return payload.New(nil, binary.BigEndian.AppendUint64(nil, kickOp<<32))
}

// newPair connects the real guest with the real host: frames are handed over
// within the calls, on the host's sending goroutine.
func newPair(c *vlib.C) (*world, *pair) {
	w := newWorld(c)
	p := &pair{w: w, g: newRT(w.rng), stop: make(chan struct{})}
	w.prep = onGuest(p.g)
	w.dial = func() {
		nativeGuest(c)
		p.m = &vm{}
		p.m.onSend = func(n uint32) {
			w.mon.bytes(hostSide, p.m.send[:n])
			asGuest(func() {
				guest.GuestSend(n)
				p.g.run()
			})
		}
		guest.VerifHostSend = func(n uint32) {
			w.mon.bytes(guestSide, p.m.recv[:n])
			p.m.hostSend(n)
		}
		inst, err := host.NewInstance(context.Background(), p.m)
		if err != nil {
			c.Failf("start", "the instance does not start: %v", err)
			panic(err)
		}
		p.inst = inst
		p.checkList()
		hostOps(inst)
		w.h = [2]caller{guest.HostInvoker, inst}
		pause := pauseFn(w.rng)
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			last, idle := 0, 0
			for {
				select {
				case <-p.stop:
					return
				default:
				}
				if !p.g.pending() {
					select {
					case <-p.stop:
					case <-p.g.wake:
					}
					continue
				}
				pause()
				time.Sleep(100 * time.Microsecond)
				if n := p.g.ran(); n != last {
					last, idle = n, 0
				} else if idle++; idle > 100 {
					time.Sleep(time.Minute) // nobody listens any more
				}
				inst.FireAndForget(context.Background(), kick())
			}
		}()
	}
	w.hang = func() {
		p.g.stop()
		close(p.stop)
		p.inst.Close()
		w.h = [2]caller{}
	}
	return w, p
}

// checkList compares the operations the host knows with the registry.
func (p *pair) checkList() {
	o := invoke.GetOperations()
	want := map[string]int{}
	add := func(l []invoke.HandlerInfo, t operations.RequestType, d operations.Direction) {
		for i, h := range l {
			want[fmt.Sprint(i, t, d, h.Namespace, h.Operation)]++
		}
	}
	add(o.Exported.RequestResponse, operations.RequestResponse, operations.Export)
	add(o.Exported.FireAndForget, operations.FireAndForget, operations.Export)
	add(o.Exported.RequestStream, operations.RequestStream, operations.Export)
	add(o.Exported.RequestChannel, operations.RequestChannel, operations.Export)
	add(o.Imported.RequestResponse, operations.RequestResponse, operations.Import)
	add(o.Imported.FireAndForget, operations.FireAndForget, operations.Import)
	add(o.Imported.RequestStream, operations.RequestStream, operations.Import)
	add(o.Imported.RequestChannel, operations.RequestChannel, operations.Import)
	n := 0
	for _, op := range p.inst.Operations() {
		k := fmt.Sprint(op.Index, op.Type, op.Direction, op.Namespace, op.Operation)
		if want[k]--; want[k] < 0 {
			p.w.c.Failf("operations", "the host lists the operation %s, which the guest does not have", k)
		}
		n++
	}
	for k, v := range want {
		if v > 0 {
			p.w.c.Failf("operations", "the host does not list the operation %s", k)
		}
	}
	p.w.c.Count("listed_operations", n)
}

func pairWorld(c *vlib.C) *world {
	w, _ := newPair(c)
	return w
}

// ---- one real side, the other one scripted ----

// frameQueue hands the peer's frames to the real side in batches.
type frameQueue struct {
	mu     sync.Mutex
	frames [][]byte
	ch     chan struct{} // there may be frames, closed at the end
}

func readFrames(e *end) *frameQueue {
	q := &frameQueue{ch: make(chan struct{}, 1)}
	go func() {
		defer close(q.ch)
		for {
			var hdr [3]byte
			if _, err := io.ReadFull(e, hdr[:]); err != nil {
				return
			}
			b := make([]byte, 3+(int(hdr[0])<<16|int(hdr[1])<<8|int(hdr[2])))
			copy(b, hdr[:])
			if _, err := io.ReadFull(e, b[3:]); err != nil {
				return
			}
			q.mu.Lock()
			q.frames = append(q.frames, b)
			q.mu.Unlock()
			select {
			case q.ch <- struct{}{}:
			default:
			}
		}
	}()
	return q
}

// batch takes up to max frames.
func (q *frameQueue) batch(max, size int) (b []byte) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for i := 0; i < max && len(q.frames) > 0 && len(b)+len(q.frames[0]) <= size; i++ {
		b = append(b, q.frames[0]...)
		q.frames = q.frames[1:]
	}
	return b
}

// hostAlone is the real host with a scripted guest.
type hostAlone struct {
	w    *world
	m    *vm
	inst *host.Instance
	fail func() error // what happens in the next call
}

func newHostAlone(c *vlib.C) *hostAlone {
	h := &hostAlone{w: newWorld(c), m: &vm{async: true}}
	return h
}

func (h *hostAlone) start(ctx context.Context, own int) {
	w := h.w
	vmGuest.start = func(m *vm, send, recv, frame uint32) {
		m.send, m.recv = make([]byte, send), make([]byte, recv)
		imports["__init_buffers"](m.ctx, []uint64{sendAt, recvAt})
	}
	vmGuest.opList = func(m *vm) {
		m.list = (operations.Table{{Index: 0, Type: operations.RequestResponse, Direction: operations.Export, Namespace: "a", Operation: "b"}}).ToBytes()
		imports["__op_list"](m.ctx, []uint64{listAt, uint64(len(m.list))})
	}
	rng := rand.New(rand.NewSource(w.rng.Int63()))
	q := readFrames(w.ends[own])
	m := h.m
	m.onSend = func(n uint32) {
		if f := h.fail; f != nil {
			h.fail = nil
			if err := f(); err != nil {
				panic(err)
			}
		}
		b := append([]byte(nil), m.send[:n]...)
		// What the guest has to say while it is called.
		if b := q.batch(rng.Intn(4), len(m.recv)); len(b) > 0 {
			copy(m.recv, b)
			m.hostSend(uint32(len(b)))
		}
		w.ends[own].Write(b)
	}
	inst, err := host.NewInstance(context.WithValue(ctx, ctxKey{}, "instance"), m)
	if err != nil {
		w.c.Failf("start", "the instance does not start: %v", err)
		panic(err)
	}
	h.inst = inst
	hostOps(inst)
	w.h[own] = inst
	go func() {
		for range q.ch {
			for more := true; more; {
				m.mu.Lock()
				b := q.batch(1+rng.Intn(6), len(m.recv))
				if more = len(b) > 0; more {
					copy(m.recv, b)
					m.ctx = host.VerifContext(inst)
					m.hostSend(uint32(len(b)))
				}
				m.mu.Unlock()
			}
		}
	}()
	w.hang = func() {
		inst.Close()
		w.ends[0].Close()
		w.ends[1].Close()
	}
}

type ctxKey struct{}

// guestAlone is the real guest with a scripted host.
type guestAlone struct {
	w      *world
	m      *vm
	g      *rt
	inject chan []byte
}

func newGuestAlone(c *vlib.C) *guestAlone {
	w := newWorld(c)
	h := &guestAlone{w: w, m: &vm{}, g: newRT(w.rng), inject: make(chan []byte)}
	w.prep = onGuest(h.g)
	return h
}

func (h *guestAlone) start(ctx context.Context, own int) {
	w := h.w
	guest.VerifReset()
	guest.VerifInitBuffers = func(a, b uintptr) {}
	guest.Init(16*1024, 16*1024, 1<<20)
	h.m.send, h.m.recv = guest.VerifBuffers()
	guest.VerifHostSend = func(n uint32) {
		w.ends[own].Write(append([]byte(nil), h.m.recv[:n]...))
	}
	w.h[own] = guest.HostInvoker
	rng := rand.New(rand.NewSource(w.rng.Int63()))
	q := readFrames(w.ends[own])
	call := func(b []byte) {
		for i := range h.m.send {
			h.m.send[i] = 0xff
		}
		copy(h.m.send, b)
		asGuest(func() {
			guest.GuestSend(uint32(len(b)))
			h.g.run()
		})
	}
	stop := make(chan struct{})
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		in := q.ch
		for {
			var tick <-chan time.Time
			if h.g.pending() {
				tick = time.After(time.Duration(1+rng.Intn(500)) * time.Microsecond)
			}
			select {
			case _, ok := <-in:
				if !ok {
					in = nil
					continue
				}
				for b := q.batch(1+rng.Intn(8), len(h.m.send)); len(b) > 0; b = q.batch(1+rng.Intn(8), len(h.m.send)) {
					call(b)
				}
			case b := <-h.inject:
				call(b)
			case <-tick:
				call(nil)
			case <-h.g.wake:
			case <-stop:
				return
			}
		}
	}()
	w.hang = func() {
		h.g.stop()
		close(stop)
		w.ends[0].Close()
		w.ends[1].Close()
	}
}
