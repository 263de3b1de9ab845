//go:build go1.23

package e2e

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"net/http"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// listener hands out in-memory connections.
type listener struct {
	mu     sync.Mutex
	conns  chan *end
	closed chan struct{}
	closes int
	fail   chan error

	closeErr error // what closing it reports
}

func newListener() *listener {
	return &listener{conns: make(chan *end, 100), closed: make(chan struct{}), fail: make(chan error, 1)}
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case <-l.closed:
		return nil, &net.OpError{Op: "accept", Err: net.ErrClosed}
	default:
	}
	select {
	case c := <-l.conns:
		return c, nil
	case err := <-l.fail:
		return nil, err
	case <-l.closed:
		return nil, &net.OpError{Op: "accept", Err: net.ErrClosed}
	}
}

func (l *listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closes++; l.closes > 1 {
		return &net.OpError{Op: "close", Err: net.ErrClosed}
	}
	close(l.closed)
	return l.closeErr
}

func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }

type client struct {
	tp     *rsocket.Transport
	h      *handler.Handler
	end    *end
	srv    weak.Pointer[end]
	pipes  [2]*duct
	over   atomic.Bool
	left   bool // disconnected by itself
	leave  time.Duration
	linked time.Time
	reqs   []*sinkLog
	wants  []pl
	mu     sync.Mutex
	when   []time.Time
}

// dial makes a connection. The server's end is reachable from the listener
// only.
func (l *listener) dial() *client {
	a := newDuct(func() int { return 100 }, func() time.Duration { return 0 })
	b := newDuct(func() int { return 100 }, func() time.Duration { return 0 })
	srv := &end{in: a, out: b}
	c := &client{end: &end{in: b, out: a}, srv: weak.Make(srv), pipes: [2]*duct{a, b}}
	l.conns <- srv
	return c
}

func (c *client) run(ctx context.Context) {
	c.h = handler.New(ctx, handler.ClientMode)
	c.tp = rsocket.NewTCPClientTransport(c.end, c.h)
	c.h.SetFrameSender(func(f frames.Frame) error { return c.tp.Send(f, true) })
	go func() {
		_ = c.tp.Start(ctx)
		c.over.Store(true)
	}()
}

var serverSeq atomic.Int64

func init() {
	invoke.ExportRequestResponse("verif", "echo", func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just(echo(copyOf(p)).payload())
	})
	invoke.ExportRequestStream("verif", "forever", func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { forever.Add(-1) }})
			forever.Add(1)
		})
	})
}

var forever atomic.Int64 // streams of "forever" in progress

// opMeta is the metadata for the n-th exported operation of its kind.
func opMeta(n int) []byte { return append(binary.BigEndian.AppendUint32(nil, uint32(n)), 0, 0, 0, 0) }

// serverLife runs a server from before it listens until after it is closed.
func serverLife(c *vlib.C) {
	rng := c.Rng
	forever.Store(0)
	l := newListener()
	if rng.Intn(4) == 0 {
		l.closeErr = errors.New("close failed")
	}
	errListen := errors.New("address in use")
	broken := rng.Intn(12) == 0
	early := rng.Intn(12) == 0 // closed before it listens
	var factory atomic.Int32
	slow := time.Duration(rng.Intn(3)) * time.Millisecond
	lf := func(ctx context.Context) (net.Listener, error) {
		factory.Add(1)
		time.Sleep(slow)
		if broken {
			return nil, errListen
		}
		return l, nil
	}
	srv := rsocket.NewTCPServerTransport(lf, nil)
	var mu sync.Mutex
	accepted := 0
	callBack := rng.Intn(2) == 0
	back := []*sinkLog{}
	srv.Accept(func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) {
		lg := &sinkLog{}
		mu.Lock()
		accepted++
		back = append(back, lg)
		mu.Unlock()
		if callBack {
			caller.RequestResponse(ctx, payload.New([]byte("server calls"), opMeta(nOps))).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { lg.next(p); lg.complete() }, OnError: lg.error, Finally: lg.final})
		}
	})
	if early {
		_ = srv.Close()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	notify := make(chan bool, 4)
	var result error
	var returned atomic.Bool
	go func() {
		result = srv.Listen(ctx, notify)
		returned.Store(true)
	}()
	n := rng.Intn(8)
	endAt := time.Duration(rng.Intn(20000)) * time.Microsecond
	if rng.Intn(2) == 0 {
		endAt = time.Second
	}
	var clients []*client
	var wg sync.WaitGroup
	start := time.Now()
	for i := 0; i < n; i++ {
		cl := l.dial()
		clients = append(clients, cl)
		d := time.Duration(rng.Intn(20000)) * time.Microsecond
		if rng.Intn(3) == 0 {
			cl.leave = time.Duration(rng.Intn(30000)) * time.Microsecond
			cl.left = true
		}
		k := rng.Intn(4)
		for j := 0; j < k; j++ {
			cl.reqs = append(cl.reqs, &sinkLog{})
			cl.wants = append(cl.wants, pl{data: []byte(sprintf("client %d request %d", i, j))})
			cl.when = append(cl.when, time.Time{})
		}
		streams := rng.Intn(2)
		gaps := []time.Duration{pause(rng.Intn(4000)), pause(rng.Intn(4000))}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			cl.run(context.Background())
			for j := range cl.wants {
				time.Sleep(gaps[j%2])
				cl.mu.Lock()
				lg := cl.reqs[j]
				cl.when[j] = time.Now()
				cl.mu.Unlock()
				cl.h.RequestResponse(context.Background(), payload.New(cl.wants[j].data, opMeta(nOps))).Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(p payload.Payload) { lg.next(p); lg.complete() }, OnError: lg.error, Finally: lg.final})
			}
			if streams > 0 {
				lg := &sinkLog{}
				cl.h.RequestStream(context.Background(), payload.New([]byte("s"), opMeta(nOps))).Subscribe(flux.Subscribe[payload.Payload]{OnError: lg.error, Finally: lg.final})
				cl.mu.Lock()
				cl.reqs = append(cl.reqs, lg)
				cl.mu.Unlock()
			}
			if cl.left {
				time.Sleep(cl.leave)
				cl.tp.Close()
			}
		}()
	}
	how := rng.Intn(5)
	time.Sleep(endAt)
	if how >= 3 || endAt == time.Second {
		// Everything asked for in time has been answered by now.
		vlib.Settle()
		if !broken && !early {
			for i, cl := range clients {
				cl.mu.Lock()
				for j := range cl.wants {
					lg := cl.reqs[j]
					lg.mu.Lock()
					order, got, errs := lg.order, lg.got, lg.errs
					lg.mu.Unlock()
					if cl.left || cl.when[j].IsZero() || time.Since(cl.when[j]) < 500*time.Millisecond {
						continue
					}
					want := echo(cl.wants[j])
					if order != "CF" || len(got) != 1 || !got[0].eq(want) {
						c.Failf("service", "client %d request %d on an open server: %q %v %q", i, j, order, got, errs)
					}
					c.Count("requests_served", 1)
				}
				cl.mu.Unlock()
				if cl.left && cl.over.Load() && endAt == time.Second {
					// The server has let go of the connection.
					for k := 0; k < 4 && cl.srv.Value() != nil; k++ {
						runtime.GC()
					}
					if s := cl.srv.Value(); s != nil {
						c.Failf("connection-leak", "the server keeps the connection of client %d which has left (closed: %v)", i, s.isClosed())
					}
					c.Count("left_connections", 1)
				}
			}
		}
	}
	// the end
	acceptErr := errors.New("accept: too many open files")
	switch how {
	case 0:
		cancel()
	case 1:
		l.fail <- acceptErr
	case 4:
		// Somebody else ends the listener, which is not a failure.
		switch rng.Intn(3) {
		case 0:
			_ = l.Close()
		case 1:
			l.fail <- io.EOF
		default:
			l.fail <- http.ErrServerClosed
		}
	default:
		for k := 0; k <= rng.Intn(3); k++ {
			go func() { _ = srv.Close() }()
		}
	}
	wg.Wait()
	time.Sleep(time.Hour)
	vlib.Settle()
	desc := sprintf("broken=%v early=%v clients=%d how=%d after=%v", broken, early, n, how, endAt)
	if !returned.Load() {
		c.Failf("hang", "Listen does not return (%s)", desc)
	} else {
		switch {
		case broken:
			if !errors.Is(result, errListen) {
				c.Failf("listen-result", "Listen returned %v, want the listener's error (%s)", result, desc)
			}
		case early:
			if result == nil {
				c.Failf("listen-result", "Listen on a closed server returned no error (%s)", desc)
			}
		case how == 1:
			if !errors.Is(result, acceptErr) {
				c.Failf("listen-result", "Listen returned %v, want the error of Accept (%s)", result, desc)
			}
		default:
			// A server closed before it got to listen may report that.
			if result != nil && endAt > slow {
				c.Failf("listen-result", "Listen returned %v after the server was closed (%s)", result, desc)
			}
		}
	}
	var told []bool
	for len(notify) > 0 {
		told = append(told, <-notify)
	}
	listening := !broken && !early
	if len(told) != 1 || told[0] != listening && (told[0] || endAt > slow) {
		c.Failf("notifier", "the notifier was told %v (%s)", told, desc)
	}
	if !broken {
		l.mu.Lock()
		if l.closes == 0 {
			c.Failf("listener-leak", "the listener was not closed (%s)", desc)
		}
		l.mu.Unlock()
	}
	// Connections which were never accepted are closed by the OS.
	pending := 0
	for len(l.conns) > 0 {
		(<-l.conns).Close()
		pending++
	}
	time.Sleep(time.Minute)
	vlib.Settle()
	mu.Lock()
	if returned.Load() && accepted > n-pending {
		c.Failf("acceptor", "the acceptor was called %d times for %d connections (%s)", accepted, n-pending, desc)
	}
	if endAt == time.Second && listening && accepted != n {
		c.Failf("acceptor", "the acceptor was called %d times for %d connections (%s)", accepted, n, desc)
	}
	for _, lg := range back {
		if callBack && len(lg.finals) != 1 {
			c.Failf("service", "the server's own request ended %d times (%s)", len(lg.finals), desc)
		}
	}
	mu.Unlock()
	for i, cl := range clients {
		if !cl.over.Load() {
			c.Failf("connection-leak", "the connection of client %d is open although the server is closed (%s)", i, desc)
		}
		for j, lg := range cl.reqs {
			if len(lg.finals) != 1 {
				c.Failf("terminal", "request %d of client %d ended %d times (%s)", j, i, len(lg.finals), desc)
			}
		}
		for k := 0; k < 4 && cl.srv.Value() != nil; k++ {
			runtime.GC()
		}
		if cl.srv.Value() != nil {
			c.Failf("connection-leak", "the closed server keeps the connection of client %d (%s)", i, desc)
		}
		cl.end.Close()
		cl.pipes[0].shut(true)
		cl.pipes[1].shut(true)
	}
	if v := forever.Load(); v != 0 {
		c.Failf("producer-cancel", "%d streams are still being produced after their connections have ended (%s)", v, desc)
	}
	runtime.KeepAlive(srv)
	c.Count("servers", 1)
	c.Count("connections", accepted)
	c.Nontrivial("%s %v %d", desc, time.Since(start), accepted)
	c.Sample("%s accepted=%d", desc, accepted)
}

func pause(us int) time.Duration { return time.Duration(us) * time.Microsecond }
