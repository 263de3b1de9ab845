//go:build go1.24

// A guest made of the real guest packages, compiled to WebAssembly. What its
// operations do is told by their requests.
package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/example/concat"
	"github.com/nanobus/iota/go/transport/wasmrs/example/greeter"
	"github.com/nanobus/iota/go/transport/wasmrs/example/wordfrequency"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
)

var caller = guest.HostInvoker

var impRR, impFNF, impRS, impRC uint32

func init() {
	// Others first, so that indices of imports and exports differ.
	caller.ImportRequestResponse("host", "unused")
	impRR = caller.ImportRequestResponse("host", "rr")
	impFNF = caller.ImportFireAndForget("host", "fnf")
	caller.ImportRequestStream("host", "unused")
	impRS = caller.ImportRequestStream("host", "rs")
	impRC = caller.ImportRequestChannel("host", "rc")
	invoke.ExportRequestResponse("wasm", "rr", rr)
	invoke.ExportRequestResponse("wasm", "echo", echo)
	invoke.ExportFireAndForget("wasm", "fnf", fnf)
	invoke.ExportRequestStream("wasm", "rs", rs)
	invoke.ExportRequestChannel("wasm", "rc", rc)
	concat.Register()
	greeter.Register()
	wordfrequency.Register()
}

func main() {}

// plan is what a request asks for:
// mode, items, position of a failure or -1, size of the items, identity.
type plan struct {
	mode       byte
	n, failAt  int
	size       int
	id         uint32
	rest       []byte
	md         []byte
	ctx        context.Context
	gotPayload payload.Payload
}

func parse(ctx context.Context, p payload.Payload) *plan {
	d := p.Data()
	if len(d) < 17 {
		return &plan{mode: 255}
	}
	at := func(i int) int { return int(int32(binary.BigEndian.Uint32(d[i:]))) }
	return &plan{mode: d[0], n: at(1), failAt: at(5), size: at(9), id: binary.BigEndian.Uint32(d[13:]), rest: d[17:], ctx: ctx, gotPayload: p}
}

// item is the i-th item of the request, one that is known to both sides.
func (p *plan) item(i int) payload.Payload {
	b := make([]byte, p.size)
	for k := range b {
		b[k] = byte(int(p.id) + i*7 + k)
	}
	return payload.New(binary.BigEndian.AppendUint32(b, uint32(i)), []byte{byte(i), byte(p.id)})
}

func (p *plan) failure() error { return fmt.Errorf("failure %d of %d", p.failAt, p.id) }

func metadata(op uint32) []byte { return binary.BigEndian.AppendUint32(nil, op)[:4:4] }

func call(op uint32, data []byte) payload.Payload {
	md := make([]byte, 8, 12)
	binary.BigEndian.PutUint32(md, op)
	return payload.New(data, append(md, 1, 2, 3))
}

// tell reports an event to the host.
func (p *plan) tell(event byte) {
	caller.FireAndForget(p.ctx, call(impFNF, binary.BigEndian.AppendUint32([]byte{event}, p.id)))
}

func echo(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	return mono.Just(payload.Payload(payload.New(append([]byte(nil), p.Data()...), append([]byte(nil), p.Metadata()...))))
}

// deferred are the responses that are given when the host says so.
var deferred = map[uint32]mono.Processor[payload.Payload]{}

func rr(ctx context.Context, pl payload.Payload) mono.Mono[payload.Payload] {
	p := parse(ctx, pl)
	switch p.mode {
	case 0: // at once
		return mono.Create(func(sink mono.Sink[payload.Payload]) {
			if p.failAt >= 0 {
				sink.Error(p.failure())
				return
			}
			sink.Success(p.item(p.n))
		})
	case 1: // by asking the host
		m := caller.RequestResponse(ctx, call(impRR, p.rest))
		return mono.Map(m, func(r payload.Payload) (payload.Payload, error) {
			if p.failAt >= 0 {
				return nil, p.failure()
			}
			return payload.New(append([]byte("asked "), r.Data()...), r.Metadata()), nil
		})
	case 2: // later
		proc := mono.NewProcessor[payload.Payload]()
		deferred[p.id] = proc
		return proc
	case 3: // a flow which asks the host in every step
		sum := []byte{}
		f := flow.New[payload.Payload]()
		var last []mono.Mono[payload.Payload]
		collect := func() error {
			for _, m := range last {
				r, err := m.Get()
				if err != nil {
					return err
				}
				sum = append(sum, r.Data()...)
				sum = append(sum, '|')
			}
			last = nil
			return nil
		}
		for i := 0; i < p.n; i++ {
			i := i
			f.Steps(func() (await.Group, error) {
				if err := collect(); err != nil {
					return nil, err
				}
				if i == p.failAt {
					return nil, p.failure()
				}
				var group []await.Awaitable
				for k := 0; k <= i%3; k++ {
					m := caller.RequestResponse(ctx, call(impRR, append([]byte{'s', byte(i), byte(k)}, p.rest...)))
					last = append(last, m)
					group = append(group, m)
				}
				return await.All(group...)
			})
		}
		f.Steps(func() (await.Group, error) {
			if err := collect(); err != nil {
				return f.Error(err)
			}
			return f.Success(payload.New(sum))
		})
		return f.Mono()
	}
	return mono.Error[payload.Payload](errors.New("bad plan"))
}

func fnf(ctx context.Context, pl payload.Payload) {
	p := parse(ctx, pl)
	switch p.mode {
	case 0:
		p.tell('f')
	case 1: // settles a deferred response
		proc, ok := deferred[p.id]
		if !ok {
			p.tell('?')
			return
		}
		delete(deferred, p.id)
		if p.failAt >= 0 {
			proc.Error(p.failure())
		} else {
			proc.Success(p.item(p.n))
		}
	}
}

// source emits the plan's items as they are asked for.
func (p *plan) source() flux.Flux[payload.Payload] {
	i := 0
	done := false
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		end := func() bool {
			if done {
				return true
			}
			if i == p.failAt {
				done = true
				sink.Error(p.failure())
			} else if i == p.n {
				done = true
				sink.Complete()
			}
			return done
		}
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				for ; n > 0 && !end(); n-- {
					i++
					sink.Next(p.item(i - 1))
				}
				end()
			},
			Cancel: func() {
				if !done {
					done = true
					p.tell('c')
				}
			},
		})
	})
}

func (p *plan) slice() []payload.Payload {
	s := make([]payload.Payload, p.n)
	for i := range s {
		s[i] = p.item(i)
	}
	return s
}

func (p *plan) mapped(in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	i := 0
	return flux.Map(in, func(x payload.Payload) (payload.Payload, error) {
		if i == p.failAt {
			return nil, p.failure()
		}
		i++
		return payload.New(append([]byte("mapped "), x.Data()...), x.Metadata()), nil
	})
}

func rs(ctx context.Context, pl payload.Payload) flux.Flux[payload.Payload] {
	p := parse(ctx, pl)
	switch p.mode {
	case 0:
		return p.source()
	case 1:
		return flux.FromSlice(p.slice())
	case 2: // the host's items
		return p.mapped(caller.RequestStream(ctx, call(impRS, p.rest)))
	case 3: // by a processor
		proc := flux.NewProcessor[payload.Payload]()
		proc.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse[payload.Payload](proc, p.slice())})
		return proc
	}
	return flux.Error[payload.Payload](errors.New("bad plan"))
}

func rc(ctx context.Context, pl payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	p := parse(ctx, pl)
	switch p.mode {
	case 0:
		return p.mapped(in)
	case 1: // everything at the end
		return flux.Create(func(sink flux.Sink[payload.Payload]) {
			var all []payload.Payload
			in.Subscribe(flux.Subscribe[payload.Payload]{
				OnNext: func(x payload.Payload) { all = append(all, x) },
				OnComplete: func() {
					sink.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(sink, all)})
				},
				OnError: func(err error) { sink.Error(fmt.Errorf("input: %w", err)) },
			})
		})
	case 2: // through the host
		return p.mapped(caller.RequestChannel(ctx, call(impRC, p.rest), in))
	case 3: // independent of the input
		in.Subscribe(flux.Subscribe[payload.Payload]{
			Finally: func(s rx.SignalType) {
				switch s {
				case rx.SignalComplete:
					p.tell('C')
				case rx.SignalError:
					p.tell('E')
				case rx.SignalCancel:
					p.tell('X')
				}
			},
		})
		return p.source()
	case 4: // takes some of the input
		return flux.Create(func(sink flux.Sink[payload.Payload]) {
			i := 0
			var sub rx.Subscription
			in.Subscribe(flux.Subscribe[payload.Payload]{
				OnRequest: func(s rx.Subscription) {
					if sub == nil {
						sub = s
						s.Request(p.n)
					}
				},
				OnNext: func(x payload.Payload) {
					i++
					sink.Next(x)
					if i == p.n {
						sub.Cancel()
						sink.Complete()
					}
				},
				OnComplete: func() { sink.Complete() },
				OnError:    func(err error) { sink.Error(fmt.Errorf("input: %w", err)) },
			})
		})
	}
	return flux.Error[payload.Payload](errors.New("bad plan"))
}
