//go:build go1.23

// Package reg is what generated models register themselves with, and what their
// stubs are wired to.
package reg

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"

	"reflect"
	"sync"
)

// Types makes the types of a model.
var Types = map[string]map[string]func() msgpack.Codec{}

// Call is an operation as its generated provider offers it.
type Call struct {
	Args []reflect.Type
	In   reflect.Type
	Out  reflect.Type
	Do   func(ctx context.Context, args []any, in *Feed) *Outcome
}

// Calls holds the operations by model.interface.operation.
var Calls = map[string]*Call{}

// Feed is what goes into a stream: values, then completion or an error.
type Feed struct {
	Vals      []any
	Err       error
	Cancelled int
}

// Outcome is what came out of a call.
type Outcome struct {
	Vals    []any
	Err     error
	Ends    int
	Overrun bool
}

// Scene is the current call as the operation sees it.
type Scene struct {
	Step   int // values demanded at a time, 0: all
	Answer Feed
	// Make draws the answers, once their type is known.
	Make func(rt reflect.Type) []any
	// Spoil, if any, changes the data of the request.
	Spoil func(b []byte) []byte
	// seen
	Invoked []string
	Args    []any
	Ctx     context.Context
	Inputs  []any
	InErr   error
	InEnds  int
	// on the way
	Kinds     []string
	Names     []invoke.HandlerInfo
	StreamIDs []uint32
	Bad       []string
	mu        sync.Mutex
}

// Blame notes what must not be.
func (s *Scene) Blame(what string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Bad = append(s.Bad, what)
}

// Now is the scene being played.
var Now *Scene

// Mark is a value the context of a call carries.
type Mark struct{}

// Arg is the i-th argument as the stub wants it.
func Arg[T any](a any) T { return a.(T) }

func source[T any](f *Feed) flux.Flux[T] {
	vals := f.Vals
	done := false
	return flux.Create(func(sink flux.Sink[T]) {
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				if done {
					return
				}
				for ; n > 0 && len(vals) > 0; n-- {
					v := vals[0]
					vals = vals[1:]
					sink.Next(v.(T))
				}
				if len(vals) == 0 && !done {
					done = true
					if f.Err != nil {
						sink.Error(f.Err)
					} else {
						sink.Complete()
					}
				}
			},
			Cancel: func() { f.Cancelled++; done = true },
		})
	})
}

// Input is the stream handed to a stub.
func Input[T any](f *Feed) flux.Flux[T] { return source[T](f) }

// RunMono calls and records.
func RunMono[T any](f func() mono.Mono[T]) *Outcome {
	o := &Outcome{}
	f().Subscribe(mono.Subscribe[T]{
		OnSuccess: func(v T) { o.Vals = append(o.Vals, v); o.Ends++ },
		OnError:   func(err error) { o.Err = err; o.Ends++ },
	})
	return o
}

// RunFlux calls and records, demanding as the scene says.
func RunFlux[T any](f func() flux.Flux[T]) *Outcome {
	o := &Outcome{}
	step := Now.Step
	got, asked := 0, 0
	f().Subscribe(flux.Subscribe[T]{
		OnNext: func(v T) {
			if o.Ends > 0 {
				Now.Blame("a value after the end")
			}
			o.Vals = append(o.Vals, v)
			if got++; got > asked {
				o.Overrun = true
			}
		},
		OnComplete: func() { o.Ends++ },
		OnError:    func(err error) { o.Err = err; o.Ends++ },
		OnRequest: func(s rx.Subscription) {
			if step > 0 {
				asked += step
				s.Request(step)
			} else {
				asked = math.MaxInt
				s.Request(rx.RequestMax)
			}
		},
	})
	return o
}

// Collect reads a stream to its end, then calls next.
func Collect[T any](in flux.Flux[T]) func(next func()) {
	return func(next func()) {
		in.Subscribe(flux.Subscribe[T]{
			OnNext:     func(v T) { Now.Inputs = append(Now.Inputs, v) },
			OnComplete: func() { Now.InEnds++; next() },
			OnError:    func(err error) { Now.InErr = err; Now.InEnds++; next() },
		})
	}
}

func note[T any](ctx context.Context, key string, args []any) {
	Now.Answer.Vals = Now.Make(reflect.TypeOf((*T)(nil)).Elem())
	Now.Invoked = append(Now.Invoked, key)
	Now.Args = args
	Now.Ctx = ctx
}

// ServeMono is the implementation of an operation with one answer.
func ServeMono[T any](ctx context.Context, key string, args []any, collect func(func())) mono.Mono[T] {
	note[T](ctx, key, args)
	return mono.Create(func(sink mono.Sink[T]) {
		answer := func() {
			if Now.Answer.Err != nil {
				sink.Error(Now.Answer.Err)
			} else {
				var v T
				if len(Now.Answer.Vals) > 0 {
					v = Now.Answer.Vals[0].(T)
				}
				sink.Success(v)
			}
		}
		if collect != nil {
			collect(answer)
		} else {
			answer()
		}
	})
}

// ServeFlux is the implementation of an operation with a stream of answers.
func ServeFlux[T any](ctx context.Context, key string, args []any, collect func(func())) flux.Flux[T] {
	note[T](ctx, key, args)
	if collect == nil {
		return source[T](&Now.Answer)
	}
	collect(func() {})
	return source[T](&Now.Answer)
}

type caller struct{}

// A component has other imports and exports, too.
func init() {
	for i := 0; i < 300; i++ {
		name := fmt.Sprint("other", i)
		invoke.ImportRequestResponse("zz.other", name)
		invoke.ImportRequestStream("zz.other", name)
		invoke.ImportRequestChannel("zz.other", name)
	}
}

// Caller takes the requests of the stubs to the exported handlers of the same
// names, as linked components would.
var Caller invoke.Caller = caller{}

func (caller) ImportRequestResponse(ns, op string) uint32 {
	return invoke.ImportRequestResponse(ns, op)
}
func (caller) ImportFireAndForget(ns, op string) uint32  { return invoke.ImportFireAndForget(ns, op) }
func (caller) ImportRequestStream(ns, op string) uint32  { return invoke.ImportRequestStream(ns, op) }
func (caller) ImportRequestChannel(ns, op string) uint32 { return invoke.ImportRequestChannel(ns, op) }

func route(kind string, p payload.Payload, imported, exported []invoke.HandlerInfo) (uint32, payload.Payload, error) {
	Now.Kinds = append(Now.Kinds, kind)
	m := p.Metadata()
	if len(m) != 8 {
		return 0, nil, fmt.Errorf("metadata of %d bytes", len(m))
	}
	i := binary.BigEndian.Uint32(m)
	Now.StreamIDs = append(Now.StreamIDs, binary.BigEndian.Uint32(m[4:]))
	if int(i) >= len(imported) {
		return 0, nil, fmt.Errorf("import %d of %d", i, len(imported))
	}
	name := imported[i]
	Now.Names = append(Now.Names, name)
	for k, e := range exported {
		if e == name {
			data := append([]byte{}, p.Data()...)
			if Now.Spoil != nil {
				data = Now.Spoil(data)
			}
			return uint32(k), payload.New(data, m), nil
		}
	}
	return 0, nil, errors.New("not exported: " + name.Namespace + "::" + name.Operation)
}

func (caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	o := invoke.GetOperations()
	i, q, err := route("rr", p, o.Imported.RequestResponse, o.Exported.RequestResponse)
	if err != nil {
		Now.Blame(err.Error())
		return mono.Error[payload.Payload](err)
	}
	return invoke.GetRequestResponseHandler(i)(ctx, q)
}

func (caller) FireAndForget(context.Context, payload.Payload) {
	Now.Blame("a fire-and-forget request")
}

func (caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	o := invoke.GetOperations()
	i, q, err := route("rs", p, o.Imported.RequestStream, o.Exported.RequestStream)
	if err != nil {
		Now.Blame(err.Error())
		return flux.Error[payload.Payload](err)
	}
	return invoke.GetRequestStreamHandler(i)(ctx, q)
}

func (caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	o := invoke.GetOperations()
	i, q, err := route("rc", p, o.Imported.RequestChannel, o.Exported.RequestChannel)
	if err != nil {
		Now.Blame(err.Error())
		return flux.Error[payload.Payload](err)
	}
	return invoke.GetRequestChannelHandler(i)(ctx, q, in)
}

// Stream is a stream in whose context a call is made.
type Stream struct{ ID uint32 }

// In puts the stream into a context.
func (s Stream) In(ctx context.Context) context.Context { return proxy.WithContext(ctx, s) }

func (s Stream) Context() context.Context { return context.Background() }
func (s Stream) StreamID() uint32         { return s.ID }
func (Stream) OnNext(payload.Payload)     {}
func (Stream) OnComplete()                {}
func (Stream) OnError(error)              {}
