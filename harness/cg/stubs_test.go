//go:build go1.23

package cg

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/zzverif/cg/reg"
	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/invoke"
)

var kinds = map[string]string{"rr": "request-response", "rs": "request-stream", "rc": "request-channel"}

func (m *model) where(o *oper) invoke.HandlerInfo {
	if o.Iface == "" {
		return invoke.HandlerInfo{Namespace: m.NS, Operation: o.Op}
	}
	return invoke.HandlerInfo{Namespace: m.NS + "." + o.Iface, Operation: o.Op}
}

// p43: a call through a generated provider is a call of the operation.
func p43(r *vlib.R) {
	ms := generated(r)
	if len(ms) == 0 {
		return
	}
	r.Cases("exports", len(ms), func(c *vlib.C) {
		m := ms[c.Idx]
		all := invoke.GetOperations().Exported
		lists := map[string][]invoke.HandlerInfo{"rr": all.RequestResponse, "fnf": all.FireAndForget, "rs": all.RequestStream, "rc": all.RequestChannel}
		for _, o := range m.Ops {
			for kind, l := range lists {
				n, want := 0, 0
				if kind == o.Kind {
					want = 1
				}
				for _, h := range l {
					if h == m.where(o) {
						n++
					}
				}
				if n != want {
					c.Failf("exports", "%s %v: exported %d times as %s", m.Name, o, n, kind)
				}
			}
			c.Count("operations_"+o.Kind, 1)
		}
	})
	var with []*model
	for _, m := range ms {
		if len(m.Ops) > 0 {
			with = append(with, m)
		}
	}
	r.Bubble("call", r.N(16000, 200000), func(c *vlib.C) {
		m := with[c.Rng.Intn(len(with))]
		calls(c, m, m.Ops[c.Rng.Intn(len(m.Ops))])
	})
}

// drawn is a value and what it means.
func (d *drawer) drawn(t *T, rt reflect.Type) (any, refs.V) {
	if t.K == "void" {
		return struct{}{}, nilV
	}
	if rt.Kind() == reflect.Pointer && t.K == "type" {
		v, w := d.value(t, rt.Elem(), 3)
		p := reflect.New(rt.Elem())
		p.Elem().Set(v)
		return p.Interface(), w
	}
	v, w := d.value(t, rt, 3)
	return v.Interface(), w
}

func (m *model) same(t *T, want refs.V, got any) error {
	if t.K == "void" {
		return nil
	}
	v := reflect.ValueOf(got)
	if t.K == "type" && v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return errors.New("nil instead of an object")
		}
		v = v.Elem()
	}
	return m.agree(t, want, m.view(t, v))
}

func (m *model) all(t *T, want []refs.V, got []any) error {
	if len(want) != len(got) {
		return fmt.Errorf("%d values instead of %d", len(got), len(want))
	}
	for i := range want {
		if err := m.same(t, want[i], got[i]); err != nil {
			return fmt.Errorf("value %d: %w", i, err)
		}
	}
	return nil
}

func calls(c *vlib.C, m *model, o *oper) {
	key := m.Name + "." + o.Iface + "." + o.Op
	call := reg.Calls[key]
	if call == nil {
		c.Failf("missing", "%s is not offered", key)
		return
	}
	d := &drawer{m: m, rng: c.Rng, plain: true, budget: 400}
	if len(call.Args) != len(o.Params) || (call.In == nil) != (o.Input == nil) {
		c.Failf("missing", "%s: %v takes %d arguments", m.Name, o, len(call.Args))
		return
	}
	rng := c.Rng
	many := func() int {
		if rng.Intn(20) == 0 {
			return 20 + rng.Intn(200)
		}
		return rng.Intn(6)
	}
	var args []any
	var wantArgs []refs.V
	for i, t := range o.Params {
		v, w := d.drawn(t, call.Args[i])
		args, wantArgs = append(args, v), append(wantArgs, w)
	}
	var in *reg.Feed
	var wantIn []refs.V
	if o.Input != nil {
		in = &reg.Feed{}
		for n := many(); n > 0; n-- {
			v, w := d.drawn(o.Input, call.In)
			in.Vals, wantIn = append(in.Vals, v), append(wantIn, w)
		}
		if rng.Intn(5) == 0 {
			in.Err = fmt.Errorf("the input failed %d", rng.Intn(1000))
		}
	}
	s := &reg.Scene{}
	if rng.Intn(2) == 0 {
		s.Step = 1 + rng.Intn(4)
	}
	if rng.Intn(4) == 0 {
		s.Answer.Err = fmt.Errorf("the operation failed %d", rng.Intn(1000))
	}
	answers := 1
	if o.Kind != "rr" {
		answers = many()
	}
	if o.Kind == "rr" && s.Answer.Err != nil {
		answers = 0
	}
	var wantOut []refs.V
	s.Make = func(rt reflect.Type) (vals []any) {
		wantOut = nil
		for i := 0; i < answers; i++ {
			v, w := d.drawn(o.Ret, rt)
			vals, wantOut = append(vals, v), append(wantOut, w)
		}
		return vals
	}
	ctx := context.WithValue(context.Background(), reg.Mark{}, key)
	id := uint32(0)
	if rng.Intn(2) == 0 {
		id = uint32(refs.Uint64(rng))
		ctx = reg.Stream{ID: id}.In(ctx)
	}
	spoilt := len(o.Params) > 0 && rng.Intn(8) == 0
	var sent []byte
	s.Spoil = func(b []byte) []byte {
		sent = append([]byte{}, b...)
		if spoilt {
			b = b[:rng.Intn(len(b))]
			sent = append([]byte{}, b...)
		}
		return b
	}
	reg.Now = s
	var out *reg.Outcome
	c.Guard("panic", func() {
		out = call.Do(ctx, args, in)
		// whatever is under way has come to its end
		synctest.Wait()
	})
	if c.Failed() {
		return
	}
	what := m.Name + " " + o.String()
	c.Nontrivial("%s %x %v", what, sent, wantOut)
	c.Count("calls_"+o.Kind, 1)
	for _, b := range s.Bad {
		c.Failf("way", "%s: %s", what, b)
	}
	if len(s.Kinds) != 1 || len(s.Names) != 1 {
		c.Failf("way", "%s: requested %d times", what, len(s.Kinds))
		return
	}
	if s.Kinds[0] != o.Kind || s.Names[0] != m.where(o) {
		c.Failf("way", "%s: requested as %s %v", what, kinds[s.Kinds[0]], s.Names[0])
	}
	if s.StreamIDs[0] != id {
		c.Failf("stream-id", "%s: called from stream %d, announced %d", what, id, s.StreamIDs[0])
	}
	if out.Ends != 1 {
		c.Failf("end", "%s: ended %d times", what, out.Ends)
	}
	if out.Overrun {
		c.Failf("demand", "%s: more values than asked for", what)
	}
	if spoilt {
		if out.Err == nil || len(out.Vals) > 0 || len(s.Invoked) > 0 {
			c.Failf("spoilt", "%s: arguments cut to %x: invoked %v, %d values, error %v", what, cut(sent), s.Invoked, len(out.Vals), out.Err)
		}
		c.Count("spoilt", 1)
		return
	}
	if len(s.Invoked) != 1 || s.Invoked[0] != key {
		c.Failf("way", "%s: reached %v (error %v)", what, s.Invoked, out.Err)
		return
	}
	if s.Ctx.Value(reg.Mark{}) != key {
		c.Failf("context", "%s: the context is not the caller's", what)
	}
	if err := m.all2(o.Params, wantArgs, s.Args); err != nil {
		c.Failf("arguments", "%s: %x: %v", what, cut(sent), err)
	}
	c.Count("arguments", len(args))
	if in != nil {
		if err := m.all(o.Input, wantIn, s.Inputs); err != nil {
			c.Failf("input", "%s: %v", what, err)
		}
		if s.InEnds != 1 || text(s.InErr) != text(in.Err) {
			c.Failf("input", "%s: the input ended %d times, with %v, not %v", what, s.InEnds, s.InErr, in.Err)
		}
		c.Count("inputs", len(wantIn))
	}
	if err := m.all(o.Ret, wantOut, out.Vals); err != nil {
		c.Failf("output", "%s: %v", what, err)
	}
	if text(out.Err) != text(s.Answer.Err) {
		c.Failf("output", "%s: ended with %v, not %v", what, out.Err, s.Answer.Err)
	}
	c.Count("outputs", len(wantOut))
	if s.Answer.Err != nil {
		c.Count("errors", 1)
	}
	if s.Step > 0 && o.Kind != "rr" {
		c.Count("by_demand", 1)
	}
	c.Sample("%s: %x, %d inputs, %d outputs", what, cut(sent), len(wantIn), len(wantOut))
}

func (m *model) all2(ts []*T, want []refs.V, got []any) error {
	if len(want) != len(got) {
		return fmt.Errorf("%d arguments instead of %d", len(got), len(want))
	}
	for i := range want {
		if err := m.same(ts[i], want[i], got[i]); err != nil {
			return fmt.Errorf("argument %d: %w", i, err)
		}
	}
	return nil
}

func text(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}
