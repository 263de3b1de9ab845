//go:build go1.23

package wguest

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// The guest made of the Rust crates.
var rmodule = sync.OnceValue(func() *host.Module { return compile("rguest.wasm") })

func newRust(c *vlib.C) *world {
	w := &world{c: c, rng: c.Rng, rust: true}
	if !w.start(rmodule()) {
		return nil
	}
	return w
}

func rmix(c *vlib.C) {
	w := newRust(c)
	if w == nil {
		return
	}
	var other *world
	if w.rng.Intn(4) == 0 {
		if other = newRust(c); other == nil {
			return
		}
		c.Count("second_instances", 1)
	}
	run(w, other, w.rgen)
}

// tooLarge is how the guest fails a stream for which a frame does not fit the
// host's buffer.
const tooLarge = "Frame exceeds the host's buffer"

// fits tells whether a frame with them, and with n, does.
func fits(data, md int, n bool) bool {
	size := 3 + 6 + data
	if md > 0 {
		size += 3 + md
	}
	if n {
		size += 4
	}
	return size <= 16*1024
}

// cut ends the payloads at the first which does not fit.
func cut(l []pl, fail string) ([]pl, string) {
	for i, p := range l {
		if !fits(len(p.data), len(p.md), false) {
			return l[:i:i], tooLarge
		}
	}
	return l, fail
}

func bare(l []pl) []pl {
	for i := range l {
		l[i].md = nil
	}
	return l
}

// rgen makes a call. The guest takes no notice of demand and hands no metadata
// to its operations.
func (w *world) rgen(id uint32) *call {
	rng := w.rng
	c := &call{w: w, p: plan{id: id, failAt: -1}}
	p := &c.p
	p.size = size(rng)
	big := rng.Intn(15) == 0
	if big {
		// Around the host's buffer.
		p.size = 16*1024 - 40 + rng.Intn(60)
	}
	p.n = rng.Intn(9)
	if rng.Intn(12) == 0 {
		p.n = rng.Intn(60)
	}
	if rng.Intn(4) == 0 {
		p.failAt = rng.Intn(p.n + 1)
	}
	tail := make([]byte, 4+rng.Intn(30))
	rng.Read(tail)
	one := func(l ...pl) { c.want, c.fail = cut(l, "") }
	if rng.Intn(10) == 0 {
		w.refused(c)
		return c
	}
	switch rng.Intn(12) {
	case 0, 1, 2, 3, 4:
		c.kind, c.name = operations.RequestResponse, "rr"
		p.mode = byte(rng.Intn(5))
		p.rest = tail
		switch p.mode {
		case 0, 2:
			if p.mode == 2 {
				c.settle = time.Duration(1+rng.Intn(3000)) * time.Microsecond
			}
			if one(p.item(p.n)); p.failAt >= 0 {
				c.want, c.fail = nil, p.failure()
			}
		case 1:
			r, fail, _ := answer(tail)
			one(pl{append([]byte("asked "), r.data...), r.md})
			if fail != "" {
				c.want, c.fail = nil, fail
			} else if p.failAt >= 0 {
				c.want, c.fail = nil, p.failure()
			}
		case 3:
			p.n = rng.Intn(6)
			p.failAt = min(p.failAt, p.n)
			sum := []byte{}
			for i := 0; i < p.n && c.fail == ""; i++ {
				if i == p.failAt {
					c.fail = p.failure()
					break
				}
				for k := 0; k <= i%3; k++ {
					r, fail, _ := answer(append([]byte{'s', byte(i), byte(k)}, tail...))
					if fail != "" {
						c.fail = fail
						break
					}
					sum = append(append(sum, r.data...), '|')
				}
			}
			if c.fail == "" {
				one(pl{sum, nil})
			}
		case 4:
			q := append(bytes.Repeat([]byte{'x'}, p.size), tail...)
			r, fail, _ := answer(q)
			switch {
			case !fits(len(q), 11, false):
				c.fail = tooLarge
			case fail != "":
				c.fail = fail
			default:
				n := len(r.data)
				one(pl{[]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, nil})
			}
		}
		if c.fail == tooLarge {
			w.c.Count("too_large", 1)
		}
		return c
	case 5:
		if rng.Intn(2) == 0 {
			c.kind, c.name = operations.RequestResponse, "echo"
			p.rest = bytes.Repeat(tail, rng.Intn(300))
			one(pl{p.bytes(), nil})
			return c
		}
		c.kind, c.name = operations.FireAndForget, "fnf"
		p.mode = byte(rng.Intn(2))
		return c
	case 6, 7, 8:
		c.kind, c.name = operations.RequestStream, "rs"
		p.mode = byte(rng.Intn(4))
		c.want, c.fail = p.items()
		if p.mode == 2 {
			h := plan{n: rng.Intn(9), failAt: -1, size: size(rng), id: id}
			if rng.Intn(4) == 0 {
				h.failAt = rng.Intn(h.n + 1)
			}
			p.rest = h.bytes()
			c.want, c.fail = p.mapped(h.items())
		}
	default:
		c.kind, c.name = operations.RequestChannel, "rc"
		p.mode = byte(rng.Intn(5))
		h := plan{n: rng.Intn(9), failAt: -1, size: size(rng), id: id}
		if rng.Intn(4) == 0 {
			h.failAt = rng.Intn(h.n + 1)
		}
		if p.mode == 4 && rng.Intn(3) == 0 {
			h.n, h.failAt, h.size = endless, -1, rng.Intn(8)
		}
		c.in = newSource(h)
		in, fail := h.items()
		in = bare(in)
		switch p.mode {
		case 0:
			c.want, c.fail = p.mapped(in, fail)
		case 1:
			c.want = in
			if fail != "" {
				c.want, c.fail = nil, "input: "+fail
			}
		case 2:
			p.rest = plan{id: id}.bytes()
			for i := range in {
				in[i].data = append([]byte("h "), in[i].data...)
			}
			c.want, c.fail = p.mapped(in, fail)
		case 3:
			c.want, c.fail = p.items()
		case 4:
			p.n = 1 + rng.Intn(8)
			c.want, c.fail = in, ""
			if len(in) >= p.n {
				c.want = in[:p.n]
			} else if fail != "" {
				c.fail = "input: " + fail
			}
			return c
		}
	}
	if c.want, c.fail = cut(c.want, c.fail); c.fail == tooLarge {
		w.c.Count("too_large", 1)
	}
	if len(c.want) > 0 && rng.Intn(4) == 0 {
		c.cancel = 1 + rng.Intn(len(c.want))
	}
	return c
}

// refused makes the call one for an operation which refuses it, or for none.
func (w *world) refused(c *call) {
	rng := w.rng
	names := []string{"fnf", "rr", "rs", "rc"}
	kinds := []operations.RequestType{operations.FireAndForget, operations.RequestResponse, operations.RequestStream, operations.RequestChannel}
	k := rng.Intn(4)
	c.kind, c.name = kinds[k], names[k]
	if c.name == "rc" {
		c.in = newSource(plan{n: rng.Intn(5), failAt: -1, size: rng.Intn(30), id: c.p.id})
	}
	w.c.Count("refused_requests", 1)
	switch rng.Intn(3) {
	case 0:
		c.md = binary.BigEndian.AppendUint32(nil, w.ops[fmt.Sprintf("%d wasm no", c.kind)])
		c.md = append(c.md, 0, 0, 0, 0)
		c.fail = "refused"
	case 1:
		i := uint32(3 + rng.Intn(5))
		if rng.Intn(3) == 0 {
			i = rng.Uint32() | 1<<uint(rng.Intn(28)+4)
		}
		c.md = append(binary.BigEndian.AppendUint32(nil, i), make([]byte, 4+rng.Intn(9))...)
		c.fail = "No handler found"
	default:
		c.md = make([]byte, 1+rng.Intn(3))
		rng.Read(c.md)
		c.fail = "*"
	}
}
