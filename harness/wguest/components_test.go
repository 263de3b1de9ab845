//go:build go1.23

package wguest

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/transport/wasmrs/example/concat"
	"github.com/nanobus/iota/go/transport/wasmrs/example/wordfrequency"
)

var ignored = map[string]bool{"i": true, "the": true, "and": true, "to": true, "of": true, "a": true, "my": true, "in": true, "you": true, "is": true, "that": true}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func port(name string, next, complete bool, p payload.Payload) payload.Payload {
	io := invoke.PortIO{Port: name, Next: next, Complete: complete}
	var d []byte
	if p != nil {
		d = p.Data()
	}
	return payload.New(d, io.Encode())
}

// components sends well-formed and malformed input to the ports of the example
// components.
func components(c *vlib.C) {
	w := newWorld(c)
	if w == nil {
		return
	}
	defer w.inst.Close()
	for i, n := 0, 1+w.rng.Intn(5); i < n; i++ {
		w.component()
	}
	c.Nontrivial("%v", w.hist)
}

func (w *world) word() string {
	rng := w.rng
	switch rng.Intn(6) {
	case 0:
		return []string{"The", "and", "OF", "i", "MY", "that"}[rng.Intn(6)]
	case 1:
		return []string{"", "Ärger", "ÉTÉ", "日本", "naïve"}[rng.Intn(5)]
	case 2:
		return strings.Repeat("x", 1+rng.Intn(300))
	}
	b := []byte{"aBcD"[rng.Intn(4)], "eF"[rng.Intn(2)]}
	return string(b)
}

func (w *world) component() {
	rng := w.rng
	var in []payload.Payload
	var name, op string
	var check func(got []invoke.PortIO, data []payload.Payload) error
	other := func() {
		if rng.Intn(3) == 0 {
			in = append(in, port("else"+w.word(), rng.Intn(2) == 0, rng.Intn(2) == 0, nil))
		}
	}
	single := func(out, want string) {
		check = func(got []invoke.PortIO, data []payload.Payload) error {
			if len(got) != 1 {
				return fmt.Errorf("%d payloads", len(got))
			}
			s, err := transform.String.Decode(data[0])
			if err != nil || s != want || !is(got[0], out, true, true) {
				return fmt.Errorf("got %q, %v on %+v instead of %q", s, err, got[0], want)
			}
			return nil
		}
	}
	damage := func() payload.Payload {
		return payload.New([]byte{0xa1, 'x'}, [][]byte{nil, {}, {1}, {0, 9, 'x', 3}}[rng.Intn(4)])
	}
	other()
	switch rng.Intn(3) {
	case 0:
		name, op = "greeter", "Greeter"
		x := w.word()
		in = append(in, port("name", true, rng.Intn(2) == 0, must(transform.String.Encode(x))))
		single("message", "Hello, "+x)
	case 1:
		name, op = "concat", "Concat"
		s := concat.Strings{Left: w.word(), Right: w.word()}
		in = append(in, port("strings", true, rng.Intn(2) == 0, must(transform.CodecEncode(&s))))
		single("value", s.Left+" "+s.Right)
	default:
		name, op = "wordfrequency", "WordFrequency"
		counts := map[string]uint64{}
		for i, n := 0, rng.Intn(40); i < n; i++ {
			x := w.word()
			in = append(in, port("words", true, false, must(transform.String.Encode(x))))
			if x = strings.ToLower(x); !ignored[x] {
				counts[x]++
			}
			other()
		}
		if rng.Intn(2) == 0 {
			x := w.word()
			p := port("words", true, true, must(transform.String.Encode(x)))
			if rng.Intn(2) == 0 {
				p = port("words", false, true, nil)
			} else if x = strings.ToLower(x); !ignored[x] {
				counts[x]++
			}
			in = append(in, p)
		}
		check = func(got []invoke.PortIO, data []payload.Payload) error {
			if len(got) != len(counts)+1 {
				return fmt.Errorf("%d payloads for %d words", len(got), len(counts))
			}
			last := uint64(1 << 62)
			for i, g := range got[:len(counts)] {
				var wc wordfrequency.WordCount
				if err := transform.CodecDecode(data[i], &wc); err != nil {
					return err
				}
				if !is(g, "counts", true, false) || wc.Count != counts[wc.Word] || wc.Count == 0 || wc.Count > last {
					return fmt.Errorf("count %+v on %+v after %d, want %v", wc, g, last, counts)
				}
				last = wc.Count
				delete(counts, wc.Word)
			}
			if g := got[len(got)-1]; !is(g, "counts", false, true) {
				return fmt.Errorf("the last payload is on %+v", g)
			}
			return nil
		}
	}
	bad := rng.Intn(5) == 0
	fails := bad
	if bad {
		// Before anything that answers.
		in = append([]payload.Payload{damage()}, in...)
	} else if rng.Intn(8) == 0 {
		// Its data cannot be read.
		bad, fails = true, true
		in = append([]payload.Payload{payload.New([]byte{0xd9}, port(map[string]string{"greeter": "name", "concat": "strings", "wordfrequency": "words"}[name], true, false, nil).Metadata())}, in...)
	}
	w.hist = append(w.hist, fmt.Sprintf("%s %d payloads bad %v", op, len(in), bad))
	md := binary.BigEndian.AppendUint32(nil, w.ops["4 "+name+" "+op])
	f := w.inst.RequestChannel(context.Background(), payload.New(nil, append(md, 0, 0, 0, 0)), flux.FromSlice(in))
	var l log
	var got []invoke.PortIO
	var data []payload.Payload
	var broken error
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			l.next(p)
			var io invoke.PortIO
			if err := io.Decode(p.Metadata()); err != nil {
				broken = err
			}
			got, data = append(got, io), append(data, payload.New(append([]byte(nil), p.Data()...)))
		},
		OnComplete: func() { l.add("C") },
		OnError:    l.failed,
		Finally:    l.final,
	})
	time.Sleep(time.Second)
	vlib.Settle()
	l.mu.Lock()
	defer l.mu.Unlock()
	w.c.Count("components", 1)
	if fails {
		w.c.Count("malformed_inputs", 1)
		if len(got) > 0 || l.order != "EF" {
			w.failf("component", "%s: malformed input: %d payloads and %q %s", op, len(got), l.order, l.err)
		}
		return
	}
	err := broken
	if err == nil {
		err = check(got, data)
	}
	if err == nil && l.order != "CF" {
		err = errors.New("ended " + l.order + " " + l.err)
	}
	if err != nil {
		w.failf("component", "%s: %v", op, err)
	}
}

func is(p invoke.PortIO, name string, next, complete bool) bool {
	return p.Port == name && p.Next == next && p.Complete == complete && len(p.Data) == 0
}
