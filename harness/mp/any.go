//go:build go1.23

package mp

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/msgpack"
)

// p08: dynamic values.
func p08(r *vlib.R) {
	r.Cases("write", r.N(6000, 120000), func(c *vlib.C) {
		v, ref := goValue(c.Rng, 1+c.Rng.Intn(4))
		b, err := msgpack.AnyToBytes(v)
		if err != nil {
			c.Failf("encode-error", "AnyToBytes(%T %v): %v", v, ref, err)
			return
		}
		got, rest, perr := refs.Parse(b, 1000)
		if perr != nil || len(rest) != 0 {
			c.Failf("not-msgpack", "AnyToBytes(%T %v) = %s: %v, %d bytes left", v, ref, hex(b), perr, len(rest))
			return
		}
		if !got.Equal(ref) {
			c.Failf("other-value", "AnyToBytes(%T %v) wrote %v", v, ref, got)
			return
		}
		d := msgpack.NewDecoder(b)
		back, err := d.ReadAny()
		if err != nil {
			c.Failf("refused", "ReadAny of what WriteAny wrote for %T %v: %v", v, ref, err)
			return
		}
		if m, err := model(back); err != nil || !m.Equal(ref) {
			c.Failf("other-value", "%T %v came back as %v (%v)", v, ref, m, err)
		}
		c.Count("written", 1)
		c.Nontrivial("%T %x", v, b)
		c.Sample("%T %v", v, ref)
	})
	r.Cases("read", r.N(5000, 100000), func(c *vlib.C) {
		v := refs.Gen(c.Rng, 1+c.Rng.Intn(4), false, false)
		if c.Rng.Intn(6) == 0 {
			v = refs.Time(refs.Instant(c.Rng))
		}
		b := append(v.Append(nil, c.Rng), sentinel...)
		d := msgpack.NewDecoder(b)
		got, err := d.ReadAny()
		if err != nil {
			c.Failf("refused", "ReadAny of %v (%s): %v", v, hex(b), err)
			return
		}
		if m, err := model(got); err != nil || !m.Equal(v) {
			c.Failf("other-value", "ReadAny of %v (%s) = %v (%v)", v, hex(b), m, err)
			return
		}
		if s, err := d.ReadString(); err != nil || s != "sentinel" {
			c.Failf("position", "after ReadAny of %v (%s): %q, %v", v, hex(b), s, err)
		}
		c.Count("read", 1)
		c.Nontrivial("%x", b)
	})
	r.Cases("skip", r.N(6000, 120000), func(c *vlib.C) {
		// A reader which skips what it does not know finds the next value.
		n := 1 + c.Rng.Intn(4)
		var b []byte
		var vs []refs.V
		for i := 0; i < n; i++ {
			v := refs.Gen(c.Rng, 1+c.Rng.Intn(4), false, true)
			vs = append(vs, v)
			b = v.Append(b, c.Rng)
		}
		b = append(b, sentinel...)
		d := msgpack.NewDecoder(b)
		for _, v := range vs {
			if err := d.Skip(); err != nil {
				c.Failf("skip", "Skip of %v (%s): %v", v, hex(b), err)
				return
			}
		}
		if s, err := d.ReadString(); err != nil || s != "sentinel" {
			c.Failf("position", "after skipping %v (%s): %q, %v", vs, hex(b), s, err)
		}
		// The truncated value is not skipped silently.
		v := vs[0].Append(nil, c.Rng)
		k := c.Rng.Intn(len(v))
		d = msgpack.NewDecoder(v[:k:k])
		if err := d.Skip(); err == nil {
			c.Failf("skip", "Skip of the first %d of %d bytes of %v (%s) succeeded", k, len(v), vs[0], hex(v))
		}
		c.Count("skipped", n)
		c.Nontrivial("%x", b)
	})
	r.Cases("unsupported", r.N(400, 8000), func(c *vlib.C) {
		// A value without an encoding must not silently leave a hole.
		type odd struct{ X int }
		bad := []any{odd{1}, &odd{2}, make(chan int), func() {}, complex(1, 2), failing{}, uintptr(3), struct{}{}}[c.Rng.Intn(8)]
		good, _ := goValue(c.Rng, 2)
		v := []any{bad, []any{good, bad}, map[string]any{"a": good, "b": bad}, map[any]any{"k": []any{bad}}}[c.Rng.Intn(4)]
		b, err := msgpack.AnyToBytes(v)
		if err == nil {
			c.Failf("hole", "AnyToBytes of a value with a %T reported no error and %s", bad, hex(b))
		}
		b, err = msgpack.ToBytes(anyCodec{v})
		if err == nil {
			c.Failf("hole", "ToBytes of a codec with a %T inside reported no error and %s", bad, hex(b))
		}
		c.Count("unsupported", 1)
		c.Nontrivial("%T in %T", bad, v)
	})
}

// failing is a codec whose Encode fails.
type failing struct{}

func (failing) Encode(w msgpack.Writer) error { w.WriteNil(); return errBoom }
func (failing) Decode(r msgpack.Reader) error { return errBoom }

// anyCodec writes its value dynamically and leaves errors to the writer.
type anyCodec struct{ v any }

func (a anyCodec) Encode(w msgpack.Writer) error { w.WriteAny(a.v); return nil }
func (a anyCodec) Decode(r msgpack.Reader) error { return nil }

// pair is a codec with a body of two values.
type pair struct {
	A int64
	B string
}

func (p *pair) Encode(w msgpack.Writer) error {
	w.WriteArraySize(2)
	w.WriteInt64(p.A)
	w.WriteString(p.B)
	return nil
}

func (p *pair) Decode(r msgpack.Reader) error {
	n, err := r.ReadArraySize()
	if err != nil {
		return err
	}
	if n != 2 {
		return fmt.Errorf("%d fields", n)
	}
	if p.A, err = r.ReadInt64(); err != nil {
		return err
	}
	p.B, err = r.ReadString()
	return err
}

func list[T any](rng *rand.Rand, gen func() T, ref func(T) refs.V) ([]T, refs.V) {
	n := refs.Len(rng, 300)
	if rng.Intn(50) == 0 {
		n = refs.Len(rng, 66000)
	}
	s := make([]T, n)
	v := refs.V{K: refs.KArr}
	for i := range s {
		s[i] = gen()
		v.A = append(v.A, ref(s[i]))
	}
	return s, v
}

func dict[K comparable](rng *rand.Rand, depth int, gen func() K, ref func(K) refs.V) (map[K]any, refs.V) {
	m := map[K]any{}
	v := refs.V{K: refs.KMap}
	n := refs.Len(rng, 40)
	big := depth <= 2 && rng.Intn(40) == 0
	if big {
		n = refs.Len(rng, 66000)
	}
	for i := 0; i < n; i++ {
		k := gen()
		if _, ok := m[k]; ok {
			continue
		}
		e, r := any(int64(i)), refs.Int(int64(i))
		if !big {
			e, r = goValue(rng, depth-1)
		}
		m[k] = e
		v.A = append(v.A, ref(k), r)
	}
	return m, v
}

// goValue draws a Go value of one of the types WriteAny knows, and its model.
func goValue(rng *rand.Rand, depth int) (any, refs.V) {
	i, u := refs.Int64(rng), refs.Uint64(rng)
	i64 := func() int64 { return refs.Int64(rng) }
	u64 := func() uint64 { return refs.Uint64(rng) }
	small := func() string { return fmt.Sprint("key", rng.Intn(10000)) }
	n := 18
	if depth > 1 {
		n = 44
	}
	switch rng.Intn(n) {
	case 0:
		return nil, refs.V{}
	case 1:
		return int(i), refs.Int(i)
	case 2:
		return int8(i), refs.Int(int64(int8(i)))
	case 3:
		return int16(i), refs.Int(int64(int16(i)))
	case 4:
		return int32(i), refs.Int(int64(int32(i)))
	case 5:
		return i, refs.Int(i)
	case 6:
		return uint(u), refs.Uint(u)
	case 7:
		return uint8(u), refs.Uint(uint64(uint8(u)))
	case 8:
		return uint16(u), refs.Uint(uint64(uint16(u)))
	case 9:
		return uint32(u), refs.Uint(uint64(uint32(u)))
	case 10:
		return u, refs.Uint(u)
	case 11:
		return i > 0, refs.V{K: refs.KBool, B: i > 0}
	case 12:
		f := float32(refs.Float(rng))
		return f, refs.V{K: refs.KF32, F: float64(f)}
	case 13:
		f := refs.Float(rng)
		return f, refs.V{K: refs.KF64, F: f}
	case 14:
		s := str(rng)
		return s, refs.Str(s)
	case 15:
		s := str(rng)
		return []byte(s), refs.V{K: refs.KBin, S: []byte(s)}
	case 16:
		t := refs.Instant(rng)
		return t, refs.Time(t)
	case 17:
		p := &pair{A: i, B: small()}
		return p, refs.V{K: refs.KArr, A: []refs.V{refs.Int(p.A), refs.Str(p.B)}}
	case 18:
		return wrap2(list(rng, func() string { return small() }, refs.Str))
	case 19:
		return wrap2(list(rng, func() bool { return rng.Intn(2) == 0 }, func(b bool) refs.V { return refs.V{K: refs.KBool, B: b} }))
	case 20:
		return wrap2(list(rng, func() int { return int(i64()) }, func(x int) refs.V { return refs.Int(int64(x)) }))
	case 21:
		return wrap2(list(rng, func() int8 { return int8(i64()) }, func(x int8) refs.V { return refs.Int(int64(x)) }))
	case 22:
		return wrap2(list(rng, func() int16 { return int16(i64()) }, func(x int16) refs.V { return refs.Int(int64(x)) }))
	case 23:
		return wrap2(list(rng, func() int32 { return int32(i64()) }, func(x int32) refs.V { return refs.Int(int64(x)) }))
	case 24:
		return wrap2(list(rng, i64, refs.Int))
	case 25:
		return wrap2(list(rng, func() uint { return uint(u64()) }, func(x uint) refs.V { return refs.Uint(uint64(x)) }))
	case 26:
		return wrap2(list(rng, func() uint16 { return uint16(u64()) }, func(x uint16) refs.V { return refs.Uint(uint64(x)) }))
	case 27:
		return wrap2(list(rng, func() uint32 { return uint32(u64()) }, func(x uint32) refs.V { return refs.Uint(uint64(x)) }))
	case 28:
		return wrap2(list(rng, u64, refs.Uint))
	case 29:
		return wrap2(list(rng, func() time.Time { return refs.Instant(rng) }, refs.Time))
	case 30:
		m := map[string]string{}
		v := refs.V{K: refs.KMap}
		for k := refs.Len(rng, 70); k > 0; k-- {
			a := small()
			if _, ok := m[a]; !ok {
				m[a] = small()
				v.A = append(v.A, refs.Str(a), refs.Str(m[a]))
			}
		}
		return m, v
	case 31:
		return wrap2(dict(rng, depth, small, refs.Str))
	case 32:
		return wrap2(dict(rng, depth, func() int { return int(i64()) }, func(x int) refs.V { return refs.Int(int64(x)) }))
	case 33:
		return wrap2(dict(rng, depth, func() int8 { return int8(i64()) }, func(x int8) refs.V { return refs.Int(int64(x)) }))
	case 34:
		return wrap2(dict(rng, depth, func() int16 { return int16(i64()) }, func(x int16) refs.V { return refs.Int(int64(x)) }))
	case 35:
		return wrap2(dict(rng, depth, func() int32 { return int32(i64()) }, func(x int32) refs.V { return refs.Int(int64(x)) }))
	case 36:
		return wrap2(dict(rng, depth, i64, refs.Int))
	case 37:
		return wrap2(dict(rng, depth, func() uint { return uint(u64()) }, func(x uint) refs.V { return refs.Uint(uint64(x)) }))
	case 38:
		return wrap2(dict(rng, depth, func() uint8 { return uint8(u64()) }, func(x uint8) refs.V { return refs.Uint(uint64(x)) }))
	case 39:
		return wrap2(dict(rng, depth, func() uint16 { return uint16(u64()) }, func(x uint16) refs.V { return refs.Uint(uint64(x)) }))
	case 40:
		return wrap2(dict(rng, depth, func() uint32 { return uint32(u64()) }, func(x uint32) refs.V { return refs.Uint(uint64(x)) }))
	case 41:
		return wrap2(dict(rng, depth, u64, refs.Uint))
	case 42:
		s := []any{}
		v := refs.V{K: refs.KArr}
		for k := refs.Len(rng, 40); k > 0; k-- {
			e, r := goValue(rng, depth-1)
			s, v.A = append(s, e), append(v.A, r)
		}
		return s, v
	}
	m := map[any]any{}
	v := refs.V{K: refs.KMap}
	for k := refs.Len(rng, 40); k > 0; k-- {
		var a any = small()
		r := refs.Str(a.(string))
		switch rng.Intn(3) {
		case 0:
			a, r = int64(k), refs.Int(int64(k))
		case 1:
			a, r = -k, refs.Int(int64(-k))
		}
		if _, ok := m[a]; ok {
			continue
		}
		e, er := goValue(rng, depth-1)
		m[a] = e
		v.A = append(v.A, r, er)
	}
	return m, v
}

func wrap2[T any](v T, r refs.V) (any, refs.V) { return v, r }
