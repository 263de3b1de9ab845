//go:build go1.23

package mp

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/msgpack"
)

func TestCheck(t *testing.T) {
	vlib.Run(t, map[string]func(r *vlib.R){"P05": p05, "P06": p06, "P07": p07, "P08": p08, "P09": p09})
}

const sentinel = "\xa8sentinel"

func genProgram(rng *rand.Rand) program {
	n := 1 + rng.Intn(6)
	p := make(program, n)
	for i := range p {
		p[i] = genOp(rng)
	}
	return p
}

// guarded returns a buffer of n bytes with canaries on both sides.
func guarded(n int) (buf []byte, intact func() bool) {
	whole := bytes.Repeat([]byte{0xa5}, n+64)
	return whole[32 : 32+n], func() bool {
		for _, b := range whole[:32] {
			if b != 0xa5 {
				return false
			}
		}
		for _, b := range whole[32+n:] {
			if b != 0xa5 {
				return false
			}
		}
		return true
	}
}

// p05: what is written typed is read back equal, and the sizer predicts the
// length exactly.
func p05(r *vlib.R) {
	r.Cases("program", r.N(60000, 1000000), func(c *vlib.C) {
		p := genProgram(c.Rng)
		var want []byte
		for _, o := range p {
			want = o.ref.Append(want, nil)
		}
		b, err := msgpack.ToBytes(p)
		if err != nil {
			c.Failf("encode-error", "ToBytes(%v): %v", p, err)
			return
		}
		sizer := msgpack.NewSizer()
		_ = p.Encode(&sizer)
		if int(sizer.Len()) != len(b) {
			c.Failf("sizer", "two sizing passes of %v differ: %d and %d", p, sizer.Len(), len(b))
		}
		// Writing into a buffer which is longer shows where the encoder
		// really stopped.
		buf, intact := guarded(len(b) + 16)
		enc := msgpack.NewEncoder(buf)
		if err := p.Encode(&enc); err != nil {
			c.Failf("encode-error", "encoding %v into a sufficient buffer: %v", p, err)
			return
		}
		enc.WriteString("sentinel")
		if enc.Err() != nil || !bytes.HasPrefix(buf, b) {
			c.Failf("encode-differs", "%v: the same calls wrote different bytes (%v)", p, enc.Err())
			return
		}
		if !bytes.HasPrefix(buf[len(b):], []byte(sentinel)) {
			at := bytes.Index(buf, []byte(sentinel))
			c.Failf("sizer", "sizer said %d bytes for %v, the encoder wrote %d", len(b), p, at)
			return
		}
		if !intact() {
			c.Failf("overrun", "encoding %v wrote outside its buffer", p)
		}
		dec := msgpack.NewDecoder(buf)
		if err := p.Decode(&dec); err != nil {
			c.Failf("round-trip", "%v: %v", p, err)
			return
		}
		if s, err := dec.ReadString(); err != nil || s != "sentinel" {
			c.Failf("position", "after reading back %v the decoder is not at the end of it: %q, %v", p, s, err)
		}
		// Reading from exactly the bytes consumes them all.
		dec = msgpack.NewDecoder(b)
		if err := p.Decode(&dec); err != nil {
			c.Failf("round-trip", "%v from exactly its bytes: %v", p, err)
			return
		}
		if _, err := dec.ReadAny(); err == nil || dec.Err() == nil {
			c.Failf("end", "%v: reading past the end: error %v, Err() %v", p, err, dec.Err())
		}
		// A buffer which is too short is reported and never overrun.
		if len(b) > 0 {
			n := c.Rng.Intn(len(b))
			if c.Rng.Intn(2) == 0 {
				n = len(b) - 1
			}
			buf, intact := guarded(n)
			enc := msgpack.NewEncoder(buf)
			if err := p.Encode(&enc); err == nil {
				c.Failf("short-buffer", "%v encoded into %d of %d bytes without an error", p, n, len(b))
			}
			if !intact() {
				c.Failf("overrun", "encoding %v into a short buffer wrote outside it", p)
			}
			c.Count("short_buffers", 1)
			if bytes.Equal(buf, b[:n]) {
				c.Count("short_prefix_kept", 1)
			}
			// A truncated encoding is reported, too.
			dec := msgpack.NewDecoder(b[:n:n])
			if err := p.Decode(&dec); err == nil {
				c.Failf("truncated", "%v read from %d of %d bytes without an error", p, n, len(b))
			}
		}
		c.Count("programs", 1)
		c.Count("calls", len(p))
		c.Count("bytes", len(b))
		c.Nontrivial("%x", want)
		c.Sample("%v = %d bytes", p, len(b))
	})
	r.Cases("helpers", r.N(20000, 300000), func(c *vlib.C) { helpers(c) })
	r.Cases("sizes", r.N(40000, 1000000), func(c *vlib.C) { sizes(c) })
}

// sizes writes the sizes of containers of any length.
func sizes(c *vlib.C) {
	n := uint32(refs.Uint64(c.Rng))
	if c.Rng.Intn(2) == 0 {
		n = uint32(refs.Len(c.Rng, 70000))
	}
	for _, isMap := range []bool{false, true} {
		name := map[bool]string{false: "array", true: "map"}[isMap]
		put := func(w msgpack.Writer) {
			if isMap {
				w.WriteMapSize(n)
			} else {
				w.WriteArraySize(n)
			}
			w.WriteString("sentinel")
		}
		sizer := msgpack.NewSizer()
		put(&sizer)
		b := make([]byte, sizer.Len())
		enc := msgpack.NewEncoder(b)
		put(&enc)
		want := refs.Header(isMap, n)
		if enc.Err() != nil || string(b) != string(want)+sentinel {
			c.Failf("size-header", "the size %d of a %s is written as %s (%v), not as %x", n, name, hex(b), enc.Err(), want)
			return
		}
		d := msgpack.NewDecoder(b)
		var got uint32
		var err error
		if isMap {
			got, err = d.ReadMapSize()
		} else {
			got, err = d.ReadArraySize()
		}
		if err != nil || got != n {
			c.Failf("round-trip", "the size %d of a %s is read back as %d, %v", n, name, got, err)
			return
		}
		if s, err := d.ReadString(); err != nil || s != "sentinel" {
			c.Failf("position", "after the size %d of a %s: %q, %v", n, name, s, err)
		}
		c.Count("container_sizes", 1)
	}
	c.Nontrivial("size %d", n)
}

func helpers(c *vlib.C) {
	i, u := refs.Int64(c.Rng), refs.Uint64(c.Rng)
	f, s := refs.Float(c.Rng), str(c.Rng)
	type D = *msgpack.Decoder
	try := func(name string, b []byte, err error, same func(d D) bool) {
		if err != nil {
			c.Failf("helper", "%s: %v", name, err)
			return
		}
		d := msgpack.NewDecoder(b)
		if !same(&d) {
			c.Failf("helper", "%s of i=%d u=%d f=%v |s|=%d does not read back from %s", name, i, u, f, len(s), brief(b))
			return
		}
		if _, err := d.ReadAny(); err == nil {
			c.Failf("helper", "%s left bytes behind its value: %s", name, brief(b))
		}
		c.Count("helpers", 1)
	}
	b, err := msgpack.I8ToBytes(int8(i))
	try("I8ToBytes", b, err, func(d D) bool { v, e := d.ReadInt8(); return e == nil && v == int8(i) })
	b, err = msgpack.I16ToBytes(int16(i))
	try("I16ToBytes", b, err, func(d D) bool { v, e := d.ReadInt16(); return e == nil && v == int16(i) })
	b, err = msgpack.I32ToBytes(int32(i))
	try("I32ToBytes", b, err, func(d D) bool { v, e := d.ReadInt32(); return e == nil && v == int32(i) })
	b, err = msgpack.I64ToBytes(i)
	try("I64ToBytes", b, err, func(d D) bool { v, e := d.ReadInt64(); return e == nil && v == i })
	b, err = msgpack.U8ToBytes(uint8(u))
	try("U8ToBytes", b, err, func(d D) bool { v, e := d.ReadUint8(); return e == nil && v == uint8(u) })
	b, err = msgpack.U16ToBytes(uint16(u))
	try("U16ToBytes", b, err, func(d D) bool { v, e := d.ReadUint16(); return e == nil && v == uint16(u) })
	b, err = msgpack.U32ToBytes(uint32(u))
	try("U32ToBytes", b, err, func(d D) bool { v, e := d.ReadUint32(); return e == nil && v == uint32(u) })
	b, err = msgpack.U64ToBytes(u)
	try("U64ToBytes", b, err, func(d D) bool { v, e := d.ReadUint64(); return e == nil && v == u })
	b, err = msgpack.F32ToBytes(float32(f))
	try("F32ToBytes", b, err, func(d D) bool { v, e := d.ReadFloat32(); return e == nil && eqF32(v, float32(f)) })
	b, err = msgpack.F64ToBytes(f)
	try("F64ToBytes", b, err, func(d D) bool { v, e := d.ReadFloat64(); return e == nil && eqF64(v, f) })
	b, err = msgpack.BoolToBytes(i > 0)
	try("BoolToBytes", b, err, func(d D) bool { v, e := d.ReadBool(); return e == nil && v == (i > 0) })
	b, err = msgpack.StringToBytes(s)
	try("StringToBytes", b, err, func(d D) bool { v, e := d.ReadString(); return e == nil && v == s })
	b, err = msgpack.BytesToBytes([]byte(s))
	try("BytesToBytes", b, err, func(d D) bool { v, e := d.ReadByteArray(); return e == nil && string(v) == s })
	c.Nontrivial("%d %d %v %d", i, u, f, len(s))
}

// p06: the bytes are MessagePack as other implementations define it.
func p06(r *vlib.R) {
	r.Cases("encoder", r.N(50000, 800000), func(c *vlib.C) {
		p := genProgram(c.Rng)
		b, err := msgpack.ToBytes(p)
		if err != nil {
			c.Failf("encode-error", "ToBytes(%v): %v", p, err)
			return
		}
		rest := b
		for _, o := range p {
			v, after, err := refs.Parse(rest, 1000)
			if err != nil {
				c.Failf("not-msgpack", "%s wrote %s: %v", o.name, brief(rest), err)
				return
			}
			if !v.Same(o.ref) {
				c.Failf("other-value", "%s(%v) wrote the MessagePack value %v", o.name, o.ref, v)
				return
			}
			if n, l := len(rest)-len(after), o.longest(); l >= 0 && n > l {
				c.Failf("not-shortest", "%s(%v) takes %d bytes, %d suffice", o.name, o.ref, n, l)
			}
			rest = after
			c.Count("values_written", 1)
		}
		if len(rest) != 0 {
			c.Failf("not-msgpack", "%v left %d extra bytes", p, len(rest))
		}
		c.Nontrivial("%x", b)
	})
	r.Cases("decoder", r.N(60000, 1000000), func(c *vlib.C) {
		p := genProgram(c.Rng)
		var b []byte
		for _, o := range p {
			b = o.ref.Append(b, c.Rng)
		}
		b = append(b, sentinel...)
		d := msgpack.NewDecoder(b)
		if err := p.Decode(&d); err != nil {
			c.Failf("refused", "%v in a valid but not the shortest encoding (%s): %v", p, hex(b), err)
			return
		}
		if s, err := d.ReadString(); err != nil || s != "sentinel" {
			c.Failf("position", "after %v (%s) the decoder is not at the end: %q, %v", p, hex(b), s, err)
		}
		c.Count("foreign_values", len(p))
		c.Nontrivial("%x", b)
	})
	r.Cases("narrow", r.N(200000, 3000000), func(c *vlib.C) { narrow(c) })
	r.Cases("foreign", r.N(30000, 500000), func(c *vlib.C) { foreign(c) })
}

// foreign reads what other implementations put in the place of a value: nil for
// an empty byte array or container, a timestamp as an extension of type 13
// (msgpack for NodeJS) or as text.
func foreign(c *vlib.C) {
	at := refs.Instant(c.Rng)
	ext := refs.Time(at)
	ext.T = 13
	text := refs.Str(at.In(time.FixedZone("", (c.Rng.Intn(27*60)-13*60)*60)).Format(time.RFC3339Nano))
	isText := at.Year() >= 1 && at.Year() <= 9998
	type D = *msgpack.Decoder
	read := func(name string, v refs.V, f func(d D) (bool, error)) {
		b := append(v.Append(nil, c.Rng), sentinel...)
		d := msgpack.NewDecoder(b)
		same, err := f(&d)
		if err != nil || !same {
			c.Failf("foreign", "%s of %v (%s): %v, equal %v", name, v, hex(b), err, same)
			return
		}
		if s, err := d.ReadString(); err != nil || s != "sentinel" {
			c.Failf("position", "after %s of %v (%s): %q, %v", name, v, hex(b), s, err)
		}
		c.Count("foreign_forms", 1)
	}
	tm := func(d D) (bool, error) { t, err := d.ReadTime(); return t.Equal(at), err }
	ntm := func(d D) (bool, error) { t, err := d.ReadNillableTime(); return t != nil && t.Equal(at), err }
	read("ReadTime", ext, tm)
	read("ReadNillableTime", ext, ntm)
	read("ReadAny", ext, func(d D) (bool, error) {
		v, err := d.ReadAny()
		t, ok := v.(time.Time)
		return ok && t.Equal(at), err
	})
	if isText {
		read("ReadTime", text, tm)
		read("ReadNillableTime", text, ntm)
	}
	null := refs.V{}
	read("ReadByteArray", null, func(d D) (bool, error) { v, err := d.ReadByteArray(); return len(v) == 0, err })
	read("ReadNillableByteArray", null, func(d D) (bool, error) { v, err := d.ReadNillableByteArray(); return v == nil, err })
	read("ReadArraySize", null, func(d D) (bool, error) { v, err := d.ReadArraySize(); return v == 0, err })
	read("ReadMapSize", null, func(d D) (bool, error) { v, err := d.ReadMapSize(); return v == 0, err })
	c.Nontrivial("%v", at)
}

func hex(b []byte) string {
	s := fmt.Sprintf("%x", b)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// narrow reads one number with every numeric method: it must come back equal
// where it fits and must be refused where it does not.
func narrow(c *vlib.C) {
	v := refs.Int(refs.Int64(c.Rng))
	if c.Rng.Intn(2) == 0 {
		v = refs.Uint(refs.Uint64(c.Rng))
	}
	b := v.Append(nil, c.Rng)
	is := func(bits uint) bool {
		if v.Neg {
			return v.I >= -1<<(bits-1)
		}
		return v.U <= 1<<(bits-1)-1
	}
	us := func(bits uint) bool { return !v.Neg && v.U <= math.MaxUint64>>(64-bits) }
	try := func(name string, fits bool, got refs.V, err error) {
		switch {
		case fits && err != nil:
			c.Failf("refused", "%s of %v (%x): %v", name, v, b, err)
		case fits && !got.Same(v):
			c.Failf("other-value", "%s of %v (%x) = %v", name, v, b, got)
		case !fits && err == nil:
			c.Failf("overflow", "%s of %v (%x) = %v without an error", name, v, b, got)
		}
		if fits {
			c.Count("fitting_reads", 1)
		} else {
			c.Count("refused_reads", 1)
		}
	}
	d := msgpack.NewDecoder(b)
	i8, err := d.ReadInt8()
	try("ReadInt8", is(8), refs.Int(int64(i8)), err)
	d = msgpack.NewDecoder(b)
	i16, err := d.ReadInt16()
	try("ReadInt16", is(16), refs.Int(int64(i16)), err)
	d = msgpack.NewDecoder(b)
	i32, err := d.ReadInt32()
	try("ReadInt32", is(32), refs.Int(int64(i32)), err)
	d = msgpack.NewDecoder(b)
	i64, err := d.ReadInt64()
	try("ReadInt64", is(64), refs.Int(i64), err)
	d = msgpack.NewDecoder(b)
	u8, err := d.ReadUint8()
	try("ReadUint8", us(8), refs.Uint(uint64(u8)), err)
	d = msgpack.NewDecoder(b)
	u16, err := d.ReadUint16()
	try("ReadUint16", us(16), refs.Uint(uint64(u16)), err)
	d = msgpack.NewDecoder(b)
	u32, err := d.ReadUint32()
	try("ReadUint32", us(32), refs.Uint(uint64(u32)), err)
	d = msgpack.NewDecoder(b)
	u64, err := d.ReadUint64()
	try("ReadUint64", us(64), refs.Uint(u64), err)

	f := refs.Float(c.Rng)
	f32 := refs.V{K: refs.KF32, F: float64(float32(f))}.Bytes()
	d = msgpack.NewDecoder(f32)
	if g, err := d.ReadFloat64(); err != nil || !eqF64(g, float64(float32(f))) {
		c.Failf("refused", "ReadFloat64 of the float32 %v (%x) = %v, %v", float32(f), f32, g, err)
	}
	if float64(float32(f)) == f {
		d = msgpack.NewDecoder(refs.V{K: refs.KF64, F: f}.Bytes())
		if g, err := d.ReadFloat32(); err != nil || !eqF32(g, float32(f)) {
			c.Failf("refused", "ReadFloat32 of the float64 %v = %v, %v", f, g, err)
		}
	}
	c.Nontrivial("%x", b)
}

// p07: hostile bytes.
func p07(r *vlib.R) {
	r.Cases("bytes", r.N(15000, 400000), func(c *vlib.C) { hostile(c, hostileBytes(c.Rng)) })
	r.Cases("deep", r.N(12, 40), func(c *vlib.C) {
		n := 1 << (10 + c.Rng.Intn(13))
		unit := [][]byte{{0x91}, {0x81, 0x01}, {0xdd, 0, 0, 0, 1}, {0x92, 0x01}, {0xdf, 0, 0, 0, 1, 0xa1, 'k'}, {0x81}}[c.Idx%6]
		b := bytes.Repeat(unit, n/len(unit))
		if c.Rng.Intn(2) == 0 {
			b = append(b, 0x01)
		}
		d := msgpack.NewDecoder(b)
		_, err := d.ReadAny()
		c.Count(map[bool]string{true: "deep_accepted", false: "deep_refused"}[err == nil], 1)
		d = msgpack.NewDecoder(b)
		_ = d.Skip()
		c.Count("deep", 1)
		c.Nontrivial("%x %d", unit, n)
	})
}

func hostileBytes(rng *rand.Rand) []byte {
	var b []byte
	switch rng.Intn(6) {
	case 0:
		b = make([]byte, rng.Intn(40))
		rng.Read(b)
		return b
	case 1:
		// headers that promise far more than there is
		for k := 1 + rng.Intn(4); k > 0; k-- {
			h := []byte{0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0x9f, 0x8f, 0xbf}[rng.Intn(16)]
			b = append(b, h)
			l := []byte{0xff, 0xff, 0xff, 0xff}
			switch rng.Intn(4) {
			case 0:
				l = []byte{0x80, 0, 0, 0}
			case 1:
				rng.Read(l)
			case 2:
				l = []byte{0, 0x0f, 0xff, 0xff}
			}
			b = append(b, l[:rng.Intn(5)]...)
		}
		t := make([]byte, rng.Intn(12))
		rng.Read(t)
		return append(b, t...)
	}
	for k := 1 + rng.Intn(2); k > 0; k-- {
		v := refs.Gen(rng, 1+rng.Intn(4), false, true)
		for len(v.S) > 3000 || len(v.A) > 300 {
			v = refs.Gen(rng, 1+rng.Intn(4), false, true)
		}
		b = v.Append(b, rng)
	}
	for k := rng.Intn(4); k > 0 && len(b) > 0; k-- {
		i := rng.Intn(len(b))
		switch rng.Intn(5) {
		case 0:
			b[i] ^= 1 << rng.Intn(8)
		case 1:
			b[i] = byte(rng.Intn(256))
		case 2:
			b[i] = 0x80 + byte(rng.Intn(0x80))
		case 3:
			b = b[:i]
		case 4:
			b = append(b[:i:i], append([]byte{byte(rng.Intn(256))}, b[i:]...)...)
		}
	}
	return b
}

// allocated is the number of bytes f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func hostile(c *vlib.C, in []byte) {
	whole := append(append([]byte{}, in...), bytes.Repeat([]byte{0xc1}, 16)...)
	b := whole[:len(in)]
	limit := uint64(1<<20 + 600*len(b))
	var want refs.V
	var rest []byte
	var perr error
	want, rest, perr = refs.Parse(b, 1000)

	// ReadAny against the model.
	var got any
	var err error
	d := msgpack.NewDecoder(b)
	ok := true
	n := allocated(func() {
		ok = c.Guard("panic", func() { got, err = d.ReadAny() })
	})
	if !ok {
		return
	}
	if n > limit {
		c.Failf("allocation", "ReadAny of %d bytes (%s) allocated %d bytes", len(b), hex(b), n)
	}
	switch {
	case perr != nil && err == nil:
		c.Failf("accepted", "ReadAny of %s = %v, but it is not MessagePack: %v", hex(b), brief(got), perr)
	case perr == nil && err != nil && plain(want):
		c.Failf("refused", "ReadAny of %s, the value %v: %v", hex(b), want, err)
	case perr == nil && err == nil:
		if g, err := model(got); err != nil || !dedup(g).Equal(dedup(want)) {
			c.Failf("other-value", "ReadAny of %s = %v, not %v (%v)", hex(b), g, want, err)
		}
		at, aerr := d.ReadAny()
		_, _, perr2 := refs.Parse(rest, 1000)
		if perr2 != nil && aerr == nil {
			c.Failf("position", "after ReadAny of %s: next value %v, but the rest is %s", hex(b), brief(at), hex(rest))
		}
	}
	c.Count(map[bool]string{true: "accepted", false: "rejected"}[err == nil], 1)

	// Skip against the model.
	d = msgpack.NewDecoder(b)
	n = allocated(func() { ok = c.Guard("panic", func() { err = d.Skip() }) })
	if !ok {
		return
	}
	if n > limit {
		c.Failf("allocation", "Skip of %d bytes (%s) allocated %d bytes", len(b), hex(b), n)
	}
	if (err == nil) != (perr == nil) {
		c.Failf("skip", "Skip of %s: %v; the model says %v", hex(b), err, perr)
	}

	// Every other method in random order; nothing it returns may lie outside
	// of the input, and a failed read stays reported.
	d = msgpack.NewDecoder(b)
	n = allocated(func() {
		ok = c.Guard("panic", func() {
			for k := 0; k < 12; k++ {
				var err error
				var got []byte
				which := c.Rng.Intn(24)
				switch which {
				case 0:
					_, err = d.ReadBool()
				case 1:
					_, err = d.ReadInt8()
				case 2:
					_, err = d.ReadInt16()
				case 3:
					_, err = d.ReadInt32()
				case 4:
					_, err = d.ReadInt64()
				case 5:
					_, err = d.ReadUint8()
				case 6:
					_, err = d.ReadUint16()
				case 7:
					_, err = d.ReadUint32()
				case 8:
					_, err = d.ReadUint64()
				case 9:
					_, err = d.ReadFloat32()
				case 10:
					_, err = d.ReadFloat64()
				case 11:
					var s string
					s, err = d.ReadString()
					got = []byte(s)
				case 12:
					got, err = d.ReadByteArray()
				case 13:
					_, err = d.ReadTime()
				case 14:
					_, err = d.ReadArraySize()
				case 15:
					_, err = d.ReadMapSize()
				case 16:
					_, err = d.ReadAny()
				case 17:
					err = d.Skip()
				case 18:
					_, err = d.IsNextNil()
				case 19:
					_, err = d.ReadNillableInt64()
				case 20:
					_, err = d.ReadNillableString()
				case 21:
					_, err = d.ReadNillableTime()
				case 22:
					got, err = d.ReadNillableByteArray()
				case 23:
					_, err = d.ReadNillableFloat32()
				}
				if len(got) > 0 && err == nil && !bytes.Contains(b, got) {
					c.Failf("outside", "method %d returned bytes which are not in the input %s", which, hex(b))
				}
				if d.Err() != nil && err == nil {
					c.Failf("error-lost", "method %d on %s succeeded although the decoder has failed: %v", which, hex(b), d.Err())
				}
				c.Count("reads", 1)
			}
		})
	})
	if ok && n > 13*limit {
		c.Failf("allocation", "12 reads of %d bytes (%s) allocated %d bytes", len(b), hex(b), n)
	}
	c.Nontrivial("%x", b)
}

// plain reports whether ReadAny has a Go value for v: map keys which Go cannot
// hash, unknown extensions and extreme nesting may be refused.
func plain(v refs.V) bool { return plainAt(v, 200) }

func plainAt(v refs.V, depth int) bool {
	if depth == 0 {
		return false
	}
	switch v.K {
	case refs.KExt:
		_, ok := v.AsTime()
		return ok
	case refs.KArr, refs.KMap:
		for i, e := range v.A {
			if v.K == refs.KMap && i%2 == 0 && (e.K == refs.KArr || e.K == refs.KMap || e.K == refs.KBin) || !plainAt(e, depth-1) {
				return false
			}
		}
	}
	return true
}

// dedup keeps the last of the entries with equal keys.
func dedup(v refs.V) refs.V {
	switch v.K {
	case refs.KArr:
		w := refs.V{K: refs.KArr}
		for _, e := range v.A {
			w.A = append(w.A, dedup(e))
		}
		return w
	case refs.KMap:
		w := refs.V{K: refs.KMap}
		at := map[string]int{}
		for i := 0; i < len(v.A); i += 2 {
			k := v.A[i]
			id := string(k.Bytes())
			if k.K == refs.KF32 || k.K == refs.KF64 || k.K == refs.KInt || k.K == refs.KExt {
				// These keys compare in Go by type and value.
				return refs.V{K: refs.KMap}
			}
			if j, ok := at[id]; ok {
				w.A[j] = dedup(v.A[i+1])
				continue
			}
			at[id] = len(w.A) + 1
			w.A = append(w.A, k, dedup(v.A[i+1]))
		}
		return w
	}
	return v
}

// model turns what ReadAny returns into the reference model.
func model(v any) (refs.V, error) {
	switch x := v.(type) {
	case nil:
		return refs.V{}, nil
	case bool:
		return refs.V{K: refs.KBool, B: x}, nil
	case int:
		return refs.Int(int64(x)), nil
	case int8:
		return refs.Int(int64(x)), nil
	case int16:
		return refs.Int(int64(x)), nil
	case int32:
		return refs.Int(int64(x)), nil
	case int64:
		return refs.Int(x), nil
	case uint:
		return refs.Uint(uint64(x)), nil
	case uint8:
		return refs.Uint(uint64(x)), nil
	case uint16:
		return refs.Uint(uint64(x)), nil
	case uint32:
		return refs.Uint(uint64(x)), nil
	case uint64:
		return refs.Uint(x), nil
	case float32:
		return refs.V{K: refs.KF32, F: float64(x)}, nil
	case float64:
		return refs.V{K: refs.KF64, F: x}, nil
	case string:
		return refs.Str(x), nil
	case []byte:
		return refs.V{K: refs.KBin, S: x}, nil
	case time.Time:
		return refs.Time(x), nil
	case []any:
		w := refs.V{K: refs.KArr}
		for _, e := range x {
			m, err := model(e)
			if err != nil {
				return m, err
			}
			w.A = append(w.A, m)
		}
		return w, nil
	case map[any]any:
		w := refs.V{K: refs.KMap}
		for k, e := range x {
			a, err := model(k)
			if err != nil {
				return a, err
			}
			b, err := model(e)
			if err != nil {
				return b, err
			}
			w.A = append(w.A, a, b)
		}
		return w, nil
	}
	return refs.V{}, fmt.Errorf("unexpected Go type %T", v)
}

var errBoom = errors.New("boom")
