//go:build go1.23

package mp

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/msgpack"
)

// op is one typed call of the writer and the calls of the reader that must
// give the value back.
type op struct {
	name  string
	write func(w msgpack.Writer)
	read  func(r msgpack.Reader) error
	ref   refs.V
	// short is the longest encoding the call may use.
	short int
}

func scalar[T any](name string, v T, same func(a, b T) bool, w func(msgpack.Writer, T), r func(msgpack.Reader) (T, error), ref refs.V) op {
	return op{name: name, ref: ref,
		write: func(x msgpack.Writer) { w(x, v) },
		read: func(x msgpack.Reader) error {
			got, err := r(x)
			if err != nil {
				return fmt.Errorf("%s(%v): reading failed: %v", name, brief(v), err)
			}
			if !same(got, v) {
				return fmt.Errorf("%s(%v): read %v", name, brief(v), brief(got))
			}
			return nil
		}}
}

func nillable[T any](rng *rand.Rand, name string, v T, same func(a, b T) bool, w func(msgpack.Writer, *T), r func(msgpack.Reader) (*T, error), ref refs.V) op {
	p := &v
	if rng.Intn(3) == 0 {
		p, ref = nil, refs.V{}
	}
	return op{name: name, ref: ref,
		write: func(x msgpack.Writer) { w(x, p) },
		read: func(x msgpack.Reader) error {
			got, err := r(x)
			if err != nil {
				return fmt.Errorf("%s: reading failed: %v", name, err)
			}
			if (got == nil) != (p == nil) {
				return fmt.Errorf("%s: wrote nil=%v, read nil=%v", name, p == nil, got == nil)
			}
			if p != nil && !same(*got, *p) {
				return fmt.Errorf("%s(%v): read %v", name, brief(*p), brief(*got))
			}
			return nil
		}}
}

func brief(v any) string {
	s := fmt.Sprint(v)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

func eq[T comparable](a, b T) bool { return a == b }

func eqF64(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}
func eqF32(a, b float32) bool {
	return math.Float32bits(a) == math.Float32bits(b) || a != a && b != b
}
func eqTime(a, b time.Time) bool { return a.Equal(b) }

func str(rng *rand.Rand) string {
	b := make([]byte, refs.Len(rng, 70000))
	rng.Read(b)
	if rng.Intn(2) == 0 {
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
	}
	return string(b)
}

func signed(v int64) (refs.V, int) {
	n := 9
	switch {
	case v >= -32 && v < 128:
		n = 1
	case v >= math.MinInt8 && v <= math.MaxInt8:
		n = 2
	case v >= math.MinInt16 && v <= math.MaxInt16:
		n = 3
	case v >= math.MinInt32 && v <= math.MaxInt32:
		n = 5
	}
	return refs.Int(v), n
}

// genOp draws one call.
func genOp(rng *rand.Rand) op {
	i, u := refs.Int64(rng), refs.Uint64(rng)
	nil2 := rng.Intn(2) == 0
	withS := func(o op, v int64) op {
		if o.ref.K == refs.KInt {
			_, o.short = signed(v)
		}
		return o
	}
	type W = msgpack.Writer
	type R = msgpack.Reader
	switch rng.Intn(16) {
	case 0:
		return op{name: "Nil", write: func(w W) { w.WriteNil() }, read: func(r R) error {
			ok, err := r.IsNextNil()
			if err != nil || !ok {
				return fmt.Errorf("IsNextNil after WriteNil: %v, %v", ok, err)
			}
			return nil
		}}
	case 1:
		v := rng.Intn(2) == 0
		ref := refs.V{K: refs.KBool, B: v}
		if nil2 {
			return nillable(rng, "NillableBool", v, eq[bool], W.WriteNillableBool, R.ReadNillableBool, ref)
		}
		return scalar("Bool", v, eq[bool], W.WriteBool, R.ReadBool, ref)
	case 2:
		v := int8(i)
		ref, _ := signed(int64(v))
		if nil2 {
			return withS(nillable(rng, "NillableInt8", v, eq[int8], W.WriteNillableInt8, R.ReadNillableInt8, ref), int64(v))
		}
		return withS(scalar("Int8", v, eq[int8], W.WriteInt8, R.ReadInt8, ref), int64(v))
	case 3:
		v := int16(i)
		ref, _ := signed(int64(v))
		if nil2 {
			return withS(nillable(rng, "NillableInt16", v, eq[int16], W.WriteNillableInt16, R.ReadNillableInt16, ref), int64(v))
		}
		return withS(scalar("Int16", v, eq[int16], W.WriteInt16, R.ReadInt16, ref), int64(v))
	case 4:
		v := int32(i)
		ref, _ := signed(int64(v))
		if nil2 {
			return withS(nillable(rng, "NillableInt32", v, eq[int32], W.WriteNillableInt32, R.ReadNillableInt32, ref), int64(v))
		}
		return withS(scalar("Int32", v, eq[int32], W.WriteInt32, R.ReadInt32, ref), int64(v))
	case 5:
		ref, _ := signed(i)
		if nil2 {
			return withS(nillable(rng, "NillableInt64", i, eq[int64], W.WriteNillableInt64, R.ReadNillableInt64, ref), i)
		}
		return withS(scalar("Int64", i, eq[int64], W.WriteInt64, R.ReadInt64, ref), i)
	case 6:
		v := uint8(u)
		if nil2 {
			return nillable(rng, "NillableUint8", v, eq[uint8], W.WriteNillableUint8, R.ReadNillableUint8, refs.Uint(uint64(v)))
		}
		return scalar("Uint8", v, eq[uint8], W.WriteUint8, R.ReadUint8, refs.Uint(uint64(v)))
	case 7:
		v := uint16(u)
		if nil2 {
			return nillable(rng, "NillableUint16", v, eq[uint16], W.WriteNillableUint16, R.ReadNillableUint16, refs.Uint(uint64(v)))
		}
		return scalar("Uint16", v, eq[uint16], W.WriteUint16, R.ReadUint16, refs.Uint(uint64(v)))
	case 8:
		v := uint32(u)
		if nil2 {
			return nillable(rng, "NillableUint32", v, eq[uint32], W.WriteNillableUint32, R.ReadNillableUint32, refs.Uint(uint64(v)))
		}
		return scalar("Uint32", v, eq[uint32], W.WriteUint32, R.ReadUint32, refs.Uint(uint64(v)))
	case 9:
		if nil2 {
			return nillable(rng, "NillableUint64", u, eq[uint64], W.WriteNillableUint64, R.ReadNillableUint64, refs.Uint(u))
		}
		return scalar("Uint64", u, eq[uint64], W.WriteUint64, R.ReadUint64, refs.Uint(u))
	case 10:
		v := float32(refs.Float(rng))
		ref := refs.V{K: refs.KF32, F: float64(v)}
		if nil2 {
			return nillable(rng, "NillableFloat32", v, eqF32, W.WriteNillableFloat32, R.ReadNillableFloat32, ref)
		}
		return scalar("Float32", v, eqF32, W.WriteFloat32, R.ReadFloat32, ref)
	case 11:
		v := refs.Float(rng)
		ref := refs.V{K: refs.KF64, F: v}
		if nil2 {
			return nillable(rng, "NillableFloat64", v, eqF64, W.WriteNillableFloat64, R.ReadNillableFloat64, ref)
		}
		return scalar("Float64", v, eqF64, W.WriteFloat64, R.ReadFloat64, ref)
	case 12:
		v := str(rng)
		if nil2 {
			return nillable(rng, "NillableString", v, eq[string], W.WriteNillableString, R.ReadNillableString, refs.Str(v))
		}
		return scalar("String", v, eq[string], W.WriteString, R.ReadString, refs.Str(v))
	case 13:
		v := refs.Instant(rng)
		if nil2 {
			return nillable(rng, "NillableTime", v, eqTime, W.WriteNillableTime, R.ReadNillableTime, refs.Time(v))
		}
		return scalar("Time", v, eqTime, W.WriteTime, R.ReadTime, refs.Time(v))
	case 14:
		v := []byte(str(rng))
		ref := refs.V{K: refs.KBin, S: v}
		if nil2 {
			if rng.Intn(3) == 0 {
				v, ref = nil, refs.V{}
			}
			return scalar("NillableByteArray", v, func(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) },
				W.WriteNillableByteArray, R.ReadNillableByteArray, ref)
		}
		return scalar("ByteArray", v, bytes.Equal, W.WriteByteArray, R.ReadByteArray, ref)
	}
	// a container of calls
	n := refs.Len(rng, 40)
	isMap := nil2
	var ops []op
	ref := refs.V{K: refs.KArr}
	for k := 0; k < n; k++ {
		o := genOp(rng)
		for len(o.ref.S) > 300 || len(o.ref.A) > 50 || isMap && k%2 == 0 && (o.ref.K == refs.KArr || o.ref.K == refs.KMap) {
			o = genOp(rng)
		}
		ops = append(ops, o)
		ref.A = append(ref.A, o.ref)
	}
	if isMap {
		if n%2 == 1 {
			ops, ref.A, n = ops[:n-1], ref.A[:n-1], n-1
		}
		ref.K = refs.KMap
	}
	name := map[bool]string{true: "Map", false: "Array"}[isMap]
	return op{name: name, ref: ref,
		write: func(w W) {
			if isMap {
				w.WriteMapSize(uint32(n / 2))
			} else {
				w.WriteArraySize(uint32(n))
			}
			for _, o := range ops {
				o.write(w)
			}
		},
		read: func(r R) error {
			var got uint32
			var err error
			want := uint32(n)
			if isMap {
				got, err = r.ReadMapSize()
				want /= 2
			} else {
				got, err = r.ReadArraySize()
			}
			if err != nil || got != want {
				return fmt.Errorf("%s size %d: read %d, %v", name, want, got, err)
			}
			for _, o := range ops {
				if err := o.read(r); err != nil {
					return err
				}
			}
			return nil
		}}
}

// longest is the length up to which the encoder may go for a value it writes
// in the signed or the unsigned family: the shortest of that family.
func (o op) longest() int {
	if o.short > 0 {
		return o.short
	}
	if o.ref.K == refs.KArr || o.ref.K == refs.KMap {
		return -1
	}
	return len(o.ref.Bytes())
}

// program is a sequence of calls, as the Encode method of a generated type is.
type program []op

func (p program) Encode(w msgpack.Writer) error {
	for _, o := range p {
		o.write(w)
	}
	return w.Err()
}

func (p program) Decode(r msgpack.Reader) error {
	for _, o := range p {
		if err := o.read(r); err != nil {
			return err
		}
	}
	return nil
}

func (p program) String() string {
	s := ""
	for i, o := range p {
		if i == 6 {
			return s + "..."
		}
		s += o.name + "(" + o.ref.String() + ") "
	}
	return s
}
