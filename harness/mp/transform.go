//go:build go1.23

package mp

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/msgpack/convert"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
)

func tf[T any](c *vlib.C, name string, v T, same func(a, b T) bool, enc func(T) (payload.Payload, error), dec func(payload.Payload) (T, error), min int) {
	p, err := enc(v)
	if err != nil {
		c.Failf("transform", "%s: encoding %s: %v", name, brief(v), err)
		return
	}
	b := append([]byte(nil), p.Data()...)
	got, err := dec(p)
	if err != nil || !same(got, v) {
		c.Failf("transform", "%s: %s came back as %s, %v", name, brief(v), brief(got), err)
		return
	}
	if !bytes.Equal(b, p.Data()) {
		c.Failf("transform", "%s: decoding changed the payload", name)
	}
	if v, rest, err := refs.Parse(b, 100); min > 0 && (err != nil || len(rest) > 0) {
		c.Failf("not-msgpack", "%s wrote %s: %v, %v", name, hex(b), v, err)
	}
	if min > 0 {
		n := c.Rng.Intn(len(b))
		c.Guard("panic", func() {
			if v, err := dec(payload.New(b[:n:n])); err == nil {
				c.Failf("truncated", "%s decoded the first %d bytes of %s to %s", name, n, hex(b), brief(v))
			}
		})
	}
	// The decoders stand on the way of bytes from the network.
	h := hostileBytes(c.Rng)
	alloc := allocated(func() { c.Guard("panic", func() { _, _ = dec(payload.New(h)) }) })
	if alloc > uint64(1<<20+600*len(h)) {
		c.Failf("allocation", "%s of %s allocated %d bytes", name, hex(h), alloc)
	}
	c.Count("transforms", 1)
	c.Nontrivial("%s %x", name, b)
}

type (
	colour int32
	bigE   int64
	flagsE uint64
	nameE  string
)

// record is a codec as the code generator writes them.
type record struct {
	ID    uint64
	Name  *string
	Tags  []string
	Inner *record
	Any   any
	fail  bool
}

func (r *record) Encode(w msgpack.Writer) error {
	if r.fail {
		return errBoom
	}
	w.WriteMapSize(5)
	w.WriteString("id")
	w.WriteUint64(r.ID)
	w.WriteString("name")
	w.WriteNillableString(r.Name)
	w.WriteString("tags")
	w.WriteArraySize(uint32(len(r.Tags)))
	for _, t := range r.Tags {
		w.WriteString(t)
	}
	w.WriteString("inner")
	if r.Inner == nil {
		w.WriteNil()
	} else if err := r.Inner.Encode(w); err != nil {
		return err
	}
	w.WriteString("any")
	w.WriteAny(r.Any)
	return nil
}

func (r *record) Decode(d msgpack.Reader) error {
	n, err := d.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		f, err := d.ReadString()
		if err != nil {
			return err
		}
		switch f {
		case "id":
			r.ID, err = d.ReadUint64()
		case "name":
			r.Name, err = d.ReadNillableString()
		case "tags":
			var k uint32
			if k, err = d.ReadArraySize(); err != nil {
				return err
			}
			for ; k > 0; k-- {
				var s string
				if s, err = d.ReadString(); err != nil {
					return err
				}
				r.Tags = append(r.Tags, s)
			}
		case "inner":
			r.Inner, err = msgpack.DecodeNillable[record](d)
		case "any":
			r.Any, err = d.ReadAny()
		default:
			err = d.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func genRecord(rng *rand.Rand, depth int) record {
	r := record{ID: refs.Uint64(rng)}
	if rng.Intn(2) == 0 {
		s := str(rng)
		r.Name = &s
	}
	for k := refs.Len(rng, 20); k > 0; k-- {
		r.Tags = append(r.Tags, fmt.Sprint(rng.Intn(1000)))
	}
	if depth > 0 && rng.Intn(2) == 0 {
		in := genRecord(rng, depth-1)
		r.Inner = &in
	}
	switch rng.Intn(3) {
	case 0:
		r.Any = "text"
	case 1:
		r.Any = []any{int64(1), "two", nil}
	}
	return r
}

func sameRecord(a, b record) bool { return fmt.Sprint(dump(a)) == fmt.Sprint(dump(b)) }

func dump(r record) string {
	s := fmt.Sprint(r.ID, r.Tags, r.Any)
	if r.Name != nil {
		s += "N" + *r.Name
	}
	if r.Inner != nil {
		s += "{" + dump(*r.Inner) + "}"
	}
	return s
}

func sameSlice[T any](same func(a, b T) bool) func(a, b []T) bool {
	return func(a, b []T) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !same(a[i], b[i]) {
				return false
			}
		}
		return true
	}
}

func p09(r *vlib.R) {
	r.Cases("transform", r.N(4000, 80000), func(c *vlib.C) {
		i, u, f := refs.Int64(c.Rng), refs.Uint64(c.Rng), refs.Float(c.Rng)
		switch c.Idx % 22 {
		case 0:
			tf(c, "String", str(c.Rng), eq[string], transform.String.Encode, transform.String.Decode, 1)
		case 1:
			tf(c, "Int", int(i), eq[int], transform.Int.Encode, transform.Int.Decode, 1)
		case 2:
			tf(c, "Int64", i, eq[int64], transform.Int64.Encode, transform.Int64.Decode, 1)
		case 3:
			tf(c, "Int32", int32(i), eq[int32], transform.Int32.Encode, transform.Int32.Decode, 1)
		case 4:
			tf(c, "Int16", int16(i), eq[int16], transform.Int16.Encode, transform.Int16.Decode, 1)
		case 5:
			tf(c, "Int8", int8(i), eq[int8], transform.Int8.Encode, transform.Int8.Decode, 1)
		case 6:
			tf(c, "Uint", uint(u), eq[uint], transform.Uint.Encode, transform.Uint.Decode, 1)
		case 7:
			tf(c, "Uint64", u, eq[uint64], transform.Uint64.Encode, transform.Uint64.Decode, 1)
		case 8:
			tf(c, "Uint32", uint32(u), eq[uint32], transform.Uint32.Encode, transform.Uint32.Decode, 1)
		case 9:
			tf(c, "Uint16", uint16(u), eq[uint16], transform.Uint16.Encode, transform.Uint16.Decode, 1)
		case 10:
			tf(c, "Uint8", uint8(u), eq[uint8], transform.Uint8.Encode, transform.Uint8.Decode, 1)
		case 11:
			tf(c, "Float64", f, eqF64, transform.Float64.Encode, transform.Float64.Decode, 1)
		case 12:
			tf(c, "Float32", float32(f), eqF32, transform.Float32.Encode, transform.Float32.Decode, 1)
		case 13:
			tf(c, "Bytes", []byte(str(c.Rng)), bytes.Equal, transform.Bytes.Encode, transform.Bytes.Decode, 1)
		case 14:
			tf(c, "Bool", i > 0, eq[bool], transform.Bool.Encode, transform.Bool.Decode, 1)
		case 15:
			t := genTime(c.Rng)
			same := func(a, b time.Time) bool {
				_, oa := a.Zone()
				_, ob := b.Zone()
				return a.Equal(b) && oa == ob
			}
			tf(c, "Time", t, same, transform.Time.Encode, transform.Time.Decode, 1)
			s := convert.TimeToString(t)
			if g, err := convert.StringToTime(s, nil); err != nil || !same(g, t) {
				c.Failf("convert", "time %v as %q came back as %v, %v", t, s, g, err)
			}
			if g, err := convert.StringToTimePtr(convert.TimeToStringPtr(&t), nil); err != nil || g == nil || !same(*g, t) {
				c.Failf("convert", "time %v by pointer came back as %v, %v", t, g, err)
			}
		case 16:
			tf(c, "Void", struct{}{}, eq[struct{}], transform.Void.Encode, transform.Void.Decode, 0)
		case 17:
			rec := genRecord(c.Rng, 3)
			tf(c, "MsgPack", rec, sameRecord, transform.MsgPackEncode[record], transform.MsgPackDecode[record], 1)
		case 18:
			n := refs.Len(c.Rng, 20)
			if c.Rng.Intn(20) == 0 {
				n = 0
			}
			recs := make([]record, n)
			for i := range recs {
				recs[i] = genRecord(c.Rng, 1)
			}
			tf(c, "Slice", recs, sameSlice(sameRecord), transform.SliceEncode[record], transform.SliceDecode[record], 1)
		case 19:
			tf(c, "Int32Enum", colour(i), eq[colour], transform.Int32Encode[colour], transform.Int32Decode[colour], 1)
			tf(c, "Int64Enum", bigE(i), eq[bigE], transform.Int64Encode[bigE], transform.Int64Decode[bigE], 1)
		case 20:
			tf(c, "Uint64Enum", flagsE(u), eq[flagsE], transform.Uint64Encode[flagsE], transform.Uint64Decode[flagsE], 1)
		case 21:
			tf(c, "StringEnum", nameE(str(c.Rng)), eq[nameE], transform.StringEncode[nameE], transform.StringDecode[nameE], 1)
		}
	})
	r.Cases("failing", r.N(400, 8000), func(c *vlib.C) {
		// A codec that cannot encode or decode its value must be heard.
		rec := genRecord(c.Rng, 1)
		p := &rec
		for p.Inner != nil && c.Rng.Intn(2) == 0 {
			p = p.Inner
		}
		how := c.Rng.Intn(2)
		if how == 0 {
			p.fail = true
		} else {
			p.Any = make(chan int)
		}
		if pl, err := transform.MsgPackEncode(rec); err == nil {
			c.Failf("error-lost", "MsgPackEncode of a failing codec (%d) returned %s without an error", how, hex(pl.Data()))
		}
		if pl, err := transform.CodecEncode(&rec); err == nil {
			c.Failf("error-lost", "CodecEncode of a failing codec (%d) returned %s without an error", how, hex(pl.Data()))
		}
		recs := []record{genRecord(c.Rng, 0), rec, genRecord(c.Rng, 0)}
		if pl, err := transform.SliceEncode(recs); err == nil {
			c.Failf("error-lost", "SliceEncode with a failing codec (%d) returned %s without an error", how, hex(pl.Data()))
		}
		b := refs.V{K: refs.KArr, A: []refs.V{refs.Int(1), refs.Str("x")}}.Bytes()
		if got, err := transform.SliceDecode[record](payload.New(b)); err == nil {
			c.Failf("error-lost", "SliceDecode of items which are not records returned %d items without an error", len(got))
		}
		if got, err := transform.MsgPackDecode[record](payload.New(refs.Int(7).Bytes())); err == nil {
			c.Failf("error-lost", "MsgPackDecode of a number returned %v without an error", dump(got))
		}
		c.Count("failing", 1)
		c.Nontrivial("%d %x", how, rec.ID)
	})
	r.Cases("handles", r.N(300, 5000), func(c *vlib.C) {
		tr := invoke.NewLiveInstances[string]()
		live := map[uint64]string{}
		enc := transform.InterfaceEncode(tr)
		for k := 0; k < 2+c.Rng.Intn(10); k++ {
			name := fmt.Sprint("instance", k%3)
			p, err := enc(name)
			if err != nil {
				c.Failf("handle", "InterfaceEncode: %v", err)
				return
			}
			h, err := transform.Uint64.Decode(p)
			if err != nil {
				c.Failf("handle", "the handle does not decode: %v", err)
				return
			}
			if _, ok := live[h]; ok {
				c.Failf("handle", "two live instances share the handle %d", h)
			}
			live[h] = name
			for h, want := range live {
				if got, ok := tr.Get(h); !ok || got != want {
					c.Failf("handle", "handle %d gives %q, %v instead of %q", h, got, ok, want)
				}
			}
			c.Count("handles", 1)
		}
		c.Nontrivial("%d", len(live))
	})
	r.Cases("convert", r.N(2000, 20000), func(c *vlib.C) { converters(c) })
}

func genTime(rng *rand.Rand) time.Time {
	loc := time.UTC
	if rng.Intn(2) == 0 {
		loc = time.FixedZone("", (rng.Intn(2*14*60)-14*60)*60)
	}
	ns := 0
	switch rng.Intn(3) {
	case 0:
		ns = rng.Intn(1e9)
	case 1:
		ns = rng.Intn(1000) * 1e6
	}
	return time.Date(1+rng.Intn(9998), time.Month(1+rng.Intn(12)), 1+rng.Intn(28), rng.Intn(24), rng.Intn(60), rng.Intn(60), ns, loc)
}

// converters checks that the helpers generated code wraps around a read keep
// the value, pass nil on as nil and pass the error of the read on.
func converters(c *vlib.C) {
	i, f := refs.Int64(c.Rng), refs.Float(c.Rng)
	s := str(c.Rng)
	bad := func(name string, format string, a ...any) {
		c.Failf("convert", "%s: "+format, append([]any{name}, a...)...)
	}
	c.Guard("panic", func() {
		if v, err := convert.String[nameE](s, nil); err != nil || string(v) != s {
			bad("String", "%q, %v", v, err)
		}
		if v, err := convert.NillableString[nameE](&s, nil); err != nil || v == nil || string(*v) != s {
			bad("NillableString", "%v, %v", v, err)
		}
		if v, err := convert.Bool[bool](i > 0, nil); err != nil || v != (i > 0) {
			bad("Bool", "%v, %v", v, err)
		}
		b := i > 0
		if v, err := convert.NillableBool[bool](&b, nil); err != nil || v == nil || *v != b {
			bad("NillableBool", "%v, %v", v, err)
		}
		if v, err := convert.Numeric[bigE](i, nil); err != nil || int64(v) != i {
			bad("Numeric", "%v, %v", v, err)
		}
		if v, err := convert.NillableNumeric[bigE](&i, nil); err != nil || v == nil || int64(*v) != i {
			bad("NillableNumeric", "%v, %v", v, err)
		}
		if v, err := convert.Numeric[float64](float32(f), nil); err != nil || !eqF64(v, float64(float32(f))) {
			bad("Numeric", "%v, %v", v, err)
		}
		if v, err := convert.ByteArray[[]byte]([]byte(s), nil); err != nil || string(v) != s {
			bad("ByteArray", "%v, %v", v, err)
		}
		parse := func(x int64) (uint8, error) {
			if x < 0 || x > math.MaxUint8 {
				return 0, errBoom
			}
			return uint8(x), nil
		}
		fits := i >= 0 && i <= math.MaxUint8
		if v, err := convert.Parse(parse)(i, nil); fits != (err == nil) || fits && int64(v) != i {
			bad("Parse", "%v, %v", v, err)
		}
		if v, err := convert.NillableParse(parse)(&i, nil); fits != (err == nil) || fits && (v == nil || int64(*v) != i) {
			bad("NillableParse", "%v, %v", v, err)
		}
		fm := convert.Format(func(x *int64) string { return fmt.Sprint(*x) })
		if v := fm(&i); v == nil || *v != fmt.Sprint(i) {
			bad("Format", "%v", v)
		}
		if v := fm(nil); v != nil {
			bad("Format", "nil gave %v", *v)
		}
		c.Count("converted", 10)
	})
	// The error of the read comes first.
	errs := []func() error{
		func() error { _, err := convert.String[nameE]("", errBoom); return err },
		func() error { _, err := convert.NillableString[nameE](nil, errBoom); return err },
		func() error { _, err := convert.Bool[bool](false, errBoom); return err },
		func() error { _, err := convert.NillableBool[bool](nil, errBoom); return err },
		func() error { _, err := convert.Numeric[bigE](int64(0), errBoom); return err },
		func() error { _, err := convert.NillableNumeric[bigE, int64](nil, errBoom); return err },
		func() error { _, err := convert.ByteArray[[]byte]([]byte(nil), errBoom); return err },
		func() error { _, err := convert.StringToTime("", errBoom); return err },
		func() error { _, err := convert.StringToTimePtr(nil, errBoom); return err },
		func() error {
			_, err := convert.Parse(func(int) (int, error) { return 0, nil })(0, errBoom)
			return err
		},
		func() error {
			_, err := convert.NillableParse(func(int) (int, error) { return 0, nil })(nil, errBoom)
			return err
		},
	}
	for k, f := range errs {
		c.Guard("panic", func() {
			if err := f(); err != errBoom {
				c.Failf("error-lost", "helper %d returned %v instead of the error of the read", k, err)
			}
		})
	}
	// A nil that was read stays nil.
	nils := []func() (bool, error){
		func() (bool, error) { v, err := convert.NillableString[nameE](nil, nil); return v == nil, err },
		func() (bool, error) { v, err := convert.NillableBool[bool](nil, nil); return v == nil, err },
		func() (bool, error) { v, err := convert.NillableNumeric[bigE, int64](nil, nil); return v == nil, err },
		func() (bool, error) { v, err := convert.StringToTimePtr(nil, nil); return v == nil, err },
		func() (bool, error) {
			v, err := convert.NillableParse(func(int) (int, error) { return 1, nil })(nil, nil)
			return v == nil, err
		},
		func() (bool, error) { return convert.TimeToStringPtr(nil) == nil, nil },
	}
	for k, f := range nils {
		c.Guard("panic", func() {
			if isNil, err := f(); !isNil || err != nil {
				c.Failf("convert", "nil helper %d: nil=%v, %v", k, isNil, err)
			}
			c.Count("nils", 1)
		})
	}
	c.Nontrivial("%d %d", i, len(s))
}
