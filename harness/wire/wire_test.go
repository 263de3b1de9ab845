//go:build go1.23

package wire

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"testing"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
)

func TestCheck(t *testing.T) {
	vlib.Run(t, map[string]func(r *vlib.R){"P01": p01, "P02": p02, "P03": p03})
}

var types = []int{refs.TRequestResponse, refs.TRequestFNF, refs.TRequestStream, refs.TRequestChannel,
	refs.TRequestN, refs.TCancel, refs.TPayload, refs.TError}

func blob(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func size(rng *rand.Rand) int {
	switch rng.Intn(12) {
	case 0, 1:
		return 0
	case 2:
		return 1
	case 3, 4, 5:
		return rng.Intn(32)
	case 6, 7:
		return rng.Intn(300)
	case 8:
		return []int{255, 256, 257, 65535, 65536, 65537}[rng.Intn(6)]
	case 9:
		return rng.Intn(5000)
	case 10:
		return rng.Intn(70000)
	default:
		return rng.Intn(3)
	}
}

func streamID(rng *rand.Rand) uint32 {
	switch rng.Intn(5) {
	case 0:
		return []uint32{0, 1, 2, 3, 0x7fffffff, 0x7ffffffe, 0x40000000, 0x01000000, 0x00ff00ff, 0x12345678}[rng.Intn(10)]
	case 1:
		return uint32(rng.Intn(100))
	default:
		return rng.Uint32() & 0x7fffffff
	}
}

func u32(rng *rand.Rand) uint32 {
	switch rng.Intn(4) {
	case 0:
		return []uint32{0, 1, 2, 0x7fffffff, 0xffffffff, 0x80000000, 0x01020304, 255, 256}[rng.Intn(9)]
	case 1:
		return uint32(rng.Intn(1000))
	default:
		return rng.Uint32()
	}
}

func genFrame(rng *rand.Rand) refs.Frame {
	f := refs.Frame{Type: types[rng.Intn(len(types))], StreamID: streamID(rng)}
	switch f.Type {
	case refs.TRequestN:
		f.N = u32(rng)
	case refs.TCancel:
	case refs.TError:
		f.N = u32(rng)
		f.Data = blob(rng, size(rng))
	default:
		f.Metadata = blob(rng, size(rng))
		f.Data = blob(rng, size(rng))
		f.Follows = rng.Intn(2) == 0
		switch f.Type {
		case refs.TPayload:
			f.Complete, f.Next = rng.Intn(2) == 0, rng.Intn(2) == 0
		case refs.TRequestChannel:
			f.Complete = rng.Intn(2) == 0
			f.N = u32(rng)
		case refs.TRequestStream:
			f.Complete = true
			f.N = u32(rng)
		default:
			f.Complete = true
			f.N = 1
		}
	}
	return f
}

// toImpl builds the implementation's frame.
func toImpl(f refs.Frame) frames.Frame {
	switch f.Type {
	case refs.TRequestN:
		return &frames.RequestN{StreamID: f.StreamID, N: f.N}
	case refs.TCancel:
		return &frames.Cancel{StreamID: f.StreamID}
	case refs.TError:
		return &frames.Error{StreamID: f.StreamID, Code: frames.ErrCode(f.N), Data: string(f.Data)}
	case refs.TPayload:
		return &frames.Payload{StreamID: f.StreamID, Metadata: f.Metadata, Data: f.Data, Follows: f.Follows, Complete: f.Complete, Next: f.Next}
	}
	return &frames.RequestPayload{FrameType: frames.FrameType(f.Type), StreamID: f.StreamID, Metadata: f.Metadata,
		Data: f.Data, Follows: f.Follows, Complete: f.Complete, InitialN: f.N}
}

func fromImpl(i frames.Frame) refs.Frame {
	switch f := i.(type) {
	case *frames.RequestN:
		return refs.Frame{Type: refs.TRequestN, StreamID: f.StreamID, N: f.N}
	case *frames.Cancel:
		return refs.Frame{Type: refs.TCancel, StreamID: f.StreamID}
	case *frames.Error:
		return refs.Frame{Type: refs.TError, StreamID: f.StreamID, N: uint32(f.Code), Data: []byte(f.Data)}
	case *frames.Payload:
		return refs.Frame{Type: refs.TPayload, StreamID: f.StreamID, Metadata: f.Metadata, Data: f.Data, Follows: f.Follows, Complete: f.Complete, Next: f.Next}
	case *frames.RequestPayload:
		return refs.Frame{Type: int(f.FrameType), StreamID: f.StreamID, Metadata: f.Metadata, Data: f.Data, Follows: f.Follows, Complete: f.Complete, N: f.InitialN}
	}
	return refs.Frame{Type: -1}
}

func empty(t int) frames.Frame {
	switch t {
	case refs.TRequestN:
		return &frames.RequestN{}
	case refs.TCancel:
		return &frames.Cancel{}
	case refs.TError:
		return &frames.Error{}
	case refs.TPayload:
		return &frames.Payload{}
	}
	return &frames.RequestPayload{}
}

func same(a, b refs.Frame) bool {
	return a.Type == b.Type && a.StreamID == b.StreamID && a.N == b.N && a.Follows == b.Follows &&
		a.Complete == b.Complete && a.Next == b.Next && bytes.Equal(a.Metadata, b.Metadata) && bytes.Equal(a.Data, b.Data)
}

func brief(f refs.Frame) string {
	return vlib.Brief("type=%#x id=%d md=%d data=%d follows=%v complete=%v next=%v n=%d", f.Type, f.StreamID,
		len(f.Metadata), len(f.Data), f.Follows, f.Complete, f.Next, f.N)
}

// ---- P01: round trip and wire layout ----

func p01(r *vlib.R) {
	r.Cases("frame", r.N(20000, 400000), func(c *vlib.C) {
		f := genFrame(c.Rng)
		impl := toImpl(f)
		want := refs.EncodeFrame(f)
		if got := impl.Size(); int(got) != len(want) {
			c.Failf("size", "%s: Size()=%d, encoding needs %d bytes", brief(f), got, len(want))
			return
		}
		const slack = 9
		buf := bytes.Repeat([]byte{0xA5}, len(want)+slack)
		impl.Encode(buf)
		if !bytes.Equal(buf[:len(want)], want) {
			c.Failf("layout", "%s: encoded % x..., protocol says % x...", brief(f), clip(buf[:len(want)]), clip(want))
		}
		if !bytes.Equal(buf[len(want):], bytes.Repeat([]byte{0xA5}, slack)) {
			c.Failf("overrun", "%s: Encode wrote behind Size()", brief(f))
		}
		if impl.GetStreamID() != f.StreamID || int(impl.Type()) != f.Type {
			c.Failf("accessors", "%s: GetStreamID=%d Type=%d", brief(f), impl.GetStreamID(), impl.Type())
		}
		c.Count("frames_encoded", 1)
		// decode what the protocol document says, not what Encode produced
		h := frames.ParseFrameHeader(want)
		if h.StreamID() != f.StreamID || int(h.Type()) != f.Type {
			c.Failf("header", "%s: header decoded as id=%d type=%d", brief(f), h.StreamID(), h.Type())
		}
		d := empty(f.Type)
		if err := d.Decode(&h, want[frames.FrameHeaderLen:]); err != nil {
			c.Failf("decode", "%s: Decode: %v", brief(f), err)
			return
		}
		if g := fromImpl(d); !same(f, g) {
			c.Failf("roundtrip", "sent %s got %s", brief(f), brief(g))
		}
		c.Count("frames_decoded", 1)
		c.Nontrivial("%s", brief(f))
		c.Sample("%s -> % x", brief(f), clip(want))
	})
	// legal encodings the project itself never produces: an M flag over empty
	// metadata, the ignore bit, a set reserved bit in the stream id.
	r.Cases("foreign", r.N(4000, 60000), func(c *vlib.C) {
		f := genFrame(c.Rng)
		flags := 0
		b := refs.EncodeFrame(f)
		flags = int(binary.BigEndian.Uint16(b[4:]) & 0x3ff)
		if f.Type != refs.TError && f.Type != refs.TRequestN && f.Type != refs.TCancel && c.Rng.Intn(2) == 0 {
			flags |= refs.FMetadata
		}
		if c.Rng.Intn(2) == 0 {
			flags |= refs.FIgnore
		}
		b = refs.EncodeFrameFlags(f, flags)
		if c.Rng.Intn(2) == 0 {
			b[0] |= 0x80
		}
		h := frames.ParseFrameHeader(b)
		d := empty(f.Type)
		if err := d.Decode(&h, b[6:]); err != nil {
			c.Failf("decode-foreign", "%s flags=%#x: %v", brief(f), flags, err)
			return
		}
		if g := fromImpl(d); !same(f, g) {
			c.Failf("roundtrip-foreign", "flags=%#x sent %s got %s", flags, brief(f), brief(g))
		}
		c.Count("foreign_decoded", 1)
		c.Nontrivial("%s %x", brief(f), flags)
	})
	// error codes have the values the protocol gives them
	r.Cases("codes", 11, func(c *vlib.C) {
		k := []struct {
			code frames.ErrCode
			want uint32
		}{
			{frames.ErrCodeReserved, 0}, {frames.ErrCodeInvalidSetup, 1}, {frames.ErrCodeUnsupportedSetup, 2}, {frames.ErrCodeRejectedSetup, 3},
			{frames.ErrCodeRejectedResume, 4}, {frames.ErrCodeConnectionError, 0x101}, {frames.ErrCodeConnectionClose, 0x102},
			{frames.ErrCodeApplicationError, 0x201}, {frames.ErrCodeRejected, 0x202}, {frames.ErrCodeCanceled, 0x203}, {frames.ErrCodeInvalid, 0x204},
		}[c.Idx]
		f := frames.Error{StreamID: 1, Code: k.code, Data: "x"}
		b := make([]byte, f.Size())
		f.Encode(b)
		if len(b) != 11 || binary.BigEndian.Uint32(b[6:]) != k.want {
			c.Failf("error-code", "an error with code %#x is encoded as % x", k.want, b)
		}
	})
	// the header helpers agree with each other
	r.Cases("header", r.N(3000, 50000), func(c *vlib.C) {
		id, ty, fl := streamID(c.Rng), frames.FrameType(types[c.Rng.Intn(len(types))]), frames.FrameFlag(c.Rng.Intn(0x400))
		want := binary.BigEndian.AppendUint16(binary.BigEndian.AppendUint32(nil, id), uint16(ty)<<10|uint16(fl))
		h := frames.NewFrameHeader(id, ty, fl)
		var w, w2 bytes.Buffer
		if err := frames.WriteFrameHeader(&w, id, ty, fl); err != nil {
			c.Failf("header-write", "%v", err)
		}
		if _, err := h.WriteTo(&w2); err != nil {
			c.Failf("header-write", "%v", err)
		}
		b := make([]byte, 6)
		frames.ResetFrameHeader(b, id, ty, fl)
		for _, g := range [][]byte{h.Bytes(), w.Bytes(), w2.Bytes(), b} {
			if !bytes.Equal(g, want) {
				c.Failf("header-layout", "id=%d type=%d flag=%#x: % x want % x", id, ty, fl, g, want)
			}
		}
		if h.StreamID() != id || h.Type() != ty || h.Flag() != fl {
			c.Failf("header-fields", "id=%d type=%d flag=%#x: %s", id, ty, fl, h)
		}
		c.Count("headers", 1)
	})
}

func clip(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

// ---- P02: fragmentation ----

func p02(r *vlib.R) {
	r.Cases("fragment", r.N(6000, 120000), func(c *vlib.C) {
		rng := c.Rng
		f := genFrame(rng)
		for f.Type == refs.TRequestN || f.Type == refs.TCancel || f.Type == refs.TError {
			f = genFrame(rng)
		}
		f.Follows = false
		if rng.Intn(2) == 0 { // sizes close to the limit matter most
			f.Metadata = blob(rng, rng.Intn(60))
			f.Data = blob(rng, rng.Intn(120))
		}
		impl := toImpl(f).(frames.Fragmentable)
		max := 14 + rng.Intn(50)
		switch rng.Intn(4) {
		case 0:
			max = 14 + rng.Intn(6)
		case 1:
			max = int(impl.Size()) + rng.Intn(9) - 5
		case 2:
			max = 14 + rng.Intn(4000)
		}
		if max < 14 {
			max = 14
		}
		if len(f.Data)+len(f.Metadata) > 8000 && max < 64 {
			max = 64
		}
		var parts []frames.Frame
		if !c.Guard("fragment-panic", func() { parts = impl.Fragment(uint32(max)) }) {
			return
		}
		if int(impl.Size()) <= max {
			if len(parts) == 0 {
				c.Count("fits", 1)
				return
			}
		} else if len(parts) == 0 {
			c.Failf("not-split", "%s: size %d above limit %d but not split", brief(f), impl.Size(), max)
			return
		}
		var md, data []byte
		for i, p := range parts {
			if int(p.Size()) > max {
				c.Failf("too-big", "%s: fragment %d has %d bytes, limit %d", brief(f), i, p.Size(), max)
				return
			}
			// through the wire
			b := make([]byte, p.Size())
			p.Encode(b)
			g, _, ok := refs.DecodeFrame(b)
			if !ok {
				c.Failf("undecodable", "%s: fragment %d cannot be decoded", brief(f), i)
				return
			}
			last := i == len(parts)-1
			if g.StreamID != f.StreamID {
				c.Failf("stream", "%s: fragment %d carries stream %d", brief(f), i, g.StreamID)
			}
			if i == 0 {
				if g.Type != f.Type {
					c.Failf("first-type", "%s: first fragment has type %#x", brief(f), g.Type)
				}
				if (f.Type == refs.TRequestStream || f.Type == refs.TRequestChannel) && g.N != f.N {
					c.Failf("initial-n", "%s: first fragment has n=%d", brief(f), g.N)
				}
			} else if g.Type != refs.TPayload {
				c.Failf("rest-type", "%s: fragment %d has type %#x", brief(f), i, g.Type)
			}
			if g.Follows == last {
				c.Failf("follows", "%s limit %d: fragment %d of %d has follows=%v on the wire", brief(f), max, i, len(parts), g.Follows)
				return
			}
			if !last && g.Type != refs.TRequestResponse && g.Type != refs.TRequestFNF && g.Type != refs.TRequestStream && (g.Complete || g.Next) {
				c.Failf("early-end", "%s: fragment %d of %d already says complete=%v next=%v", brief(f), i, len(parts), g.Complete, g.Next)
			}
			if last && i > 0 {
				wantNext := f.Next || f.Type != refs.TPayload
				if g.Complete != f.Complete || g.Next != wantNext {
					c.Failf("end-flags", "%s: last fragment complete=%v next=%v", brief(f), g.Complete, g.Next)
				}
			}
			if len(data) > 0 && len(g.Metadata) > 0 {
				c.Failf("order", "%s: metadata after data", brief(f))
			}
			md = append(md, g.Metadata...)
			data = append(data, g.Data...)
		}
		if !bytes.Equal(md, f.Metadata) || !bytes.Equal(data, f.Data) {
			c.Failf("content", "%s limit %d: %d fragments reassemble to md=%d data=%d bytes", brief(f), max, len(parts), len(md), len(data))
		}
		c.Count("fragments", len(parts))
		c.Nontrivial("%s|%d", brief(f), max)
		c.Sample("%s limit=%d -> %d fragments", brief(f), max, len(parts))
	})
}

// ---- P03: hostile bytes ----

func p03(r *vlib.R) {
	r.Cases("mutant", r.N(40000, 1000000), func(c *vlib.C) {
		rng := c.Rng
		var b []byte
		switch rng.Intn(4) {
		case 0:
			b = blob(rng, 6+rng.Intn(24))
			binary.BigEndian.PutUint16(b[4:], uint16(types[rng.Intn(len(types))]<<10)|uint16(rng.Intn(0x400)))
		default:
			f := genFrame(rng)
			if len(f.Metadata) > 400 {
				f.Metadata = f.Metadata[:400]
			}
			if len(f.Data) > 400 {
				f.Data = f.Data[:400]
			}
			b = refs.EncodeFrame(f)
			for k := rng.Intn(4); k > 0; k-- {
				switch rng.Intn(4) {
				case 0:
					b = b[:6+rng.Intn(len(b)-5)]
				case 1:
					b[5] ^= byte(1 << rng.Intn(8))
				case 2:
					if len(b) > 9 {
						i := 6 + rng.Intn(min(7, len(b)-6))
						b[i] = byte([]int{0, 0xff, 0x7f, 0x80, rng.Intn(256)}[rng.Intn(5)])
					}
				case 3:
					b[4] ^= 1
				}
			}
		}
		// exact-length copy so that reading behind the frame is a bounds error
		b = append(make([]byte, 0, len(b)), b...)
		checkHostile(c, b)
	})
	// every truncation of every small frame
	r.Cases("truncate", r.N(800, 8000), func(c *vlib.C) {
		f := genFrame(c.Rng)
		if len(f.Metadata) > 40 {
			f.Metadata = f.Metadata[:40]
		}
		if len(f.Data) > 40 {
			f.Data = f.Data[:40]
		}
		whole := refs.EncodeFrame(f)
		for n := 6; n <= len(whole); n++ {
			checkHostile(c, append(make([]byte, 0, n), whole[:n]...))
			if c.Failed() {
				return
			}
		}
	})
}

func checkHostile(c *vlib.C, b []byte) {
	h := frames.ParseFrameHeader(b)
	want, flags, ok := refs.DecodeFrame(b)
	known := false
	for _, t := range types {
		known = known || t == int(h.Type())
	}
	if !known {
		return
	}
	d := empty(int(h.Type()))
	var err error
	if !c.Guard("decode-panic", func() { err = d.Decode(&h, b[6:]) }) {
		return
	}
	switch {
	case ok && err != nil:
		c.Failf("valid-rejected", "% x: valid frame rejected: %v", clip(b), err)
	case !ok && err == nil:
		c.Failf("invalid-accepted", "% x: truncated frame accepted as %s", clip(b), brief(fromImpl(d)))
	case ok:
		g := fromImpl(d)
		if want.Type == refs.TRequestResponse || want.Type == refs.TRequestFNF {
			want.N = 1
			want.Complete = true
		}
		if want.Type == refs.TRequestStream {
			want.Complete = true
		}
		if !same(want, g) {
			c.Failf("misread", "% x: read as %s, protocol says %s", clip(b), brief(g), brief(want))
		}
		c.Count("accepted", 1)
	default:
		c.Count("rejected", 1)
	}
	c.Nontrivial("%x|%x", clip(b), flags)
	c.Sample("% x -> ok=%v err=%v", clip(b), ok, err)
}
