//go:build go1.23

package refs

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"time"
)

// This file is an independent model of the MessagePack specification: a value
// tree, an encoder that can use any of the forms the specification allows for
// a value, and a strict decoder.

// Kind is the kind of a MessagePack value.
type Kind int

// The kinds.
const (
	KNil Kind = iota
	KBool
	KInt
	KF32
	KF64
	KStr
	KBin
	KArr
	KMap
	KExt
)

func (k Kind) String() string {
	return [...]string{"nil", "bool", "int", "f32", "f64", "str", "bin", "arr", "map", "ext"}[k]
}

// V is a MessagePack value. Integers are Neg ? I : U.
type V struct {
	K   Kind
	B   bool
	Neg bool
	I   int64
	U   uint64
	F   float64
	S   []byte // str, bin and ext content
	T   int8   // ext type
	A   []V    // array elements, or keys and values alternating
}

// Int makes an integer value.
func Int(i int64) V {
	if i < 0 {
		return V{K: KInt, Neg: true, I: i}
	}
	return V{K: KInt, U: uint64(i)}
}

// Uint makes an integer value.
func Uint(u uint64) V { return V{K: KInt, U: u} }

// Str makes a string.
func Str(s string) V { return V{K: KStr, S: []byte(s)} }

// Time makes a timestamp extension in its shortest form.
func Time(t time.Time) V {
	return V{K: KExt, T: -1, S: timeBytes(t, 0)}
}

func timeBytes(t time.Time, min int) []byte {
	sec, ns := uint64(t.Unix()), uint64(t.Nanosecond())
	switch {
	case sec>>32 == 0 && ns == 0 && min <= 4:
		return binary.BigEndian.AppendUint32(nil, uint32(sec))
	case sec>>34 == 0 && min <= 8:
		return binary.BigEndian.AppendUint64(nil, ns<<34|sec)
	}
	return binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint32(nil, uint32(ns)), sec)
}

// AsTime interprets a timestamp extension.
func (v V) AsTime() (time.Time, bool) {
	if v.K != KExt || v.T != -1 && v.T != 13 {
		return time.Time{}, false
	}
	switch len(v.S) {
	case 4:
		return time.Unix(int64(binary.BigEndian.Uint32(v.S)), 0), true
	case 8:
		d := binary.BigEndian.Uint64(v.S)
		return time.Unix(int64(d&(1<<34-1)), int64(d>>34)), true
	case 12:
		return time.Unix(int64(binary.BigEndian.Uint64(v.S[4:])), int64(binary.BigEndian.Uint32(v.S))), true
	}
	return time.Time{}, false
}

// Header is the shortest header of an array or a map of n entries.
func Header(isMap bool, n uint32) []byte {
	fix, h16, h32 := byte(0x90), byte(0xdc), byte(0xdd)
	if isMap {
		fix, h16, h32 = 0x80, 0xde, 0xdf
	}
	switch {
	case n < 16:
		return []byte{fix | byte(n)}
	case n < 1<<16:
		return []byte{h16, byte(n >> 8), byte(n)}
	}
	return []byte{h32, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// Equal compares two values; NaNs are equal, timestamps compare as instants,
// maps as sequences of entries in any order.
func (v V) Equal(w V) bool { return v.equal(w, false) }

// Same is Equal with the entries of maps in the same order.
func (v V) Same(w V) bool { return v.equal(w, true) }

func (v V) equal(w V, ordered bool) bool {
	if v.K != w.K {
		return false
	}
	switch v.K {
	case KBool:
		return v.B == w.B
	case KInt:
		return v.Neg == w.Neg && v.I == w.I && v.U == w.U
	case KF32, KF64:
		return math.Float64bits(v.F) == math.Float64bits(w.F) || v.F != v.F && w.F != w.F
	case KStr, KBin:
		return bytes.Equal(v.S, w.S)
	case KExt:
		a, ok1 := v.AsTime()
		b, ok2 := w.AsTime()
		if ok1 || ok2 {
			return ok1 && ok2 && a.Equal(b)
		}
		return v.T == w.T && bytes.Equal(v.S, w.S)
	case KArr, KMap:
		if len(v.A) != len(w.A) {
			return false
		}
		if v.K == KArr || ordered {
			for i := range v.A {
				if !v.A[i].equal(w.A[i], ordered) {
					return false
				}
			}
			return true
		}
		idx := map[string]int{}
		for i := 0; i < len(w.A); i += 2 {
			idx[w.A[i].canon()] = i
		}
		for i := 0; i < len(v.A); i += 2 {
			j, ok := idx[v.A[i].canon()]
			if !ok || !v.A[i+1].equal(w.A[j+1], false) {
				return false
			}
		}
	}
	return true
}

func (v V) canon() string {
	if t, ok := v.AsTime(); ok {
		v = Time(t)
	}
	return string(v.Bytes())
}

// Bytes is the shortest encoding.
func (v V) Bytes() []byte { return v.Append(nil, nil) }

// Append appends an encoding of v: the shortest if rng is nil, otherwise any
// of the valid ones.
func (v V) Append(b []byte, rng *rand.Rand) []byte {
	slack := func() int {
		if rng == nil || rng.Intn(3) > 0 {
			return 0
		}
		return 1 + rng.Intn(3)
	}
	// size picks a class of at least the least class that fits n.
	head := func(n uint64, fix uint64, fixCode byte, codes []byte) {
		// codes: 8, 16, 32 bit length (0: no such form)
		s := slack()
		if n <= fix && s == 0 && fixCode != 0 {
			b = append(b, fixCode|byte(n))
			return
		}
		for i, c := range codes {
			if c == 0 || n>>(8<<i) != 0 {
				continue
			}
			if s > 1 && i < len(codes)-1 {
				s--
				continue
			}
			b = append(b, c)
			switch i {
			case 0:
				b = append(b, byte(n))
			case 1:
				b = binary.BigEndian.AppendUint16(b, uint16(n))
			case 2:
				b = binary.BigEndian.AppendUint32(b, uint32(n))
			}
			return
		}
		panic("unreachable")
	}
	switch v.K {
	case KNil:
		return append(b, 0xc0)
	case KBool:
		if v.B {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case KInt:
		return v.appendInt(b, rng, slack())
	case KF32:
		return binary.BigEndian.AppendUint32(append(b, 0xca), math.Float32bits(float32(v.F)))
	case KF64:
		return binary.BigEndian.AppendUint64(append(b, 0xcb), math.Float64bits(v.F))
	case KStr:
		head(uint64(len(v.S)), 31, 0xa0, []byte{0xd9, 0xda, 0xdb})
		return append(b, v.S...)
	case KBin:
		head(uint64(len(v.S)), 0, 0, []byte{0xc4, 0xc5, 0xc6})
		return append(b, v.S...)
	case KArr:
		head(uint64(len(v.A)), 15, 0x90, []byte{0, 0xdc, 0xdd})
		for _, e := range v.A {
			b = e.Append(b, rng)
		}
		return b
	case KMap:
		head(uint64(len(v.A)/2), 15, 0x80, []byte{0, 0xde, 0xdf})
		for _, e := range v.A {
			b = e.Append(b, rng)
		}
		return b
	case KExt:
		s := v.S
		if t, ok := v.AsTime(); ok && rng != nil {
			s = timeBytes(t, []int{0, 8, 12}[rng.Intn(3)])
		}
		fix := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[len(s)]
		if fix != 0 && slack() == 0 {
			b = append(b, fix)
		} else {
			head(uint64(len(s)), 0, 0, []byte{0xc7, 0xc8, 0xc9})
		}
		return append(append(b, byte(v.T)), s...)
	}
	panic("kind")
}

func (v V) appendInt(b []byte, rng *rand.Rand, s int) []byte {
	type form struct {
		ok   bool
		code int
		n    int
	}
	u, i := v.U, v.I
	if !v.Neg && u <= math.MaxInt64 {
		i = int64(u)
	}
	signed := v.Neg || u <= math.MaxInt64
	fits := func(bits uint) bool { return signed && i >= -(1<<(bits-1)) && i <= 1<<(bits-1)-1 }
	forms := []form{
		{!v.Neg && u < 128 || v.Neg && i >= -32, -1, 0},
		{!v.Neg && u <= math.MaxUint8, 0xcc, 1}, {fits(8), 0xd0, 1},
		{!v.Neg && u <= math.MaxUint16, 0xcd, 2}, {fits(16), 0xd1, 2},
		{!v.Neg && u <= math.MaxUint32, 0xce, 4}, {fits(32), 0xd2, 4},
		{!v.Neg, 0xcf, 8}, {signed, 0xd3, 8},
	}
	var ok []form
	for _, f := range forms {
		if f.ok {
			ok = append(ok, f)
		}
	}
	f := ok[0]
	if s > 0 {
		f = ok[rng.Intn(len(ok))]
	}
	raw := u
	if v.Neg {
		raw = uint64(i)
	}
	if f.code < 0 {
		return append(b, byte(raw))
	}
	b = append(b, byte(f.code))
	for k := f.n - 1; k >= 0; k-- {
		b = append(b, byte(raw>>(8*k)))
	}
	return b
}

// Errors of Parse.
var (
	ErrShort   = errors.New("truncated")
	ErrInvalid = errors.New("invalid code")
	ErrDeep    = errors.New("too deep")
)

// Parse decodes one value from b and returns the rest.
func Parse(b []byte, depth int) (V, []byte, error) {
	if len(b) == 0 {
		return V{}, nil, ErrShort
	}
	if depth <= 0 {
		return V{}, nil, ErrDeep
	}
	c := b[0]
	b = b[1:]
	num := func(n int) (uint64, bool) {
		if len(b) < n {
			return 0, false
		}
		var u uint64
		for _, x := range b[:n] {
			u = u<<8 | uint64(x)
		}
		b = b[n:]
		return u, true
	}
	blob := func(k Kind, n uint64) (V, []byte, error) {
		if uint64(len(b)) < n {
			return V{}, nil, ErrShort
		}
		return V{K: k, S: b[:n]}, b[n:], nil
	}
	ext := func(n uint64) (V, []byte, error) {
		t, ok := num(1)
		if !ok || uint64(len(b)) < n {
			return V{}, nil, ErrShort
		}
		return V{K: KExt, T: int8(t), S: b[:n]}, b[n:], nil
	}
	list := func(k Kind, n uint64) (V, []byte, error) {
		v := V{K: k}
		for i := uint64(0); i < n; i++ {
			var e V
			var err error
			if e, b, err = Parse(b, depth-1); err != nil {
				return V{}, nil, err
			}
			v.A = append(v.A, e)
		}
		return v, b, nil
	}
	switch {
	case c < 0x80:
		return Uint(uint64(c)), b, nil
	case c < 0x90:
		return list(KMap, 2*uint64(c&15))
	case c < 0xa0:
		return list(KArr, uint64(c&15))
	case c < 0xc0:
		return blob(KStr, uint64(c&31))
	case c >= 0xe0:
		return Int(int64(int8(c))), b, nil
	}
	width := map[byte]int{0xc4: 1, 0xc5: 2, 0xc6: 4, 0xc7: 1, 0xc8: 2, 0xc9: 4, 0xca: 4, 0xcb: 8, 0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8,
		0xd0: 1, 0xd1: 2, 0xd2: 4, 0xd3: 8, 0xd9: 1, 0xda: 2, 0xdb: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4}[c]
	u, ok := num(width)
	if !ok {
		return V{}, nil, ErrShort
	}
	switch c {
	case 0xc0:
		return V{}, b, nil
	case 0xc2, 0xc3:
		return V{K: KBool, B: c == 0xc3}, b, nil
	case 0xc4, 0xc5, 0xc6:
		return blob(KBin, u)
	case 0xc7, 0xc8, 0xc9:
		return ext(u)
	case 0xca:
		return V{K: KF32, F: float64(math.Float32frombits(uint32(u)))}, b, nil
	case 0xcb:
		return V{K: KF64, F: math.Float64frombits(u)}, b, nil
	case 0xcc, 0xcd, 0xce, 0xcf:
		return Uint(u), b, nil
	case 0xd0:
		return Int(int64(int8(u))), b, nil
	case 0xd1:
		return Int(int64(int16(u))), b, nil
	case 0xd2:
		return Int(int64(int32(u))), b, nil
	case 0xd3:
		return Int(int64(u)), b, nil
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return ext(1 << (c - 0xd4))
	case 0xd9, 0xda, 0xdb:
		return blob(KStr, u)
	case 0xdc, 0xdd:
		return list(KArr, u)
	case 0xde, 0xdf:
		return list(KMap, 2*u)
	}
	return V{}, nil, ErrInvalid
}

// String renders the value.
func (v V) String() string {
	switch v.K {
	case KNil:
		return "nil"
	case KBool:
		return fmt.Sprint(v.B)
	case KInt:
		if v.Neg {
			return fmt.Sprint(v.I)
		}
		return fmt.Sprint(v.U)
	case KF32, KF64:
		return fmt.Sprintf("%s:%v", v.K, v.F)
	case KArr, KMap:
		s := v.K.String() + "["
		for i, e := range v.A {
			if i > 8 {
				s += "..."
				break
			}
			s += e.String() + " "
		}
		return s + "]"
	}
	x := v.S
	if len(x) > 20 {
		return fmt.Sprintf("%s(%d,%d bytes %q...)", v.K, v.T, len(v.S), x[:20])
	}
	return fmt.Sprintf("%s(%d,%q)", v.K, v.T, x)
}

// edge lengths and integers
var edgeLens = []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537}

// Len draws a length around the limits of the length classes.
func Len(rng *rand.Rand, max int) int {
	for {
		var n int
		switch rng.Intn(16) {
		case 0, 4, 8, 12:
			n = edgeLens[rng.Intn(len(edgeLens))]
		case 2:
			n = rng.Intn(1 << uint(1+rng.Intn(17)))
		case 1, 5, 9:
			n = rng.Intn(300)
		default:
			n = rng.Intn(20)
		}
		if n <= max {
			return n
		}
	}
}

// Int64 draws an integer around the limits of the integer classes.
func Int64(rng *rand.Rand) int64 {
	switch rng.Intn(4) {
	case 0:
		return rng.Int63() >> rng.Intn(63)
	case 1:
		return -(rng.Int63() >> rng.Intn(63))
	}
	sh := []uint{0, 4, 5, 6, 7, 8, 15, 16, 31, 32, 33, 34, 62, 63}[rng.Intn(14)]
	v := int64(uint64(1) << sh)
	if rng.Intn(2) == 0 {
		v = -v
	}
	return v + int64(rng.Intn(5)) - 2
}

// Uint64 draws an integer around the limits of the integer classes.
func Uint64(rng *rand.Rand) uint64 {
	if rng.Intn(2) == 0 {
		return rng.Uint64() >> rng.Intn(64)
	}
	sh := []uint{0, 4, 5, 7, 8, 15, 16, 31, 32, 33, 34, 62, 63, 64}[rng.Intn(14)]
	return uint64(1)<<sh + uint64(rng.Intn(5)) - 2
}

// Float draws a float64, including the special ones.
func Float(rng *rand.Rand) float64 {
	switch rng.Intn(6) {
	case 0:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1, -1}[rng.Intn(9)]
	case 1:
		return math.Float64frombits(rng.Uint64())
	}
	return rng.NormFloat64() * math.Pow(10, float64(rng.Intn(20)-10))
}

// Instant draws a time the extension can carry.
func Instant(rng *rand.Rand) time.Time {
	ns := int64(0)
	if rng.Intn(2) == 0 {
		ns = rng.Int63n(1e9)
	}
	switch rng.Intn(7) {
	case 0:
		return time.Unix(int64([]uint64{0, 1, 1<<32 - 1, 1 << 32, 1<<34 - 1, 1 << 34}[rng.Intn(6)]), ns)
	case 5:
		// near the limits of the three forms, and of other integers
		base := []int64{0, 0, 1 << 31, 1 << 32, 1 << 33, 1 << 34, 1 << 35, -1 << 31, -1 << 32, -1 << 34, time.Time{}.Unix(), 253402300800}[rng.Intn(12)]
		return time.Unix(base+rng.Int63n(1<<uint(1+rng.Intn(14)))-rng.Int63n(1<<uint(1+rng.Intn(14))), ns)
	case 6:
		return time.Unix(-(rng.Int63() >> uint(28+rng.Intn(35))), ns)
	case 1:
		return time.Unix(-rng.Int63n(1<<36), ns)
	case 2:
		return time.Unix(rng.Int63n(1<<37), ns)
	case 3:
		return time.Time{}
	}
	return time.Unix(rng.Int63n(1<<32), ns)
}

// Gen draws a value tree of at most depth levels; hashable restricts it to
// values usable as Go map keys.
func Gen(rng *rand.Rand, depth int, hashable bool, exts bool) V {
	n := 10
	if depth <= 1 || hashable {
		n = 6
	}
	if exts {
		n++
	}
	k := rng.Intn(n)
	if exts && k == n-1 {
		if rng.Intn(2) == 0 || hashable {
			return Time(Instant(rng))
		}
		b := make([]byte, Len(rng, 300))
		rng.Read(b)
		return V{K: KExt, T: int8(rng.Intn(256)), S: b}
	}
	switch k {
	case 0:
		return Int(Int64(rng))
	case 1:
		return Uint(Uint64(rng))
	case 2:
		b := make([]byte, Len(rng, 70000))
		for i := range b {
			b[i] = byte('a' + rng.Intn(26))
		}
		return V{K: KStr, S: b}
	case 3:
		if hashable {
			return V{K: KBool, B: rng.Intn(2) == 0}
		}
		return V{K: KF64, F: Float(rng)}
	case 4:
		switch rng.Intn(3) {
		case 0:
			return V{}
		case 1:
			return V{K: KBool, B: rng.Intn(2) == 0}
		}
		if hashable {
			return Int(int64(rng.Intn(1000)))
		}
		return V{K: KF32, F: float64(float32(Float(rng)))}
	case 5:
		if hashable {
			return Str(fmt.Sprint("k", rng.Intn(1000)))
		}
		b := make([]byte, Len(rng, 70000))
		rng.Read(b)
		return V{K: KBin, S: b}
	}
	// containers
	max := 40
	if depth <= 2 && rng.Intn(10) == 0 {
		max = 66000
	}
	cnt := Len(rng, max)
	if k < 8 {
		v := V{K: KArr}
		for i := 0; i < cnt; i++ {
			v.A = append(v.A, genIn(rng, depth, cnt, exts))
		}
		return v
	}
	v := V{K: KMap}
	seen := map[string]bool{}
	for i := 0; i < cnt; i++ {
		key := Gen(rng, 1, true, exts && cnt < 100)
		if cnt > 100 {
			key = Int(int64(i))
		}
		if c := key.canon(); seen[c] {
			continue
		} else {
			seen[c] = true
		}
		v.A = append(v.A, key, genIn(rng, depth, cnt, exts))
	}
	return v
}

func genIn(rng *rand.Rand, depth, cnt int, exts bool) V {
	if cnt > 100 {
		return Int(int64(rng.Intn(300)))
	}
	for {
		v := Gen(rng, depth-1, false, exts)
		if len(v.S) < 2000 && len(v.A) < 300 {
			return v
		}
	}
}
