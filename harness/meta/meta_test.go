//go:build go1.23

// Package meta monitors the metadata formats and registries: operation
// tables, the operation registry, port payloads, instance handles, custom
// sections and UUIDs.
package meta

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"testing"
	"unicode/utf8"
	"unsafe"

	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
)

func TestCheck(t *testing.T) {
	vlib.Run(t, map[string]func(r *vlib.R){"P10": p10, "P11": p11, "P28": p28, "P29": p29, "P33": p33, "P34": p34})
}

var sizes = []int{0, 1, 2, 3, 7, 8, 31, 32, 127, 128, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65533, 65534, 65535}

func randString(rng *rand.Rand, max int) string {
	var n int
	switch rng.Intn(12) {
	case 0:
		n = sizes[rng.Intn(len(sizes))]
	case 1:
		n = rng.Intn(max + 1)
	default:
		n = rng.Intn(24)
	}
	if n > max {
		n = max
	}
	b := make([]byte, n)
	if rng.Intn(3) == 0 {
		rng.Read(b)
	} else {
		const letters = "abcdefghijklmnopqrstuvwxyz.-/ABCD\x00é"
		for i := range b {
			b[i] = letters[rng.Intn(len(letters))]
		}
	}
	return string(b)
}

// allocated returns what f returns and how many bytes it allocated.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func mutate(rng *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + rng.Intn(3); k > 0; k-- {
		switch rng.Intn(7) {
		case 0:
			b = b[:rng.Intn(len(b)+1)]
		case 1, 2:
			if len(b) > 0 {
				b[rng.Intn(len(b))] = byte(rng.Intn(256))
			}
		case 3:
			if len(b) > 0 {
				b[rng.Intn(len(b))] ^= 1 << rng.Intn(8)
			}
		case 4:
			x := make([]byte, rng.Intn(9))
			rng.Read(x)
			i := rng.Intn(len(b) + 1)
			b = append(b[:i:i], append(x, b[i:]...)...)
		case 5:
			if i := rng.Intn(len(b) + 1); i < len(b) {
				j := i + rng.Intn(len(b)-i)
				b = append(b[:i:i], b[j:]...)
			}
		case 6:
			if len(b) >= 4 {
				binary.BigEndian.PutUint32(b[rng.Intn(len(b)-3):], []uint32{0xffffffff, 0x7fffffff, 0x80000000, 0x10000, 0xffff, 1 << 28}[rng.Intn(6)])
			}
		}
	}
	return b
}

// --- operation tables ---

// refTable is an independent reader and writer of the operation list format.
type refOp struct {
	typ, dir byte
	index    uint32
	ns, op   string
	reserved []byte
}

func refEncode(ops []refOp) []byte {
	b := []byte("\x00wrs\x00\x01")
	b = binary.BigEndian.AppendUint32(b, uint32(len(ops)))
	for _, o := range ops {
		b = append(b, o.typ, o.dir)
		b = binary.BigEndian.AppendUint32(b, o.index)
		for _, s := range []string{o.ns, o.op, string(o.reserved)} {
			b = binary.BigEndian.AppendUint16(b, uint16(len(s)))
			b = append(b, s...)
		}
	}
	return b
}

func refDecode(b []byte) ([]refOp, bool) {
	if len(b) < 10 || string(b[:6]) != "\x00wrs\x00\x01" {
		return nil, false
	}
	n := binary.BigEndian.Uint32(b[6:])
	b = b[10:]
	var ops []refOp
	for i := uint32(0); i < n; i++ {
		if len(b) < 6 {
			return nil, false
		}
		o := refOp{typ: b[0], dir: b[1], index: binary.BigEndian.Uint32(b[2:])}
		b = b[6:]
		var parts [3][]byte
		for k := range parts {
			if len(b) < 2 {
				return nil, false
			}
			l := int(b[0])<<8 | int(b[1])
			b = b[2:]
			if len(b) < l {
				return nil, false
			}
			parts[k], b = b[:l], b[l:]
		}
		o.ns, o.op, o.reserved = string(parts[0]), string(parts[1]), parts[2]
		ops = append(ops, o)
	}
	return ops, true
}

func genOps(rng *rand.Rand) []refOp {
	n := rng.Intn(6)
	if rng.Intn(20) == 0 {
		n = 20 + rng.Intn(400)
	}
	ops := make([]refOp, n)
	for i := range ops {
		o := refOp{typ: byte(1 + rng.Intn(4)), dir: byte(1 + rng.Intn(2)), index: uint32(rng.Intn(30))}
		if rng.Intn(4) == 0 {
			o.typ, o.dir, o.index = byte(rng.Intn(256)), byte(rng.Intn(256)), rng.Uint32()
		}
		max := 65535
		if n > 20 {
			max = 40
		}
		o.ns, o.op = randString(rng, max), randString(rng, max)
		ops[i] = o
	}
	return ops
}

func toTable(ops []refOp) operations.Table {
	t := make(operations.Table, len(ops))
	for i, o := range ops {
		t[i] = operations.Operation{Index: o.index, Type: operations.RequestType(o.typ), Direction: operations.Direction(o.dir), Namespace: o.ns, Operation: o.op}
	}
	return t
}

func brief(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x…(%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func sameTable(a, b operations.Table) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

func p10(r *vlib.R) {
	r.Cases("tables", r.N(4000, 100000), func(c *vlib.C) {
		ops := genOps(c.Rng)
		table := toTable(ops)
		before := append(operations.Table(nil), table...)
		b := table.ToBytes()
		if want := refEncode(ops); !bytes.Equal(b, want) {
			c.Failf("encoding", "ToBytes of %d operations gives %s, the format is %s", len(ops), brief(b), brief(want))
			return
		}
		if !sameTable(before, table) {
			c.Failf("table-changed", "ToBytes changed the table %v", before)
		}
		got, err := operations.FromBytes(b)
		if err != nil || !sameTable(got, table) {
			c.Failf("round-trip", "FromBytes(ToBytes(%v)) = %v, %v", table, got, err)
			return
		}
		// The names must not change with the buffer: hosts read tables
		// from the memory of their guests.
		for i := range b {
			b[i] ^= 0x5a
		}
		if !sameTable(got, table) {
			c.Failf("aliased", "the table %v changed with the buffer it was read from", table)
		}
		c.Count("tables", 1)
		c.Count("operations", len(ops))
		c.Nontrivial("t %d %d", len(ops), len(b))
		if len(ops) > 0 {
			c.Sample("table %v", table[0])
		}
		// Reserved bytes are for later versions and are skipped.
		for i := range ops {
			ops[i].reserved = []byte(randString(c.Rng, 65535))
			if c.Rng.Intn(40) == 0 {
				ops[i].reserved = make([]byte, 65534+c.Rng.Intn(2))
			}
		}
		b = refEncode(ops)
		got, err = operations.FromBytes(b)
		if err != nil || !sameTable(got, table) {
			c.Failf("reserved", "FromBytes of %v with reserved bytes = %v, %v", table, got, err)
		}
		c.Count("reserved", len(ops))
	})
	r.Cases("hostile", r.N(1500, 40000), func(c *vlib.C) {
		ops := genOps(c.Rng)
		if len(ops) > 20 {
			ops = ops[:20]
		}
		base := refEncode(ops)
		try := func(b []byte) {
			want, ok := refDecode(b)
			var got operations.Table
			var err error
			n := allocated(func() {
				if !c.Guard("panic", func() { got, err = operations.FromBytes(b) }) {
					c.Failf("panic-input", "FromBytes(%s) panicked", brief(b))
				}
			})
			if n > 1<<20+uint64(len(b))*64 {
				c.Failf("allocation", "FromBytes of %d bytes %s allocated %d bytes", len(b), brief(b), n)
			}
			if c.Failed() {
				return
			}
			if ok != (err == nil) {
				c.Failf("verdict", "FromBytes(%s): error %v, but the bytes denote a table: %v", brief(b), err, ok)
			} else if ok && !sameTable(got, toTable(want)) {
				c.Failf("misread", "FromBytes(%s) = %v, the bytes denote %v", brief(b), got, want)
			}
			if ok {
				c.Count("accepted", 1)
			} else {
				c.Count("rejected", 1)
			}
		}
		for k := 0; k < 12 && !c.Failed(); k++ {
			b := mutate(c.Rng, base)
			c.Nontrivial("h %x", b[:min(len(b), 40)])
			try(b)
		}
		if len(base) < 400 {
			for i := 0; i <= len(base) && !c.Failed(); i++ {
				try(base[:i])
			}
		}
		// Counts that lie.
		for _, n := range []uint32{uint32(len(ops)) + 1, 0xffffffff, 0x80000000, 0x7fffffff, 0x15555556, 100000} {
			if c.Failed() {
				return
			}
			b := append([]byte(nil), base...)
			binary.BigEndian.PutUint32(b[6:], n)
			try(b)
		}
	})
}

// --- operation registry ---

// p11: exported operations are found under consecutive indices, imports are
// numbered once, and what is listed is what was registered.
func p11(r *vlib.R) {
	type reg struct {
		exports, imports []invoke.HandlerInfo
	}
	var model [4]reg
	type marker struct{ kind, n int }
	var last marker
	first := true
	ctx := context.Background()
	check := func(c *vlib.C) {
		ops := invoke.GetOperations()
		for k, p := range [][2][]invoke.HandlerInfo{
			{ops.Exported.RequestResponse, ops.Imported.RequestResponse},
			{ops.Exported.FireAndForget, ops.Imported.FireAndForget},
			{ops.Exported.RequestStream, ops.Imported.RequestStream},
			{ops.Exported.RequestChannel, ops.Imported.RequestChannel}} {
			if !equalInfos(p[0], model[k].exports) {
				c.Failf("exports", "kind %d: listed exports %v, registered %v", k, tail(p[0]), tail(model[k].exports))
			}
			if !equalInfos(p[1], model[k].imports) {
				c.Failf("imports", "kind %d: listed imports %v, registered %v", k, tail(p[1]), tail(model[k].imports))
			}
		}
		c.Count("listings", 1)
	}
	// announced compares what a guest announces to its host to the model.
	announced := func(c *vlib.C) {
		var list []byte
		guest.VerifOpList = func(p uintptr, n uint32) {
			list = append([]byte(nil), unsafe.Slice((*byte)(unsafe.Pointer(p)), n)...)
		}
		old := debug.SetGCPercent(-1) // the list is only held by its address
		ok := c.Guard("panic", func() { guest.OperationList() })
		debug.SetGCPercent(old)
		if !ok {
			return
		}
		got, ok := refDecode(list)
		if !ok {
			c.Failf("announced", "the guest announces %s, which is no list of operations", brief(list))
			return
		}
		type oper struct {
			typ, dir byte
			index    uint32
			ns, op   string
		}
		want := map[oper]int{}
		n := 0
		for k := range model {
			for d, l := range [][]invoke.HandlerInfo{model[k].exports, model[k].imports} {
				for i, x := range l {
					want[oper{byte(1 + k), byte(1 + d), uint32(i), x.Namespace, x.Operation}]++
					n++
				}
			}
		}
		for _, o := range got {
			k := oper{o.typ, o.dir, o.index, o.ns, o.op}
			if want[k]--; want[k] < 0 {
				c.Failf("announced", "the guest announces %v, which is not registered or announced before", k)
				return
			}
		}
		if len(got) != n {
			c.Failf("announced", "the guest announces %d of %d operations", len(got), n)
		}
		c.Count("announced", n)
	}
	// call invokes the handler of kind under index and reports whether there
	// is one and which marker it left.
	call := func(kind int, index uint32) (marker, bool) {
		last = marker{-1, -1}
		p := payload.New(nil)
		switch kind {
		case 0:
			h := invoke.GetRequestResponseHandler(index)
			if h == nil {
				return last, false
			}
			h(ctx, p)
		case 1:
			h := invoke.GetFireAndForgetHandler(index)
			if h == nil {
				return last, false
			}
			h(ctx, p)
		case 2:
			h := invoke.GetRequestStreamHandler(index)
			if h == nil {
				return last, false
			}
			h(ctx, p)
		case 3:
			h := invoke.GetRequestChannelHandler(index)
			if h == nil {
				return last, false
			}
			h(ctx, p, nil)
		}
		return last, true
	}
	r.Cases("registry", r.N(300, 3000), func(c *vlib.C) {
		rng := c.Rng
		// Names: own ones and those of earlier cases, in related variants.
		var pool []invoke.HandlerInfo
		for k := 0; k < 4; k++ {
			for _, l := range [][]invoke.HandlerInfo{model[k].exports, model[k].imports} {
				if len(l) > 0 {
					pool = append(pool, l[rng.Intn(len(l))], l[len(l)-1], l[0])
				}
			}
		}
		name := func() invoke.HandlerInfo {
			if len(pool) > 0 && rng.Intn(2) == 0 {
				p := pool[rng.Intn(len(pool))]
				switch rng.Intn(5) {
				case 0:
					p.Namespace, p.Operation = p.Operation, p.Namespace
				case 1:
					p.Operation += "x"
				case 2:
					p.Namespace += p.Operation[:min(1, len(p.Operation))]
					p.Operation = p.Operation[min(1, len(p.Operation)):]
				}
				return p
			}
			p := invoke.HandlerInfo{Namespace: randString(rng, 10), Operation: randString(rng, 10)}
			pool = append(pool, p)
			return p
		}
		// The first ones are about one or two kinds only.
		kinds := []int{0, 1, 2, 3}
		if first {
			first = false
			kinds = rng.Perm(4)[:1+rng.Intn(2)]
		}
		for step := 0; step < 25 && !c.Failed(); step++ {
			kind := kinds[rng.Intn(len(kinds))]
			m := &model[kind]
			info := name()
			switch rng.Intn(5) {
			case 0, 1:
				id := marker{kind, len(m.exports)}
				m.exports = append(m.exports, info)
				switch kind {
				case 0:
					invoke.ExportRequestResponse(info.Namespace, info.Operation, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { last = id; return nil })
				case 1:
					invoke.ExportFireAndForget(info.Namespace, info.Operation, func(context.Context, payload.Payload) { last = id })
				case 2:
					invoke.ExportRequestStream(info.Namespace, info.Operation, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { last = id; return nil })
				case 3:
					invoke.ExportRequestChannel(info.Namespace, info.Operation, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
						last = id
						return nil
					})
				}
				c.Count("exports", 1)
			case 2, 3:
				want := -1
				for i, x := range m.imports {
					if x == info {
						want = i
						c.Count("repeated_imports", 1)
						break
					}
				}
				if want < 0 {
					want = len(m.imports)
					m.imports = append(m.imports, info)
				}
				f := []func(string, string) uint32{invoke.ImportRequestResponse, invoke.ImportFireAndForget, invoke.ImportRequestStream, invoke.ImportRequestChannel}[kind]
				if got := f(info.Namespace, info.Operation); got != uint32(want) {
					c.Failf("import-index", "import of %q (kind %d) got index %d, expected %d", info, kind, got, want)
				}
				c.Count("imports", 1)
			case 4:
				check(c)
			}
			// Lookups: known, the next free one, and far out.
			for _, idx := range []uint32{uint32(rng.Intn(len(m.exports) + 1)), uint32(len(m.exports)), uint32(len(m.exports)) + 1, 0xffffffff, 0x80000000 + uint32(rng.Intn(3))} {
				got, ok := call(kind, idx)
				if want := idx < uint32(len(m.exports)); ok != want {
					c.Failf("handler-lookup", "handler %d of kind %d found: %v, %d are exported", idx, kind, ok, len(m.exports))
				} else if want && got != (marker{kind, int(idx)}) {
					c.Failf("wrong-handler", "index %d of kind %d calls the handler exported as %v", idx, kind, got)
				}
				c.Count("lookups", 1)
			}
		}
		check(c)
		announced(c)
		c.Nontrivial("r %d %d %d", len(model[0].exports), len(model[1].imports), len(model[3].exports))
		c.Sample("kinds: %d/%d/%d/%d exports", len(model[0].exports), len(model[1].exports), len(model[2].exports), len(model[3].exports))
	})
}

func tail(l []invoke.HandlerInfo) string {
	if len(l) > 4 {
		return fmt.Sprintf("(%d) … %q", len(l), l[len(l)-4:])
	}
	return fmt.Sprintf("%q", l)
}

func equalInfos(a, b []invoke.HandlerInfo) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// --- port payloads ---

func p28(r *vlib.R) {
	r.Cases("portio", r.N(4000, 100000), func(c *vlib.C) {
		rng := c.Rng
		data := make([]byte, []int{0, 1, 2, 3, 100, 1000}[rng.Intn(6)])
		rng.Read(data)
		in := invoke.PortIO{Port: randString(rng, 65535), Data: data, Complete: rng.Intn(2) == 0, Next: rng.Intn(2) == 0}
		b := in.Encode()
		flags := byte(0)
		if in.Next {
			flags |= 1
		}
		if in.Complete {
			flags |= 2
		}
		want := append([]byte{flags, byte(len(in.Port) >> 8), byte(len(in.Port))}, in.Port...)
		want = append(want, data...)
		if len(b) != len(want) || !bytes.Equal(b[1:], want[1:]) {
			c.Failf("encoding", "%d byte port and %d bytes encode to %s, the format is %s", len(in.Port), len(data), brief(b), brief(want))
			return
		}
		// Decoding replaces everything the receiver held before.
		out := invoke.PortIO{Port: "previous", Data: []byte("previous"), Complete: true, Next: true}
		if err := out.Decode(b); err != nil {
			c.Failf("round-trip", "Decode(Encode(port of %d bytes)): %v", len(in.Port), err)
			return
		}
		if out.Port != in.Port || !bytes.Equal(out.Data, in.Data) || out.Complete != in.Complete || out.Next != in.Next {
			c.Failf("round-trip", "port %d bytes, data %d bytes, next %v, complete %v came back as %d, %d, %v, %v", len(in.Port), len(in.Data), in.Next, in.Complete, len(out.Port), len(out.Data), out.Next, out.Complete)
		}
		c.Count("round_trips", 1)
		c.Nontrivial("p %d %d %v %v", len(in.Port), len(in.Data), in.Next, in.Complete)
		c.Sample("port %d bytes data %d bytes flags %d", len(in.Port), len(in.Data), b[0])
		try := func(b []byte) {
			var o invoke.PortIO
			var err error
			if !c.Guard("panic", func() { err = o.Decode(b) }) {
				c.Failf("panic-input", "Decode(%s) panicked", brief(b))
				return
			}
			ok := len(b) >= 3 && len(b) >= 3+int(b[1])<<8+int(b[2])
			if ok != (err == nil) {
				c.Failf("verdict", "Decode(%s): error %v, but the bytes denote a port payload: %v", brief(b), err, ok)
			}
			if ok {
				n := int(b[1])<<8 + int(b[2])
				if o.Port != string(b[3:3+n]) || !bytes.Equal(o.Data, b[3+n:]) {
					c.Failf("misread", "Decode(%s) = %q, %x", brief(b), o.Port, o.Data)
				}
				c.Count("accepted", 1)
			} else {
				c.Count("rejected", 1)
			}
		}
		for i := 0; i <= min(len(b), 40) && !c.Failed(); i++ {
			try(b[:i])
		}
		for k := 0; k < 4 && !c.Failed(); k++ {
			try(mutate(rng, b))
		}
	})
}

// --- instance handles ---

type item struct {
	owner, n int
	pad      [4]int
}

func hostileIDs(rng *rand.Rand) uint64 {
	x := new([16]byte)
	_ = x
	switch rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return uint64(rng.Intn(1 << 16))
	case 2:
		return 0xc000000000 + uint64(rng.Intn(1<<24))
	case 3:
		return 0xc000000000 + uint64(rng.Intn(1<<21))*8
	case 4:
		return ^uint64(0) - uint64(rng.Intn(64))
	case 5:
		return rng.Uint64()
	case 6:
		return 1 << uint(rng.Intn(64))
	default:
		return 0x7f0000000000 + uint64(rng.Int63n(1<<32))
	}
}

// p29: a handle finds the instance it was given for, from Put until Remove,
// and no other number finds anything.
func p29(r *vlib.R) {
	r.Cases("model", r.N(400, 8000), func(c *vlib.C) {
		rng := c.Rng
		li := invoke.NewLiveInstances[*item]()
		zero := invoke.NewLiveInstances[struct{}]()
		live := map[uint64]*item{}
		zlive := map[uint64]bool{}
		dead := map[uint64]bool{}
		var ids, zids []uint64
		steps := 40 + rng.Intn(150)
		for s := 0; s < steps && !c.Failed(); s++ {
			c.Count("steps", 1)
			switch rng.Intn(9) {
			case 0, 1, 2:
				it := &item{owner: 1, n: s}
				id := li.Put(it)
				if _, ok := live[id]; ok {
					c.Failf("duplicate", "handle %d was given to two live instances", id)
					return
				}
				if dead[id] {
					c.Failf("reused", "handle %d was given out again after Remove: stale uses of it find another instance", id)
					return
				}
				live[id] = it
				ids = append(ids, id)
			case 3, 4:
				if len(ids) == 0 {
					continue
				}
				id := ids[rng.Intn(len(ids))]
				got, ok := li.Get(id)
				want, wok := live[id]
				if ok != wok || got != want {
					c.Failf("get", "Get of a handle (live: %v) = %v, %v; expected %v", wok, got, ok, want)
				}
				c.Count("gets", 1)
			case 5:
				if len(ids) == 0 {
					continue
				}
				id := ids[rng.Intn(len(ids))]
				got, ok := li.Remove(id)
				want, wok := live[id]
				if ok != wok || got != want {
					c.Failf("remove", "Remove of a handle (live: %v) = %v, %v; expected %v", wok, got, ok, want)
				}
				if wok {
					dead[id] = true
				}
				delete(live, id)
				c.Count("removes", 1)
			case 6:
				id := hostileIDs(rng)
				if len(ids) > 0 && rng.Intn(2) == 0 {
					id = ids[rng.Intn(len(ids))] + uint64(rng.Intn(33)) - 16
				}
				_, wok := live[id]
				got, ok := li.Get(id)
				if ok != wok {
					c.Failf("hostile-get", "Get(%#x) = %v, %v", id, got, ok)
				}
				if !wok {
					if got, ok := li.Remove(id); ok {
						c.Failf("hostile-remove", "Remove(%#x) = %v, %v", id, got, ok)
					}
					c.Count("hostile", 1)
				}
			case 7:
				id := zero.Put(struct{}{})
				if zlive[id] {
					c.Failf("duplicate", "handle %d was given to two live instances of a type without fields", id)
					return
				}
				zlive[id] = true
				zids = append(zids, id)
			case 8:
				if len(zids) == 0 {
					continue
				}
				id := zids[rng.Intn(len(zids))]
				if _, ok := zero.Get(id); ok != zlive[id] {
					c.Failf("get", "Get of a handle of a type without fields: %v, live: %v", ok, zlive[id])
				}
				if _, ok := zero.Remove(id); ok != zlive[id] {
					c.Failf("remove", "Remove of a handle of a type without fields: %v, live: %v", ok, zlive[id])
				}
				zlive[id] = false
			}
			if rng.Intn(60) == 0 {
				runtime.GC()
			}
		}
		// Everything live is still there after a collection, and nothing
		// which has been removed.
		runtime.GC()
		for id, want := range live {
			if got, ok := li.Get(id); !ok || got != want {
				c.Failf("lost", "after a garbage collection, handle gives %v, %v; expected %v", got, ok, want)
			}
		}
		for id := range dead {
			if got, ok := li.Get(id); ok {
				c.Failf("undead", "a removed handle gives %v", got)
			}
		}
		c.Nontrivial("m %d %d %d", steps, len(live), len(dead))
	})
	r.Cases("hostile-gc", r.N(12, 100), func(c *vlib.C) {
		// Numbers that point into freed or unmapped parts of the heap while
		// the collector runs.
		li := invoke.NewLiveInstances[*item]()
		defer debug.SetGCPercent(debug.SetGCPercent(5))
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
				}
			}
		}()
		var garbage []uint64
		for k := 0; k < 3000; k++ {
			id := li.Put(&item{n: k})
			garbage = append(garbage, id)
			if k%3 != 0 {
				li.Remove(id)
			}
		}
		for k := 0; k < 30000; k++ {
			id := hostileIDs(c.Rng)
			if k%4 == 0 {
				id = garbage[c.Rng.Intn(len(garbage))]
				id += uint64(c.Rng.Intn(3))
			}
			deepGet(li, id, c.Rng.Intn(20))
			c.Count("hostile", 1)
		}
		close(stop)
		wg.Wait()
		for k, id := range garbage {
			got, ok := li.Get(id)
			if ok != (k%3 == 0) {
				c.Failf("lost", "instance %d (removed: %v) found: %v", k, k%3 != 0, ok)
				return
			}
			if k%3 == 0 && got.n != k {
				c.Failf("mixed-up", "handle of instance %d gives instance %d", k, got.n)
				return
			}
		}
	})
	r.Cases("concurrent", r.N(250, 4000), func(c *vlib.C) {
		li := invoke.NewLiveInstances[*item]()
		G := 2 + c.Rng.Intn(6)
		seeds := make([]int64, G)
		for i := range seeds {
			seeds[i] = c.Rng.Int63()
		}
		var mu sync.Mutex
		var shared []uint64 // handles offered to everybody
		owners := map[uint64]*item{}
		removed := map[*item]int{}
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int, rng *rand.Rand) {
				defer wg.Done()
				own := map[uint64]*item{}
				for s := 0; s < 60; s++ {
					switch rng.Intn(6) {
					case 0, 1:
						it := &item{owner: g, n: s}
						id := li.Put(it)
						if got, ok := li.Get(id); !ok || got != it {
							c.Failf("get", "goroutine %d: Get right after Put = %v, %v", g, got, ok)
						}
						if rng.Intn(2) == 0 {
							own[id] = it
						} else {
							mu.Lock()
							if prev, ok := owners[id]; ok && removed[prev] == 0 {
								c.Failf("duplicate", "handle given to two live instances")
							}
							owners[id] = it
							shared = append(shared, id)
							mu.Unlock()
						}
					case 2:
						for id, it := range own {
							if got, ok := li.Get(id); !ok || got != it {
								c.Failf("get", "goroutine %d: Get of an own handle = %v, %v", g, got, ok)
							}
							break
						}
					case 3:
						for id, it := range own {
							if got, ok := li.Remove(id); !ok || got != it {
								c.Failf("remove", "goroutine %d: Remove of an own handle = %v, %v", g, got, ok)
							}
							delete(own, id)
							break
						}
					case 4, 5:
						mu.Lock()
						if len(shared) == 0 {
							mu.Unlock()
							continue
						}
						id := shared[rng.Intn(len(shared))]
						mu.Unlock()
						// Several may try to remove it: exactly one gets it.
						if got, ok := li.Remove(id); ok {
							mu.Lock()
							removed[got]++
							mu.Unlock()
							c.Count("won_removes", 1)
						} else {
							c.Count("lost_removes", 1)
						}
					}
				}
				for id, it := range own {
					if got, ok := li.Remove(id); !ok || got != it {
						c.Failf("remove", "goroutine %d: final Remove of an own handle = %v, %v", g, got, ok)
					}
				}
			}(g, rand.New(rand.NewSource(seeds[g])))
		}
		wg.Wait()
		for it, n := range removed {
			if n != 1 {
				c.Failf("removed-twice", "instance %d/%d was removed %d times", it.owner, it.n, n)
			}
		}
		for _, id := range shared {
			it := owners[id]
			got, ok := li.Get(id)
			if ok != (removed[it] == 0) || (ok && got != it) {
				c.Failf("lost", "shared instance, removed %d times, found: %v", removed[it], ok)
			}
		}
		c.Nontrivial("c %d %d %d", G, len(shared), len(removed))
	})
}

// deepGet keeps the handle on a growing stack, which the runtime scans and
// moves.
//
//go:noinline
func deepGet(li *invoke.LiveInstances[*item], id uint64, depth int) bool {
	var pad [128]byte
	if depth > 0 {
		pad[depth] = 1
		ok := deepGet(li, id, depth-1)
		return ok && pad[depth] == 1
	}
	_, ok := li.Get(id)
	return ok
}

// --- custom sections ---

func uleb(rng *rand.Rand, n uint32) []byte {
	var b []byte
	for {
		d := byte(n & 0x7f)
		n >>= 7
		if n == 0 {
			b = append(b, d)
			break
		}
		b = append(b, d|0x80)
	}
	for rng != nil && len(b) < 5 && rng.Intn(6) == 0 {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

// readLEB returns ok = 0 (error), 1 (value).
func readLEB(b []byte) (v uint64, n int, ok bool) {
	for i := 0; i < 5; i++ {
		if i >= len(b) {
			return 0, 0, false
		}
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i]&0x80 == 0 {
			if v > 0xffffffff {
				return 0, 0, false
			}
			return v, i + 1, true
		}
	}
	return 0, 0, false
}

type section struct {
	id   byte
	name string
	data []byte
}

func refModule(b []byte) ([]section, bool) {
	if len(b) < 8 || string(b[:8]) != "\x00asm\x01\x00\x00\x00" {
		return nil, false
	}
	b = b[8:]
	var out []section
	for len(b) > 0 {
		s := section{id: b[0]}
		size, n, ok := readLEB(b[1:])
		if !ok {
			return nil, false
		}
		b = b[1+n:]
		if uint64(len(b)) < size {
			return nil, false
		}
		body := b[:size]
		b = b[size:]
		if s.id == 0 {
			l, n, ok := readLEB(body)
			if !ok || uint64(len(body)-n) < l {
				return nil, false
			}
			s.name = string(body[n : n+int(l)])
			if !utf8.ValidString(s.name) {
				return nil, false
			}
			body = body[n+int(l):]
		}
		s.data = body
		out = append(out, s)
	}
	return out, true
}

func p33(r *vlib.R) {
	r.Cases("modules", r.N(5000, 100000), func(c *vlib.C) {
		rng := c.Rng
		b := []byte("\x00asm\x01\x00\x00\x00")
		names := []string{"wasmrs", "name", "", "producers", "wasmrs ", "Wasmrs", "é"}
		for k := rng.Intn(7); k > 0; k-- {
			data := make([]byte, []int{0, 0, 1, 5, 127, 128, 200, 300}[rng.Intn(8)])
			if rng.Intn(200) == 0 {
				data = make([]byte, 20000)
			}
			rng.Read(data)
			id := byte(rng.Intn(13))
			if rng.Intn(2) == 0 {
				id = 0
			}
			body := data
			if id == 0 {
				name := names[rng.Intn(len(names))]
				if rng.Intn(10) == 0 {
					name = string(bytes.Repeat([]byte("n"), 120+rng.Intn(20)))
				}
				body = append(uleb(rng, uint32(len(name))), name...)
				body = append(body, data...)
			}
			b = append(b, id)
			b = append(b, uleb(rng, uint32(len(body)))...)
			b = append(b, body...)
		}
		var wanted []string
		for k := rng.Intn(4); k > 0; k-- {
			wanted = append(wanted, names[rng.Intn(len(names))])
		}
		try := func(b []byte, built bool) {
			want, ok := refModule(b)
			if built && !ok {
				c.Failf("harness", "built an invalid module %s", brief(b))
				return
			}
			input := append([]byte(nil), b...)
			type res = map[string][]byte
			got := res{}
			var err error
			n := allocated(func() {
				if !c.Guard("panic", func() {
					s, e := customsections.Read(input, wanted...)
					err = e
					for k, v := range s {
						if v == nil || v.Name != k {
							c.Failf("name", "section %q is returned as %q", v.Name, k)
							continue
						}
						got[k] = v.Data
					}
				}) {
					c.Failf("panic-input", "Read(%s) panicked", brief(b))
				}
			})
			if n > 1<<20+uint64(len(b))*16 {
				c.Failf("allocation", "Read of %d bytes %s allocated %d bytes", len(b), brief(b), n)
			}
			if c.Failed() {
				return
			}
			if ok != (err == nil) {
				c.Failf("verdict", "Read(%s): error %v, but the module is well-formed: %v", brief(b), err, ok)
				return
			}
			if !ok {
				c.Count("rejected", 1)
				return
			}
			// The sections of every wanted name; of several with the same
			// name one of them.
			cand := map[string][][]byte{}
			for _, s := range want {
				if s.id == 0 {
					for _, w := range wanted {
						if w == s.name {
							cand[w] = append(cand[w], s.data)
							break
						}
					}
				}
			}
			for name, data := range got {
				found := false
				for _, x := range cand[name] {
					found = found || bytes.Equal(x, data)
				}
				if !found {
					c.Failf("content", "section %q of %s wanted %q: got %x, expected one of %x", name, brief(b), wanted, data, cand[name])
				}
			}
			for name := range cand {
				if _, ok := got[name]; !ok {
					c.Failf("missing", "section %q of %s is not returned", name, brief(b))
				}
			}
			c.Count("accepted", 1)
			c.Count("sections", len(got))
		}
		try(b, true)
		c.Nontrivial("w %d %d %v", len(b), len(wanted), b[8:min(len(b), 12)])
		c.Sample("module of %d bytes, wanted %q", len(b), wanted)
		for k := 0; k < 5 && !c.Failed(); k++ {
			try(mutate(rng, b), false)
		}
		if len(b) < 60 {
			for i := 0; i < len(b) && !c.Failed(); i++ {
				try(b[:i], false)
			}
		}
		for k := 0; k < 2 && !c.Failed(); k++ {
			// Sizes that lie.
			x := append([]byte(nil), b...)
			x = append(x, byte(rng.Intn(2)*3))
			x = append(x, uleb(nil, []uint32{0xffffffff, 0x80000000, 0x7fffffff, 1 << 27, 6, 0}[rng.Intn(6)])...)
			x = append(x, uleb(nil, []uint32{0xffffffff, 0xfffffffb, 0x7fffffff, 1 << 27, 1, 0}[rng.Intn(6)])...)
			x = append(x, "abc"...)
			try(x, false)
		}
	})
}
