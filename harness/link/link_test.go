//go:build go1.23

package link

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/internal/u24"
	"github.com/nanobus/iota/go/internal/zzverif/refs"
	"github.com/nanobus/iota/go/internal/zzverif/vlib"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

func TestCheck(t *testing.T) {
	vlib.Run(t, map[string]func(r *vlib.R){"P04": p04, "P12": p12, "P13": p13, "P14": p14})
}

// ---- in-memory connection delivering and accepting bytes in odd chunks ----

type chunkConn struct {
	net.Conn
	in    []byte
	chunk func() int

	mu     sync.Mutex
	out    bytes.Buffer
	yield  bool
	endErr error
	closed atomic.Bool
}

func (c *chunkConn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		if c.endErr != nil {
			return 0, c.endErr
		}
		return 0, io.EOF
	}
	n := c.chunk()
	if n < 1 {
		n = 1
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.in) {
		n = len(c.in)
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *chunkConn) Write(p []byte) (int, error) {
	if c.yield {
		runtime.Gosched()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out.Write(p)
}
func (c *chunkConn) Close() error                      { c.closed.Store(true); return nil }
func (c *chunkConn) SetReadDeadline(t time.Time) error { return nil }
func (c *chunkConn) SetDeadline(t time.Time) error     { return nil }
func (c *chunkConn) RemoteAddr() net.Addr              { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c *chunkConn) LocalAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }

var types = []int{refs.TRequestResponse, refs.TRequestFNF, refs.TRequestStream, refs.TRequestChannel,
	refs.TRequestN, refs.TCancel, refs.TPayload, refs.TError}

func genFrame(rng *rand.Rand, maxBody int) refs.Frame {
	f := refs.Frame{Type: types[rng.Intn(len(types))], StreamID: uint32(rng.Intn(1 << 20))}
	body := func() []byte {
		n := rng.Intn(40)
		if rng.Intn(6) == 0 {
			n = rng.Intn(maxBody)
		}
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	switch f.Type {
	case refs.TRequestN:
		f.N = rng.Uint32()
	case refs.TCancel:
	case refs.TError:
		f.N, f.Data = rng.Uint32(), body()
	case refs.TPayload:
		f.Metadata, f.Data = body(), body()
		f.Next, f.Complete, f.Follows = rng.Intn(2) == 0, rng.Intn(2) == 0, rng.Intn(2) == 0
	default:
		f.Metadata, f.Data, f.Complete, f.N = body(), body(), true, 1
		if f.Type == refs.TRequestStream || f.Type == refs.TRequestChannel {
			f.N = rng.Uint32()
		}
	}
	return f
}

func toImpl(f refs.Frame) frames.Frame {
	switch f.Type {
	case refs.TRequestN:
		return &frames.RequestN{StreamID: f.StreamID, N: f.N}
	case refs.TCancel:
		return &frames.Cancel{StreamID: f.StreamID}
	case refs.TError:
		return &frames.Error{StreamID: f.StreamID, Code: frames.ErrCode(f.N), Data: string(f.Data)}
	case refs.TPayload:
		return &frames.Payload{StreamID: f.StreamID, Metadata: f.Metadata, Data: f.Data, Follows: f.Follows, Complete: f.Complete, Next: f.Next}
	}
	return &frames.RequestPayload{FrameType: frames.FrameType(f.Type), StreamID: f.StreamID, Metadata: f.Metadata,
		Data: f.Data, Follows: f.Follows, Complete: f.Complete, InitialN: f.N}
}

// wire is the frame's encoding as the protocol says.
func wire(f refs.Frame) []byte { return refs.EncodeFrame(f) }

// bytesOf re-encodes what the implementation handed out.
func bytesOf(i frames.Frame) []byte {
	switch f := i.(type) {
	case *frames.RequestN:
		return wire(refs.Frame{Type: refs.TRequestN, StreamID: f.StreamID, N: f.N})
	case *frames.Cancel:
		return wire(refs.Frame{Type: refs.TCancel, StreamID: f.StreamID})
	case *frames.Error:
		return wire(refs.Frame{Type: refs.TError, StreamID: f.StreamID, N: uint32(f.Code), Data: []byte(f.Data)})
	case *frames.Payload:
		return wire(refs.Frame{Type: refs.TPayload, StreamID: f.StreamID, Metadata: f.Metadata, Data: f.Data, Follows: f.Follows, Complete: f.Complete, Next: f.Next})
	case *frames.RequestPayload:
		return wire(refs.Frame{Type: int(f.FrameType), StreamID: f.StreamID, Metadata: f.Metadata, Data: f.Data, Follows: f.Follows, Complete: f.Complete, N: f.InitialN})
	}
	return nil
}

func chunker(rng *rand.Rand) func() int {
	switch rng.Intn(5) {
	case 0:
		return func() int { return 1 }
	case 1:
		return func() int { return 1 + rng.Intn(4) }
	case 2:
		return func() int { return 1 + rng.Intn(200) }
	case 3:
		return func() int { return 1 << 20 }
	default:
		return func() int { return []int{1, 2, 3, 6, 9, 100, 4096, 8192, 65536}[rng.Intn(9)] }
	}
}

type sinkHandler struct {
	h    func(frames.Frame) error
	send rsocket.FrameHandler
}

func (s *sinkHandler) SetFrameSender(h rsocket.FrameHandler) { s.send = h }
func (s *sinkHandler) HandleFrame(f frames.Frame) error      { return s.h(f) }

func p04(r *vlib.R) {
	// the 3 byte length field itself
	r.Cases("u24", r.N(3000, 100000), func(c *vlib.C) {
		v := uint32(c.Rng.Intn(1 << 24))
		if c.Idx < 40 {
			v = []uint32{0, 1, 255, 256, 65535, 65536, 0xffffff, 0xfffffe, 0x010203, 0x800000}[c.Idx%10]
		}
		n, err := u24.NewUint24(v)
		want := []byte{byte(v >> 16), byte(v >> 8), byte(v)}
		var w, w2 bytes.Buffer
		_, e2 := n.WriteTo(&w)
		e3 := u24.WriteUint24(&w2, v)
		if err != nil || e2 != nil || e3 != nil || !bytes.Equal(n.Bytes(), want) || !bytes.Equal(w.Bytes(), want) || !bytes.Equal(w2.Bytes(), want) ||
			n.AsInt() != int(v) || u24.ReadUint24ToInt(want) != int(v) || u24.NewUint24Bytes(want).AsInt() != int(v) {
			c.Failf("u24", "length %d: encoded % x / % x / % x, read back %d %d", v, n.Bytes(), w.Bytes(), w2.Bytes(), n.AsInt(), u24.ReadUint24ToInt(want))
		}
		if _, err := u24.NewUint24(1<<24 + uint32(c.Rng.Intn(1<<30))); err == nil {
			c.Failf("u24-range", "a length above 16777215 was accepted")
		}
		var w3 bytes.Buffer
		if big := 1<<24 + uint32(c.Rng.Intn(1<<30)); u24.WriteUint24(&w3, big) == nil || w3.Len() > 0 {
			c.Failf("u24-range", "length %d was written as % x", big, w3.Bytes())
		}
	})
	// writing: the bytes on the connection are the length-prefixed frames
	r.Cases("write", r.N(600, 10000), func(c *vlib.C) {
		conn := &chunkConn{}
		tc := rsocket.NewTCPConn(conn)
		var want []byte
		n := 1 + c.Rng.Intn(40)
		for i := 0; i < n; i++ {
			f := genFrame(c.Rng, 20000)
			if err := tc.Write(toImpl(f)); err != nil {
				c.Failf("write", "%v", err)
				return
			}
			want = append(want, refs.Prefixed(wire(f))...)
			if c.Rng.Intn(3) == 0 || i == n-1 {
				if err := tc.Flush(); err != nil {
					c.Failf("flush", "%v", err)
					return
				}
				if !bytes.Equal(conn.out.Bytes(), want) {
					c.Failf("written", "after frame %d: %d bytes on the wire, expected %d (or contents differ)", i, conn.out.Len(), len(want))
					return
				}
			}
		}
		c.Count("frames_written", n)
		c.Nontrivial("w%x", fnvb(want))
	})
	// reading: every complete frame once, in order, intact after later reads
	r.Cases("read", r.N(800, 15000), func(c *vlib.C) {
		var in []byte
		var want [][]byte
		n := 1 + c.Rng.Intn(60)
		maxBody := 3000
		if c.Rng.Intn(8) == 0 {
			maxBody = 60000
		}
		for i := 0; i < n; i++ {
			f := genFrame(c.Rng, maxBody)
			b := wire(f)
			want = append(want, b)
			in = append(in, refs.Prefixed(b)...)
		}
		ending := c.Rng.Intn(3)
		whole := len(want)
		if ending == 1 { // cut inside the last frame
			cut := 1 + c.Rng.Intn(len(want[n-1])+2)
			in = in[:len(in)-cut]
			whole--
		}
		conn := &chunkConn{in: in, chunk: chunker(c.Rng)}
		if ending == 2 {
			conn.endErr = errors.New("connection reset by peer")
		}
		tc := rsocket.NewTCPConn(conn)
		var got []frames.Frame
		var err error
		for {
			var f frames.Frame
			if f, err = tc.Read(); err != nil {
				break
			}
			got = append(got, f)
			if len(got) > whole {
				break
			}
		}
		if len(got) != whole {
			c.Failf("frame-count", "%d frames were complete on the wire, %d were read (ending %d, err %v)", whole, len(got), ending, err)
			return
		}
		if ending == 0 && err != io.EOF {
			c.Failf("end", "a clean end of the connection is reported as %v", err)
		}
		for i := range got {
			if !bytes.Equal(bytesOf(got[i]), want[i]) {
				c.Failf("frame-content", "frame %d of %d differs from what was sent", i, n)
				return
			}
		}
		c.Count("frames_read", len(got))
		c.Nontrivial("r%x", fnvb(in))
		c.Sample("%d bytes, %d frames, ending %d", len(in), n, ending)
	})
	// malformed prefixes and bodies end in an error, never in a crash or a made up frame
	r.Cases("garbage", r.N(3000, 60000), func(c *vlib.C) {
		rng := c.Rng
		var in []byte
		good := rng.Intn(4)
		for i := 0; i < good; i++ {
			in = append(in, refs.Prefixed(wire(genFrame(rng, 200)))...)
		}
		kind := rng.Intn(4)
		switch kind {
		case 0: // zero length
			in = append(in, 0, 0, 0)
		case 1: // shorter than a header
			in = append(in, refs.Prefixed(make([]byte, 1+rng.Intn(5)))...)
		case 2: // unknown type
			b := wire(genFrame(rng, 100))
			b[4] = byte([]int{0, 1, 2, 3, 12, 13, 14, 20, 40, 63}[rng.Intn(10)] << 2)
			in = append(in, refs.Prefixed(b)...)
		case 3: // truncated body with a matching length
			f := genFrame(rng, 100)
			for f.Type == refs.TCancel || (len(f.Metadata) < 2 && f.Type != refs.TRequestN && f.Type != refs.TError) {
				f = genFrame(rng, 100)
			}
			b := wire(f)
			cut := 6 + rng.Intn(4)
			if f.Type == refs.TRequestN || f.Type == refs.TError {
				cut = 6 + rng.Intn(3)
			}
			if f.Type == refs.TRequestStream || f.Type == refs.TRequestChannel {
				cut = 6 + rng.Intn(8)
			}
			in = append(in, refs.Prefixed(b[:cut])...)
		}
		in = append(in, refs.Prefixed(wire(genFrame(rng, 100)))...)
		tc := rsocket.NewTCPConn(&chunkConn{in: in, chunk: chunker(rng)})
		for i := 0; ; i++ {
			_, err := tc.Read()
			if err != nil {
				if i != good {
					c.Failf("early-error", "kind %d: frame %d of %d well-formed ones was refused: %v", kind, i, good, err)
				}
				break
			}
			if i >= good {
				c.Failf("garbage-accepted", "kind %d: a malformed frame was read as a frame", kind)
				return
			}
		}
		c.Count("garbage_refused", 1)
		c.Nontrivial("g%x", fnvb(in))
	})
	// the largest frame, and one byte more
	r.Cases("limit", 2, func(c *vlib.C) {
		conn := &chunkConn{chunk: func() int { return 1 << 22 }}
		tc := rsocket.NewTCPConn(conn)
		big := refs.Frame{Type: refs.TPayload, StreamID: 5, Data: bytes.Repeat([]byte{7}, 1<<24-1-6), Next: true}
		if err := tc.Write(toImpl(big)); err != nil {
			c.Failf("largest-refused", "%v", err)
			return
		}
		_ = tc.Flush()
		conn.in = conn.out.Bytes()
		f, err := tc.Read()
		if err != nil || !bytes.Equal(bytesOf(f), wire(big)) {
			c.Failf("largest-lost", "a frame of 16777215 bytes does not survive: %v", err)
		}
		conn2 := &chunkConn{}
		tc2 := rsocket.NewTCPConn(conn2)
		var werr error
		c.Guard("oversize-panic", func() {
			werr = tc2.Write(&frames.Payload{StreamID: 5, Data: make([]byte, 1<<24+c.Idx)})
		})
		if werr == nil {
			c.Failf("oversize-accepted", "a frame that does not fit the length field was accepted")
		}
		_ = tc2.Flush()
		if conn2.out.Len() != 0 {
			c.Failf("oversize-bytes", "%d bytes of a refused frame reached the connection", conn2.out.Len())
		}
	})
	// many goroutines share one transport
	r.Cases("senders", r.N(60, 800), func(c *vlib.C) {
		conn := &chunkConn{yield: true}
		tp := rsocket.NewTransport(rsocket.NewTCPConn(conn), &sinkHandler{})
		g, k := 2+c.Rng.Intn(7), 5+c.Rng.Intn(40)
		want := map[string]int{}
		plan := make([][]refs.Frame, g)
		for i := range plan {
			for j := 0; j < k; j++ {
				f := genFrame(c.Rng, 9000)
				f.StreamID = uint32(i*1000 + j)
				plan[i] = append(plan[i], f)
				want[string(wire(f))]++
			}
		}
		flush := make([]bool, g)
		for i := range flush {
			flush[i] = c.Rng.Intn(3) != 0
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, f := range plan[i] {
					if err := tp.Send(toImpl(f), flush[i]); err != nil {
						c.Failf("send", "%v", err)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		if err := tp.Flush(); err != nil {
			c.Failf("flush", "%v", err)
		}
		b := conn.out.Bytes()
		next := make([]int, g)
		switches, lastG := 0, -1
		for len(b) > 0 {
			if len(b) < 3 {
				c.Failf("interleaved", "trailing %d bytes", len(b))
				return
			}
			l := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
			if len(b) < 3+l || l < 6 {
				c.Failf("interleaved", "frame length %d with %d bytes left", l, len(b)-3)
				return
			}
			raw := b[3 : 3+l]
			b = b[3+l:]
			if want[string(raw)] == 0 {
				c.Failf("interleaved", "a frame nobody sent is on the wire")
				return
			}
			want[string(raw)]--
			f, _, _ := refs.DecodeFrame(raw)
			i, j := int(f.StreamID)/1000, int(f.StreamID)%1000
			if next[i] != j {
				c.Failf("sender-order", "sender %d: frame %d where %d was due", i, j, next[i])
				return
			}
			next[i]++
			if i != lastG {
				switches++
				lastG = i
			}
		}
		for i := range next {
			if next[i] != k {
				c.Failf("sender-lost", "sender %d: %d of %d frames reached the connection", i, next[i], k)
			}
		}
		c.Count("concurrent_frames", g*k)
		c.Count("sender_switches", switches)
		c.Nontrivial("s%x", fnvb(conn.out.Bytes()))
	})
	// Start hands every frame to the handler, in order, before it returns
	r.Cases("dispatch", r.N(150, 3000), func(c *vlib.C) {
		var in []byte
		var want [][]byte
		n := 1 + c.Rng.Intn(200)
		for i := 0; i < n; i++ {
			b := wire(genFrame(c.Rng, 4000))
			want = append(want, b)
			in = append(in, refs.Prefixed(b)...)
		}
		var got []frames.Frame
		lag := c.Rng.Intn(4)
		var seenAfter atomic.Bool
		var returned atomic.Bool
		conn := &chunkConn{in: in, chunk: chunker(c.Rng)}
		tp := rsocket.NewTransport(rsocket.NewTCPConn(conn), &sinkHandler{h: func(f frames.Frame) error {
			if returned.Load() {
				seenAfter.Store(true)
			}
			for k := 0; k < lag; k++ {
				runtime.Gosched()
			}
			got = append(got, f)
			return nil
		}})
		err := tp.Start(context.Background())
		returned.Store(true)
		if err != nil {
			c.Failf("start", "a connection closed by the peer ends with %v", err)
		}
		if !conn.closed.Load() {
			c.Failf("not-closed", "the connection stays open after the transport ended")
		}
		if seenAfter.Load() {
			c.Failf("late", "a frame was dispatched after Start returned")
		}
		if len(got) != n {
			c.Failf("dispatch-count", "%d frames on the wire, %d dispatched", n, len(got))
			return
		}
		for i := range got {
			if !bytes.Equal(bytesOf(got[i]), want[i]) {
				c.Failf("dispatch-order", "frame %d differs from what was sent", i)
				return
			}
		}
		c.Count("frames_dispatched", n)
		c.Nontrivial("d%x", fnvb(in))
	})
}

func fnvb(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// ---- P12: stream ids ----

func p12(r *vlib.R) {
	r.Cases("ids", r.N(300, 6000), func(c *vlib.C) {
		server := c.Rng.Intn(2) == 0
		var seed uint64
		switch c.Rng.Intn(3) {
		case 1:
			seed = uint64(c.Rng.Intn(1 << 30))
		case 2: // around the end of the first lap
			seed = 0x40000000 - uint64(c.Rng.Intn(400))
		}
		g, k := 1+c.Rng.Intn(8), 1+c.Rng.Intn(120)
		cl, sv := socket.ClientStreamIDs(seed), socket.ServerStreamIDs(seed)
		next := cl.Next
		if server {
			next = sv.Next
		}
		type rec struct {
			id    uint32
			first bool
		}
		got := make([][]rec, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < k; j++ {
					id, f := next()
					got[i] = append(got[i], rec{id, f})
					if j%7 == i {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		// the model: consecutive ids of the right parity, starting over at the lowest one
		want := map[rec]bool{}
		pos := seed
		for len(want) < g*k {
			pos++
			v := (2 * pos) & 0x7fffffff
			if !server {
				v = (2*pos - 1) & 0x7fffffff
			}
			if v == 0 {
				continue
			}
			want[rec{uint32(v), pos <= 0x40000000}] = true
		}
		seen := map[uint32]bool{}
		for i := range got {
			for j, x := range got[i] {
				if x.id == 0 || x.id > 0x7fffffff {
					c.Failf("range", "id %d handed out", x.id)
				}
				if (x.id&1 == 0) != server {
					c.Failf("parity", "server=%v got id %d", server, x.id)
				}
				if seen[x.id] {
					c.Failf("duplicate", "id %d handed out twice", x.id)
				}
				seen[x.id] = true
				if !want[x] {
					c.Failf("sequence", "id %d (first lap %v) is not among the next %d ids after %d steps", x.id, x.first, g*k, seed)
					return
				}
				if j > 0 && got[i][j-1].first == x.first && x.id <= got[i][j-1].id {
					c.Failf("order", "id %d after %d", x.id, got[i][j-1].id)
				}
			}
		}
		c.Count("ids", g*k)
		c.Nontrivial("%v %d %d %d", server, seed, g, k)
		c.Sample("server=%v seed=%#x goroutines=%d each=%d", server, seed, g, k)
	})
	// through the caller: every request frame on the wire opens a fresh stream of the right parity
	r.Cases("caller", r.N(60, 1000), func(c *vlib.C) {
		mode := handler.ClientMode
		first := uint32(1)
		if c.Rng.Intn(2) == 0 {
			mode, first = handler.ServerMode, 2
		}
		h := handler.New(context.Background(), mode)
		var mu sync.Mutex
		var ids []uint32
		h.SetFrameSender(func(f frames.Frame) error {
			if f.Type() == frames.FrameTypeRequestResponse || f.Type() == frames.FrameTypeRequestFNF ||
				f.Type() == frames.FrameTypeRequestStream || f.Type() == frames.FrameTypeRequestChannel {
				mu.Lock()
				ids = append(ids, f.GetStreamID())
				mu.Unlock()
			}
			return nil
		})
		g, k := 1+c.Rng.Intn(6), 1+c.Rng.Intn(30)
		var wg, sent sync.WaitGroup
		kinds := make([][]int, g)
		for i := range kinds {
			for j := 0; j < k; j++ {
				kinds[i] = append(kinds[i], c.Rng.Intn(4))
			}
		}
		c.InBubble(func() {
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, kind := range kinds[i] {
						p := payload.New([]byte("x"), make([]byte, 8))
						switch kind {
						case 0:
							h.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{})
						case 1:
							h.FireAndForget(context.Background(), p)
						case 2:
							h.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[payload.Payload]{})
						case 3:
							h.RequestChannel(context.Background(), p, flux.FromSlice([]payload.Payload{})).Subscribe(flux.Subscribe[payload.Payload]{})
						}
					}
				}()
			}
			wg.Wait()
			sent.Wait()
			vlib.Settle()
		})
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		if len(ids) != g*k {
			c.Failf("request-count", "%d requests made, %d request frames sent", g*k, len(ids))
			return
		}
		for i, id := range ids {
			if id != first+uint32(2*i) {
				c.Failf("caller-ids", "request frames use stream ids %v", ids[:i+1])
				return
			}
		}
		c.Count("requests", g*k)
		c.Nontrivial("caller %d %d %d", mode, g, k)
	})
}

// ---- P13: unbounded queue ----

func p13(r *vlib.R) {
	r.Cases("queue", r.N(1500, 30000), func(c *vlib.C) {
		rng := c.Rng
		np := 1 + rng.Intn(5)
		type item struct{ p, n int }
		dispose := rng.Intn(3) // 0 after producers, 1 concurrently, 2 early
		plan := make([][]int, np)
		for i := range plan {
			for j := rng.Intn(60); j >= 0; j-- {
				plan[i] = append(plan[i], rng.Intn(4))
			}
		}
		consumerLag := rng.Intn(4)
		disposeAt := time.Duration(rng.Intn(40)) * time.Microsecond
		accepted := make([]int, np)
		var refusedThenAccepted, lateAccept atomic.Bool
		var disposedFlag atomic.Bool
		var got []item
		ended := false
		c.InBubble(func() {
			u := buffer.NewUnbounded[item]()
			var wg sync.WaitGroup
			for i := range plan {
				wg.Add(1)
				go func() {
					defer wg.Done()
					refused := false
					for j, lag := range plan[i] {
						if lag == 1 {
							runtime.Gosched()
						} else if lag == 2 {
							time.Sleep(time.Microsecond)
						}
						after := disposedFlag.Load()
						if u.Put(item{i, j}) {
							if refused {
								refusedThenAccepted.Store(true)
							}
							if after {
								lateAccept.Store(true)
							}
							accepted[i]++
						} else {
							refused = true
						}
					}
				}()
			}
			done := make(chan struct{})
			go func() {
				defer close(done)
				for x := range u.Get() {
					if consumerLag == 1 {
						runtime.Gosched()
					} else if consumerLag > 1 {
						time.Sleep(time.Duration(consumerLag) * time.Microsecond)
					}
					got = append(got, x)
					u.Load()
				}
				ended = true
			}()
			if dispose == 0 {
				wg.Wait()
			} else {
				time.Sleep(disposeAt)
			}
			u.Dispose()
			disposedFlag.Store(true)
			wg.Wait()
			select {
			case <-done:
			case <-time.After(time.Hour): // virtual: fires only if the reader can never be woken
				c.Failf("stuck", "the reader of a disposed queue waits for ever: %d items read", len(got))
			}
			if u.Put(item{-1, -1}) {
				c.Failf("put-after-dispose", "a disposed queue accepted an item")
			}
			u.Dispose() // a second disposal is harmless
		})
		if !ended {
			return
		}
		next := make([]int, np)
		for _, x := range got {
			if x.p < 0 || next[x.p] != x.n {
				c.Failf("fifo", "producer %d: item %d delivered where %d was due (accepted %v)", x.p, x.n, next[max(x.p, 0)], accepted)
				return
			}
			next[x.p]++
		}
		for i := range next {
			if next[i] != accepted[i] {
				c.Failf("lost", "producer %d: %d items accepted, %d delivered", i, accepted[i], next[i])
			}
		}
		if refusedThenAccepted.Load() || lateAccept.Load() {
			c.Failf("accept-after-dispose", "an item was accepted after the queue was disposed")
		}
		c.Count("items", len(got))
		c.Nontrivial("%v %v", accepted, order(got, func(x item) int { return x.p }))
		c.Sample("producers=%d accepted=%v dispose mode %d", np, accepted, dispose)
	})
	// sequential model: put, read, load, dispose in any order
	r.Cases("model", r.N(4000, 80000), func(c *vlib.C) {
		u := buffer.NewUnbounded[int]()
		var model []int // everything accepted and not yet read
		disposed := false
		n := 0
		inFlight := false // read without the Load that must follow
		for step := 0; step < 40; step++ {
			switch c.Rng.Intn(5) {
			case 0, 1:
				n++
				ok := u.Put(n)
				if ok == disposed {
					c.Failf("model-put", "Put=%v while disposed=%v", ok, disposed)
					return
				}
				if ok {
					model = append(model, n)
				}
			case 2, 3:
				if inFlight {
					u.Load()
					inFlight = false
				}
				select {
				case v, ok := <-u.Get():
					if !ok {
						if !disposed || len(model) > 0 {
							c.Failf("model-closed", "queue ended with %d items left, disposed=%v", len(model), disposed)
							return
						}
						continue
					}
					if len(model) == 0 || v != model[0] {
						c.Failf("model-fifo", "read %d, expected %v", v, model)
						return
					}
					model = model[1:]
					inFlight = true
				default:
					if len(model) > 0 || disposed {
						c.Failf("model-empty", "nothing readable with %d items left, disposed=%v", len(model), disposed)
						return
					}
				}
			case 4:
				if c.Rng.Intn(8) == 0 {
					u.Dispose()
					disposed = true
				}
			}
		}
		c.Count("model_steps", 40)
	})
}

func order[T any](xs []T, f func(T) int) string {
	b := make([]byte, len(xs))
	for i, x := range xs {
		b[i] = byte('a' + f(x))
	}
	return string(b)
}

// ---- P14: stream table ----

type fakeStream struct {
	id uint32
	n  int
}

func (f *fakeStream) Context() context.Context { return context.Background() }
func (f *fakeStream) StreamID() uint32         { return f.id }
func (f *fakeStream) OnNext(payload.Payload)   {}
func (f *fakeStream) OnComplete()              {}
func (f *fakeStream) OnError(error)            {}

func p14(r *vlib.R) {
	r.Cases("model", r.N(6000, 150000), func(c *vlib.C) {
		var l proxy.Lookup
		model := map[uint32]*fakeStream{}
		ids := 1 + c.Rng.Intn(12)
		var hist []byte
		for step := 0; step < 60; step++ {
			id := uint32(1 + c.Rng.Intn(ids))
			switch c.Rng.Intn(3) {
			case 0:
				if model[id] == nil {
					s := &fakeStream{id: id, n: step}
					model[id] = s
					l.Add(s)
					hist = append(hist, 'A', byte(id))
				}
			case 1:
				delete(model, id)
				l.Remove(id)
				hist = append(hist, 'R', byte(id))
			}
			for k := uint32(0); k <= uint32(ids); k++ {
				s, ok := l.Get(k)
				m := model[k]
				if ok != (m != nil) || (ok && s != proxy.Stream(m)) {
					c.Failf("lookup", "after %q: stream %d found=%v expected=%v", hist, k, ok, m != nil)
					return
				}
			}
		}
		c.Count("steps", 60)
		c.Nontrivial("%s", hist)
		c.Sample("%q", hist)
	})
	// concurrent: each id is added once and removed once; every lookup has to
	// agree with some point between its call and its return.
	r.Cases("concurrent", r.N(200, 4000), func(c *vlib.C) {
		var l proxy.Lookup
		var clock atomic.Int64
		nids := 4 + c.Rng.Intn(30)
		type iv struct{ call, ret int64 }
		adds := make([]iv, nids)
		rems := make([]iv, nids)
		type obs struct {
			id int
			iv
			ok, right bool
		}
		streams := make([]*fakeStream, nids)
		for i := range streams {
			streams[i] = &fakeStream{id: uint32(i + 1)}
		}
		writers, readers := 1+c.Rng.Intn(4), 1+c.Rng.Intn(4)
		rngs := make([]*rand.Rand, writers+readers)
		for i := range rngs {
			rngs[i] = rand.New(rand.NewSource(c.Rng.Int63()))
		}
		seen := make([][]obs, readers)
		var left atomic.Int64
		left.Store(int64(writers))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < writers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer left.Add(-1)
				<-start
				var live []int
				todo := []int{}
				for i := w; i < nids; i += writers {
					todo = append(todo, i)
				}
				for len(todo)+len(live) > 0 {
					if len(todo) > 0 && (len(live) == 0 || rngs[w].Intn(2) == 0) {
						i := todo[0]
						todo = todo[1:]
						adds[i].call = clock.Add(1)
						l.Add(streams[i])
						adds[i].ret = clock.Add(1)
						live = append(live, i)
					} else {
						k := rngs[w].Intn(len(live))
						i := live[k]
						live = append(live[:k], live[k+1:]...)
						rems[i].call = clock.Add(1)
						l.Remove(streams[i].id)
						rems[i].ret = clock.Add(1)
					}
					if rngs[w].Intn(3) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		for g := 0; g < readers; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rngs[writers+g]
				<-start
				for n := 0; (left.Load() > 0 || n < 10) && n < 4000; n++ {
					i := rng.Intn(nids)
					o := obs{id: i}
					o.call = clock.Add(1)
					s, ok := l.Get(uint32(i + 1))
					o.ret = clock.Add(1)
					o.ok, o.right = ok, !ok || s == proxy.Stream(streams[i])
					seen[g] = append(seen[g], o)
				}
			}()
		}
		close(start)
		wg.Wait()
		hits := 0
		for g := range seen {
			for _, o := range seen[g] {
				a, d := adds[o.id], rems[o.id]
				if !o.right {
					c.Failf("wrong-stream", "lookup of id %d returned another stream", o.id+1)
					return
				}
				mayTrue := o.ret > a.call && o.call < d.ret
				mayFalse := o.call < a.ret || o.ret > d.call
				if o.ok && !mayTrue || !o.ok && !mayFalse {
					c.Failf("not-linearizable", "id %d: found=%v in [%d,%d], added [%d,%d], removed [%d,%d]", o.id+1, o.ok, o.call, o.ret, a.call, a.ret, d.call, d.ret)
					return
				}
				if o.ok {
					hits++
				}
			}
			c.Count("lookups", len(seen[g]))
		}
		for i := range streams {
			if _, ok := l.Get(streams[i].id); ok {
				c.Failf("leftover", "stream %d is still found after its removal", streams[i].id)
			}
		}
		c.Count("hits", hits)
		c.Nontrivial("%d %d %d %d", nids, writers, readers, hits)
	})
}

var _ = fmt.Sprint
