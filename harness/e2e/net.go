//go:build go1.23

// Package e2e monitors two sides of a connection, or one side and a scripted
// peer, while they make and serve requests.
package e2e

import (
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/refs"
)

var errCut = errors.New("connection reset by the fault injector")

// duct is one direction of a connection.
type duct struct {
	mu     sync.Mutex
	cond   *sync.Cond
	segs   []seg
	closed bool // the writer is gone: the reader gets EOF after the rest
	broken bool // the reader gets an error at once
	chunk  func() int
	delay  func() time.Duration
	last   time.Time
	total  int
	cutAt  int // bytes let through before the connection breaks, -1: all
	onCut  func()
	tap    func(b []byte)
}

type seg struct {
	at time.Time
	b  []byte
}

func newDuct(chunk func() int, delay func() time.Duration) *duct {
	d := &duct{chunk: chunk, delay: delay, cutAt: -1}
	d.cond = sync.NewCond(&d.mu)
	return d
}

func (d *duct) write(b []byte) (int, error) {
	d.mu.Lock()
	if d.closed || d.broken {
		d.mu.Unlock()
		return 0, net.ErrClosed
	}
	n := len(b)
	cut := d.cutAt >= 0 && d.total+n >= d.cutAt
	if cut {
		n = d.cutAt - d.total
	}
	if n > 0 {
		at := time.Now().Add(d.delay())
		if at.Before(d.last) {
			at = d.last
		}
		d.last = at
		d.segs = append(d.segs, seg{at, append([]byte(nil), b[:n]...)})
		d.total += n
		if d.tap != nil {
			d.tap(b[:n])
		}
	}
	if cut {
		d.closed = true
	}
	d.cond.Broadcast()
	d.mu.Unlock()
	if cut {
		if d.onCut != nil {
			d.onCut()
		}
		return n, errCut
	}
	return n, nil
}

func (d *duct) read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for {
		if d.broken {
			return 0, net.ErrClosed
		}
		if len(d.segs) > 0 {
			if w := time.Until(d.segs[0].at); w > 0 {
				d.mu.Unlock()
				time.Sleep(w)
				d.mu.Lock()
				continue
			}
			n := d.chunk()
			if n < 1 {
				n = 1
			}
			if n > len(p) {
				n = len(p)
			}
			s := &d.segs[0]
			if n > len(s.b) {
				n = len(s.b)
			}
			copy(p, s.b[:n])
			if s.b = s.b[n:]; len(s.b) == 0 {
				d.segs = d.segs[1:]
			}
			return n, nil
		}
		if d.closed {
			return 0, io.EOF
		}
		d.cond.Wait()
	}
}

func (d *duct) shut(hard bool) {
	d.mu.Lock()
	d.closed = true
	if hard {
		d.broken = true
	}
	d.cond.Broadcast()
	d.mu.Unlock()
}

// end is one end of a connection.
type end struct {
	in, out *duct
	closes  int
	slow    func() // what happens before it is closed
	mu      sync.Mutex
}

func (e *end) Read(p []byte) (int, error)  { return e.in.read(p) }
func (e *end) Write(p []byte) (int, error) { return e.out.write(p) }
func (e *end) Close() error {
	e.mu.Lock()
	e.closes++
	first := e.closes == 1
	e.mu.Unlock()
	if first && e.slow != nil {
		e.slow()
	}
	e.in.shut(true)
	e.out.shut(false)
	return nil
}
func (e *end) isClosed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.closes > 0
}
func (e *end) SetReadDeadline(t time.Time) error  { return nil }
func (e *end) SetWriteDeadline(t time.Time) error { return nil }
func (e *end) SetDeadline(t time.Time) error      { return nil }
func (e *end) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (e *end) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }

// wireMon follows the frames of both directions as they are written.
type wireMon struct {
	mu      sync.Mutex
	buf     [2][]byte
	streams map[uint32]*wireStream
	frames  int
	bad     []string
	foreign bool // one side is scripted: only side `own` is judged
	own     int
	log     []string
	honour  func(f refs.Frame) (out, in bool)
}

type wireStream struct {
	typ                 int
	from                int // direction of the request
	granted, sent       uint64
	inGranted, inSent   uint64
	respEnd, reqEnd     bool // terminal frame seen in that direction
	cancelled, inCancel bool
	extra               int
	respFrames          int
	req                 int
	log                 string
	honourOut, honourIn bool // the producers emit only what they are asked for
}

func newWireMon() *wireMon { return &wireMon{streams: map[uint32]*wireStream{}} }

func (m *wireMon) fail(f string, a ...any) {

	if len(m.bad) < 10 {
		m.bad = append(m.bad, sprintf(f, a...))
	}
}

func (m *wireMon) bytes(dir int, b []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.buf[dir] = append(m.buf[dir], b...)
	for {
		p := m.buf[dir]
		if len(p) < 3 {
			return
		}
		l := int(p[0])<<16 | int(p[1])<<8 | int(p[2])
		if len(p) < 3+l {
			return
		}
		f, _, ok := refs.DecodeFrame(p[3 : 3+l])
		m.buf[dir] = append([]byte(nil), p[3+l:]...)
		m.frames++
		if !ok {
			if !m.foreign || dir == m.own {
				m.fail("side %d wrote bytes which are no frame", dir)
			}
			continue
		}
		if len(m.log) < 60 {
			m.log = append(m.log, sprintf("%d:%s#%d n=%d %d+%d%s%s", dir, typeName(f.Type), f.StreamID, f.N, len(f.Metadata), len(f.Data), flag(f.Next, " N"), flag(f.Complete, " C")))
		}
		if m.foreign {
			continue
		}
		m.frame(dir, f)
	}
}

func flag(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

func typeName(t int) string {
	return map[int]string{4: "RR", 5: "FNF", 6: "RS", 7: "RC", 8: "REQN", 9: "CANCEL", 10: "PAYLOAD", 11: "ERROR"}[t]
}

// frame is the protocol as seen on the wire between two sides of this project.
func (m *wireMon) frame(dir int, f refs.Frame) {
	s := m.streams[f.StreamID]
	defer func() {
		if s := m.streams[f.StreamID]; s != nil && len(s.log) < 300 {
			s.log += sprintf(" %d:%s n=%d %d+%d%s%s", dir, typeName(f.Type), f.N, len(f.Metadata), len(f.Data), flag(f.Next, "N"), flag(f.Complete, "C"))
		}
	}()
	switch f.Type {
	case refs.TRequestResponse, refs.TRequestFNF, refs.TRequestStream, refs.TRequestChannel:
		if s != nil {
			m.fail("stream id %d is used for a second request", f.StreamID)
			return
		}
		if int(f.StreamID&1) != 1-dir || f.StreamID == 0 {
			m.fail("side %d requested with stream id %d", dir, f.StreamID)
		}
		s = &wireStream{typ: f.Type, from: dir, req: -1}
		if len(f.Data) >= 4 {
			s.req = int(binary.BigEndian.Uint32(f.Data))
		}
		if f.Type == refs.TRequestStream || f.Type == refs.TRequestChannel {
			s.granted = uint64(f.N)
		}
		if m.honour != nil {
			s.honourOut, s.honourIn = m.honour(f)
		}
		m.streams[f.StreamID] = s
		return
	}
	if s == nil {
		if f.Type != refs.TCancel {
			m.fail("side %d sent a %s frame for stream %d which was never requested", dir, typeName(f.Type), f.StreamID)
		}
		return
	}
	if s.typ == refs.TRequestFNF {
		m.fail("side %d sent a %s frame for the fire and forget request %d", dir, typeName(f.Type), f.StreamID)
		return
	}
	if dir == s.from {
		switch f.Type {
		case refs.TRequestN:
			s.granted += uint64(f.N)
		case refs.TCancel:
			if s.cancelled {
				m.fail("stream %d was cancelled twice", f.StreamID)
			}
			s.cancelled = true
		case refs.TPayload, refs.TError:
			if s.typ != refs.TRequestChannel {
				m.fail("the requester sent a %s frame on stream %d of type %s", typeName(f.Type), f.StreamID, typeName(s.typ))
				return
			}
			if s.reqEnd {
				m.fail("the requester sent a %s frame on stream %d after it had ended its input", typeName(f.Type), f.StreamID)
			}
			if f.Next {
				if s.inSent++; s.honourIn && s.inSent > s.inGranted {
					m.fail("stream %d: input payload %d sent but only %d requested", f.StreamID, s.inSent, s.inGranted)
				}
			}
			if f.Complete || f.Type == refs.TError {
				s.reqEnd = true
			}
		}
		return
	}
	s.respFrames++
	switch f.Type {
	case refs.TRequestN:
		if s.typ != refs.TRequestChannel {
			m.fail("the responder sent a request-n frame on stream %d of type %s", f.StreamID, typeName(s.typ))
		}
		s.inGranted += uint64(f.N)
	case refs.TCancel:
		if s.typ != refs.TRequestChannel {
			m.fail("the responder sent a cancel frame on stream %d of type %s", f.StreamID, typeName(s.typ))
		}
		s.inCancel = true
	case refs.TPayload, refs.TError:
		if s.respEnd {
			m.fail("the responder sent a %s frame on stream %d after it had ended", typeName(f.Type), f.StreamID)
		}
		if f.Next {
			if s.sent++; s.honourOut && s.sent > s.granted {
				m.fail("stream %d: payload %d sent but only %d requested", f.StreamID, s.sent, s.granted)
			}
		}
		if s.typ == refs.TRequestResponse && f.Type == refs.TPayload && !(f.Next && f.Complete) {
			m.fail("the response on stream %d is not marked as the only one", f.StreamID)
		}
		if f.Complete || f.Type == refs.TError {
			s.respEnd = true
		}
	}
}
