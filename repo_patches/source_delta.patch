From bbc73d34869b11bf5e1199b5062491b5a289b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 01/72] fix: report truncated frames as errors instead of
 panicking

---
 go/internal/frames/error.go           | 3 +++
 go/internal/frames/payload.go         | 6 ++++++
 go/internal/frames/request_n.go       | 3 +++
 go/internal/frames/request_payload.go | 9 +++++++++
 go/internal/frames/util.go            | 3 +++
 5 files changed, 24 insertions(+)

diff --git a/go/internal/frames/error.go b/go/internal/frames/error.go
index f6966b6..c476846 100644
--- a/go/internal/frames/error.go
+++ b/go/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errMalformedFrame
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/go/internal/frames/payload.go b/go/internal/frames/payload.go
index 6a6b18b..055567d 100644
--- a/go/internal/frames/payload.go
+++ b/go/internal/frames/payload.go
@@ -32,10 +32,16 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
+		if len(payload) < 3 {
+			return errMalformedFrame
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return errMalformedFrame
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/go/internal/frames/request_n.go b/go/internal/frames/request_n.go
index 636df9d..f6279e1 100644
--- a/go/internal/frames/request_n.go
+++ b/go/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errMalformedFrame
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index f9095c1..e6b2ff6 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return errMalformedFrame
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,10 +50,16 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
+		if len(payload) < 3 {
+			return errMalformedFrame
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return errMalformedFrame
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/go/internal/frames/util.go b/go/internal/frames/util.go
index d962f97..029e0a2 100644
--- a/go/internal/frames/util.go
+++ b/go/internal/frames/util.go
@@ -2,8 +2,11 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
+var errMalformedFrame = errors.New("malformed frame")
+
 var emptyBuffer = []byte{}
 
 func readString(payload []byte) (string, []byte) {
-- 
2.43.0


From 60eb2130e38ea2dcf61eed748c14bf9e6040a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 02/72] fix: encode the follows flag of fragmented request
 frames

---
 go/internal/frames/request_payload.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index e6b2ff6..f8aa13e 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -85,6 +85,10 @@ func (f *RequestPayload) Encode(buf []byte) {
 		flags |= FlagComplete
 	}
 
+	if f.Follows {
+		flags |= FlagFollow
+	}
+
 	if metadataLen > 0 {
 		flags |= FlagMetadata
 	}
-- 
2.43.0


From 16fa06b752d66917c1c3dfa8e59c8e994cfc657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 03/72] fix: do not let decoded frames alias the connection's
 read buffer

---
 go/transport/rsocket/decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 7e9be2e..7b49202 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -34,7 +34,9 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// The scanner reuses its buffer for the following frames, while decoded
+	// frames outlive this call.
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From 3f03ded359bcc9b2c5a8bb47d8588b0d258b2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 04/72] fix: serialise concurrent frame writes on a transport

---
 go/transport/rsocket/transport.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index e043506..6cc687c 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -53,6 +53,9 @@ type Transport struct {
 	maxLifetime time.Duration
 	once        sync.Once
 	handler     DuplexHandler
+
+	// sendMu keeps the frames of concurrent senders apart on the connection.
+	sendMu sync.Mutex
 }
 
 // NewTransport creates new transport.
@@ -104,6 +107,8 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Write(frame)
 	if err != nil {
 		return
@@ -121,6 +126,8 @@ func (p *Transport) Flush() (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Flush()
 	return
 }
-- 
2.43.0


From 1d4922132de2c02a1a8fc6ad82332f9c2d48c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 05/72] fix: reject frames above the 24 bit length limit with
 an error

---
 go/transport/rsocket/tcp_conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index 7d36c89..9ccdd11 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -100,7 +100,12 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		err = fmt.Errorf("write frame failed: %w", err)
+		return
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From 9d93da7497f086079c3101f7851e8f9178d523c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 06/72] fix: never hand out stream id 0 on the server side

---
 go/internal/socket/stream_id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/internal/socket/stream_id.go b/go/internal/socket/stream_id.go
index 974ab23..87144b2 100644
--- a/go/internal/socket/stream_id.go
+++ b/go/internal/socket/stream_id.go
@@ -20,7 +20,7 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := 2 * seed & _maskStreamID
 	if v != 0 {
 		return uint32(_maskStreamID & v), seed <= _halfSeed
 	}
-- 
2.43.0


From 669c3369d86a6f234632b55713195e40ca3f311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 07/72] fix: unlink the first stream from the stream table and
 lock lookups

---
 go/proxy/lookup.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 3dddd04..58eeb58 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -16,6 +16,9 @@ type (
 )
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
@@ -58,9 +61,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From b915d8374dc6489b64bf0e05c9e2ec0ece8e5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 08/72] fix: do not send request metadata twice when only the
 data is fragmented

---
 go/internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index f8aa13e..7c1d6ee 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -171,6 +171,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil // already sent in full by the first fragment
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From 553b974159d6c4bebc99ea01c85c4c3bc5e65c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 09/72] fix: call Finally for monos and fluxes that are
 terminated from the start

---
 go/rx/flux/flux.go | 3 +++
 go/rx/mono/mono.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 864f7e5..36c7efb 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 8e61b984eb3b78d23be0c75a91099f1e3f12218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 10/72] fix: report a failed mono mapping as an error to
 Finally

---
 go/rx/mono/mono.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 047ccc6..6eb37a7 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -215,10 +215,21 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
+	finally := sub.Finally
+	if finally != nil {
+		finally = func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			sub.Finally(signal)
+		}
+	}
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -230,7 +241,7 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally:   finally,
 	})
 	return b
 }
-- 
2.43.0


From ad062a4288b010e805a1cae563d48cb67db1012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 11/72] fix: make mono outcomes and notifications safe for
 concurrent use

---
 go/rx/mono/mono.go      | 52 ++++++++++++++++++++++++++++++-----------
 go/rx/mono/mono_host.go |  3 +++
 go/rx/mono/processor.go | 44 ++++++++++++++++++++++++----------
 3 files changed, 74 insertions(+), 25 deletions(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 6eb37a7..d9553e3 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -1,6 +1,8 @@
 package mono
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -105,7 +107,9 @@ func Create[T any](source Source[T]) Mono[T] {
 }
 
 type mono[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	mu         sync.Mutex // guards the fields below and the subscriber's outcome
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -118,7 +122,9 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -132,16 +138,22 @@ func (m *mono[T]) Notify(fn rx.FnFinally) {
 	// 	m.subscriber = &wrapper
 	// 	m.source(&wrapper)
 	// }
+	m.mu.Lock()
 	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
 
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
-	if !m.subscriber.closed {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.subscriber == nil || !m.subscriber.closed {
 		panic("mono: Get called before completion")
 	}
 	return m.subscriber.value, m.subscriber.err
@@ -160,12 +172,24 @@ type subscriber[T any] struct {
 	doFinally     rx.FnFinally
 }
 
-func (s *subscriber[T]) Success(value T) {
+// terminate records the outcome; only the first call succeeds.
+func (s *subscriber[T]) terminate(value T, err error, signal rx.SignalType) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
 	if s.closed {
-		return
+		return false
 	}
-	s.value = value
 	s.closed = true
+	s.value = value
+	s.err = err
+	s.signal = signal
+	return true
+}
+
+func (s *subscriber[T]) Success(value T) {
+	if !s.terminate(value, nil, rx.SignalComplete) {
+		return
+	}
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -173,11 +197,10 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var none T
+	if !s.terminate(none, err, rx.SignalError) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -185,20 +208,23 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	s.m.mu.Lock()
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var none T
+	if !s.terminate(none, nil, rx.SignalCancel) {
 		return
 	}
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 72e0c0d..736ff74 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -8,9 +8,12 @@ type Blockable[T any] interface {
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
+	s.mu.Lock()
 	if s.subscriber != nil && s.subscriber.closed {
+		defer s.mu.Unlock()
 		return s.subscriber.value, s.subscriber.err
 	}
+	s.mu.Unlock()
 
 	done := make(chan struct{})
 	go func() {
diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index a7bb35d..a8ae794 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -1,5 +1,7 @@
 package mono
 
+import "sync"
+
 type Processor[T any] interface {
 	Mono[T]
 	Sink[T]
@@ -7,6 +9,7 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+	mu      sync.Mutex
 	sink    Sink[T]
 	success *T
 	err     error
@@ -15,11 +18,14 @@ type ProcessorImpl[T any] struct {
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		success, err := p.success, p.err
+		p.mu.Unlock()
+		if success != nil {
+			sink.Success(*success)
+		} else if err != nil {
+			sink.Error(err)
 		}
 	})
 
@@ -27,17 +33,31 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
-		p.success = &value
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
+		// Only the first outcome counts.
+		if p.success == nil && p.err == nil {
+			p.success = &value
+		}
+		p.mu.Unlock()
+		return
 	}
+	p.mu.Unlock()
+	sink.Success(value)
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else {
-		p.err = err
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
+		// Only the first outcome counts.
+		if p.success == nil && p.err == nil {
+			p.err = err
+		}
+		p.mu.Unlock()
+		return
 	}
+	p.mu.Unlock()
+	sink.Error(err)
 }
-- 
2.43.0


From 4f1fcd8cee59148723fe8ae28f01f2a68b7212e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 12/72] fix: make flux demand, termination and notifications
 safe for concurrent use

---
 go/rx/flux/flux.go             | 88 ++++++++++++++++++++++++++--------
 go/rx/flux/flux_host.go        |  9 ++--
 go/rx/flux/flux_webassembly.go |  4 +-
 go/rx/flux/processor.go        | 40 +++++++++++-----
 4 files changed, 105 insertions(+), 36 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 36c7efb..d44847a 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -1,6 +1,8 @@
 package flux
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -74,7 +76,9 @@ func Create[T any](source Source[T]) Flux[T] {
 }
 
 type flux[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	state      sync.Mutex // guards the fields below and the subscriber's
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -89,24 +93,35 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.state.Lock()
 	f.subscriber = &s
+	f.state.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.state.Lock()
+	defer f.state.Unlock()
+	if f.subscriber == nil {
+		return nil
+	}
 	return f.subscriber
 }
 
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
+	f.state.Lock()
 	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+		signal := f.subscriber.signal
+		f.state.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.state.Unlock()
 }
 
 type subscriber[T any] struct {
@@ -128,24 +143,42 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.f.state.Lock()
 	if s.closed {
+		s.f.state.Unlock()
 		return
 	}
 	s.n--
+	s.f.state.Unlock()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	s.f.state.Lock()
+	exhausted := s.n == 0 && !s.closed
+	s.f.state.Unlock()
+	if exhausted {
 		s.handleOnSubscribe()
 	}
 }
 
-func (s *subscriber[T]) Complete() {
+// terminate records the outcome; only the first call succeeds.
+func (s *subscriber[T]) terminate(err error, signal rx.SignalType) bool {
+	s.f.state.Lock()
+	defer s.f.state.Unlock()
 	if s.closed {
-		return
+		return false
 	}
 	s.closed = true
+	s.err = err
+	s.signal = signal
+	return true
+}
+
+func (s *subscriber[T]) Complete() {
+	if !s.terminate(nil, rx.SignalComplete) {
+		return
+	}
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -153,11 +186,9 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.terminate(err, rx.SignalError) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -165,22 +196,29 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	s.f.state.Lock()
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.state.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.f.state.Lock()
 	if s.closed {
+		s.f.state.Unlock()
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.f.state.Unlock()
+	if n > 0 && sub.Request != nil {
+		s.doRequest(sub.Request, n)
 	}
 }
 
@@ -196,24 +234,36 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.f.state.Lock()
+	if s.closed {
+		s.f.state.Unlock()
+		return
+	}
 	s.n += n
-	if s.sub.Request != nil {
-		s.doRequest(n)
+	request := s.sub.Request
+	s.f.state.Unlock()
+	if request != nil {
+		s.doRequest(request, n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	s.closed = true
-	if s.sub.Cancel != nil {
-		s.sub.Cancel()
+	if !s.terminate(nil, rx.SignalCancel) {
+		return
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
+	s.f.state.Lock()
+	cancel := s.sub.Cancel
+	s.f.state.Unlock()
+	if cancel != nil {
+		cancel()
 	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
+	s.f.state.Lock()
 	s.closed = true
+	s.f.state.Unlock()
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index bdf98f5..926e93c 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -17,18 +17,21 @@ type mutex struct {
 	sync.Mutex
 }
 
-func (s *subscriber[T]) doRequest(n int) {
+func (s *subscriber[T]) doRequest(request func(int), n int) {
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
+		request(n)
 	}(n)
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
+	f.state.Lock()
+	if f.subscriber != nil && f.subscriber.closed {
+		defer f.state.Unlock()
 		return f.subscriber.err
 	}
+	f.state.Unlock()
 
 	return Block(Flux[T](f), sub)
 }
diff --git a/go/rx/flux/flux_webassembly.go b/go/rx/flux/flux_webassembly.go
index 08ca2f7..78320e5 100644
--- a/go/rx/flux/flux_webassembly.go
+++ b/go/rx/flux/flux_webassembly.go
@@ -8,6 +8,6 @@ type Blockable[T any] interface {
 
 type mutex struct{}
 
-func (s *subscriber[T]) doRequest(n int) {
-	s.sub.Request(n)
+func (s *subscriber[T]) doRequest(request func(int), n int) {
+	request(n)
 }
diff --git a/go/rx/flux/processor.go b/go/rx/flux/processor.go
index 10770a6..387bfda 100644
--- a/go/rx/flux/processor.go
+++ b/go/rx/flux/processor.go
@@ -1,5 +1,7 @@
 package flux
 
+import "sync"
+
 type Processor[T any] interface {
 	Flux[T]
 	Sink[T]
@@ -7,6 +9,7 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
+	mu   sync.Mutex
 	sink Sink[T]
 	sub  *OnSubscribe
 }
@@ -14,38 +17,51 @@ type processor[T any] struct {
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		sub := p.sub
+		p.sub = nil
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
 		}
 	})
 
 	return p
 }
 
+func (p *processor[T]) currentSink() Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	return p.sink
+}
+
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+	if sink := p.currentSink(); sink != nil {
+		sink.Next(value)
 	}
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
+	if sink := p.currentSink(); sink != nil {
+		sink.Complete()
 	}
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	if sink := p.currentSink(); sink != nil {
+		sink.Error(err)
 	}
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
 }
-- 
2.43.0


From 1d20a16244b30fa61b2d97e25683a982e60b5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 13/72] fix: end a mapped flux at its first failed conversion

---
 go/rx/flux/flux.go | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index d44847a..7f0e5cc 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -2,6 +2,7 @@ package flux
 
 import (
 	"sync"
+	"sync/atomic"
 
 	"github.com/nanobus/iota/go/rx"
 )
@@ -278,16 +279,21 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	// ended is set once the subscriber got its final signal, be it the source's
+	// or a failed conversion's, so that nothing is delivered after it.
+	var ended int32
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
+			if atomic.LoadInt32(&ended) != 0 {
+				return
+			}
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
+				if !atomic.CompareAndSwapInt32(&ended, 0, 1) {
+					return
+				}
+				if s := m.f.Subscription(); s != nil {
+					s.Cancel()
 				}
 				if sub.OnError != nil {
 					sub.OnError(err)
@@ -299,11 +305,23 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 				sub.OnNext(converted)
 			}
 		},
-		OnComplete: sub.OnComplete,
-		OnError:    sub.OnError,
-		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		OnComplete: func() {
+			if atomic.LoadInt32(&ended) == 0 && sub.OnComplete != nil {
+				sub.OnComplete()
+			}
+		},
+		OnError: func(err error) {
+			if atomic.LoadInt32(&ended) == 0 && sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
+		OnRequest: sub.OnRequest,
+		Finally: func(signal rx.SignalType) {
+			if atomic.CompareAndSwapInt32(&ended, 0, 1) && sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
-- 
2.43.0


From 17de6d1c4899b6a1aba2b7ad605b534a5dfcc057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 14/72] fix: run every flow step once when awaitables are
 already complete or complete concurrently

---
 go/rx/flow/flow.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/go/rx/flow/flow.go b/go/rx/flow/flow.go
index 874f617..1005180 100644
--- a/go/rx/flow/flow.go
+++ b/go/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,9 +15,7 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended bool
 	}
 
 	StepFn func() (await.Group, error)
@@ -89,8 +89,10 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.completed = 0
+	// Advance first: an awaitable which is already complete runs the next
+	// step from within Notify below.
 	step := f.steps[0]
+	f.steps = f.steps[1:]
 	awaitables, err := step()
 	if err != nil {
 		if f.monoSink != nil {
@@ -105,18 +107,14 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
+	// Awaitables complete on goroutines of their own.
+	pending := int32(len(awaitables))
+	for _, a := range awaitables {
 		a.Async() // Ensure task is running.
-		a.Notify(f.check)
-	}
-
-	f.steps = f.steps[1:]
-}
-
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
+		a.Notify(func(rx.SignalType) {
+			if atomic.AddInt32(&pending, -1) == 0 {
+				f.next()
+			}
+		})
 	}
 }
-- 
2.43.0


From 525d3d54fecbf8e8c32350dc09a3e25090bd8545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 15/72] fix: ignore frames of ended streams and never answer
 fire and forget requests

---
 go/handler/handler.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index d0ed8ea..5cfd221 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -112,10 +111,8 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream has ended on this side while the frame was under
+			// way. Such frames are ignored, as the protocol asks for.
 			return
 		}
 	}
@@ -267,23 +264,20 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 }
 
 func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
+	// There are no responses to fire and forget requests, not even errors,
+	// and their streams end with the request.
+	if len(metadata) < 8 {
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
 		return
 	}
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
-- 
2.43.0


From 05ddedbd777c89c1bec7dc01c3eec2d4cb93ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 16/72] fix: keep streams open in both directions and act on
 frames that arrive while a response is set up

Responders are registered before further frames are handled, early demand,
payloads and cancellations are kept until they can be passed on, the two
directions of a channel end independently, and Cancel reaches the producer.
---
 go/handler/handler.go | 186 +++++++++++++++++++++++++-----------------
 go/proxy/flux.go      | 135 ++++++++++++++++++++++--------
 go/proxy/responder.go | 154 ++++++++++++++++++++++++++++++++++
 3 files changed, 364 insertions(+), 111 deletions(-)
 create mode 100644 go/proxy/responder.go

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 5cfd221..696081c 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -10,7 +10,6 @@ import (
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -71,10 +70,6 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
-func (i *Handler) Close() error {
-	return nil
-}
-
 func (i *Handler) registerStream(s proxy.Stream) {
 	if s.StreamID()&1 == 1 {
 		i.guestStreams.Add(s)
@@ -99,8 +94,44 @@ func (i *Handler) getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+// SendFrame sends a frame of a stream which was requested on this side.
 func (i *Handler) SendFrame(f frames.Frame) error {
-	return i.sendFrame(f)
+	err := i.sendFrame(f)
+	switch v := f.(type) {
+	case *frames.RequestPayload:
+		if err != nil {
+			i.removeStream(v.StreamID)
+		}
+	case *frames.Cancel:
+		i.removeStream(v.StreamID)
+	case *frames.Payload:
+		if v.Complete {
+			i.endOutbound(v.StreamID)
+		}
+	case *frames.Error:
+		i.endOutbound(v.StreamID)
+	}
+	return err
+}
+
+func (i *Handler) endInbound(streamID uint32) {
+	str, ok := i.getStream(streamID)
+	if !ok {
+		return
+	}
+	if s, ok := str.(interface{ EndInbound() bool }); !ok || s.EndInbound() {
+		i.removeStream(streamID)
+	}
+}
+
+func (i *Handler) endOutbound(streamID uint32) {
+	str, ok := i.getStream(streamID)
+	if !ok {
+		return
+	}
+	if s, ok := str.(interface{ EndOutbound() bool }); !ok || s.EndOutbound() {
+		i.removeStream(streamID)
+	}
 }
 
 func (i *Handler) HandleFrame(f frames.Frame) (err error) {
@@ -143,7 +174,11 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Register before any further frame of the stream is handled.
+			s := proxy.NewResponder(i.ctx, streamID, false)
+			s.DoRequest(int(v.InitialN))
+			i.registerStream(s)
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -151,16 +186,28 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Register before any further frame of the stream is handled.
+			s := proxy.NewResponder(i.ctx, streamID, true)
+			s.DoRequest(int(v.InitialN))
+			i.registerStream(s)
+			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		switch s := str.(type) {
+		case *proxy.Responder:
+			i.removeStream(streamID)
+			s.OnCancel()
+		case interface{ OnCancel() }:
+			// Only the requester's payloads are not wanted any more.
+			s.OnCancel()
+			i.endOutbound(streamID)
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -214,13 +261,21 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
+			i.endInbound(streamID)
 		}
 
 	case *frames.Error:
-		str.OnError(errors.New(v.Data))
-		str.OnComplete()
-		i.removeStream(streamID)
+		switch s := str.(type) {
+		case *proxy.Responder:
+			s.OnError(errors.New(v.Data))
+			i.endInbound(streamID)
+		default:
+			i.removeStream(streamID)
+			str.OnError(errors.New(v.Data))
+			if s, ok := str.(interface{ OnCancel() }); ok {
+				s.OnCancel()
+			}
+		}
 	}
 
 	return nil
@@ -246,13 +301,18 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			i.sendFrame(&frames.Error{
@@ -282,14 +342,17 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -298,46 +361,22 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	i.respond(s, f)
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -346,10 +385,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.sendFrame(&frames.RequestN{
@@ -361,26 +397,43 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 				i.sendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
+				i.endInbound(streamID)
 			},
 		})
+		s.AttachInput(sink)
 	})
 	f := handler(ctx, p, in)
+	i.respond(s, f)
+}
+
+// respond sends the payloads of f to the requester, as far as it asks for them.
+func (i *Handler) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
+	streamID := s.StreamID()
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				i.removeStream(streamID)
+				s.OnCancel()
+				i.sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnComplete: func() {
+			i.endOutbound(streamID)
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			i.removeStream(streamID)
 			i.sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -388,9 +441,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Attach(f.Subscription())
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -673,9 +724,6 @@ type DoRequest interface {
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -688,22 +736,8 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
+func (r *requestStream) OnNext(p payload.Payload) {}
 
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
+func (r *requestStream) OnComplete() {}
 
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
+func (r *requestStream) OnError(err error) {}
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 6f0f588..ba460ae 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -20,6 +21,7 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		register:  register,
 		first:     true,
 	}
+	ss.outbound = in == nil // payloads are only sent on channels
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
 		Cancel:  ss.Cancel,
@@ -36,8 +38,16 @@ type streamFlux struct {
 	in         flux.Flux[payload.Payload]
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
-	first      bool
-	complete   bool
+	halves
+
+	mu       sync.Mutex // guards the fields below
+	first    bool
+	complete bool
+
+	inSub       rx.Subscription
+	inAttached  bool
+	inRequested int
+	inCancelled bool
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -54,13 +64,26 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 
 func (s *streamFlux) OnComplete() {
 	s.Processor.Complete()
+	s.mu.Lock()
 	s.complete = true
+	s.mu.Unlock()
 }
 
 func (s *streamFlux) OnError(err error) {
 	s.Processor.Error(err)
 }
 
+// OnCancel handles the responder's lack of interest in further input.
+func (s *streamFlux) OnCancel() {
+	s.mu.Lock()
+	s.inCancelled = true
+	sub := s.inSub
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (s *streamFlux) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
@@ -74,56 +97,98 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
+	s.mu.Lock()
 	if s.complete {
+		s.mu.Unlock()
 		return
 	}
-	if s.first {
-		s.request.InitialN = uint32(n)
-		s.first = false
-		s.sendFrame(&s.request)
-
-		if s.in != nil {
-			s.in.Subscribe(flux.Subscribe[payload.Payload]{
-				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Metadata: p.Metadata(),
-						Data:     p.Data(),
-						Next:     true,
-					})
-				},
-				OnComplete: func() {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Complete: true,
-					})
-				},
-				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
-						StreamID: s.request.StreamID,
-						Data:     err.Error(),
-					})
-				},
-				NoRequest: true,
-			})
-		}
-	} else {
+	if !s.first {
+		s.mu.Unlock()
 		s.sendFrame(&frames.RequestN{
 			StreamID: s.request.StreamID,
 			N:        uint32(n),
 		})
+		return
+	}
+	s.request.InitialN = uint32(n)
+	s.first = false
+	// A concurrent Cancel must not overtake the request.
+	err := s.sendFrame(&s.request)
+	s.mu.Unlock()
+	if err != nil {
+		s.OnError(err)
+		return
+	}
+
+	if s.in != nil {
+		s.in.Subscribe(flux.Subscribe[payload.Payload]{
+			OnNext: func(p payload.Payload) {
+				s.sendFrame(&frames.Payload{
+					StreamID: s.request.StreamID,
+					Metadata: p.Metadata(),
+					Data:     p.Data(),
+					Next:     true,
+				})
+			},
+			OnComplete: func() {
+				s.sendFrame(&frames.Payload{
+					StreamID: s.request.StreamID,
+					Complete: true,
+				})
+			},
+			OnError: func(err error) {
+				s.sendFrame(&frames.Error{
+					StreamID: s.request.StreamID,
+					Data:     err.Error(),
+				})
+			},
+			NoRequest: true,
+		})
+		s.attachInput(s.in.Subscription())
+	}
+}
+
+// attachInput passes on what the responder has asked for while the input was
+// being subscribed to.
+func (s *streamFlux) attachInput(sub rx.Subscription) {
+	s.mu.Lock()
+	s.inSub = sub
+	s.inAttached = true
+	requested, cancelled := s.inRequested, s.inCancelled
+	s.inRequested = 0
+	s.mu.Unlock()
+	if sub == nil {
+		return
+	}
+	if cancelled {
+		sub.Cancel()
+	} else if requested > 0 {
+		sub.Request(requested)
 	}
 }
 
 func (s *streamFlux) Cancel() {
+	s.mu.Lock()
+	s.complete = true
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
+	s.mu.Unlock()
+	s.OnCancel()
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	if !s.inAttached {
+		s.inRequested += n
+		s.mu.Unlock()
+		return
+	}
+	sub := s.inSub
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
diff --git a/go/proxy/responder.go b/go/proxy/responder.go
new file mode 100644
index 0000000..698c5c8
--- /dev/null
+++ b/go/proxy/responder.go
@@ -0,0 +1,154 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Responder is the responding side of a request stream or a request channel.
+//
+// Frames of the requester may arrive while the operation is still setting up
+// its response. What they ask for is kept until it can be passed on.
+type Responder struct {
+	ctx      context.Context
+	streamID uint32
+	halves
+
+	mu        sync.Mutex
+	sub       rx.Subscription
+	attached  bool
+	requested int
+	cancelled bool
+
+	inMu    sync.Mutex
+	sink    flux.Sink[payload.Payload]
+	pending []func(flux.Sink[payload.Payload])
+}
+
+var _ = (Stream)((*Responder)(nil))
+
+// NewResponder creates the responding side of a request stream or, if channel
+// is set, of a request channel.
+func NewResponder(ctx context.Context, streamID uint32, channel bool) *Responder {
+	r := Responder{ctx: ctx, streamID: streamID}
+	r.inbound = !channel // requesters only send payloads on channels
+	return &r
+}
+
+func (r *Responder) Context() context.Context {
+	return r.ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+// Attach passes on to the response's subscription what the requester has
+// asked for so far, and everything it asks for from now on.
+func (r *Responder) Attach(sub rx.Subscription) {
+	r.mu.Lock()
+	r.sub = sub
+	r.attached = true
+	requested, cancelled := r.requested, r.cancelled
+	r.requested = 0
+	r.mu.Unlock()
+	if sub == nil {
+		return
+	}
+	if cancelled {
+		sub.Cancel()
+	} else if requested > 0 {
+		sub.Request(requested)
+	}
+}
+
+// AttachInput passes the requester's signals on to sink.
+func (r *Responder) AttachInput(sink flux.Sink[payload.Payload]) {
+	r.inMu.Lock()
+	defer r.inMu.Unlock()
+	for _, signal := range r.pending {
+		signal(sink)
+	}
+	r.pending = nil
+	r.sink = sink
+}
+
+// DoRequest handles the requester's demand for n more payloads.
+func (r *Responder) DoRequest(n int) {
+	r.mu.Lock()
+	if !r.attached {
+		r.requested += n
+		r.mu.Unlock()
+		return
+	}
+	sub := r.sub
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+// OnCancel handles the requester's cancellation.
+func (r *Responder) OnCancel() {
+	r.mu.Lock()
+	r.cancelled = true
+	sub := r.sub
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+	r.OnComplete()
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	r.signal(func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
+}
+
+func (r *Responder) OnComplete() {
+	r.signal(func(sink flux.Sink[payload.Payload]) { sink.Complete() })
+}
+
+func (r *Responder) OnError(err error) {
+	r.signal(func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
+}
+
+func (r *Responder) signal(fn func(flux.Sink[payload.Payload])) {
+	r.inMu.Lock()
+	sink := r.sink
+	if sink == nil {
+		r.pending = append(r.pending, fn)
+	}
+	r.inMu.Unlock()
+	if sink != nil {
+		fn(sink)
+	}
+}
+
+// halves tracks which directions of a stream have ended.
+type halves struct {
+	halvesMu sync.Mutex
+	inbound  bool
+	outbound bool
+}
+
+// EndInbound records that nothing more will be received. It returns true if
+// nothing more will be sent either.
+func (h *halves) EndInbound() bool {
+	h.halvesMu.Lock()
+	defer h.halvesMu.Unlock()
+	h.inbound = true
+	return h.outbound
+}
+
+// EndOutbound records that nothing more will be sent. It returns true if
+// nothing more will be received either.
+func (h *halves) EndOutbound() bool {
+	h.halvesMu.Lock()
+	defer h.halvesMu.Unlock()
+	h.outbound = true
+	return h.inbound
+}
-- 
2.43.0


From edfc32d831c325c6c13c9a4fbc5e1bbd6c714a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 17/72] fix: end a mono when the request cannot be sent or
 completes without a response

---
 go/proxy/mono.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/go/proxy/mono.go b/go/proxy/mono.go
index 793a2a6..f9f8c35 100644
--- a/go/proxy/mono.go
+++ b/go/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"errors"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,6 +10,8 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var errNoResponse = errors.New("completed without a response")
+
 func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
@@ -44,7 +47,8 @@ func (s *streamMono) OnNext(p payload.Payload) {
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	// Has no effect if there was a response before.
+	s.Processor.Error(errNoResponse)
 }
 
 func (s *streamMono) OnError(err error) {
@@ -67,6 +71,8 @@ func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[pa
 	s.subscribed = true
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+	}
 	return s
 }
-- 
2.43.0


From e2d03ce13668c17c4a67dc6690e2a13c7005f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 18/72] fix: end all open streams when their connection is lost

---
 go/handler/handler.go             | 14 ++++++++++++++
 go/proxy/lookup.go                | 13 +++++++++++++
 go/transport/rsocket/transport.go |  7 +++++++
 3 files changed, 34 insertions(+)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 696081c..997cd61 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -14,6 +14,8 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var errClosed = errors.New("connection closed")
+
 type FrameSender func(f frames.Frame) error
 
 type Handler struct {
@@ -70,6 +72,18 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
+// Close ends all streams: the callers of this side get an error and the
+// operations serving the other side are cancelled.
+func (i *Handler) Close() error {
+	for _, str := range append(i.guestStreams.Clear(), i.hostStreams.Clear()...) {
+		str.OnError(errClosed)
+		if s, ok := str.(interface{ OnCancel() }); ok {
+			s.OnCancel()
+		}
+	}
+	return nil
+}
+
 func (i *Handler) registerStream(s proxy.Stream) {
 	if s.StreamID()&1 == 1 {
 		i.guestStreams.Add(s)
diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 58eeb58..039e097 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -71,6 +71,19 @@ func (l *Lookup) Remove(id uint32) {
 	}
 }
 
+// Clear removes all streams and returns them.
+func (l *Lookup) Clear() []Stream {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	var streams []Stream
+	for n := l.head; n != nil; n = n.next {
+		streams = append(streams, n.stream)
+	}
+	l.head, l.tail = nil, nil
+	return streams
+}
+
 func (l *Lookup) find(id uint32) *node {
 	for n := l.head; n != nil; n = n.next {
 		if n.stream.StreamID() == id {
diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index 6cc687c..34a71ca 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -191,10 +191,17 @@ func (p *Transport) Start(ctx context.Context) error {
 	)
 
 	defer func() {
+		// Senders fail from here on, so that no stream is opened after the
+		// open ones are ended below.
+		_ = p.Close()
 		framesBuffer.Dispose()
 
 		<-done
 		// <-done
+
+		if c, ok := p.handler.(io.Closer); ok {
+			_ = c.Close()
+		}
 	}()
 
 	go p.loopReadBuffer(ctx, framesBuffer, errChan, done)
-- 
2.43.0


From 49a4a7757c8d8403308b729958965adb2ce9a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 19/72] fix: complete the input of channels whose request is
 marked complete

---
 go/handler/handler.go | 4 ++++
 go/proxy/responder.go | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 997cd61..a0f466e 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -204,6 +204,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			s := proxy.NewResponder(i.ctx, streamID, true)
 			s.DoRequest(int(v.InitialN))
 			i.registerStream(s)
+			if v.Complete {
+				s.OnComplete()
+				i.endInbound(streamID)
+			}
 			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata)
 		}
 
diff --git a/go/proxy/responder.go b/go/proxy/responder.go
index 698c5c8..ee71915 100644
--- a/go/proxy/responder.go
+++ b/go/proxy/responder.go
@@ -16,6 +16,7 @@ import (
 type Responder struct {
 	ctx      context.Context
 	streamID uint32
+	channel  bool // there are payloads from the requester
 	halves
 
 	mu        sync.Mutex
@@ -34,7 +35,7 @@ var _ = (Stream)((*Responder)(nil))
 // NewResponder creates the responding side of a request stream or, if channel
 // is set, of a request channel.
 func NewResponder(ctx context.Context, streamID uint32, channel bool) *Responder {
-	r := Responder{ctx: ctx, streamID: streamID}
+	r := Responder{ctx: ctx, streamID: streamID, channel: channel}
 	r.inbound = !channel // requesters only send payloads on channels
 	return &r
 }
@@ -117,6 +118,9 @@ func (r *Responder) OnError(err error) {
 }
 
 func (r *Responder) signal(fn func(flux.Sink[payload.Payload])) {
+	if !r.channel {
+		return
+	}
 	r.inMu.Lock()
 	sink := r.sink
 	if sink == nil {
-- 
2.43.0


From 19948a844130a5547c5d4300fc811c1897dac86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 20/72] fix: end an interrupted channel's input with an error
 and do not block on early signals

---
 go/handler/handler.go |  1 +
 go/proxy/responder.go | 27 +++++++++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index a0f466e..5c4d434 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -436,6 +436,7 @@ func (i *Handler) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 				Next:     true,
 			}); err != nil {
 				i.removeStream(streamID)
+				s.OnError(err)
 				s.OnCancel()
 				i.sendFrame(&frames.Error{
 					StreamID: streamID,
diff --git a/go/proxy/responder.go b/go/proxy/responder.go
index ee71915..0b38a56 100644
--- a/go/proxy/responder.go
+++ b/go/proxy/responder.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"errors"
 	"sync"
 
 	"github.com/nanobus/iota/go/payload"
@@ -9,6 +10,8 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
+var errCancelled = errors.New("cancelled")
+
 // Responder is the responding side of a request stream or a request channel.
 //
 // Frames of the requester may arrive while the operation is still setting up
@@ -69,13 +72,20 @@ func (r *Responder) Attach(sub rx.Subscription) {
 
 // AttachInput passes the requester's signals on to sink.
 func (r *Responder) AttachInput(sink flux.Sink[payload.Payload]) {
-	r.inMu.Lock()
-	defer r.inMu.Unlock()
-	for _, signal := range r.pending {
-		signal(sink)
+	for {
+		r.inMu.Lock()
+		pending := r.pending
+		r.pending = nil
+		if len(pending) == 0 {
+			r.sink = sink
+			r.inMu.Unlock()
+			return
+		}
+		r.inMu.Unlock()
+		for _, signal := range pending {
+			signal(sink)
+		}
 	}
-	r.pending = nil
-	r.sink = sink
 }
 
 // DoRequest handles the requester's demand for n more payloads.
@@ -93,7 +103,8 @@ func (r *Responder) DoRequest(n int) {
 	}
 }
 
-// OnCancel handles the requester's cancellation.
+// OnCancel handles the requester's cancellation. What it has sent so far must
+// not be mistaken for its complete input.
 func (r *Responder) OnCancel() {
 	r.mu.Lock()
 	r.cancelled = true
@@ -102,7 +113,7 @@ func (r *Responder) OnCancel() {
 	if sub != nil {
 		sub.Cancel()
 	}
-	r.OnComplete()
+	r.OnError(errCancelled)
 }
 
 func (r *Responder) OnNext(p payload.Payload) {
-- 
2.43.0


From c69c70420a87f3636f7005c68dfe75d8aa6dfee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 21/72] fix: end Transport.Start when its context is cancelled

---
 go/transport/rsocket/transport.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index 34a71ca..306bccf 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -206,6 +206,17 @@ func (p *Transport) Start(ctx context.Context) error {
 
 	go p.loopReadBuffer(ctx, framesBuffer, errChan, done)
 
+	// Reading does not notice that ctx is done: close the connection then.
+	stopped := make(chan struct{})
+	defer close(stopped)
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-stopped:
+		}
+	}()
+
 	for {
 		select {
 		case <-ctx.Done():
@@ -214,6 +225,9 @@ func (p *Transport) Start(ctx context.Context) error {
 			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
+			if err != nil && ctx.Err() != nil {
+				return ctx.Err()
+			}
 			if err == io.EOF {
 				return nil
 			}
-- 
2.43.0


From 8a5fe9c170af1432ddf0b0ea4205a02330224271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 22/72] fix: release listeners and connections of closed
 servers and ended connections

---
 go/transport/rsocket/tcp_transport.go | 28 ++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/go/transport/rsocket/tcp_transport.go b/go/transport/rsocket/tcp_transport.go
index 20b9935..26bced4 100644
--- a/go/transport/rsocket/tcp_transport.go
+++ b/go/transport/rsocket/tcp_transport.go
@@ -52,12 +52,17 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
+	if !t.putListener(l) {
+		_ = l.Close()
+		notifier <- false
+		return errTransportClosed
+	}
 
 	defer func() {
 		_ = t.Close()
@@ -79,7 +84,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -97,17 +102,34 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
+			go func() {
+				_ = tp.Start(ctx)
+				t.removeTransport(tp)
+			}()
 			go t.acceptor(ctx, h, func(tp *Transport) {
 				t.removeTransport(tp)
 			})
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
 	return
 }
 
+// putListener registers the listener unless the server is closed already.
+func (t *tcpServerTransport) putListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From 6039bb28d4f6eaf88d46f565588d92bcdb518107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:56 +0000
Subject: [PATCH 23/72] fix: keep the outcome a mono processor was given before
 its subscription

---
 go/rx/mono/processor.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index a8ae794..71d72b6 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -34,12 +34,14 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 
 func (p *ProcessorImpl[T]) Success(value T) {
 	p.mu.Lock()
+	if p.success != nil || p.err != nil {
+		// Only the first outcome counts.
+		p.mu.Unlock()
+		return
+	}
 	sink := p.sink
 	if sink == nil {
-		// Only the first outcome counts.
-		if p.success == nil && p.err == nil {
-			p.success = &value
-		}
+		p.success = &value
 		p.mu.Unlock()
 		return
 	}
@@ -49,12 +51,14 @@ func (p *ProcessorImpl[T]) Success(value T) {
 
 func (p *ProcessorImpl[T]) Error(err error) {
 	p.mu.Lock()
+	if p.success != nil || p.err != nil {
+		// Only the first outcome counts.
+		p.mu.Unlock()
+		return
+	}
 	sink := p.sink
 	if sink == nil {
-		// Only the first outcome counts.
-		if p.success == nil && p.err == nil {
-			p.err = err
-		}
+		p.err = err
 		p.mu.Unlock()
 		return
 	}
-- 
2.43.0


From 91081a94a45439ca63d593fb635c79e921bea8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 24/72] fix: write a dynamic nil value once

---
 go/msgpack/encoder.go | 3 ---
 go/msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 2fd74c0..ebe87d2 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -312,9 +312,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fc83c0..17e3fe6 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -276,9 +276,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From e79cc8097bba80ac83c49d67c5b92dd3370e0489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 25/72] fix: write dynamic time values the sizer counted

---
 go/msgpack/encoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index ebe87d2..5e380eb 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -345,6 +345,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -359,6 +361,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 2deb49b1f4a53a7124a54abf6c9a13e9d2770a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:29 +0000
Subject: [PATCH 26/72] fix: size byte arrays of 255 bytes as they are written

---
 go/msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 17e3fe6..e409960 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -115,7 +115,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From 2f9554eff7245f168292924de4496927335d0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 27/72] fix: refuse lengths that overflow the offset of the
 reader

---
 go/msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From a3fe990d6794106159a6135666ed88a9baac665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:20 +0000
Subject: [PATCH 28/72] fix: read integers and floats in every format that
 represents them

---
 go/msgpack/decoder.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 85af61f..fd22ffb 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -157,6 +157,25 @@ func (d *Decoder) ReadInt64() (int64, error) {
 	case FormatInt64:
 		v, err := d.reader.GetInt64()
 		return int64(v), err
+	case FormatUint8:
+		v, err := d.reader.GetUint8()
+		return int64(v), err
+	case FormatUint16:
+		v, err := d.reader.GetUint16()
+		return int64(v), err
+	case FormatUint32:
+		v, err := d.reader.GetUint32()
+		return int64(v), err
+	case FormatUint64:
+		v, err := d.reader.GetUint64()
+		if v > math.MaxInt64 {
+			return 0, ReadError{
+				"interger overflow: value = " +
+					strconv.FormatUint(v, 10) +
+					"; bits = 64",
+			}
+		}
+		return int64(v), err
 	default:
 		return 0, ReadError{"bad prefix for int64"}
 	}
@@ -359,6 +378,9 @@ func (d *Decoder) ReadFloat64() (float64, error) {
 
 	if prefix == FormatFloat64 {
 		return d.reader.GetFloat64()
+	} else if prefix == FormatFloat32 {
+		v, err := d.reader.GetFloat32()
+		return float64(v), err
 	}
 	return 0, ReadError{"bad prefix for float64"}
 }
-- 
2.43.0


From 00b3f9cd75464ac88d5fd7941305c26670888505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 29/72] fix: read the length of an extension as the plain
 integer it is

---
 go/msgpack/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index fd22ffb..24090c6 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -908,13 +908,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From a4a6e53ba2b782b4d98bffb077a3b1e9896efcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:23 +0000
Subject: [PATCH 30/72] fix: skip extensions, large maps and nested values
 completely and report truncated ones

---
 go/msgpack/decoder.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 24090c6..3228c0b 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -612,27 +612,27 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
+	// Skip iteratively so that deeply nested values need no stack.
+	numberOfObjectsToDiscard := uint64(1)
 	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+		nested, err := d.getSize()
 		if err != nil {
 			return err
 		}
+		numberOfObjectsToDiscard += nested
 		numberOfObjectsToDiscard--
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+// getSize discards one object except for the objects nested in it and returns
+// their number.
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -640,9 +640,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -686,7 +686,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		case FormatUint64, FormatInt64:
 			d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			d.reader.Discard(2)
 		case FormatFixExt2:
 			d.reader.Discard(3)
 		case FormatFixExt4:
@@ -695,36 +695,43 @@ func (d *Decoder) getSize() (uint32, error) {
 			d.reader.Discard(9)
 		case FormatFixExt16:
 			d.reader.Discard(17)
+		case FormatExt8, FormatExt16, FormatExt32:
+			length, err := d.parseExtLen(leadByte)
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(1) // The type of the extension
+			d.reader.Discard(length)
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
 	}
 
-	return objectsToDiscard, nil
+	return objectsToDiscard, d.reader.Err()
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From b78481b08bbc3ca7b9c6f69217a5262033a05e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 31/72] fix: decode untrusted dynamic values within bounds and
 read back times

---
 go/msgpack/decoder.go | 89 ++++++++++++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 27 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 3228c0b..32a5d53 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -7,8 +7,12 @@ import (
 	"time"
 )
 
+// maxDepth limits how deeply ReadAny follows nested arrays and maps.
+const maxDepth = 10000
+
 type Decoder struct {
 	reader DataReader
+	depth  int
 }
 
 func NewDecoder(buffer []byte) Decoder {
@@ -412,6 +416,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTimeExt(prefix)
+}
+
+func (d *Decoder) readTimeExt(prefix uint8) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -751,16 +759,12 @@ func (d *Decoder) ReadAny() (any, error) {
 
 	if isFixedArray(prefix) {
 		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(aryLen)
 	}
 
 	if isFixedMap(prefix) {
 		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(mapLen)
 	}
 
 	switch prefix {
@@ -804,33 +808,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v))
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -849,37 +845,76 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		return d.readTimeExt(prefix)
 	}
 
-	return nil, ReadError{"bad value for bool"}
+	return nil, ReadError{"bad prefix"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	if err := d.enter(); err != nil {
+		return nil, err
+	}
+	defer d.leave()
+	array := make([]any, 0, initialCapacity(length))
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32) (map[any]any, error) {
+	if err := d.enter(); err != nil {
+		return nil, err
+	}
+	defer d.leave()
+	m := make(map[any]any, initialCapacity(length))
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
+		}
+		switch key.(type) {
+		case []byte, []any, map[any]any:
+			return nil, ReadError{"bad type for map key"}
 		}
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
 		m[key] = value
 	}
+	return m, nil
+}
+
+func (d *Decoder) enter() error {
+	if d.depth >= maxDepth {
+		return ReadError{"arrays and maps are nested too deeply"}
+	}
+	d.depth++
 	return nil
 }
 
+func (d *Decoder) leave() {
+	d.depth--
+}
+
+// initialCapacity bounds what is allocated for a length that may not be
+// followed by as many elements.
+func initialCapacity(length uint32) int {
+	const max = 8
+	if length > max {
+		return max
+	}
+	return int(length)
+}
+
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
 	extLen, err := d.parseExtLen(c)
 	if err != nil {
-- 
2.43.0


From 590dd783088d76cf37194dd6992c0e1dc62b569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 32/72] fix: report dynamic values that cannot be written
 instead of leaving them out

---
 go/msgpack/codec.go       |  6 ++++++
 go/msgpack/data_reader.go |  7 +++++++
 go/msgpack/encoder.go     | 11 ++++++++++-
 go/msgpack/sizer.go       | 16 ++++++++++++++--
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/codec.go b/go/msgpack/codec.go
index 8e39093..29d8efe 100644
--- a/go/msgpack/codec.go
+++ b/go/msgpack/codec.go
@@ -13,11 +13,17 @@ func ToBytes(codec Codec) ([]byte, error) {
 	if err := codec.Encode(&sizer); err != nil {
 		return nil, err
 	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	if err := codec.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return buffer, nil
 }
 
diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index eb2c84b..b9e1d96 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -248,6 +248,13 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	return nil
 }
 
+// fail keeps the first error.
+func (d *DataReader) fail(err error) {
+	if d.err == nil {
+		d.err = err
+	}
+}
+
 func (d *DataReader) Err() error {
 	return d.err
 }
diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 5e380eb..280a4f6 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -2,10 +2,15 @@ package msgpack
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 	"time"
 )
 
+// ErrUnsupportedType is the error of a writer that was given a dynamic value
+// which has no encoding.
+var ErrUnsupportedType = errors.New("msgpack: unsupported type")
+
 type Encoder struct {
 	reader DataReader
 }
@@ -316,7 +321,9 @@ func (e *Encoder) WriteAny(value any) {
 	case nil:
 		e.WriteNil()
 	case Codec:
-		v.Encode(e)
+		if err := v.Encode(e); err != nil {
+			e.reader.fail(err)
+		}
 	case int:
 		e.WriteInt64(int64(v))
 	case int8:
@@ -520,6 +527,8 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		e.reader.fail(ErrUnsupportedType)
 	}
 }
 
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index e409960..08d4aeb 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -7,6 +7,7 @@ import (
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 func NewSizer() Sizer {
@@ -280,7 +281,9 @@ func (s *Sizer) WriteAny(value any) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		if err := v.Encode(s); err != nil {
+			s.fail(err)
+		}
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -484,9 +487,18 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.fail(ErrUnsupportedType)
+	}
+}
+
+// fail keeps the first error.
+func (s *Sizer) fail(err error) {
+	if s.err == nil {
+		s.err = err
 	}
 }
 
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From 398b8f1f9ca522496b750904ce00cef5793bf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:34 +0000
Subject: [PATCH 33/72] fix: pass nil and the error of the read through the
 nillable conversions

---
 go/msgpack/convert/convert.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/convert/convert.go b/go/msgpack/convert/convert.go
index 455fc93..3956350 100644
--- a/go/msgpack/convert/convert.go
+++ b/go/msgpack/convert/convert.go
@@ -71,8 +71,11 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func Bool[T ~bool](value bool, err error) (T, error) {
@@ -80,8 +83,11 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 type numberic interface {
@@ -95,8 +101,11 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func ByteArray[T, I ~[]byte](value I, err error) (T, error) {
-- 
2.43.0


From a46e4e54ce8420b6201d0496ba10fd8f05ea5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 34/72] fix: report codecs that fail to encode or decode their
 value

---
 go/transform/transform.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index a4fa130..1ec1f0d 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -305,11 +305,10 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 }
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
-	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
-	buf := make([]byte, sizer.Len())
-	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	buf, err := msgpack.ToBytes(value)
+	if err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
@@ -375,16 +374,19 @@ func StringEncode[T ~string](val T) (payload.Payload, error) {
 
 func SliceDecode[T any, P MsgPackCodecPtr[T]](raw payload.Payload) ([]T, error) {
 	decoder := msgpack.NewDecoder(raw.Data())
-	size, _ := decoder.ReadArraySize()
-	items := make([]T, size)
-	i := 0
+	size, err := decoder.ReadArraySize()
+	if err != nil {
+		return nil, err
+	}
+	items := []T{}
 	for size > 0 {
 		size--
 		var item T
 		p := (P)(&item)
-		p.Decode(&decoder)
-		items[i] = item
-		i++
+		if err := p.Decode(&decoder); err != nil {
+			return nil, err
+		}
+		items = append(items, item)
 	}
 	return items, nil
 }
@@ -394,14 +396,24 @@ func SliceEncode[T any, P MsgPackCodecPtr[T]](items []T) (payload.Payload, error
 	sizer.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
 		p := P(&v)
-		p.Encode(&sizer)
+		if err := p.Encode(&sizer); err != nil {
+			return nil, err
+		}
+	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
 	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
 	encoder.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
 		p := P(&v)
-		p.Encode(&encoder)
+		if err := p.Encode(&encoder); err != nil {
+			return nil, err
+		}
+	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
 	}
 	return payload.New(buf), nil
 }
-- 
2.43.0


From c6ee96e739f6fa2bf2dcf776cfca1d88711510df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:06 +0000
Subject: [PATCH 35/72] fix: report truncated and oversized operation tables as
 errors

---
 go/operations/operatons.go | 59 ++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/go/operations/operatons.go b/go/operations/operatons.go
index bca2fb2..bd26cd6 100644
--- a/go/operations/operatons.go
+++ b/go/operations/operatons.go
@@ -62,48 +62,77 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var ErrInvalidTable = errors.New("invalid operation table")
+
+// minOperationSize is the encoded size of an operation without names.
+const minOperationSize = 12
 
 func FromBytes(buf []byte) (Table, error) {
-	if !bytes.Equal(buf[0:4], Magic) {
+	if !bytes.HasPrefix(buf, Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
 	buf = buf[4:]
+	if len(buf) < 6 {
+		return nil, ErrInvalidTable
+	}
 
 	// Read version.
 	version := binary.BigEndian.Uint16(buf)
 	if version != 1 {
-		return nil, errors.New("Unknown operation table version %d" + strconv.Itoa(int(version)))
+		return nil, errors.New("Unknown operation table version " + strconv.Itoa(int(version)))
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	if uint64(numOps)*minOperationSize > uint64(len(buf)) {
+		return nil, ErrInvalidTable
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < minOperationSize {
+			return nil, ErrInvalidTable
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
-		nsLen := binary.BigEndian.Uint16(buf[6:8])
-		buf = buf[8:]
-		ns := string(buf[:nsLen])
-		buf = buf[nsLen:]
-		opLen := binary.BigEndian.Uint16(buf[0:2])
-		buf = buf[2:]
-		op := string(buf[:opLen])
-		buf = buf[opLen:]
+		buf = buf[6:]
+		var ns, op []byte
+		var ok bool
+		if ns, buf, ok = readBytes(buf); !ok {
+			return nil, ErrInvalidTable
+		}
+		if op, buf, ok = readBytes(buf); !ok {
+			return nil, ErrInvalidTable
+		}
+		if _, buf, ok = readBytes(buf); !ok { // Reserved
+			return nil, ErrInvalidTable
+		}
 		operations[i] = Operation{
 			Type:      opType,
 			Direction: dir,
 			Index:     id,
-			Namespace: ns,
-			Operation: op,
+			Namespace: string(ns),
+			Operation: string(op),
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
 	}
 
 	return operations, nil
 }
 
+// readBytes reads bytes prefixed with their 16 bit length and returns them and
+// what follows.
+func readBytes(buf []byte) (data, rest []byte, ok bool) {
+	if len(buf) < 2 {
+		return nil, nil, false
+	}
+	length := int(binary.BigEndian.Uint16(buf))
+	buf = buf[2:]
+	if len(buf) < length {
+		return nil, nil, false
+	}
+	return buf[:length], buf[length:], true
+}
+
 func (t Table) ToBytes() []byte {
 	size := uint32(10)
 	for _, op := range t {
-- 
2.43.0


From 1073c667331f9327bae9fd9254969f48b3a81037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 36/72] fix: report truncated port payloads as errors

---
 go/invoke/portio.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 0f787ce..b716735 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -2,9 +2,12 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
+var ErrInvalidPortIO = errors.New("invalid port IO")
+
 type PortIO struct {
 	Port     string
 	Data     []byte
@@ -13,12 +16,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return ErrInvalidPortIO
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
-	portLength := binary.BigEndian.Uint16(data)
+	portLength := int(binary.BigEndian.Uint16(data))
 	data = data[2:]
+	if len(data) < portLength {
+		return ErrInvalidPortIO
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From d05f40af5869397725f42ce8b73fa5ceee8c1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:12 +0000
Subject: [PATCH 37/72] fix: give the next and complete flags of port payloads
 distinct bits

---
 go/invoke/portio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index b716735..55c48c8 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -80,8 +80,8 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
-	FlagComplete
+	FlagNext     Flags = 1
+	FlagComplete Flags = 2
 )
 
 // Check returns true if mask exists.
-- 
2.43.0


From 52cb548af0a4e3111f39ea311659ae9e7bb5dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 38/72] fix: do not turn instance handles into pointers

---
 go/invoke/instances.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/go/invoke/instances.go b/go/invoke/instances.go
index a32508e..a897de9 100644
--- a/go/invoke/instances.go
+++ b/go/invoke/instances.go
@@ -3,7 +3,6 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
 )
 
 type Ptr[T any] struct {
@@ -12,22 +11,24 @@ type Ptr[T any] struct {
 
 var ErrNoInstance = errors.New("no instance is active for this pointer")
 
+// LiveInstances hands out handles for instances. A handle is valid from Put
+// until Remove and is never used for another instance.
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	lastID    uint64
+	instances map[uint64]*Ptr[T]
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]*Ptr[T]),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
+	ptr, ok := t.instances[id]
 	if ok {
 		inst = ptr.Ptr
 	}
@@ -36,20 +37,20 @@ func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
 	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
-	return handle
+	t.lastID++
+	t.instances[t.lastID] = ptr
+	return t.lastID
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
+	ptr, ok := t.instances[id]
+	if ok {
 		inst = ptr.Ptr
-		delete(t.instances, ptr)
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From c4dcb421eb41debd92d9e25eca7d9264bfa84c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:15 +0000
Subject: [PATCH 39/72] fix: check the sizes of custom sections against the
 module

---
 go/transport/wasmrs/customsections/customsections.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/customsections/customsections.go b/go/transport/wasmrs/customsections/customsections.go
index 480e332..1372803 100644
--- a/go/transport/wasmrs/customsections/customsections.go
+++ b/go/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if uint64(size) > uint64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,8 +125,13 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	if _, err = io.ReadFull(r, buf); err != nil {
+		return nil, err
+	}
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From a1d752809948280a49103fdddfe5524ee1595733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 40/72] fix: end channel input with an error when one of its
 payloads cannot be sent

---
 go/proxy/flux.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index ba460ae..4414d57 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -3,6 +3,7 @@ package proxy
 import (
 	"context"
 	"sync"
+	"sync/atomic"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -121,16 +122,31 @@ func (s *streamFlux) Request(n int) {
 	}
 
 	if s.in != nil {
+		var failed int32
 		s.in.Subscribe(flux.Subscribe[payload.Payload]{
 			OnNext: func(p payload.Payload) {
-				s.sendFrame(&frames.Payload{
+				if atomic.LoadInt32(&failed) != 0 {
+					return
+				}
+				if err := s.sendFrame(&frames.Payload{
 					StreamID: s.request.StreamID,
 					Metadata: p.Metadata(),
 					Data:     p.Data(),
 					Next:     true,
-				})
+				}); err != nil {
+					// The responder must not take the rest for all of it.
+					atomic.StoreInt32(&failed, 1)
+					s.OnCancel()
+					s.sendFrame(&frames.Error{
+						StreamID: s.request.StreamID,
+						Data:     err.Error(),
+					})
+				}
 			},
 			OnComplete: func() {
+				if atomic.LoadInt32(&failed) != 0 {
+					return
+				}
 				s.sendFrame(&frames.Payload{
 					StreamID: s.request.StreamID,
 					Complete: true,
-- 
2.43.0


From 45a2d574d80e05d660cf4373b534875c8baf11e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 41/72] fix: keep the streams of wasm instances apart, end them
 once, and survive invalid frames, closing and traps

---
 go/transport/wasmrs/host/instance.go | 542 +++++++++++++++------------
 1 file changed, 298 insertions(+), 244 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 04dfbbb..7ca351a 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -1,31 +1,39 @@
 package host
 
 import (
-	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"sync"
 
 	"github.com/tetratelabs/wazero/api"
 
+	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var (
+	errClosed        = errors.New("instance closed")
+	errFrameTooLarge = errors.New("frame exceeds the send buffer")
+	errFragmented    = errors.New("fragmented requests are not supported")
+	errNoBuffer      = errors.New("the send buffer is not in the guest's memory")
+	errInvalidFrame  = errors.New("guest sent an invalid frame")
+)
+
 type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvCh    chan *bytes.Buffer //[]byte
+	recvBuf   *buffer.Unbounded[[]byte]
+	done      chan struct{}
+	closeOnce sync.Once
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -42,23 +50,17 @@ type Instance struct {
 	// increment by 2 sequentially, such as 2, 4, 6, 8, etc.
 	hostStreams proxy.Lookup
 
-	maxFrameSize       uint32
-	fragmentedPayloads map[uint32]fragmentedPayload
-	operations         operations.Table
+	maxFrameSize  uint32
+	operations    operations.Table
+	operationsErr error
 
+	importedMu   sync.RWMutex
 	importedRR   []invoke.RequestResponseHandler
 	importedRFNF []invoke.FireAndForgetHandler
 	importedRS   []invoke.RequestStreamHandler
 	importedRC   []invoke.RequestChannelHandler
 }
 
-type fragmentedPayload struct {
-	frameType frames.FrameType
-	initialN  uint32
-	metadata  []byte
-	data      []byte
-}
-
 type instanceKey struct{}
 
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
@@ -71,16 +73,16 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		return nil, errors.New("module does not export __wasmrs_send")
 	}
 	i := &Instance{
-		ctx:    ctx,
-		m:      m,
-		sendCh: make(chan frames.Frame, 100),
-		recvCh: make(chan *bytes.Buffer, 100),
-		sendFn: send,
+		ctx:     ctx,
+		m:       m,
+		sendCh:  make(chan frames.Frame, 100),
+		recvBuf: buffer.NewUnbounded[[]byte](),
+		done:    make(chan struct{}),
+		sendFn:  send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
-		maxFrameSize:       1024 * 1024,
-		fragmentedPayloads: make(map[uint32]fragmentedPayload),
-		sendSize:           16 * 1024,
+		maxFrameSize: 1024 * 1024,
+		sendSize:     16 * 1024,
 	}
 
 	ctx = context.WithValue(ctx, instanceKey{}, i)
@@ -90,10 +92,16 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if i.operationsErr != nil {
+		return nil, i.operationsErr
+	}
 
 	go i.recvLoop()
 	go i.sendLoop()
@@ -101,18 +109,49 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	return i, nil
 }
 
+// Close ends all streams: the callers of this side get an error and the
+// operations serving the guest are cancelled.
 func (i *Instance) Close() error {
-	close(i.sendCh)
-	close(i.recvCh)
+	i.closeOnce.Do(func() {
+		close(i.done)
+		i.recvBuf.Dispose()
+	})
+	i.endStreams(errClosed)()
 	return nil
 }
 
+func (i *Instance) closed() bool {
+	select {
+	case <-i.done:
+		return true
+	default:
+		return false
+	}
+}
+
+// endStreams removes all streams. The function it returns tells them.
+func (i *Instance) endStreams(err error) func() {
+	streams := append(i.guestStreams.Clear(), i.hostStreams.Clear()...)
+	return func() {
+		for _, str := range streams {
+			str.OnError(err)
+			if s, ok := str.(interface{ OnCancel() }); ok {
+				s.OnCancel()
+			}
+		}
+	}
+}
+
 func (i *Instance) registerStream(s proxy.Stream) {
 	if s.StreamID()&1 == 1 {
 		i.guestStreams.Add(s)
 	} else {
 		i.hostStreams.Add(s)
 	}
+	if i.closed() {
+		// Close may have missed it.
+		i.endStreams(errClosed)()
+	}
 
 	// i.streamMu.Lock()
 	// defer i.streamMu.Unlock()
@@ -135,7 +174,47 @@ func (i *Instance) getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+// SendFrame sends a frame of a stream which was requested on this side.
 func (i *Instance) SendFrame(f frames.Frame) error {
+	err := i.sendFrame(f)
+	switch v := f.(type) {
+	case *frames.RequestPayload:
+		if err != nil {
+			i.removeStream(v.StreamID)
+		}
+	case *frames.Cancel:
+		i.removeStream(v.StreamID)
+	case *frames.Payload:
+		if v.Complete {
+			i.endOutbound(v.StreamID)
+		}
+	case *frames.Error:
+		i.endOutbound(v.StreamID)
+	}
+	return err
+}
+
+func (i *Instance) endInbound(streamID uint32) {
+	str, ok := i.getStream(streamID)
+	if !ok {
+		return
+	}
+	if s, ok := str.(interface{ EndInbound() bool }); !ok || s.EndInbound() {
+		i.removeStream(streamID)
+	}
+}
+
+func (i *Instance) endOutbound(streamID uint32) {
+	str, ok := i.getStream(streamID)
+	if !ok {
+		return
+	}
+	if s, ok := str.(interface{ EndOutbound() bool }); !ok || s.EndOutbound() {
+		i.removeStream(streamID)
+	}
+}
+
+func (i *Instance) sendFrame(f frames.Frame) error {
 	// if frag, ok := f.(frames.Fragmentable); ok {
 	// 	if frames := frag.Fragment(i.maxFrameSize); frames != nil {
 	// 		for _, f := range frames {
@@ -147,8 +226,18 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
-	i.sendCh <- f
-	return nil
+	if f.Size() > i.sendSize-3 {
+		return errFrameTooLarge
+	}
+	if i.closed() {
+		return errClosed
+	}
+	select {
+	case i.sendCh <- f:
+		return nil
+	case <-i.done:
+		return errClosed
+	}
 }
 
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
@@ -161,26 +250,33 @@ func (i *Instance) sendLoop() {
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 	var buf []byte
 	pos := uint32(0)
-	count := 0
 
-	write := func(f frames.Frame) {
-		// Make sure to obtain the buffer
-		// in case it changed size via grow/shrink.
-		if pos == 0 {
-			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+	flush := func() {
+		// What the guest did not handle will never be answered.
+		if _, err := i.sendFn.Call(ctx, uint64(pos)); err != nil {
+			go i.endStreams(err)()
 		}
+		pos = 0
+	}
 
+	write := func(f frames.Frame) {
 		byteCount := f.Size()
 
 		// if this frame does not fit,
 		// send the buffer and reset.
-		if pos+3+byteCount >= i.sendSize {
-			i.sendFn.Call(ctx, uint64(pos))
-			pos = 0
-			count = 0
+		if pos > 0 && pos+3+byteCount >= i.sendSize {
+			flush()
+		}
+
+		// Make sure to obtain the buffer
+		// in case it changed size via grow/shrink.
+		if pos == 0 {
+			var ok bool
 			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+			if buf, ok = mem.Read(i.sendPtr, i.sendSize); !ok {
+				go i.endStreams(errNoBuffer)()
+				return
+			}
 		}
 
 		// Encode length and frame data.
@@ -188,12 +284,15 @@ func (i *Instance) sendLoop() {
 		copy(buf[pos:], lengthBytes[1:4])
 		f.Encode(buf[pos+3:])
 		pos += 3 + byteCount
-
-		count++
 	}
 
-	for f := range i.sendCh {
-		write(f)
+	for {
+		select {
+		case <-i.done:
+			return
+		case f := <-i.sendCh:
+			write(f)
+		}
 		loop := true
 		for loop {
 			select {
@@ -201,9 +300,7 @@ func (i *Instance) sendLoop() {
 				write(f)
 			default:
 				if pos > 0 {
-					i.sendFn.Call(ctx, uint64(pos))
-					pos = 0
-					count = 0
+					flush()
 				}
 				loop = false
 			}
@@ -211,60 +308,65 @@ func (i *Instance) sendLoop() {
 	}
 }
 
-var buffers = sync.Pool{
-	New: func() interface{} {
-		return new(bytes.Buffer)
-	},
-}
-
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
 
 func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 	buf, _ := i.m.Memory().Read(opPtr, opSize)
-	operations, _ := operations.FromBytes(buf)
-	i.operations = operations
+	i.operations, i.operationsErr = operations.FromBytes(buf)
 }
 
+// hostSend panics if the guest has not provided valid frames, which ends the
+// guest's call with an error.
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
+	buffer, ok := i.m.Memory().Read(i.recvPtr, recvPos)
+	if !ok {
+		panic(errInvalidFrame)
+	}
 
 	for len(buffer) > 0 {
+		if len(buffer) < 3 {
+			panic(errInvalidFrame)
+		}
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
-		buf := buffers.Get().(*bytes.Buffer)
-		buf.Reset()
-		buf.Write(buffer)
-		i.recvCh <- buf
+		if frameLength < frames.FrameHeaderLen || frameLength > uint32(len(buffer)) {
+			panic(errInvalidFrame)
+		}
+		// The guest reuses its buffer.
+		frame := make([]byte, frameLength)
+		copy(frame, buffer)
+		i.recvBuf.Put(frame)
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
-		i.recvOne(buf.Bytes())
-		buf.Reset()
-		buffers.Put(buf)
+	for data := range i.recvBuf.Get() {
+		i.recvBuf.Load()
+		if i.closed() {
+			return
+		}
+		i.recvOne(data)
 	}
 }
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
 	header := frames.ParseFrameHeader(data)
+	streamID := header.StreamID()
 	data = data[frames.FrameHeaderLen:]
 
 	var str proxy.Stream
 	if header.Type() >= frames.FrameTypeRequestN {
 		var ok bool
-		str, ok = i.getStream(header.StreamID())
+		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if header.Type() != frames.FrameTypeRequestN {
-				fmt.Printf("Host: Stream %d not found\n", header.StreamID())
-			}
+			// The stream has ended on this side while the frame was under
+			// way. Such frames are ignored, as the protocol asks for.
 			return
 		}
 	}
@@ -274,84 +376,68 @@ func (i *Instance) recvOne(data []byte) {
 
 	case frames.FrameTypeRequestResponse:
 		var rr frames.RequestPayload
-		if err := rr.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
-				Data:     err.Error(),
-			})
-			return
-		}
-		if i.checkFollows(&rr) {
-			// Will be processed under frames.FrameTypePayload
+		if !i.decodeRequest(&rr, &header, data) {
 			return
 		}
 
-		go i.handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
+		go i.handleRequestResponse(ctx, streamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestFNF:
 		var rr frames.RequestPayload
-		if err := rr.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
-				Data:     err.Error(),
-			})
-			return
-		}
-		if i.checkFollows(&rr) {
-			// Will be processed under frames.FrameTypePayload
-			return
+		if err := rr.Decode(&header, data); err != nil || rr.Follows {
+			return // There are no responses to these, not even errors.
 		}
 
-		go i.handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
+		go i.handleFireAndForget(ctx, streamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestStream:
 		var rs frames.RequestPayload
-		if err := rs.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
-				Data:     err.Error(),
-			})
-			return
-		}
-		if i.checkFollows(&rs) {
-			// Will be processed under frames.FrameTypePayload
+		if !i.decodeRequest(&rs, &header, data) {
 			return
 		}
 
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		// Register before any further frame of the stream is handled.
+		s := proxy.NewResponder(ctx, streamID, false)
+		s.DoRequest(int(rs.InitialN))
+		i.registerStream(s)
+		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
-		if err := rc.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
-				Data:     err.Error(),
-			})
-			return
-		}
-		if i.checkFollows(&rc) {
-			// Will be processed under frames.FrameTypePayload
+		if !i.decodeRequest(&rc, &header, data) {
 			return
 		}
 
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		// Register before any further frame of the stream is handled.
+		s := proxy.NewResponder(ctx, streamID, true)
+		s.DoRequest(int(rc.InitialN))
+		i.registerStream(s)
+		if rc.Complete {
+			s.OnComplete()
+			i.endInbound(streamID)
+		}
+		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
-			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
-				Data:     err.Error(),
-			})
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		switch s := str.(type) {
+		case *proxy.Responder:
+			i.removeStream(streamID)
+			s.OnCancel()
+		case interface{ OnCancel() }:
+			// Only the requester's payloads are not wanted any more.
+			s.OnCancel()
+			i.endOutbound(streamID)
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -410,7 +496,7 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
+			i.endInbound(streamID)
 		}
 
 	case frames.FrameTypeError:
@@ -418,9 +504,42 @@ func (i *Instance) recvOne(data []byte) {
 		if err := p.Decode(&header, data); err != nil {
 			return
 		}
-		str.OnError(errors.New(p.Data))
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		switch s := str.(type) {
+		case *proxy.Responder:
+			s.OnError(errors.New(p.Data))
+			i.endInbound(streamID)
+		default:
+			i.removeStream(streamID)
+			str.OnError(errors.New(p.Data))
+			if s, ok := str.(interface{ OnCancel() }); ok {
+				s.OnCancel()
+			}
+		}
+	}
+}
+
+// decodeRequest answers requests which cannot be served with an error.
+func (i *Instance) decodeRequest(r *frames.RequestPayload, header *frames.FrameHeader, data []byte) bool {
+	err := r.Decode(header, data)
+	if err == nil && r.Follows {
+		err = errFragmented
+	}
+	if err != nil {
+		i.sendError(header.StreamID(), err.Error())
+		return false
+	}
+	return true
+}
+
+func (i *Instance) sendError(streamID uint32, message string) {
+	if err := i.sendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     message,
+	}); err == errFrameTooLarge {
+		i.sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     err.Error(),
+		})
 	}
 }
 
@@ -438,34 +557,32 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	}
 	handler := i.getRequestResponseHandler(operationID)
 	if handler == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		i.sendError(streamID, "not_found")
 		return
 	}
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendError(streamID, err.Error())
+			}
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err.Error())
 		},
 	})
 }
 
 func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !i.checkMetadata(streamID, metadata) {
+	// There are no responses to fire and forget requests, not even errors,
+	// and their streams end with the request.
+	if len(metadata) < 8 {
 		return
 	}
 
@@ -478,18 +595,16 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	}
 	handler := i.getFireAndForgetHandler(operationID)
 	if handler == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
 		return
 	}
 	p := payload.New(data, metadata)
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -502,47 +617,20 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		i.removeStream(streamID)
+		i.sendError(streamID, "not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	f := handlerRS(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	i.respond(s, f)
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -555,62 +643,69 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		i.removeStream(streamID)
+		i.sendError(streamID, "not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
+				i.sendFrame(&frames.RequestN{
 					StreamID: streamID,
 					N:        uint32(n),
 				})
 			},
 			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
+				i.sendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
+				i.endInbound(streamID)
 			},
 		})
+		s.AttachInput(sink)
 	})
 	f := handlerRC(ctx, p, in)
+	i.respond(s, f)
+}
+
+// respond sends the payloads of f to the requester, as far as it asks for them.
+func (i *Instance) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
+	streamID := s.StreamID()
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				i.removeStream(streamID)
+				s.OnError(err)
+				s.OnCancel()
+				i.sendError(streamID, err.Error())
+			}
 		},
 		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
+			i.endOutbound(streamID)
+			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.removeStream(streamID)
+			i.sendError(streamID, err.Error())
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Attach(f.Subscription())
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRR)) < index+1 {
 		i.importedRR = append(i.importedRR, nil)
 	}
@@ -618,6 +713,8 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRR)) <= index {
 		return nil
 	}
@@ -625,6 +722,8 @@ func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestRespons
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRFNF)) < index+1 {
 		i.importedRFNF = append(i.importedRFNF, nil)
 	}
@@ -632,6 +731,8 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRFNF)) <= index {
 		return nil
 	}
@@ -639,6 +740,8 @@ func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHan
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRS)) < index+1 {
 		i.importedRS = append(i.importedRS, nil)
 	}
@@ -646,6 +749,8 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRS)) <= index {
 		return nil
 	}
@@ -653,6 +758,8 @@ func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHan
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRC)) < index+1 {
 		i.importedRC = append(i.importedRC, nil)
 	}
@@ -660,6 +767,8 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRC)) <= index {
 		return nil
 	}
@@ -668,68 +777,13 @@ func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelH
 
 func (i *Instance) checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before... but why?
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "Invalid metadata",
-		})
+		i.sendError(streamID, "Invalid metadata")
 		return false
 	}
 
 	return true
 }
 
-func (i *Instance) checkFollows(requestFrame *frames.RequestPayload) bool {
-	if requestFrame.Follows {
-		i.fragmentedPayloads[requestFrame.StreamID] = fragmentedPayload{
-			frameType: frames.FrameTypeRequestResponse,
-			initialN:  requestFrame.InitialN,
-			metadata:  requestFrame.Metadata,
-			data:      requestFrame.Data,
-		}
-		return true
-	}
-
-	return false
-}
-
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-- 
2.43.0


From 75bb51f0537219d9ae9761f670ad4bdc516fddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 42/72] fix: keep the streams of wasm guests apart, end them
 once, and survive large, cut and superfluous frames

---
 go/transport/wasmrs/guest/guest.go | 366 ++++++++++++++---------------
 1 file changed, 179 insertions(+), 187 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 92fffb0..522dc9e 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -13,7 +13,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -31,21 +30,17 @@ var (
 	guestBuffer []byte
 	hostBuffer  []byte
 
-	maxFrameSize       uint32
-	fragmentedPayloads map[uint32]fragmentedPayload
+	maxFrameSize uint32
 )
 
-type fragmentedPayload struct {
-	frameType frames.FrameType
-	initialN  uint32
-	metadata  []byte
-	data      []byte
-}
+var (
+	errFrameTooLarge = errors.New("frame exceeds the send buffer")
+	errFragmented    = errors.New("fragmented requests are not supported")
+)
 
 //go:export __wasmrs_init
 func Init(guestBufferSize uint32, hostBufferSize uint32, hostMaxFrameSize uint32) bool {
 	//streams = make(map[uint32]proxy.Stream)
-	fragmentedPayloads = make(map[uint32]fragmentedPayload)
 	guestBuffer = make([]byte, guestBufferSize)
 	hostBuffer = make([]byte, hostBufferSize)
 	maxFrameSize = hostMaxFrameSize
@@ -109,9 +104,16 @@ func GuestSend(endPos uint32) {
 	curPos := uint32(0)
 	buf := guestBuffer
 
-	for curPos < endPos {
+	if endPos > uint32(len(buf)) {
+		endPos = uint32(len(buf))
+	}
+	for curPos+3 <= endPos {
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if frameLen < frames.FrameHeaderLen || frameLen > endPos-curPos-3 {
+			println("Guest: invalid frame length " + strconv.FormatUint(uint64(frameLen), 10))
+			return
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
 		curPos += 3 + frameLen
@@ -119,17 +121,17 @@ func GuestSend(endPos uint32) {
 
 		// lengthPos = 1 // Reset for next frame
 		header := frames.ParseFrameHeader(frameBuf)
+		streamID := header.StreamID()
 		buffer := frameBuf[frames.FrameHeaderLen:]
 
 		var str proxy.Stream
 		if header.Type() >= frames.FrameTypeRequestN {
 			var ok bool
-			str, ok = getStream(header.StreamID())
+			str, ok = getStream(streamID)
 			if !ok {
-				if header.Type() != frames.FrameTypeRequestN {
-					println("Guest: Stream " + strconv.FormatUint(uint64(header.StreamID()), 10) + " not found")
-				}
-				// Return error
+				// The stream has ended on this side while the frame was
+				// under way. Such frames are ignored, as the protocol asks
+				// for.
 				continue
 			}
 		}
@@ -140,84 +142,68 @@ func GuestSend(endPos uint32) {
 
 		case frames.FrameTypeRequestResponse:
 			var rr frames.RequestPayload
-			if err := rr.Decode(&header, buffer); err != nil {
-				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
-					Data:     err.Error(),
-				})
-				continue
-			}
-			if checkFollows(&rr) {
-				// Will be processed under frames.FrameTypePayload
+			if !decodeRequest(&rr, &header, buffer) {
 				continue
 			}
 
-			handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
+			handleRequestResponse(ctx, streamID, rr.Data, rr.Metadata)
 
 		case frames.FrameTypeRequestFNF:
 			var rr frames.RequestPayload
-			if err := rr.Decode(&header, buffer); err != nil {
-				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
-					Data:     err.Error(),
-				})
-				continue
-			}
-			if checkFollows(&rr) {
-				// Will be processed under frames.FrameTypePayload
-				continue
+			if err := rr.Decode(&header, buffer); err != nil || rr.Follows {
+				continue // There are no responses to these, not even errors.
 			}
 
-			handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
+			handleFireAndForget(ctx, streamID, rr.Data, rr.Metadata)
 
 		case frames.FrameTypeRequestStream:
 			var rs frames.RequestPayload
-			if err := rs.Decode(&header, buffer); err != nil {
-				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
-					Data:     err.Error(),
-				})
-				continue
-			}
-			if checkFollows(&rs) {
-				// Will be processed under frames.FrameTypePayload
+			if !decodeRequest(&rs, &header, buffer) {
 				continue
 			}
 
-			handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+			// Register before any further frame of the stream is handled.
+			s := proxy.NewResponder(ctx, streamID, false)
+			s.DoRequest(int(rs.InitialN))
+			registerStream(s)
+			handleRequestStream(ctx, s, rs.Data, rs.Metadata)
 
 		case frames.FrameTypeRequestChannel:
 			var rc frames.RequestPayload
-			if err := rc.Decode(&header, buffer); err != nil {
-				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
-					Data:     err.Error(),
-				})
-				return
-			}
-			if checkFollows(&rc) {
-				// Will be processed under frames.FrameTypePayload
+			if !decodeRequest(&rc, &header, buffer) {
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			// Register before any further frame of the stream is handled.
+			s := proxy.NewResponder(ctx, streamID, true)
+			s.DoRequest(int(rc.InitialN))
+			registerStream(s)
+			if rc.Complete {
+				s.OnComplete()
+				endInbound(streamID)
+			}
+			handleRequestChannel(ctx, s, rc.Data, rc.Metadata)
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
-				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
-					Data:     err.Error(),
-				})
-				return
+				continue
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			switch s := str.(type) {
+			case *proxy.Responder:
+				removeStream(streamID)
+				s.OnCancel()
+			case interface{ OnCancel() }:
+				// Only the requester's payloads are not wanted any more.
+				s.OnCancel()
+				endOutbound(streamID)
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -241,12 +227,6 @@ func GuestSend(endPos uint32) {
 			// 	}
 			// }
 
-			pl := fragmentedPayload{
-				frameType: frames.FrameTypePayload,
-				metadata:  p.Metadata,
-				data:      p.Data,
-			}
-
 			// if p.Follows {
 			// 	fragmentedPayloads[p.StreamID] = pl
 			// 	continue
@@ -261,7 +241,7 @@ func GuestSend(endPos uint32) {
 			// switch pl.frameType {
 			// case frames.FrameTypePayload:
 			if p.Next {
-				str.OnNext(payload.New(pl.data, pl.metadata))
+				str.OnNext(payload.New(p.Data, p.Metadata))
 			}
 
 			// case frames.FrameTypeRequestResponse:
@@ -279,7 +259,7 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
+				endInbound(streamID)
 			}
 
 		case frames.FrameTypeError:
@@ -287,13 +267,34 @@ func GuestSend(endPos uint32) {
 			if err := p.Decode(&header, buffer); err != nil {
 				continue
 			}
-			str.OnError(errors.New(p.Data))
-			str.OnComplete()
-			removeStream(header.StreamID())
+			switch s := str.(type) {
+			case *proxy.Responder:
+				s.OnError(errors.New(p.Data))
+				endInbound(streamID)
+			default:
+				removeStream(streamID)
+				str.OnError(errors.New(p.Data))
+				if s, ok := str.(interface{ OnCancel() }); ok {
+					s.OnCancel()
+				}
+			}
 		}
 	}
 }
 
+// decodeRequest answers requests which cannot be served with an error.
+func decodeRequest(r *frames.RequestPayload, header *frames.FrameHeader, data []byte) bool {
+	err := r.Decode(header, data)
+	if err == nil && r.Follows {
+		err = errFragmented
+	}
+	if err != nil {
+		sendError(header.StreamID(), err.Error())
+		return false
+	}
+	return true
+}
+
 func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
 	if !checkMetadata(streamID, metadata) {
 		return
@@ -302,10 +303,7 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestResponseHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		sendError(streamID, "not_found")
 		return
 	}
 
@@ -314,182 +312,141 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := doSendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				sendError(streamID, err.Error())
+			}
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err.Error())
 		},
 	})
 }
 
 func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
-	if !checkMetadata(streamID, metadata) {
+	// There are no responses to fire and forget requests, not even errors,
+	// and their streams end with the request.
+	if len(metadata) < 8 {
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
 		return
 	}
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
 
-func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		removeStream(streamID)
+		sendError(streamID, "not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	respond(s, f)
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		removeStream(streamID)
+		sendError(streamID, "not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
-				sendFrame(&frames.RequestN{
+				doSendFrame(&frames.RequestN{
 					StreamID: streamID,
 					N:        uint32(n),
 				})
 			},
 			Cancel: func() {
-				sendFrame(&frames.Cancel{
+				doSendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
+				endInbound(streamID)
 			},
 		})
+		s.AttachInput(sink)
 	})
 	f := handler(ctx, p, in)
+	respond(s, f)
+}
+
+// respond sends the payloads of f to the requester, as far as it asks for them.
+func respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
+	streamID := s.StreamID()
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := doSendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				removeStream(streamID)
+				s.OnError(err)
+				s.OnCancel()
+				sendError(streamID, err.Error())
+			}
 		},
 		OnComplete: func() {
-			sendFrame(&frames.Payload{
+			endOutbound(streamID)
+			doSendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			removeStream(streamID)
+			sendError(streamID, err.Error())
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Attach(f.Subscription())
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before but why?
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "Invalid metadata",
-		})
+		sendError(streamID, "Invalid metadata")
 		return false
 	}
 
 	return true
 }
 
-func checkFollows(requestFrame *frames.RequestPayload) bool {
-	if requestFrame.Follows {
-		fragmentedPayloads[requestFrame.StreamID] = fragmentedPayload{
-			frameType: frames.FrameTypeRequestResponse,
-			initialN:  requestFrame.InitialN,
-			metadata:  requestFrame.Metadata,
-			data:      requestFrame.Data,
-		}
-		return true
-	}
-
-	return false
-}
-
 func registerStream(s proxy.Stream) {
 	if s.StreamID()&1 == 1 {
 		guestStreams.Add(s)
@@ -514,6 +471,26 @@ func getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+func endInbound(streamID uint32) {
+	str, ok := getStream(streamID)
+	if !ok {
+		return
+	}
+	if s, ok := str.(interface{ EndInbound() bool }); !ok || s.EndInbound() {
+		removeStream(streamID)
+	}
+}
+
+func endOutbound(streamID uint32) {
+	str, ok := getStream(streamID)
+	if !ok {
+		return
+	}
+	if s, ok := str.(interface{ EndOutbound() bool }); !ok || s.EndOutbound() {
+		removeStream(streamID)
+	}
+}
+
 // //go:inline
 // func getStream(streamID uint32) (proxy.Stream, bool) {
 // 	stream, ok := streams[streamID]
@@ -530,6 +507,8 @@ func getStream(streamID uint32) (proxy.Stream, bool) {
 // 	delete(streams, streamID)
 // }
 
+// sendFrame sends a frame of a stream which was requested on this side.
+//
 //go:inline
 func sendFrame(f frames.Frame) error {
 	// if f.Type() == frames.FrameTypePayload {
@@ -555,17 +534,47 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	err := doSendFrame(f)
+	switch v := f.(type) {
+	case *frames.RequestPayload:
+		if err != nil {
+			removeStream(v.StreamID)
+		}
+	case *frames.Cancel:
+		removeStream(v.StreamID)
+	case *frames.Payload:
+		if v.Complete {
+			endOutbound(v.StreamID)
+		}
+	case *frames.Error:
+		endOutbound(v.StreamID)
+	}
+	return err
+}
+
+func sendError(streamID uint32, message string) {
+	if err := doSendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     message,
+	}); err != nil {
+		doSendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     err.Error(),
+		})
+	}
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if uint64(byteLength)+3 > uint64(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
@@ -575,9 +584,6 @@ type DoRequest interface {
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -590,25 +596,11 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
+func (r *requestStream) OnNext(p payload.Payload) {}
 
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
+func (r *requestStream) OnComplete() {}
 
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
+func (r *requestStream) OnError(err error) {}
 
 //go:inline
 func bytesToPointer(s []byte) uintptr {
-- 
2.43.0


From fae7992d46daee4665216af661918b9715e25862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 43/72] verif: host calls of natively running guests can be
 observed (build tag verif)

---
 go/transport/wasmrs/guest/imports.go       |  4 +--
 go/transport/wasmrs/guest/imports_verif.go | 30 ++++++++++++++++++++++
 go/transport/wasmrs/host/host_verif.go     | 15 +++++++++++
 3 files changed, 47 insertions(+), 2 deletions(-)
 create mode 100644 go/transport/wasmrs/guest/imports_verif.go
 create mode 100644 go/transport/wasmrs/host/host_verif.go

diff --git a/go/transport/wasmrs/guest/imports.go b/go/transport/wasmrs/guest/imports.go
index 6ebac30..a9c9ca9 100644
--- a/go/transport/wasmrs/guest/imports.go
+++ b/go/transport/wasmrs/guest/imports.go
@@ -1,5 +1,5 @@
-//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
-// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi && !verif
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi,!verif
 
 package guest
 
diff --git a/go/transport/wasmrs/guest/imports_verif.go b/go/transport/wasmrs/guest/imports_verif.go
new file mode 100644
index 0000000..8a7da6d
--- /dev/null
+++ b/go/transport/wasmrs/guest/imports_verif.go
@@ -0,0 +1,30 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi && verif
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi,verif
+
+package guest
+
+// The host calls of a guest which runs natively, next to its monitors.
+var (
+	VerifInitBuffers = func(guestBufferPtr uintptr, hostBufferPtr uintptr) {}
+	VerifOpList      = func(opPtr uintptr, opSize uint32) {}
+	VerifHostSend    = func(nextSendPos uint32) {}
+)
+
+func initBuffers(guestBufferPtr uintptr, hostBufferPtr uintptr) {
+	VerifInitBuffers(guestBufferPtr, hostBufferPtr)
+}
+
+func opList(opPtr uintptr, opSize uint32) { VerifOpList(opPtr, opSize) }
+
+func hostSend(nextSendPos uint32) { VerifHostSend(nextSendPos) }
+
+// VerifBuffers returns the buffers for frames to the guest and to the host.
+func VerifBuffers() (guest, host []byte) { return guestBuffer, hostBuffer }
+
+// VerifReset makes this a new guest.
+func VerifReset() {
+	guestStreams.Clear()
+	hostStreams.Clear()
+	guestBuffer, hostBuffer, maxFrameSize = nil, nil, 0
+	HostInvoker = &Caller{}
+}
diff --git a/go/transport/wasmrs/host/host_verif.go b/go/transport/wasmrs/host/host_verif.go
new file mode 100644
index 0000000..09a9fad
--- /dev/null
+++ b/go/transport/wasmrs/host/host_verif.go
@@ -0,0 +1,15 @@
+//go:build verif
+// +build verif
+
+package host
+
+import "github.com/tetratelabs/wazero/api"
+
+// VerifFunctions returns the functions which guests import.
+func VerifFunctions() map[string]api.GoFunc {
+	return map[string]api.GoFunc{
+		"__init_buffers": initBuffers,
+		"__op_list":      opList,
+		"__send":         send,
+	}
+}
-- 
2.43.0


From be9e65f0a5a7d6aa34ffa7a283207e382fa21d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 44/72] verif: context of a guest's calls (build tag verif)

---
 go/transport/wasmrs/host/host_verif.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/host/host_verif.go b/go/transport/wasmrs/host/host_verif.go
index 09a9fad..7ac04db 100644
--- a/go/transport/wasmrs/host/host_verif.go
+++ b/go/transport/wasmrs/host/host_verif.go
@@ -3,7 +3,11 @@
 
 package host
 
-import "github.com/tetratelabs/wazero/api"
+import (
+	"context"
+
+	"github.com/tetratelabs/wazero/api"
+)
 
 // VerifFunctions returns the functions which guests import.
 func VerifFunctions() map[string]api.GoFunc {
@@ -13,3 +17,8 @@ func VerifFunctions() map[string]api.GoFunc {
 		"__send":         send,
 	}
 }
+
+// VerifContext returns a context of calls to i's guest.
+func VerifContext(i *Instance) context.Context {
+	return context.WithValue(i.ctx, instanceKey{}, i)
+}
-- 
2.43.0


From 763276c51a4450e27063df6ebc99ec25bccd15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 45/72] verif: demand is handled at once on goroutines which
 play a guest (build tag verif)

---
 go/rx/flux/flux_host.go    |  4 ++++
 go/rx/flux/inline.go       |  6 ++++++
 go/rx/flux/inline_verif.go | 10 ++++++++++
 3 files changed, 20 insertions(+)
 create mode 100644 go/rx/flux/inline.go
 create mode 100644 go/rx/flux/inline_verif.go

diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index 926e93c..4ce325d 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -18,6 +18,10 @@ type mutex struct {
 }
 
 func (s *subscriber[T]) doRequest(request func(int), n int) {
+	if inline() {
+		request(n)
+		return
+	}
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
diff --git a/go/rx/flux/inline.go b/go/rx/flux/inline.go
new file mode 100644
index 0000000..1b3f962
--- /dev/null
+++ b/go/rx/flux/inline.go
@@ -0,0 +1,6 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi && !verif
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi,!verif
+
+package flux
+
+func inline() bool { return false }
diff --git a/go/rx/flux/inline_verif.go b/go/rx/flux/inline_verif.go
new file mode 100644
index 0000000..7a24e89
--- /dev/null
+++ b/go/rx/flux/inline_verif.go
@@ -0,0 +1,10 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi && verif
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi,verif
+
+package flux
+
+// VerifInline tells whether the current goroutine plays a WebAssembly guest,
+// where demand is handled at once.
+var VerifInline = func() bool { return false }
+
+func inline() bool { return VerifInline() }
-- 
2.43.0


From 4747b37f352452af27b9607ae88b65c4df337f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 46/72] fix: keep the outcome a flux processor was given before
 its subscription

---
 go/rx/flux/processor.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/go/rx/flux/processor.go b/go/rx/flux/processor.go
index 387bfda..db06480 100644
--- a/go/rx/flux/processor.go
+++ b/go/rx/flux/processor.go
@@ -12,6 +12,7 @@ type processor[T any] struct {
 	mu   sync.Mutex
 	sink Sink[T]
 	sub  *OnSubscribe
+	end  func(Sink[T]) // the outcome, if it was given before the subscription
 }
 
 func NewProcessor[T any]() Processor[T] {
@@ -19,10 +20,12 @@ func NewProcessor[T any]() Processor[T] {
 	p.Flux = Create(func(sink Sink[T]) {
 		p.mu.Lock()
 		p.sink = sink
-		sub := p.sub
-		p.sub = nil
+		sub, end := p.sub, p.end
+		p.sub, p.end = nil, nil
 		p.mu.Unlock()
-		if sub != nil {
+		if end != nil {
+			end(sink)
+		} else if sub != nil {
 			sink.OnSubscribe(*sub)
 		}
 	})
@@ -36,6 +39,19 @@ func (p *processor[T]) currentSink() Sink[T] {
 	return p.sink
 }
 
+// finish passes the outcome on, or keeps the first one for the subscriber.
+func (p *processor[T]) finish(end func(Sink[T])) {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.end == nil {
+		p.end = end
+	}
+	p.mu.Unlock()
+	if sink != nil {
+		end(sink)
+	}
+}
+
 func (p *processor[T]) Next(value T) {
 	if sink := p.currentSink(); sink != nil {
 		sink.Next(value)
@@ -43,15 +59,11 @@ func (p *processor[T]) Next(value T) {
 }
 
 func (p *processor[T]) Complete() {
-	if sink := p.currentSink(); sink != nil {
-		sink.Complete()
-	}
+	p.finish(func(sink Sink[T]) { sink.Complete() })
 }
 
 func (p *processor[T]) Error(err error) {
-	if sink := p.currentSink(); sink != nil {
-		sink.Error(err)
-	}
+	p.finish(func(sink Sink[T]) { sink.Error(err) })
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-- 
2.43.0


From 8feb71107bf38cde2bf4f6656098d0d99e3fec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 47/72] fix: end the streams of wasm instances where their
 frames are delivered

---
 go/proxy/lookup.go                   |  6 ++-
 go/transport/wasmrs/host/instance.go | 64 ++++++++++++++++------------
 2 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 039e097..2349b9b 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -47,13 +47,14 @@ func (l *Lookup) Add(s Stream) {
 	}
 }
 
-func (l *Lookup) Remove(id uint32) {
+// Remove returns whether there was a stream with this ID.
+func (l *Lookup) Remove(id uint32) bool {
 	l.mu.Lock()
 	defer l.mu.Unlock()
 
 	nodeToDelete := l.find(id)
 	if nodeToDelete == nil {
-		return
+		return false
 	}
 
 	prevNode := nodeToDelete.prev
@@ -69,6 +70,7 @@ func (l *Lookup) Remove(id uint32) {
 	} else {
 		l.tail = prevNode
 	}
+	return true
 }
 
 // Clear removes all streams and returns them.
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 7ca351a..efd2f0e 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -31,7 +31,7 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvBuf   *buffer.Unbounded[[]byte]
+	recvBuf   *buffer.Unbounded[received]
 	done      chan struct{}
 	closeOnce sync.Once
 	sendFn    api.Function
@@ -61,6 +61,12 @@ type Instance struct {
 	importedRC   []invoke.RequestChannelHandler
 }
 
+// received is a frame from the guest, or the error it has failed with.
+type received struct {
+	frame []byte
+	err   error
+}
+
 type instanceKey struct{}
 
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
@@ -76,7 +82,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:     ctx,
 		m:       m,
 		sendCh:  make(chan frames.Frame, 100),
-		recvBuf: buffer.NewUnbounded[[]byte](),
+		recvBuf: buffer.NewUnbounded[received](),
 		done:    make(chan struct{}),
 		sendFn:  send,
 		// streams: make(map[uint32]proxy.Stream),
@@ -116,7 +122,6 @@ func (i *Instance) Close() error {
 		close(i.done)
 		i.recvBuf.Dispose()
 	})
-	i.endStreams(errClosed)()
 	return nil
 }
 
@@ -129,16 +134,18 @@ func (i *Instance) closed() bool {
 	}
 }
 
-// endStreams removes all streams. The function it returns tells them.
-func (i *Instance) endStreams(err error) func() {
-	streams := append(i.guestStreams.Clear(), i.hostStreams.Clear()...)
-	return func() {
-		for _, str := range streams {
-			str.OnError(err)
-			if s, ok := str.(interface{ OnCancel() }); ok {
-				s.OnCancel()
-			}
-		}
+// endStreams ends all streams with err. It is called where the guest's frames
+// are handled, so that nothing is delivered at the same time.
+func (i *Instance) endStreams(err error) {
+	for _, str := range append(i.guestStreams.Clear(), i.hostStreams.Clear()...) {
+		endStream(str, err)
+	}
+}
+
+func endStream(str proxy.Stream, err error) {
+	str.OnError(err)
+	if s, ok := str.(interface{ OnCancel() }); ok {
+		s.OnCancel()
 	}
 }
 
@@ -148,9 +155,9 @@ func (i *Instance) registerStream(s proxy.Stream) {
 	} else {
 		i.hostStreams.Add(s)
 	}
-	if i.closed() {
-		// Close may have missed it.
-		i.endStreams(errClosed)()
+	if i.closed() && i.removeStream(s.StreamID()) {
+		// The others have been ended without this one.
+		endStream(s, errClosed)
 	}
 
 	// i.streamMu.Lock()
@@ -158,12 +165,11 @@ func (i *Instance) registerStream(s proxy.Stream) {
 	// i.streams[s.StreamID()] = s
 }
 
-func (i *Instance) removeStream(streamID uint32) {
+func (i *Instance) removeStream(streamID uint32) bool {
 	if streamID&1 == 1 {
-		i.guestStreams.Remove(streamID)
-	} else {
-		i.hostStreams.Remove(streamID)
+		return i.guestStreams.Remove(streamID)
 	}
+	return i.hostStreams.Remove(streamID)
 }
 
 func (i *Instance) getStream(streamID uint32) (proxy.Stream, bool) {
@@ -254,7 +260,7 @@ func (i *Instance) sendLoop() {
 	flush := func() {
 		// What the guest did not handle will never be answered.
 		if _, err := i.sendFn.Call(ctx, uint64(pos)); err != nil {
-			go i.endStreams(err)()
+			i.recvBuf.Put(received{err: err})
 		}
 		pos = 0
 	}
@@ -274,7 +280,7 @@ func (i *Instance) sendLoop() {
 			var ok bool
 			mem := i.m.Memory()
 			if buf, ok = mem.Read(i.sendPtr, i.sendSize); !ok {
-				go i.endStreams(errNoBuffer)()
+				i.recvBuf.Put(received{err: errNoBuffer})
 				return
 			}
 		}
@@ -339,19 +345,23 @@ func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 		// The guest reuses its buffer.
 		frame := make([]byte, frameLength)
 		copy(frame, buffer)
-		i.recvBuf.Put(frame)
+		i.recvBuf.Put(received{frame: frame})
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for data := range i.recvBuf.Get() {
+	for r := range i.recvBuf.Get() {
 		i.recvBuf.Load()
-		if i.closed() {
-			return
+		switch {
+		case i.closed():
+		case r.err != nil:
+			i.endStreams(r.err)
+		default:
+			i.recvOne(r.frame)
 		}
-		i.recvOne(data)
 	}
+	i.endStreams(errClosed)
 }
 
 func (i *Instance) recvOne(data []byte) {
-- 
2.43.0


From b2e737c8a84e9598b3cd9233f1b1da7608d19a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 48/72] fix: do not size the imports of wasm instances by what
 their guests declare

---
 go/transport/wasmrs/host/instance.go | 36 ++++++++++------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index efd2f0e..6832000 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -55,10 +55,10 @@ type Instance struct {
 	operationsErr error
 
 	importedMu   sync.RWMutex
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	importedRR   map[uint32]invoke.RequestResponseHandler
+	importedRFNF map[uint32]invoke.FireAndForgetHandler
+	importedRS   map[uint32]invoke.RequestStreamHandler
+	importedRC   map[uint32]invoke.RequestChannelHandler
 }
 
 // received is a frame from the guest, or the error it has failed with.
@@ -716,8 +716,8 @@ func (i *Instance) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
+	if i.importedRR == nil {
+		i.importedRR = make(map[uint32]invoke.RequestResponseHandler)
 	}
 	i.importedRR[index] = handler
 }
@@ -725,17 +725,14 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
 	return i.importedRR[index]
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
+	if i.importedRFNF == nil {
+		i.importedRFNF = make(map[uint32]invoke.FireAndForgetHandler)
 	}
 	i.importedRFNF[index] = handler
 }
@@ -743,17 +740,14 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
 	return i.importedRFNF[index]
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
+	if i.importedRS == nil {
+		i.importedRS = make(map[uint32]invoke.RequestStreamHandler)
 	}
 	i.importedRS[index] = handler
 }
@@ -761,17 +755,14 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
 	return i.importedRS[index]
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
+	if i.importedRC == nil {
+		i.importedRC = make(map[uint32]invoke.RequestChannelHandler)
 	}
 	i.importedRC[index] = handler
 }
@@ -779,9 +770,6 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
 	return i.importedRC[index]
 }
 
-- 
2.43.0


From 5a82d330fccdaff686b83a1f7535726d60338325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 49/72] fix: link mesh operations by kind, to the current
 instance, and keep their callers' metadata

---
 go/transport/wasmrs/mesh/mesh.go | 159 +++++++++++++++++--------------
 1 file changed, 86 insertions(+), 73 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 0ba06f8..5b25072 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -20,12 +21,20 @@ import (
 
 type (
 	Mesh struct {
-		verbose     bool
+		verbose bool
+
+		mu          sync.RWMutex // guards the fields below
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[export]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	export struct {
+		namespace string
+		operation string
+		typ       operations.RequestType
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +57,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     make(map[export]*atomic.Pointer[destination]),
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -59,67 +68,60 @@ func New(opts ...Option) *Mesh {
 	return &m
 }
 
-func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
+// find returns where the operation is served, nil if nowhere.
+func (m *Mesh) find(namespace, operation string, typ operations.RequestType) *destination {
+	m.mu.RLock()
+	ptr, ok := m.exports[export{namespace, operation, typ}]
+	m.mu.RUnlock()
 	if !ok {
 		return nil
 	}
+	return ptr.Load()
+}
 
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
+func notFound(namespace, operation string) error {
+	return fmt.Errorf("operation %s::%s not found", namespace, operation)
+}
+
+func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
+	dest := m.find(namespace, operation, operations.RequestResponse)
+	if dest == nil {
+		return mono.Error[payload.Payload](notFound(namespace, operation))
 	}
-	dest := ptr.Load()
 
 	return dest.RequestResponse(ctx, p)
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.find(namespace, operation, operations.FireAndForget)
+	if dest == nil {
 		return
 	}
 
-	ptr, ok := ns[operation]
-	if !ok {
-		return
-	}
-	dest := ptr.Load()
-
 	dest.FireAndForget(ctx, p)
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
+	dest := m.find(namespace, operation, operations.RequestStream)
+	if dest == nil {
+		return flux.Error[payload.Payload](notFound(namespace, operation))
 	}
 
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
-	}
-	dest := ptr.Load()
-
 	return dest.RequestStream(ctx, p)
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
+	dest := m.find(namespace, operation, operations.RequestChannel)
+	if dest == nil {
+		return flux.Error[payload.Payload](notFound(namespace, operation))
 	}
-	dest := ptr.Load()
 
 	return dest.RequestChannel(ctx, p, in)
 }
 
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	for _, inst := range m.instances {
 		inst.Close()
 	}
@@ -154,9 +156,13 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		return nil, err
 	}
 
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	// Close previously loaded instance.
 	existing, ok := m.instances[filename]
 	if ok {
+		m.forget(existing)
 		go func(inst *host.Instance) {
 			time.Sleep(5 * time.Second)
 			inst.Close()
@@ -173,6 +179,17 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 	return inst, nil
 }
 
+// forget drops the unsatisfied imports of an instance which is replaced.
+func (m *Mesh) forget(inst *host.Instance) {
+	filtered := m.unsatisfied[:0]
+	for _, u := range m.unsatisfied {
+		if u.instance != inst {
+			filtered = append(filtered, u)
+		}
+	}
+	m.unsatisfied = filtered
+}
+
 func (m *Mesh) linkOperations(inst *host.Instance) {
 	opers := inst.Operations()
 	headerFmt := color.New(color.FgGreen, color.Underline).SprintfFunc()
@@ -191,15 +208,11 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 
 		switch op.Direction {
 		case operations.Export:
-			ns, ok := m.exports[op.Namespace]
-			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
-				m.exports[op.Namespace] = ns
-			}
-			ptr, ok := ns[op.Operation]
+			key := export{op.Namespace, op.Operation, op.Type}
+			ptr, ok := m.exports[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				m.exports[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -235,59 +248,59 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 }
 
 func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
-	ns, ok := m.exports[op.Namespace]
-	if !ok {
-		return false
-	}
-
-	ptr, ok := ns[op.Operation]
+	ptr, ok := m.exports[export{op.Namespace, op.Operation, op.Type}]
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The destination changes when its module is loaded again.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
 }
 
+// address returns p with the operation's index in its metadata. The caller's
+// metadata is left alone, it might be used for other requests.
+func (d *destination) address(p payload.Payload) payload.Payload {
+	n := len(p.Metadata())
+	if n < 8 {
+		n = 8 // the operation and the parent stream
+	}
+	md := make([]byte, n)
+	copy(md, p.Metadata())
+	binary.BigEndian.PutUint32(md, d.index)
+	return payload.New(p.Data(), md)
+}
+
 func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestResponse(ctx, p)
+	return d.instance.RequestResponse(ctx, d.address(p))
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	d.instance.FireAndForget(ctx, p)
+	d.instance.FireAndForget(ctx, d.address(p))
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestStream(ctx, p)
+	return d.instance.RequestStream(ctx, d.address(p))
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestChannel(ctx, p, in)
+	return d.instance.RequestChannel(ctx, d.address(p), in)
 }
-- 
2.43.0


From 1ecb19944f7295cc0c165dfba888feb11da55bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 50/72] fix: instantiate wasm modules repeatedly, and release
 their guests once closed

---
 go/transport/wasmrs/host/host.go     | 15 +++++++++++++--
 go/transport/wasmrs/host/instance.go |  3 +++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/go/transport/wasmrs/host/host.go b/go/transport/wasmrs/host/host.go
index 455d0e1..81bb0ef 100644
--- a/go/transport/wasmrs/host/host.go
+++ b/go/transport/wasmrs/host/host.go
@@ -3,6 +3,8 @@ package host
 import (
 	"context"
 	"os"
+	"strconv"
+	"sync/atomic"
 
 	"github.com/tetratelabs/wazero"
 	"github.com/tetratelabs/wazero/api"
@@ -27,6 +29,9 @@ type Module struct {
 	module wazero.CompiledModule
 }
 
+// instances counts the instances, whose names have to be unique.
+var instances uint64
+
 func New(ctx context.Context) (*Host, error) {
 	rc := wazero.NewRuntimeConfig().WithCoreFeatures(api.CoreFeaturesV2)
 	r := wazero.NewRuntimeWithConfig(ctx, rc)
@@ -74,12 +79,18 @@ func (h *Host) Compile(ctx context.Context, source []byte) (*Module, error) {
 }
 
 func (m *Module) Instantiate(ctx context.Context) (*Instance, error) {
-	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName("test"))
+	name := "guest" + strconv.FormatUint(atomic.AddUint64(&instances, 1), 10)
+	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName(name))
 	if err != nil {
 		return nil, err
 	}
 
-	return NewInstance(ctx, module)
+	i, err := NewInstance(ctx, module)
+	if err != nil {
+		_ = module.Close(ctx)
+		return nil, err
+	}
+	return i, nil
 }
 
 func instantiateWasmrs(ctx context.Context, r wazero.Runtime) (api.Closer, error) {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 6832000..fcd6937 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -252,6 +252,9 @@ func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
 }
 
 func (i *Instance) sendLoop() {
+	// Nothing calls the guest any more.
+	defer i.m.Close(i.ctx)
+
 	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 	var buf []byte
-- 
2.43.0


From b1928a4908b40ceed40aa18ee51779cacba7df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 51/72] fix: rust: refuse malformed frames instead of panicking

Frame::decode panicked on frames which end before their fields do and on
unknown or unsupported frame types.
---
 rust/crates/wasmrs/src/error.rs                     |  6 ++++++
 rust/crates/wasmrs/src/frames/f_cancel.rs           |  3 ++-
 rust/crates/wasmrs/src/frames/f_error.rs            |  6 +++---
 rust/crates/wasmrs/src/frames/f_payload.rs          |  8 ++++----
 rust/crates/wasmrs/src/frames/f_request_channel.rs  |  3 ++-
 rust/crates/wasmrs/src/frames/f_request_fnf.rs      |  3 ++-
 rust/crates/wasmrs/src/frames/f_request_n.rs        |  6 +++---
 rust/crates/wasmrs/src/frames/f_request_response.rs |  3 ++-
 rust/crates/wasmrs/src/frames/f_request_stream.rs   |  3 ++-
 rust/crates/wasmrs/src/frames/header.rs             |  8 ++++++--
 rust/crates/wasmrs/src/frames/mod.rs                | 12 +++++-------
 rust/crates/wasmrs/src/frames/request_payload.rs    |  8 ++++----
 rust/crates/wasmrs/src/util.rs                      | 10 ++++++++++
 13 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/rust/crates/wasmrs/src/error.rs b/rust/crates/wasmrs/src/error.rs
index 73916c5..977fecf 100644
--- a/rust/crates/wasmrs/src/error.rs
+++ b/rust/crates/wasmrs/src/error.rs
@@ -10,6 +10,10 @@ pub enum Error {
   OpList(String),
   /// A generic RSocket error.
   RSocket(u32),
+  /// The bytes of a frame end before its fields do.
+  FrameTooShort,
+  /// The frame's type is unknown or not supported.
+  UnsupportedFrame,
   /// Used when the receiver for a [crate::WasmSocket] has already been taken.
   ReceiverAlreadyGone,
   /// Variant used when a frame is treated as the wrong type.
@@ -26,6 +30,8 @@ impl std::fmt::Display for Error {
     match self {
       Error::RSocket(code) => f.write_str((Into::<u32>::into(*code)).to_string().as_str()),
       Error::OpList(msg) => f.write_str(msg),
+      Error::FrameTooShort => f.write_str("Frame is too short"),
+      Error::UnsupportedFrame => f.write_str("Frame type is unknown or not supported"),
       Error::ReceiverAlreadyGone => f.write_str("Received already taken"),
       Error::WrongType => f.write_str("Tried to decode frame with wrong frame decoder"),
       Error::StringConversion => f.write_str("Could not read string bytes"),
diff --git a/rust/crates/wasmrs/src/frames/f_cancel.rs b/rust/crates/wasmrs/src/frames/f_cancel.rs
index e378cbc..b0586a1 100644
--- a/rust/crates/wasmrs/src/frames/f_cancel.rs
+++ b/rust/crates/wasmrs/src/frames/f_cancel.rs
@@ -1,6 +1,7 @@
 use bytes::Bytes;
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
+use crate::util::take_bytes;
 use crate::Frame;
 
 #[derive(Clone, Copy)]
@@ -19,7 +20,7 @@ impl RSocketFrame<Cancel> for Cancel {
   }
 
   fn decode_all(mut buffer: Bytes) -> Result<Self, Error> {
-    let header = FrameHeader::from_bytes(buffer.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take_bytes(&mut buffer, Frame::LEN_HEADER)?);
     Self::decode_frame(&header, buffer)
   }
 
diff --git a/rust/crates/wasmrs/src/frames/f_error.rs b/rust/crates/wasmrs/src/frames/f_error.rs
index 4cfbbdd..b66de1a 100644
--- a/rust/crates/wasmrs/src/frames/f_error.rs
+++ b/rust/crates/wasmrs/src/frames/f_error.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take_bytes};
 use crate::Frame;
 
 #[derive()]
@@ -24,7 +24,7 @@ impl RSocketFrame<ErrorFrame> for ErrorFrame {
   }
 
   fn decode_all(mut buffer: Bytes) -> Result<Self, Error> {
-    let header = FrameHeader::from_bytes(buffer.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take_bytes(&mut buffer, Frame::LEN_HEADER)?);
     Self::decode_frame(&header, buffer)
   }
 
@@ -33,7 +33,7 @@ impl RSocketFrame<ErrorFrame> for ErrorFrame {
 
     Ok(ErrorFrame {
       stream_id: header.stream_id(),
-      code: from_u32_bytes(&buffer.split_to(4)),
+      code: from_u32_bytes(&take_bytes(&mut buffer, 4)?),
       data: String::from_utf8(buffer.to_vec()).map_err(|_| crate::Error::StringConversion)?,
     })
   }
diff --git a/rust/crates/wasmrs/src/frames/f_payload.rs b/rust/crates/wasmrs/src/frames/f_payload.rs
index 9b021f5..cf047ba 100644
--- a/rust/crates/wasmrs/src/frames/f_payload.rs
+++ b/rust/crates/wasmrs/src/frames/f_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags, RSocketFrame};
-use crate::util::{from_u24_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, take_bytes, to_u24_bytes};
 use crate::{Frame, Payload};
 
 /// A Payload frame.
@@ -44,7 +44,7 @@ impl RSocketFrame<PayloadFrame> for PayloadFrame {
   }
 
   fn decode_all(mut buffer: Bytes) -> Result<Self, Error> {
-    let header = FrameHeader::from_bytes(buffer.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take_bytes(&mut buffer, Frame::LEN_HEADER)?);
     Self::decode_frame(&header, buffer)
   }
 
@@ -52,8 +52,8 @@ impl RSocketFrame<PayloadFrame> for PayloadFrame {
     Self::check_type(header)?;
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&take_bytes(&mut buffer, 3)?) as usize;
+      take_bytes(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/frames/f_request_channel.rs b/rust/crates/wasmrs/src/frames/f_request_channel.rs
index c5c4fc5..81e958c 100644
--- a/rust/crates/wasmrs/src/frames/f_request_channel.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_channel.rs
@@ -1,6 +1,7 @@
 use bytes::Bytes;
 
 use super::{request_payload::RequestPayload, Error, FrameFlags, FrameHeader, FrameType, RSocketFrame};
+use crate::util::take_bytes;
 use crate::{Frame, Payload};
 
 #[cfg_attr(not(target = "wasm32-unknown-unknown"), derive(Debug))]
@@ -28,7 +29,7 @@ impl RSocketFrame<RequestChannel> for RequestChannel {
   }
 
   fn decode_all(mut buffer: Bytes) -> Result<Self, Error> {
-    let header = FrameHeader::from_bytes(buffer.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take_bytes(&mut buffer, Frame::LEN_HEADER)?);
     Self::decode_frame(&header, buffer)
   }
 
diff --git a/rust/crates/wasmrs/src/frames/f_request_fnf.rs b/rust/crates/wasmrs/src/frames/f_request_fnf.rs
index b27e822..2f8f918 100644
--- a/rust/crates/wasmrs/src/frames/f_request_fnf.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_fnf.rs
@@ -1,6 +1,7 @@
 use bytes::Bytes;
 
 use super::{request_payload::RequestPayload, Error, FrameFlags, FrameHeader, FrameType, RSocketFrame};
+use crate::util::take_bytes;
 use crate::{Frame, Payload};
 
 #[cfg_attr(not(target = "wasm32-unknown-unknown"), derive(Debug))]
@@ -28,7 +29,7 @@ impl RSocketFrame<RequestFnF> for RequestFnF {
   }
 
   fn decode_all(mut buffer: Bytes) -> Result<Self, Error> {
-    let header = FrameHeader::from_bytes(buffer.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take_bytes(&mut buffer, Frame::LEN_HEADER)?);
     Self::decode_frame(&header, buffer)
   }
 
diff --git a/rust/crates/wasmrs/src/frames/f_request_n.rs b/rust/crates/wasmrs/src/frames/f_request_n.rs
index b588f68..edc2ea9 100644
--- a/rust/crates/wasmrs/src/frames/f_request_n.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_n.rs
@@ -1,7 +1,7 @@
 use bytes::Bytes;
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take_bytes};
 use crate::Frame;
 
 #[derive(Clone, Copy)]
@@ -23,7 +23,7 @@ impl RSocketFrame<RequestN> for RequestN {
   }
 
   fn decode_all(mut buffer: Bytes) -> Result<Self, Error> {
-    let header = FrameHeader::from_bytes(buffer.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take_bytes(&mut buffer, Frame::LEN_HEADER)?);
     Self::decode_frame(&header, buffer)
   }
 
@@ -31,7 +31,7 @@ impl RSocketFrame<RequestN> for RequestN {
     Self::check_type(header)?;
     Ok(RequestN {
       stream_id: header.stream_id(),
-      n: from_u32_bytes(&buffer.split_to(4)),
+      n: from_u32_bytes(&take_bytes(&mut buffer, 4)?),
     })
   }
 
diff --git a/rust/crates/wasmrs/src/frames/f_request_response.rs b/rust/crates/wasmrs/src/frames/f_request_response.rs
index d3eed66..115f56b 100644
--- a/rust/crates/wasmrs/src/frames/f_request_response.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_response.rs
@@ -1,6 +1,7 @@
 use bytes::Bytes;
 
 use super::{request_payload::RequestPayload, Error, FrameFlags, FrameHeader, FrameType, RSocketFrame};
+use crate::util::take_bytes;
 use crate::{Frame, Payload};
 
 #[cfg_attr(not(target = "wasm32-unknown-unknown"), derive(Debug))]
@@ -28,7 +29,7 @@ impl RSocketFrame<RequestResponse> for RequestResponse {
   }
 
   fn decode_all(mut buffer: Bytes) -> Result<Self, Error> {
-    let header = FrameHeader::from_bytes(buffer.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take_bytes(&mut buffer, Frame::LEN_HEADER)?);
     Self::decode_frame(&header, buffer)
   }
 
diff --git a/rust/crates/wasmrs/src/frames/f_request_stream.rs b/rust/crates/wasmrs/src/frames/f_request_stream.rs
index 8aa6225..c84aa72 100644
--- a/rust/crates/wasmrs/src/frames/f_request_stream.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_stream.rs
@@ -1,6 +1,7 @@
 use bytes::Bytes;
 
 use super::{request_payload::RequestPayload, Error, FrameFlags, FrameHeader, FrameType, RSocketFrame};
+use crate::util::take_bytes;
 use crate::{Frame, Payload};
 
 #[cfg_attr(not(target = "wasm32-unknown-unknown"), derive(Debug))]
@@ -28,7 +29,7 @@ impl RSocketFrame<RequestStream> for RequestStream {
   }
 
   fn decode_all(mut buffer: Bytes) -> Result<Self, Error> {
-    let header = FrameHeader::from_bytes(buffer.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take_bytes(&mut buffer, Frame::LEN_HEADER)?);
     Self::decode_frame(&header, buffer)
   }
 
diff --git a/rust/crates/wasmrs/src/frames/header.rs b/rust/crates/wasmrs/src/frames/header.rs
index 7fa2db7..9161d84 100644
--- a/rust/crates/wasmrs/src/frames/header.rs
+++ b/rust/crates/wasmrs/src/frames/header.rs
@@ -1,6 +1,6 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
-use super::{FrameFlags, FrameHeader, FrameType};
+use super::{Error, FrameFlags, FrameHeader, FrameType};
 use crate::util::from_u16_bytes;
 use crate::Frame;
 
@@ -42,8 +42,12 @@ impl FrameHeader {
   }
 
   pub(crate) fn frame_type(&self) -> FrameType {
+    self.try_frame_type().unwrap()
+  }
+
+  pub(crate) fn try_frame_type(&self) -> Result<FrameType, Error> {
     let id: u8 = self.header[4] >> 2;
-    id.try_into().unwrap()
+    id.try_into().map_err(|_| Error::UnsupportedFrame)
   }
 
   pub(crate) fn check(&self, flag: FrameFlags) -> bool {
diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index 3c2bd0b..0befc18 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -12,7 +12,7 @@ pub(crate) mod request_payload;
 
 use bytes::Bytes;
 
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take_bytes};
 use crate::Error;
 
 use self::f_cancel::Cancel;
@@ -390,15 +390,14 @@ impl Frame {
 
   /// Decode [Bytes] into a [Frame].
   pub fn decode(mut bytes: Bytes) -> Result<Frame, (u32, Error)> {
-    let header = FrameHeader::from_bytes(bytes.split_to(Frame::LEN_HEADER));
+    let header = take_bytes(&mut bytes, Frame::LEN_HEADER).map_err(|e| (0, e))?;
+    let header = FrameHeader::from_bytes(header);
     let stream_id = header.stream_id();
     Self::_decode(header, bytes).map_err(|e| (stream_id, e))
   }
 
   pub(crate) fn _decode(header: FrameHeader, buffer: Bytes) -> Result<Frame, Error> {
-    let frame = match header.frame_type() {
-      FrameType::Reserved => todo!(),
-      FrameType::Setup => todo!(),
+    let frame = match header.try_frame_type()? {
       FrameType::RequestResponse => {
         Frame::RequestResponse(f_request_response::RequestResponse::decode_frame(&header, buffer)?)
       }
@@ -413,8 +412,7 @@ impl Frame {
       }),
       FrameType::Payload => Frame::PayloadFrame(f_payload::PayloadFrame::decode_frame(&header, buffer)?),
       FrameType::Err => Frame::ErrorFrame(f_error::ErrorFrame::decode_frame(&header, buffer)?),
-      FrameType::Ext => todo!(),
-      _ => unreachable!(),
+      _ => return Err(Error::UnsupportedFrame),
     };
     Ok(frame)
   }
diff --git a/rust/crates/wasmrs/src/frames/request_payload.rs b/rust/crates/wasmrs/src/frames/request_payload.rs
index 034744d..c6e0b89 100644
--- a/rust/crates/wasmrs/src/frames/request_payload.rs
+++ b/rust/crates/wasmrs/src/frames/request_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags};
-use crate::util::{from_u24_bytes, from_u32_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, from_u32_bytes, take_bytes, to_u24_bytes};
 use crate::{Frame, Payload};
 
 #[derive()]
@@ -57,14 +57,14 @@ impl RequestPayload {
     let frame_type = header.frame_type();
 
     let initial_n = if Self::is_multi(frame_type) {
-      from_u32_bytes(&buffer.split_to(4))
+      from_u32_bytes(&take_bytes(&mut buffer, 4)?)
     } else {
       0
     };
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&take_bytes(&mut buffer, 3)?) as usize;
+      take_bytes(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/util.rs b/rust/crates/wasmrs/src/util.rs
index 21ea618..4a9a71b 100644
--- a/rust/crates/wasmrs/src/util.rs
+++ b/rust/crates/wasmrs/src/util.rs
@@ -2,6 +2,16 @@ use std::io::Read;
 
 use bytes::{BufMut, Bytes, BytesMut};
 
+use crate::Error;
+
+/// Split the next `len` bytes off a frame, or fail if the frame ends before.
+pub(crate) fn take_bytes(buffer: &mut Bytes, len: usize) -> Result<Bytes, Error> {
+  if buffer.len() < len {
+    return Err(Error::FrameTooShort);
+  }
+  Ok(buffer.split_to(len))
+}
+
 #[must_use]
 pub(crate) fn from_u32_bytes(bytes: &[u8]) -> u32 {
   assert!(bytes.len() == 4, "Need 4 bytes to convert to u32");
-- 
2.43.0


From 98ad94552cdbfdb073978569c8e7f7eda45e714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 52/72] fix: rust: refuse malformed operation lists, skip
 reserved bytes

OperationList::decode panicked on truncated lists and on unknown operation
types, and read the reserved bytes of an entry as the next entry.
---
 rust/crates/wasmrs/src/operations.rs | 38 +++++++++++++++++++---------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/rust/crates/wasmrs/src/operations.rs b/rust/crates/wasmrs/src/operations.rs
index e4d5567..5afe0d8 100644
--- a/rust/crates/wasmrs/src/operations.rs
+++ b/rust/crates/wasmrs/src/operations.rs
@@ -77,6 +77,8 @@ pub enum Error {
   Magic,
   Version,
   Utf8String,
+  Truncated,
+  OperationType,
 }
 
 impl std::error::Error for Error {}
@@ -86,6 +88,8 @@ impl std::fmt::Display for Error {
       Error::Magic => "Bad magic bytes",
       Error::Version => "Bad version",
       Error::Utf8String => "Could not convert bytes to UTF-8 String",
+      Error::Truncated => "Operation list is truncated",
+      Error::OperationType => "Bad operation type",
     })
   }
 }
@@ -203,11 +207,11 @@ impl OperationList {
 
   /// Decode bytes into an Operation List.
   pub fn decode(mut buf: Bytes) -> Result<Self, Error> {
-    let magic = buf.split_to(4);
+    let magic = take(&mut buf, 4)?;
     if magic != WASMRS_MAGIC.as_slice() {
       return Err(Error::Magic);
     }
-    let version = from_u16_bytes(&buf.split_to(2));
+    let version = from_u16_bytes(&take(&mut buf, 2)?);
     match version {
       1 => Self::decode_v1(buf),
       _ => Err(Error::Version),
@@ -215,19 +219,22 @@ impl OperationList {
   }
 
   fn decode_v1(mut buf: Bytes) -> Result<Self, Error> {
-    let num_ops = from_u32_bytes(&buf.split_to(4));
+    let num_ops = from_u32_bytes(&take(&mut buf, 4)?);
     let mut imports = Vec::new();
     let mut exports = Vec::new();
     for _ in 0..num_ops {
-      let kind = buf.split_to(1)[0];
-      let kind: OperationType = kind.into();
-      let dir = buf.split_to(1)[0];
-      let index = from_u32_bytes(&buf.split_to(4));
-      let ns_len = from_u16_bytes(&buf.split_to(2));
-      let namespace = String::from_utf8(buf.split_to(ns_len as _).to_vec())?;
-      let op_len = from_u16_bytes(&buf.split_to(2));
-      let operation = String::from_utf8(buf.split_to(op_len as _).to_vec())?;
-      let _reserved_len = from_u16_bytes(&buf.split_to(2));
+      let kind: OperationType = match take(&mut buf, 1)?[0] {
+        kind @ 1..=4 => kind.into(),
+        _ => return Err(Error::OperationType),
+      };
+      let dir = take(&mut buf, 1)?[0];
+      let index = from_u32_bytes(&take(&mut buf, 4)?);
+      let ns_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let namespace = String::from_utf8(take(&mut buf, ns_len as _)?.to_vec())?;
+      let op_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let operation = String::from_utf8(take(&mut buf, op_len as _)?.to_vec())?;
+      let reserved_len = from_u16_bytes(&take(&mut buf, 2)?);
+      take(&mut buf, reserved_len as _)?;
       let op = Operation {
         index,
         kind,
@@ -243,3 +250,10 @@ impl OperationList {
     Ok(Self { imports, exports })
   }
 }
+
+fn take(buf: &mut Bytes, len: usize) -> Result<Bytes, Error> {
+  if buf.len() < len {
+    return Err(Error::Truncated);
+  }
+  Ok(buf.split_to(len))
+}
-- 
2.43.0


From 13d2b69a8945bf1b4bf8b29e92848bb39145717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 53/72] fix: rust: parse_metadata refuses metadata without an
 operation index

Payload::parse_metadata panicked on metadata shorter than four bytes, which
includes the empty metadata every payload frame without metadata has.
---
 rust/crates/wasmrs/src/frames/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index 0befc18..d1f371f 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -301,6 +301,9 @@ impl Payload {
       return Err(crate::Error::MetadataNotFound);
     }
     let bytes = self.metadata.as_ref().unwrap();
+    if bytes.len() < 4 {
+      return Err(crate::Error::MetadataNotFound);
+    }
     let index = from_u32_bytes(&bytes[0..4]);
 
     Ok(Metadata { index })
-- 
2.43.0


From b7b53d0e829da196e18e574ef4a0a651ea05d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 54/72] fix: rust: request-response frames without metadata do
 not claim to have some

The metadata flag was set for every request-response frame although no
metadata length follows when the metadata is empty.
---
 rust/crates/wasmrs/src/frames/f_request_response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/frames/f_request_response.rs b/rust/crates/wasmrs/src/frames/f_request_response.rs
index 115f56b..c05a4d4 100644
--- a/rust/crates/wasmrs/src/frames/f_request_response.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_response.rs
@@ -43,7 +43,7 @@ impl RSocketFrame<RequestResponse> for RequestResponse {
   }
 
   fn gen_header(&self) -> FrameHeader {
-    FrameHeader::new(self.0.stream_id, FrameType::RequestResponse, Frame::FLAG_METADATA)
+    self.0.gen_header()
   }
 
   fn get_flag(&self) -> FrameFlags {
-- 
2.43.0


From 79d1bca88a65d0f9ff12833b6ba2638785627f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 55/72] fix: rust: an abandoned receive does not lose the rest
 of a Flux

The future of recv() took the channel out of the FluxReceiver and put it back
only after an item had arrived, so that dropping it (a timeout, a select) made
every later receive fail.
---
 rust/crates/wasmrs-rx/src/flux/receiver.rs | 33 ++++++++++++++++------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/rust/crates/wasmrs-rx/src/flux/receiver.rs b/rust/crates/wasmrs-rx/src/flux/receiver.rs
index 52a6d9f..64e930e 100644
--- a/rust/crates/wasmrs-rx/src/flux/receiver.rs
+++ b/rust/crates/wasmrs-rx/src/flux/receiver.rs
@@ -67,15 +67,11 @@ where
     Err: ConditionallySafe,
     Item: ConditionallySafe,
   {
-    let root_rx = self.rx.clone();
-    let opt = root_rx.take();
+    let slot = self.rx.clone();
+    let mut taken = Taken { rx: slot.take(), slot };
     Box::pin(async move {
-      match opt {
-        Some(mut rx) => {
-          let signal = rx.recv().await;
-          root_rx.insert(rx);
-          Ok(signal_into_result(signal))
-        }
+      match taken.rx.as_mut() {
+        Some(rx) => Ok(signal_into_result(rx.recv().await)),
         None => Err(Error::RecvFailed(0)),
       }
     })
@@ -106,6 +102,27 @@ where
   }
 }
 
+/// The channel a pending receive took out of its [FluxReceiver]. It goes back when the receive ends, also when it is
+/// dropped before.
+struct Taken<T>
+where
+  T: ConditionallySafe,
+{
+  rx: Option<UnboundedReceiver<T>>,
+  slot: OptionalMut<UnboundedReceiver<T>>,
+}
+
+impl<T> Drop for Taken<T>
+where
+  T: ConditionallySafe,
+{
+  fn drop(&mut self) {
+    if let Some(rx) = self.rx.take() {
+      self.slot.insert(rx);
+    }
+  }
+}
+
 impl<Item, Err> Stream for FluxReceiver<Item, Err>
 where
   Item: ConditionallySafe,
-- 
2.43.0


From f09aadfe6509dbd1f482a08bd419377a6ffed572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 56/72] fix: rust: an error or a cancellation for a caller
 which is gone is no panic

Error and cancel frames panicked when the caller had dropped its receiver.
---
 rust/crates/wasmrs/src/socket.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 736e656..8b2fbb8 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -329,7 +329,7 @@ impl WasmSocket {
       let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(_) => {
           // stream cancelled. Take no action besides removing the handler.
@@ -347,13 +347,13 @@ impl WasmSocket {
       let e = PayloadError::new(code, message);
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
         Handler::ReqRC(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
       }
     }
-- 
2.43.0


From 64cb447330238e8fabf5a21a34570913d551d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 57/72] fix: rust: a RequestN frame does not fail the stream it
 belongs to

Only channels this side opened take RequestN frames into account. For every
other stream the socket answered with an error frame, which ended a stream it
was serving as soon as its consumer asked for more.
---
 rust/crates/wasmrs/src/socket.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 8b2fbb8..f501343 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -270,7 +270,8 @@ impl WasmSocket {
         };
       }
       None => {
-        send_app_error(&tx, sid, "RequestN called for missing Stream ID");
+        // A stream this side serves, which is not paced, or one which has ended.
+        trace!(sid, side = %self.side, "RequestN without effect");
       }
     }
   }
-- 
2.43.0


From ba0e356c479be0092719e000fd7358155d5db258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 58/72] fix: rust: request_stream asks for items

The initial demand of a stream request was 0 and no RequestN frame followed, so
that a responder which honours demand never sent anything.
---
 rust/crates/wasmrs/src/socket.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index f501343..2883396 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -1,4 +1,5 @@
 #![allow(missing_debug_implementations)]
+use crate::frames::f_request_stream::RequestStream;
 use crate::frames::{ErrorCode, FrameFlags, RSocketFlags};
 use crate::{Frame, PayloadError, RSocket};
 use wasmrs_runtime::{self as runtime, unbounded_channel, Entry, SafeMap, UnboundedReceiver, UnboundedSender};
@@ -393,7 +394,7 @@ impl RSocket for WasmSocket {
 
     self.register_handler(sid, Handler::ReqRS(flux));
 
-    let sending = Frame::new_request_stream(sid, payload, 0);
+    let sending = Frame::RequestStream(RequestStream::from_payload(sid, payload, 0, Frame::REQUEST_MAX));
     send(&self.tx, sending);
 
     output
-- 
2.43.0


From d6b3465e6c53bcad8a8ee38ee94ace16a7d6aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 59/72] fix: rust: nothing follows the error of a served stream
 or channel

The responder sent items which came after an error and a completion after the
error frame.
---
 rust/crates/wasmrs/src/socket.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 2883396..6f6969f 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -200,7 +200,11 @@ impl WasmSocket {
       while let Some(next) = payloads.next().await {
         match next {
           Ok(it) => send_payload(&tx, sid, it, Frame::FLAG_NEXT),
-          Err(e) => send_app_error(&tx, sid, e.to_string()),
+          Err(e) => {
+            abort_handles.remove(&sid);
+            send_app_error(&tx, sid, e.to_string());
+            return;
+          }
         };
       }
       abort_handles.remove(&sid);
@@ -230,11 +234,14 @@ impl WasmSocket {
       send(&tx, request_n);
 
       while let Some(next) = outputs.next().await {
-        let sending = match next {
-          Ok(payload) => Frame::new_payload(sid, payload, Frame::FLAG_NEXT),
-          Err(e) => Frame::new_error(sid, ErrorCode::ApplicationError.into(), e.to_string()),
+        match next {
+          Ok(payload) => send_payload(&tx, sid, payload, Frame::FLAG_NEXT),
+          Err(e) => {
+            abort_handles.remove(&sid);
+            send_app_error(&tx, sid, e.to_string());
+            return;
+          }
         };
-        send(&tx, sending);
       }
       abort_handles.remove(&sid);
       let complete = Frame::new_payload(sid, Payload::empty(), Frame::FLAG_COMPLETE);
-- 
2.43.0


From e5922b8303090ca1c1948a51534a83253ffcb771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 60/72] fix: rust: a cancelled stream ends

The abort handles of served streams and channels were recorded and never used:
a responder went on with a stream its caller had cancelled. A caller which had
dropped its stream answered every further item with another cancel frame. And a
responder which had dropped the input of a channel thereby cut off its own
output at the caller.
---
 rust/crates/wasmrs/src/socket.rs | 56 +++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 6f6969f..dbdec7e 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -98,6 +98,11 @@ impl WasmSocket {
     self.stream_index.fetch_add(2, Ordering::SeqCst)
   }
 
+  /// Whether this side opened the stream.
+  fn is_own(&self, stream_id: u32) -> bool {
+    stream_id & 1 == self.stream_index.load(Ordering::SeqCst) & 1
+  }
+
   /// Register a handler for a stream.
   pub fn register_handler(&self, stream_id: u32, handler: Handler) {
     self.handlers.insert(stream_id, handler);
@@ -193,9 +198,9 @@ impl WasmSocket {
     let responder = self.responder.clone();
     let tx = self.tx.clone();
     let abort_handles = self.abort_handles.clone();
+    let (abort_handle, abort_registration) = AbortHandle::new_pair();
+    abort_handles.insert(sid, abort_handle);
     runtime::spawn(async move {
-      let (abort_handle, abort_registration) = AbortHandle::new_pair();
-      abort_handles.insert(sid, abort_handle);
       let mut payloads = Abortable::new(responder.request_stream(input), abort_registration);
       while let Some(next) = payloads.next().await {
         match next {
@@ -208,7 +213,9 @@ impl WasmSocket {
         };
       }
       abort_handles.remove(&sid);
-      send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      if !payloads.is_aborted() {
+        send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      }
     });
   }
 
@@ -222,10 +229,10 @@ impl WasmSocket {
     handler_tx.send(first).unwrap();
     self.register_handler(sid, Handler::ReqRC(handler_tx));
     let abort_handles = self.abort_handles.clone();
+    let (abort_handle, abort_registration) = AbortHandle::new_pair();
+    abort_handles.insert(sid, abort_handle);
     runtime::spawn(async move {
       let outputs = responder.request_channel(handler_rx);
-      let (abort_handle, abort_registration) = AbortHandle::new_pair();
-      abort_handles.insert(sid, abort_handle);
       let mut outputs = Abortable::new(outputs, abort_registration);
 
       // TODO: support custom RequestN.
@@ -244,8 +251,9 @@ impl WasmSocket {
         };
       }
       abort_handles.remove(&sid);
-      let complete = Frame::new_payload(sid, Payload::empty(), Frame::FLAG_COMPLETE);
-      send(&tx, complete);
+      if !outputs.is_aborted() {
+        send_complete(&tx, sid, Frame::FLAG_COMPLETE);
+      }
     });
   }
 
@@ -298,29 +306,21 @@ impl WasmSocket {
           _ => unreachable!(),
         },
         Handler::ReqRS(sender) => {
-          if flag.flag_next() {
-            if sender.is_closed() {
-              send_cancel(&tx, sid);
-            } else if let Err(_e) = sender.send(input) {
-              println!("response successful payload for REQUEST_STREAM failed: sid={}", sid);
-              send_cancel(&tx, sid);
-            }
+          let closed = flag.flag_next() && sender.send(input).is_err();
+          if closed {
+            send_cancel(&tx, sid);
           }
-          if flag.flag_complete() {
+          if closed || flag.flag_complete() {
             trace!(sid, "removing stream");
             o.remove();
           }
         }
         Handler::ReqRC(sender) => {
-          if flag.flag_next() {
-            if sender.is_closed() {
-              send_cancel(&tx, sid);
-            } else if (sender.send(input)).is_err() {
-              println!("response successful payload for REQUEST_CHANNEL failed: sid={}", sid);
-              send_cancel(&tx, sid);
-            }
+          let closed = flag.flag_next() && sender.send(input).is_err();
+          if closed {
+            send_cancel(&tx, sid);
           }
-          if flag.flag_complete() {
+          if closed || flag.flag_complete() {
             trace!(sid, "removing channel");
             o.remove();
           }
@@ -334,6 +334,16 @@ impl WasmSocket {
 
   fn on_cancel(&self, sid: u32, _flag: FrameFlags) {
     trace!(sid, side = %self.side, "on_cancel");
+    if let Some(served) = self.abort_handles.remove(&sid) {
+      served.abort();
+    }
+    if let Entry::Occupied(o) = self.handlers.entry(sid) {
+      if self.is_own(sid) && matches!(o.get(), Handler::ReqRC(_)) {
+        // The peer takes no more input of a channel opened by this side, whose output goes on.
+        self.channels.remove(&sid);
+        return;
+      }
+    }
     if let Some(handler) = self.handlers.remove(&sid) {
       let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
       match handler {
-- 
2.43.0


From d8ca42d02edcab01cad04bed1829c903cd355013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 61/72] fix: rust: a channel request which is complete has no
 more input

The complete flag of a channel request was ignored, so that the handler waited
for input for ever.
---
 rust/crates/wasmrs/src/socket.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index dbdec7e..dae6386 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -144,7 +144,7 @@ impl WasmSocket {
       }
       Frame::RequestChannel(f) => {
         let input: Payload = f.into();
-        self.on_request_channel(stream_id, input);
+        self.on_request_channel(stream_id, flag, input);
       }
       Frame::PayloadFrame(f) => {
         let input: Payload = f.into();
@@ -219,7 +219,7 @@ impl WasmSocket {
     });
   }
 
-  fn on_request_channel(&self, sid: u32, first: Payload) {
+  fn on_request_channel(&self, sid: u32, flag: FrameFlags, first: Payload) {
     trace!(sid, side = %self.side, "on_request_channel");
     let responder = self.responder.clone();
 
@@ -227,7 +227,11 @@ impl WasmSocket {
     let (handler_tx, handler_rx) = Flux::new_channels();
 
     handler_tx.send(first).unwrap();
-    self.register_handler(sid, Handler::ReqRC(handler_tx));
+    if flag.flag_complete() {
+      handler_tx.complete();
+    } else {
+      self.register_handler(sid, Handler::ReqRC(handler_tx));
+    }
     let abort_handles = self.abort_handles.clone();
     let (abort_handle, abort_registration) = AbortHandle::new_pair();
     abort_handles.insert(sid, abort_handle);
-- 
2.43.0


From 4e567853ebe733388467c95f6738f6e9dc093fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 62/72] fix: rust: request_channel ends whatever its input does

A channel whose input ended or failed before its first item never ended for
the caller, one whose input ended exactly when the granted demand was used up
never completed its input, a failing input was reported without its error and
went on afterwards.
---
 rust/crates/wasmrs/src/socket.rs | 43 +++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index dae6386..eb6071e 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -431,35 +431,50 @@ impl RSocket for WasmSocket {
     let mut reqn_rx = self.register_channel(sid);
     let tx = self.tx.clone();
     let channels = self.channels.clone();
+    let handlers = self.handlers.clone();
 
     runtime::spawn(async move {
       let mut first = true;
-      let mut n = 1;
+      let mut n = 0;
       while let Some(next) = stream.next().await {
-        n -= 1;
         match next {
           Ok(payload) => {
             if first {
               first = false;
               send_channel(&tx, sid, payload, Frame::FLAG_NEXT);
-            } else {
-              send_payload(&tx, sid, payload, Frame::FLAG_NEXT);
+              continue;
             }
+            // If we've exhausted our requested n, wait for the next RequestN frame
+            if n == 0 {
+              if let Some(new_n) = reqn_rx.recv().await {
+                n = new_n;
+              } else {
+                break;
+              }
+            }
+            n -= 1;
+            send_payload(&tx, sid, payload, Frame::FLAG_NEXT);
           }
-          Err(_e) => {
-            send_app_error(&tx, sid, "REQUEST_CHANNEL failed");
-          }
-        }
-        // If we've exhausted our requested n, wait for the next RequestN frame
-        if n == 0 {
-          if let Some(new_n) = reqn_rx.recv().await {
-            n = new_n;
-          } else {
-            break;
+          Err(e) => {
+            channels.remove(&sid);
+            if first {
+              // The peer does not know of this channel.
+              if let Some(Handler::ReqRC(output)) = handlers.remove(&sid) {
+                let _ = output.error(e);
+              }
+            } else {
+              send_app_error(&tx, sid, e.to_string());
+            }
+            return;
           }
         }
       }
       channels.remove(&sid);
+      if first {
+        // There was nothing to open the channel with.
+        handlers.remove(&sid);
+        return;
+      }
       send_complete(&tx, sid, Frame::FLAG_COMPLETE);
     });
 
-- 
2.43.0


From 640117d8cd096bb7ce727b93274af777364c224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 63/72] fix: rust: guests open streams with odd ids and hosts
 with even ones, as in Go

A Rust guest under the Go host used the same ids as its host: payloads of
the one's requests were taken for those of the other's.
---
 rust/crates/wasmrs/src/socket.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index eb6071e..bf7fae7 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -68,8 +68,8 @@ impl WasmSocket {
   /// Create a new [WasmSocket] with the passed implementation of [RSocket].
   pub fn new(rsocket: impl RSocket + 'static, side: SocketSide) -> WasmSocket {
     let first_stream_id = match side {
-      SocketSide::Guest => 2,
-      SocketSide::Host => 1,
+      SocketSide::Guest => 1,
+      SocketSide::Host => 2,
     };
 
     let (snd_tx, snd_rx) = unbounded_channel::<Frame>();
-- 
2.43.0


From f5a0a709906afdb35003a995c4e72d18ed976a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 64/72] fix: rust: only the first payload of a channel tells
 the operation

Later payloads carry no metadata and failed the handler's input.
---
 rust/crates/wasmrs-guest/src/server.rs | 31 +++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/rust/crates/wasmrs-guest/src/server.rs b/rust/crates/wasmrs-guest/src/server.rs
index 2d99f85..14d39ab 100644
--- a/rust/crates/wasmrs-guest/src/server.rs
+++ b/rust/crates/wasmrs-guest/src/server.rs
@@ -2,7 +2,7 @@ use std::cell::UnsafeCell;
 use std::rc::Rc;
 
 use futures_util::StreamExt;
-use wasmrs::{Payload, PayloadError, RSocket};
+use wasmrs::{Metadata, Payload, PayloadError, RSocket};
 use wasmrs_runtime as runtime;
 use wasmrs_rx::*;
 
@@ -91,7 +91,7 @@ impl RSocket for WasmServer {
 
     runtime::spawn(async move {
       let (handler_input, handler_stream) = Flux::new_channels();
-      let mut handler_out = if let Some(result) = stream.next().await {
+      let (index, mut handler_out) = if let Some(result) = stream.next().await {
         let payload = flux_try!(tx, result);
 
         let metadata = flux_try!(tx, payload.parse_metadata());
@@ -100,11 +100,14 @@ impl RSocket for WasmServer {
           get_process_handler(&crate::guest::REQUEST_CHANNEL_HANDLERS, metadata.index as _,)
         );
 
-        handler_input.send(payload.try_into().unwrap()).unwrap();
-        flux_try!(
+        let index = metadata.index;
+        let data = payload.data.unwrap_or_default();
+        handler_input.send(ParsedPayload { metadata, data }).unwrap();
+        let output = flux_try!(
           tx,
           handler(handler_stream).map_err(|e| Error::HandlerFail(e.to_string()))
-        )
+        );
+        (index, output)
       } else {
         let _ = tx.error(PayloadError::application_error(
           "Can not initiate a channel with no payload",
@@ -113,15 +116,23 @@ impl RSocket for WasmServer {
       };
       runtime::spawn(async move {
         while let Some(payload) = handler_out.next().await {
-          let _ = tx.send_result(payload);
+          if tx.send_result(payload).is_err() {
+            // Nobody waits for the output any more.
+            return;
+          }
         }
         tx.complete();
       });
       while let Some(next) = stream.next().await {
-        let _ = handler_input.send_result(next.and_then(|v| {
-          v.try_into()
-            .map_err(|e: Error| PayloadError::application_error(e.to_string()))
-        }));
+        // Only the first payload of a channel tells the operation it is for.
+        let next = next.map(|payload| ParsedPayload {
+          metadata: Metadata::new(index),
+          data: payload.data.unwrap_or_default(),
+        });
+        if handler_input.send_result(next).is_err() {
+          // The handler takes no more input.
+          return;
+        }
       }
     });
 
-- 
2.43.0


From 20e449abe8040560ebae4ee1e450fc95cc1028ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 65/72] fix: rust: a guest's frame which does not fit the
 host's buffer fails its stream

The length prefix was not counted (a frame that fitted without it trapped
the guest), and larger frames were dropped silently, leaving both sides
waiting.
---
 rust/crates/wasmrs-guest/src/guest.rs | 35 +++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/rust/crates/wasmrs-guest/src/guest.rs b/rust/crates/wasmrs-guest/src/guest.rs
index 1be62d6..a4df0ec 100644
--- a/rust/crates/wasmrs-guest/src/guest.rs
+++ b/rust/crates/wasmrs-guest/src/guest.rs
@@ -4,7 +4,7 @@ use std::rc::Rc;
 use std::sync::atomic::{AtomicU32, Ordering};
 
 use wasmrs::util::to_u24_bytes;
-use wasmrs::SocketSide;
+use wasmrs::{ErrorCode, SocketSide};
 pub use wasmrs::{Frame, Metadata, OperationList, OperationType, Payload, PayloadError, RSocket};
 pub use wasmrs_runtime::spawn;
 use wasmrs_runtime::{exhaust_pool, UnboundedReceiver};
@@ -190,11 +190,30 @@ pub(crate) fn send_frame(read_until: u32) {
 fn spawn_writer(mut rx: UnboundedReceiver<Frame>) {
   spawn(async move {
     while let Some(frame) = rx.recv().await {
-      send_host_frame(vec![frame.encode()]);
+      let stream_id = frame.stream_id();
+      if !send_host_frame(vec![frame.encode()]).is_empty() {
+        fail_stream(stream_id);
+      }
     }
   });
 }
 
+/// A frame which does not fit the host's buffer fails its stream on both sides.
+fn fail_stream(stream_id: u32) {
+  let msg = "Frame exceeds the host's buffer";
+  send_error_frame(stream_id, ErrorCode::ApplicationError.into(), msg);
+  SOCKET.with(|cell| {
+    #[allow(unsafe_code)]
+    let socket = unsafe { &mut *cell.get() };
+    // Requests of the guest fail, those of the host are over.
+    let _ = socket.process_once(if stream_id % 2 == 1 {
+      Frame::new_error(stream_id, ErrorCode::ApplicationError.into(), msg)
+    } else {
+      Frame::new_cancel(stream_id)
+    });
+  });
+}
+
 fn read_frames(read_until: u32) -> Result<Vec<Bytes>, Error> {
   GUEST_BUFFER.with(|cell| {
     #[allow(unsafe_code)]
@@ -237,12 +256,12 @@ fn send_host_frame(mut payloads: Vec<Bytes>) -> Vec<Bytes> {
   let size = HOST_BUFFER.with(|cell| {
     #[allow(unsafe_code)]
     let buff = unsafe { &mut *cell.get() };
-    let max = buff.capacity();
+    let max = buff.len();
     let mut total = 0;
     let mut buff = Cursor::new(buff);
     while let Some(payload) = payloads.pop() {
       let len = payload.len() as u32;
-      if (total + len as usize) > max {
+      if (total + 3 + len as usize) > max {
         payloads.push(payload);
         break;
       }
@@ -252,9 +271,11 @@ fn send_host_frame(mut payloads: Vec<Bytes>) -> Vec<Bytes> {
     }
     total
   });
-  #[allow(unsafe_code)]
-  unsafe {
-    _host_wasmrs_send(size);
+  if size > 0 {
+    #[allow(unsafe_code)]
+    unsafe {
+      _host_wasmrs_send(size);
+    }
   }
   payloads
 }
-- 
2.43.0


From 96745101279f9d8dcc630a8032705ccbd1581798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 66/72] fix: an input whose error does not fit into a frame
 still ends with an error, and only with one

---
 go/proxy/flux.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 4414d57..06983b2 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -153,10 +153,19 @@ func (s *streamFlux) Request(n int) {
 				})
 			},
 			OnError: func(err error) {
-				s.sendFrame(&frames.Error{
+				if atomic.LoadInt32(&failed) != 0 {
+					return
+				}
+				if err := s.sendFrame(&frames.Error{
 					StreamID: s.request.StreamID,
 					Data:     err.Error(),
-				})
+				}); err != nil {
+					// The message is too large.
+					s.sendFrame(&frames.Error{
+						StreamID: s.request.StreamID,
+						Data:     err.Error(),
+					})
+				}
 			},
 			NoRequest: true,
 		})
-- 
2.43.0


From 7d0f06eb3e3fcb405d2ead8710bf14c345768e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 67/72] fix: nothing follows the error of a response with a
 payload that is too large

---
 go/handler/handler.go                | 14 ++++++++++++++
 go/transport/wasmrs/guest/guest.go   | 14 ++++++++++++++
 go/transport/wasmrs/host/instance.go | 14 ++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 5c4d434..e802a88 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
+	"sync/atomic"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -427,14 +428,21 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 // respond sends the payloads of f to the requester, as far as it asks for them.
 func (i *Handler) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 	streamID := s.StreamID()
+	var failed int32
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if atomic.LoadInt32(&failed) != 0 {
+				return
+			}
 			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			}); err != nil {
+				// Nothing may follow the error, even if f does not wait for
+				// its subscription and so cannot be cancelled yet.
+				atomic.StoreInt32(&failed, 1)
 				i.removeStream(streamID)
 				s.OnError(err)
 				s.OnCancel()
@@ -445,6 +453,9 @@ func (i *Handler) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 			}
 		},
 		OnComplete: func() {
+			if atomic.LoadInt32(&failed) != 0 {
+				return
+			}
 			i.endOutbound(streamID)
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
@@ -452,6 +463,9 @@ func (i *Handler) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 			})
 		},
 		OnError: func(err error) {
+			if atomic.LoadInt32(&failed) != 0 {
+				return
+			}
 			i.removeStream(streamID)
 			i.sendFrame(&frames.Error{
 				StreamID: streamID,
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 522dc9e..2402ef2 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"reflect"
 	"strconv"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -408,14 +409,21 @@ func handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadat
 // respond sends the payloads of f to the requester, as far as it asks for them.
 func respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 	streamID := s.StreamID()
+	var failed int32
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if atomic.LoadInt32(&failed) != 0 {
+				return
+			}
 			if err := doSendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			}); err != nil {
+				// Nothing may follow the error, even if f does not wait for
+				// its subscription and so cannot be cancelled yet.
+				atomic.StoreInt32(&failed, 1)
 				removeStream(streamID)
 				s.OnError(err)
 				s.OnCancel()
@@ -423,6 +431,9 @@ func respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 			}
 		},
 		OnComplete: func() {
+			if atomic.LoadInt32(&failed) != 0 {
+				return
+			}
 			endOutbound(streamID)
 			doSendFrame(&frames.Payload{
 				StreamID: streamID,
@@ -430,6 +441,9 @@ func respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 			})
 		},
 		OnError: func(err error) {
+			if atomic.LoadInt32(&failed) != 0 {
+				return
+			}
 			removeStream(streamID)
 			sendError(streamID, err.Error())
 		},
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index fcd6937..c65e6a4 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"sync"
+	"sync/atomic"
 
 	"github.com/tetratelabs/wazero/api"
 
@@ -686,14 +687,21 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 // respond sends the payloads of f to the requester, as far as it asks for them.
 func (i *Instance) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 	streamID := s.StreamID()
+	var failed int32
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if atomic.LoadInt32(&failed) != 0 {
+				return
+			}
 			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 			}); err != nil {
+				// Nothing may follow the error, even if f does not wait for
+				// its subscription and so cannot be cancelled yet.
+				atomic.StoreInt32(&failed, 1)
 				i.removeStream(streamID)
 				s.OnError(err)
 				s.OnCancel()
@@ -701,6 +709,9 @@ func (i *Instance) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 			}
 		},
 		OnComplete: func() {
+			if atomic.LoadInt32(&failed) != 0 {
+				return
+			}
 			i.endOutbound(streamID)
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
@@ -708,6 +719,9 @@ func (i *Instance) respond(s *proxy.Responder, f flux.Flux[payload.Payload]) {
 			})
 		},
 		OnError: func(err error) {
+			if atomic.LoadInt32(&failed) != 0 {
+				return
+			}
 			i.removeStream(streamID)
 			i.sendError(streamID, err.Error())
 		},
-- 
2.43.0


From e1edb835364ef610e1c91f0eaab68313b1977480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:57 +0000
Subject: [PATCH 68/72] fix: import in generated msgpack code what the code
 uses, and cast aliases of u8

The file imported time and aliased packages for return types and stream
parameters, which it does not mention, and not for the items of lists and maps
or the members of unions, whose types it writes out, so that the generated
code did not compile.
---
 codegen/src/tinygo/msgpack_constants.ts |  2 +-
 codegen/src/tinygo/msgpack_visitor.ts   | 48 +++++++++++++------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/codegen/src/tinygo/msgpack_constants.ts b/codegen/src/tinygo/msgpack_constants.ts
index 0d16ee8..c00d459 100644
--- a/codegen/src/tinygo/msgpack_constants.ts
+++ b/codegen/src/tinygo/msgpack_constants.ts
@@ -109,7 +109,7 @@ export const msgpackCastFuncs = new Map<string, string>([
   ["bool", "convert.Bool"],
   ["string", "convert.String"],
   ["i8", "convert.Numeric"],
-  ["u8", "convert.Numeric.Numerict8"],
+  ["u8", "convert.Numeric"],
   ["i16", "convert.Numeric"],
   ["u16", "convert.Numeric"],
   ["i32", "convert.Numeric"],
diff --git a/codegen/src/tinygo/msgpack_visitor.ts b/codegen/src/tinygo/msgpack_visitor.ts
index 5e392a6..189612c 100644
--- a/codegen/src/tinygo/msgpack_visitor.ts
+++ b/codegen/src/tinygo/msgpack_visitor.ts
@@ -110,24 +110,13 @@ export class MsgPackVisitor extends BaseVisitor {
 class ImportsVisitor extends BaseVisitor {
   imports: Set<string> = new Set();
 
-  visitFunction(context: Context): void {
-    const { operation } = context;
-    this.checkType(context, operation.type);
-  }
-
-  visitOperation(context: Context): void {
-    const { operation } = context;
-    this.checkType(context, operation.type);
-  }
-
   visitParameter(context: Context): void {
     const { operation, parameter } = context;
-    if (operation.unary) {
-      this.checkType(context, parameter.type);
-    } else {
-      // Fields in Args type
-      this.checkType(context, parameter.type, true);
+    if (operation.isUnary() || parameter.type.kind == Kind.Stream) {
+      return; // Not in an Args type
     }
+    // Fields in Args type
+    this.checkType(context, parameter.type, true);
   }
 
   visitTypeField(context: Context): void {
@@ -135,11 +124,19 @@ class ImportsVisitor extends BaseVisitor {
     this.checkType(context, field.type);
   }
 
-  checkType(context: Context, t: AnyType, argument = false): void {
+  visitUnion(context: Context): void {
+    const tr = context.getType.bind(context);
+    const type = convertUnionToType(tr, context.union);
+    type.fields.forEach((f) => this.checkType(context, f.type));
+  }
+
+  // The name of a type is written only if it is the type of an argument, or of
+  // the items of a list or map, which the decoder makes.
+  checkType(context: Context, t: AnyType, named = false): void {
     switch (t.kind) {
       case Kind.Primitive: {
         const p = t as Primitive;
-        if (argument && p.name == PrimitiveName.DateTime) {
+        if (named && p.name == PrimitiveName.DateTime) {
           this.imports.add("time");
         }
         break;
@@ -151,30 +148,35 @@ class ImportsVisitor extends BaseVisitor {
         const t2 = aliases[a.name];
         if (t2 && t2.import) {
           this.imports.add(t2.import);
+        } else if (a.type.kind == Kind.Map) {
+          // The decoder makes it by the name of the alias
+          const m = a.type as Map;
+          this.checkType(context, m.keyType);
+          this.checkType(context, m.valueType);
         } else {
-          this.checkType(context, a.type, argument);
+          this.checkType(context, a.type);
         }
         break;
       }
       case Kind.Stream: {
         const s = t as Stream;
-        this.checkType(context, s.type, argument);
+        this.checkType(context, s.type, named);
         break;
       }
       case Kind.Optional: {
         const o = t as Optional;
-        this.checkType(context, o.type, argument);
+        this.checkType(context, o.type, named);
         break;
       }
       case Kind.List: {
         const l = t as List;
-        this.checkType(context, l.type, argument);
+        this.checkType(context, l.type, true);
         break;
       }
       case Kind.Map: {
         const m = t as Map;
-        this.checkType(context, m.keyType, argument);
-        this.checkType(context, m.valueType, argument);
+        this.checkType(context, m.keyType, true);
+        this.checkType(context, m.valueType, true);
         break;
       }
     }
-- 
2.43.0


From acae0a78ad55c9d5b06db0a6780eed4ab0f310b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:57 +0000
Subject: [PATCH 69/72] fix: generated msgpack decoders allocate for the items
 there are

The announced size of a list or map is the sender's word: a payload of a few
bytes could make the decoder allocate gigabytes or panic.
---
 codegen/src/tinygo/msgpack_helpers.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/src/tinygo/msgpack_helpers.ts b/codegen/src/tinygo/msgpack_helpers.ts
index 54f67e2..e5cc03e 100644
--- a/codegen/src/tinygo/msgpack_helpers.ts
+++ b/codegen/src/tinygo/msgpack_helpers.ts
@@ -173,7 +173,7 @@ export function msgpackRead(
           true,
           tr,
         )
-      }, mapSize)\n`;
+      })\n`;
       mapCode += `for mapSize > 0 {
         mapSize--\n`;
       mapCode += msgpackRead(
@@ -227,7 +227,7 @@ export function msgpackRead(
           true,
           tr,
         )
-      }, 0, listSize)\n`;
+      }, 0)\n`;
       listCode += `for listSize > 0 {
         listSize--
         var nonNilItem ${(t as List).type.kind == Kind.Optional ? "*" : ""}${
-- 
2.43.0


From b35e877cdfcf8990eccc927d7e693303158bef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 70/72] fix: generated stubs for streams of objects and
 primitives compile, and import msgpack only for arguments

---
 codegen/src/tinygo/import_visitor.ts   | 10 ++++++++--
 codegen/src/tinygo/invokers_visitor.ts |  2 +-
 codegen/src/tinygo/wrappers_visitor.ts |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/codegen/src/tinygo/import_visitor.ts b/codegen/src/tinygo/import_visitor.ts
index aabe5ee..e759013 100644
--- a/codegen/src/tinygo/import_visitor.ts
+++ b/codegen/src/tinygo/import_visitor.ts
@@ -94,8 +94,10 @@ export class ImportBaseVisitor extends BaseVisitor {
       "github.com/nanobus/iota/go/proxy"\n`);
     sortedImports.forEach((i) => this.write(`"${i}"\n`));
     this.write(`"github.com/nanobus/iota/go/transform"\n`);
-    this.write(`"github.com/nanobus/iota/go/msgpack"
-    )\n\n`);
+    if (importVisitor.hasArguments) {
+      this.write(`"github.com/nanobus/iota/go/msgpack"\n`);
+    }
+    this.write(`)\n\n`);
 
     const importedFuncs = Object.values(ns.functions).filter((f) =>
       isProvider(context.clone({ operation: f }))
@@ -246,6 +248,7 @@ class ProviderNewVisitor extends BaseVisitor {
 class ImportsVisitor extends BaseVisitor {
   stdLibs: Set<string> = new Set();
   imports: Set<string> = new Set();
+  hasArguments = false;
   private filter: (context: Context) => boolean;
 
   constructor(writer: Writer, filter: (context: Context) => boolean) {
@@ -262,6 +265,9 @@ class ImportsVisitor extends BaseVisitor {
       return;
     }
     const { operation } = context;
+    if (getOperationParts(operation).parameters.length > 0) {
+      this.hasArguments = true;
+    }
     if (operation.type.kind != Kind.Stream) {
       this.imports.add("github.com/nanobus/iota/go/rx/mono");
     }
diff --git a/codegen/src/tinygo/invokers_visitor.ts b/codegen/src/tinygo/invokers_visitor.ts
index f1764bb..3a475bb 100644
--- a/codegen/src/tinygo/invokers_visitor.ts
+++ b/codegen/src/tinygo/invokers_visitor.ts
@@ -195,7 +195,7 @@ export class InvokersVisitor extends BaseVisitor {
       switch (streamIn.type.kind) {
         case Kind.Primitive: {
           const p = streamIn.type as Primitive;
-          transformFn = `transform.${capitalize(p.name)}.Encode`;
+          transformFn = `${primitiveTransformers.get(p.name)}.Encode`;
           break;
         }
         case Kind.Alias: {
diff --git a/codegen/src/tinygo/wrappers_visitor.ts b/codegen/src/tinygo/wrappers_visitor.ts
index 025c1ba..5313319 100644
--- a/codegen/src/tinygo/wrappers_visitor.ts
+++ b/codegen/src/tinygo/wrappers_visitor.ts
@@ -314,7 +314,7 @@ export class WrappersVisitor extends BaseVisitor {
       this.write(
         `return ${rxPackage}.Map(response, transform.MsgPackEncode[${
           expandType(
-            operation.type,
+            returnType,
             undefined,
             false,
             tr,
-- 
2.43.0


From 6fcb3b8a169a6c0caa03dfe64a20921edd2426a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:35 +0000
Subject: [PATCH 71/72] fix: generated msgpack code compiles for models without
 types and arguments

---
 codegen/src/tinygo/msgpack_visitor.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen/src/tinygo/msgpack_visitor.ts b/codegen/src/tinygo/msgpack_visitor.ts
index 189612c..6678fce 100644
--- a/codegen/src/tinygo/msgpack_visitor.ts
+++ b/codegen/src/tinygo/msgpack_visitor.ts
@@ -81,7 +81,8 @@ export class MsgPackVisitor extends BaseVisitor {
     sortedImports.forEach((i) => this.write(`"${i}"\n`));
     this.write(`)
     
-    var _ = convert.Package\n\n`);
+    var _ = convert.Package
+    var _ msgpack.Codec\n\n`);
     super.triggerNamespaceBefore(context);
   }
 
-- 
2.43.0


From cc47c7fddeb330fbe6e41c3b4988f151efb3ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:11 +0000
Subject: [PATCH 72/72] fix: generated providers import time where their
 signatures name it

---
 codegen/src/tinygo/import_visitor.ts | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/codegen/src/tinygo/import_visitor.ts b/codegen/src/tinygo/import_visitor.ts
index e759013..0b48511 100644
--- a/codegen/src/tinygo/import_visitor.ts
+++ b/codegen/src/tinygo/import_visitor.ts
@@ -278,10 +278,8 @@ class ImportsVisitor extends BaseVisitor {
     if (this.filter(context)) {
       return;
     }
-    const { operation, parameter } = context;
-    if (!operation.unary) {
-      this.visitCheckType(context, parameter.type);
-    }
+    const { parameter } = context;
+    this.visitCheckType(context, parameter.type);
   }
 
   visitCheckType(context: Context, t: AnyType): void {
@@ -300,8 +298,6 @@ class ImportsVisitor extends BaseVisitor {
         const t2 = aliases[a.name];
         if (t2 && t2.import) {
           this.imports.add(t2.import);
-        } else {
-          this.visitCheckType(context, a.type);
         }
         break;
       }
-- 
2.43.0

