From 6b0ff16a239eeda88aa1743e41afeb812a47a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:34 +0000
Subject: [PATCH 01/21] fix: reject invalid lengths when decoding instead of
 panicking

A negative string, bytes or array length, a negative discard, or an array
length larger than the remaining data made the decoder panic, move backwards
or allocate without bound. A null (-1) byte array decodes as nil.
---
 message/decoder.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/message/decoder.go b/message/decoder.go
index a00bcbd..8c7eb07 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -25,6 +25,7 @@ import (
 
 var (
 	errNullString     = errors.New("null string")
+	errInvalidLength  = errors.New("invalid length")
 	errVarIntOverflow = errors.New("var int overflow")
 )
 
@@ -58,6 +59,9 @@ func (d *Decoder) Reset(length int) {
 
 // remains ensures that the buffer contains at least n more bytes
 func (d *Decoder) remains(n int) error {
+	if n < 0 {
+		return errInvalidLength
+	}
 	if remain := d.length - d.offset; remain < n {
 		return io.ErrShortBuffer
 	}
@@ -70,6 +74,15 @@ func (d *Decoder) ArrayLength() (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if n < -1 {
+		return 0, errInvalidLength
+	}
+	// every element takes up at least one byte
+	if n > 0 {
+		if err := d.remains(int(n)); err != nil {
+			return 0, err
+		}
+	}
 	return int(n), nil
 }
 
@@ -89,6 +102,9 @@ func (d *Decoder) Bytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n == -1 {
+		return nil, nil
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
-- 
2.43.0


From c7a37f3219d08a318ee3a0c45c1c54da0b735305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:34 +0000
Subject: [PATCH 02/21] fix: keep VarInt within the decoder's data

VarInt read past the length given to the decoder, and an overflowing varint
longer than one byte moved the offset backwards instead of failing.
---
 message/decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index 8c7eb07..d091f50 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -287,13 +287,13 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 
 // VarInt returns the buffer head as an int64
 func (d *Decoder) VarInt() (int64, error) {
-	tmp, n := binary.Varint(d.raw[d.offset:])
-	switch n {
-	case 0:
+	tmp, n := binary.Varint(d.raw[d.offset:d.length])
+	switch {
+	case n == 0:
 		d.offset = d.length // no further requests can be made
 		return 0, io.ErrShortBuffer
 
-	case -1:
+	case n < 0:
 		d.offset = d.length // no further requests can be made
 		return 0, errVarIntOverflow
 
-- 
2.43.0


From 1b2f3f2916d4e9a3ac6893aaa87cab2796dc71f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:34 +0000
Subject: [PATCH 03/21] fix: decode a null string as nil in NullableString

---
 message/decoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/message/decoder.go b/message/decoder.go
index d091f50..b4307e8 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -216,6 +216,16 @@ func (d *Decoder) Int64Array() ([]int64, error) {
 
 // NullableString returns the buffer head as a *string
 func (d *Decoder) NullableString() (*string, error) {
+	offset := d.offset
+	n, err := d.Int16()
+	if err != nil {
+		return nil, err
+	}
+	if n == -1 {
+		return nil, nil
+	}
+
+	d.offset = offset
 	s, err := d.String()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1ec90c1d6f08ac66993b2d10c63e3ebc7592b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:38 +0000
Subject: [PATCH 04/21] fix: write and read var strings byte for byte

Re-encoding rune by rune replaced bytes that are not valid UTF-8, so the
bytes written no longer matched the declared length.
---
 message/decoder.go | 16 ++--------------
 message/encoder.go |  9 ++-------
 2 files changed, 4 insertions(+), 21 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index b4307e8..2f4fc0f 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -20,7 +20,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
-	"unicode/utf8"
 )
 
 var (
@@ -324,18 +323,7 @@ func (d *Decoder) VarString() (string, error) {
 		return "", err
 	}
 
-	var (
-		eom   = d.offset + length // end of message
-		som   = d.offset          // start of message
-		runes []rune
-	)
-
-	for som < eom {
-		r, size := utf8.DecodeRune(d.raw[som:eom])
-		som += size
-		runes = append(runes, r)
-	}
-
+	s := string(d.raw[d.offset : d.offset+length])
 	d.offset += length
-	return string(runes), nil
+	return s, nil
 }
diff --git a/message/encoder.go b/message/encoder.go
index a1d1520..2a4b715 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -19,7 +19,6 @@ package message
 import (
 	"encoding/binary"
 	"io"
-	"unicode/utf8"
 )
 
 type flusher interface {
@@ -223,11 +222,7 @@ func (e *Encoder) PutVarString(s string) {
 	}
 
 	e.PutVarInt(int64(len(s)))
-	for _, i := range s {
-		length := utf8.EncodeRune(e.buf[:], rune(i))
-		_, e.err = e.target.Write(e.buf[0:length])
-		if e.err != nil {
-			return
-		}
+	if e.err == nil {
+		_, e.err = io.WriteString(e.target, s)
 	}
 }
-- 
2.43.0


From 15107b77f6dd6207ff796394b08a8bc4cf0d3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:38 +0000
Subject: [PATCH 05/21] fix: keep the first write error in PutVarBytes

---
 message/encoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/message/encoder.go b/message/encoder.go
index 2a4b715..4c50146 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -202,7 +202,9 @@ func (e *Encoder) PutVarBytes(data []byte) {
 	}
 
 	e.PutVarInt(int64(len(data)))
-	_, e.err = e.target.Write(data)
+	if e.err == nil {
+		_, e.err = e.target.Write(data)
+	}
 }
 
 // PutVarInt encodes a var int
-- 
2.43.0


From 10dec569caf324b8325824656afe4f7445cd8fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:39 +0000
Subject: [PATCH 06/21] fix: refuse strings too long for their int16 length

---
 message/encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/message/encoder.go b/message/encoder.go
index 4c50146..c464fcf 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -18,9 +18,13 @@ package message
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 )
 
+var errStringTooLong = errors.New("string too long")
+
 type flusher interface {
 	Flush() error
 }
@@ -171,6 +175,9 @@ func (e *Encoder) PutRecordHeader(key, value string) {
 
 // PutString encodes a string
 func (e *Encoder) PutString(s string) {
+	if e.err == nil && len(s) > math.MaxInt16 {
+		e.err = errStringTooLong
+	}
 	e.PutInt16(int16(len(s)))
 	if e.err == nil {
 		_, e.err = io.WriteString(e.target, s)
-- 
2.43.0


From fe5f58bc45ce932651e5cf5bddb653e1337b4717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:21 +0000
Subject: [PATCH 07/21] fix: write the commit timestamp of OffsetCommit version
 1

---
 message/messages.gen.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/message/messages.gen.go b/message/messages.gen.go
index 9a4f3b4..4916784 100644
--- a/message/messages.gen.go
+++ b/message/messages.gen.go
@@ -3441,6 +3441,7 @@ type OffsetCommitRequestPartition8 struct {
 	PartitionIndex       int32  // The partition index. Versions: 0-8
 	CommittedOffset      int64  // The message offset to be committed. Versions: 0-8
 	CommittedLeaderEpoch int32  // The leader epoch of this partition. Versions: 0-8
+	CommitTimestamp      int64  // The timestamp of the commit. Versions: 1
 	CommittedMetadata    string // Any associated metadata the client wants to keep. Versions: 0-8
 }
 
@@ -3452,6 +3453,9 @@ func (t OffsetCommitRequestPartition8) Size(version int16) int32 {
 	if version >= 6 {
 		sz += sizeof.Int32 // CommittedLeaderEpoch
 	}
+	if version >= 1 && version <= 1 {
+		sz += sizeof.Int64 // CommitTimestamp
+	}
 	sz += sizeof.String(t.CommittedMetadata) // CommittedMetadata
 	return sz
 }
@@ -3463,6 +3467,9 @@ func (t OffsetCommitRequestPartition8) Encode(e *Encoder, version int16) {
 	if version >= 6 {
 		e.PutInt32(t.CommittedLeaderEpoch) // CommittedLeaderEpoch
 	}
+	if version >= 1 && version <= 1 {
+		e.PutInt64(t.CommitTimestamp) // CommitTimestamp
+	}
 	e.PutString(t.CommittedMetadata) // CommittedMetadata
 }
 
@@ -3483,6 +3490,12 @@ func (t *OffsetCommitRequestPartition8) Decode(d *Decoder, version int16) error
 			return err
 		}
 	}
+	if version >= 1 && version <= 1 {
+		t.CommitTimestamp, err = d.Int64()
+		if err != nil {
+			return err
+		}
+	}
 	t.CommittedMetadata, err = d.String()
 	if err != nil {
 		return err
-- 
2.43.0


From 0cc686246753a1407794c3b39f0dd93ace70830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:25 +0000
Subject: [PATCH 08/21] fix: do not lose bytes or wake-ups in the ring buffer

After waiting, the writer and the reader carried on with the positions they
had loaded before, a write of one byte never woke the reader, a write that
exactly filled the buffer blocked, the hand-off could lose a wake-up, and after
Close both sides ran over unread or unwritten bytes.
---
 ring/buffer.go | 80 ++++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/ring/buffer.go b/ring/buffer.go
index b4c244c..4893fa0 100644
--- a/ring/buffer.go
+++ b/ring/buffer.go
@@ -21,34 +21,32 @@ import (
 	"sync/atomic"
 )
 
+// mutex lets one side wait for the other.
 type mutex struct {
 	ctx context.Context
-	ch  chan struct{}
-	set int32
+	ch  chan struct{} // holds a pending Release
 }
 
 func newMutex(ctx context.Context) *mutex {
 	return &mutex{
 		ctx: ctx,
-		ch:  make(chan struct{}),
+		ch:  make(chan struct{}, 1),
 	}
 }
 
+// Wait blocks until Release is called, or returns at once if it was called since the last Wait.
 func (m *mutex) Wait() {
-	if atomic.CompareAndSwapInt32(&m.set, 0, 1) {
-		select {
-		case <-m.ctx.Done():
-		case m.ch <- struct{}{}:
-		}
+	select {
+	case <-m.ctx.Done():
+	case <-m.ch:
 	}
 }
 
+// Release lets the current or the next Wait return. It never blocks.
 func (m *mutex) Release() {
-	if atomic.CompareAndSwapInt32(&m.set, 1, 0) {
-		select {
-		case <-m.ctx.Done():
-		case <-m.ch:
-		}
+	select {
+	case m.ch <- struct{}{}:
+	default:
 	}
 }
 
@@ -60,8 +58,8 @@ type Buffer struct {
 	data      []byte // data provides a temporary internal buffer
 	start     int32  // start position of next unread by
 	next      int32  // next position to write to
-	readLock  *mutex // lockState will either be 0 or 1
-	writeLock *mutex // lockState will either be 0 or 1
+	readLock  *mutex // lets the reader wait for bytes
+	writeLock *mutex // lets the writer wait for space
 	size      int32  // size of internal buffer
 }
 
@@ -84,74 +82,78 @@ func (r *Buffer) Close() error {
 }
 
 // WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
-// blocks until ReadN clears space
+// blocks until ReadN clears space or the buffer is closed
 func (r *Buffer) WriteN(data []byte, n int) {
 	var (
 		pos   = atomic.LoadInt32(&r.next)  // position next byte should be written
 		start = atomic.LoadInt32(&r.start) // start of data
-		wrote int                          // bytes written since last lock
 	)
 
 	for i := 0; i < n; i++ {
-		r.data[pos] = data[i]
-		pos = incr(pos, r.size)
-
-		// whenever pos catches up to the starting position, wait for
-		// additional bytes to be written before continuing
-		if next := incr(pos, r.size); next == start {
+		// whenever the buffer is full, wait for bytes to be read before continuing
+		for incr(pos, r.size) == start {
 			atomic.StoreInt32(&r.next, pos)
 
-			// important to store pos prior to reading from lockMux
+			// important to store pos prior to releasing the reader
 			r.readLock.Release()
-			wrote = i
 
 			start = atomic.LoadInt32(&r.start)
-			if next := incr(pos, r.size); next == start {
+			if incr(pos, r.size) == start {
+				if r.ctx.Err() != nil {
+					return
+				}
 				r.writeLock.Wait()
+				start = atomic.LoadInt32(&r.start)
 			}
 		}
+
+		r.data[pos] = data[i]
+		pos = incr(pos, r.size)
 	}
 
 	atomic.StoreInt32(&r.next, pos)
-
-	// if at least one byte has been written since the last time r.lock
-	// was cleared, check to see if it needs to be cleared again
-	if n > wrote+1 {
+	if n > 0 {
 		r.readLock.Release()
 	}
 }
 
 // ReadN reads n bytes in the byte array provided.  If insufficient bytes
-// are available, blocks until WriteN refills the buffer.
-func (r *Buffer) ReadN(data []byte, n int) {
+// are available, blocks until WriteN refills the buffer. Returns the number of
+// bytes read, which is less than n only if the buffer was closed.
+func (r *Buffer) ReadN(data []byte, n int) int {
 	var (
 		pos  = atomic.LoadInt32(&r.start)
 		next = atomic.LoadInt32(&r.next)
-		read = 0
 	)
 
 	for i := 0; i < n; i++ {
-		if pos == next {
+		// whenever the buffer is empty, wait for bytes to be written before continuing
+		for pos == next {
+			// check before loading next as nothing written prior to Close may be missed
+			closed := r.ctx.Err() != nil
+
 			atomic.StoreInt32(&r.start, pos)
-			if read > 0 {
-				r.writeLock.Release()
-			}
+			r.writeLock.Release()
 
 			next = atomic.LoadInt32(&r.next)
 			if pos == next {
+				if closed {
+					return i
+				}
 				r.readLock.Wait()
+				next = atomic.LoadInt32(&r.next)
 			}
 		}
 
 		data[i] = r.data[pos]
 		pos = incr(pos, r.size)
-		read++
 	}
 
 	atomic.StoreInt32(&r.start, pos)
-	if read > 0 {
+	if n > 0 {
 		r.writeLock.Release()
 	}
+	return n
 }
 
 func incr(pos, size int32) int32 {
-- 
2.43.0


From 6408da71dd5a744c238779f82843728e930a7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 09/21] fix: end the calls of a lost connection and keep its
 last bytes

---
 gen.conn.go | 49 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index fda4007..240e955 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
@@ -43,8 +44,11 @@ type Conn struct {
 	writeLock sync.Mutex
 	readLock  sync.Mutex
 	requests  map[int32]request
+	closed    bool // set once no further response will be delivered
 }
 
+var errConnClosed = errors.New("connection closed")
+
 type request struct {
 	decode func(*message.Decoder) error
 	reply  chan error
@@ -91,21 +95,25 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 
 func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 	defer close(c.doneRead)
+	defer rb.Close() // messageLoop ends after what has been read
 
 	buffer := make([]byte, 2e6) // 2MB
 	for {
 		n, err := raw.Read(buffer)
+
+		// bytes may come together with an error
+		rb.WriteN(buffer, n)
+
 		if err != nil {
 			fmt.Println(err)
 			return
 		}
-
-		rb.WriteN(buffer, n)
 	}
 }
 
 func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request) {
 	defer close(c.doneMessage)
+	defer c.shutdown()
 
 	var (
 		buffer = make([]byte, 2e6) // 2MB
@@ -121,13 +129,17 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		}
 
 		// read the header
-		rb.ReadN(buffer, 4)
+		if rb.ReadN(buffer, 4) < 4 {
+			return
+		}
 		d.Reset(4)
 		v, _ := d.Int32()
 		size := int(v)
 
 		// read the payload
-		rb.ReadN(buffer, size)
+		if rb.ReadN(buffer, size) < size {
+			return
+		}
 		d.Reset(size)
 
 		var resp message.ResponseHeader
@@ -147,6 +159,21 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 	}
 }
 
+// shutdown ends the connection and every request still waiting for its response
+func (c *Conn) shutdown() {
+	c.raw.Close()
+	c.rb.Close()
+
+	c.readLock.Lock()
+	defer c.readLock.Unlock()
+
+	c.closed = true
+	for id, req := range c.requests {
+		delete(c.requests, id)
+		req.reply <- errConnClosed
+	}
+}
+
 type EncodeFunc func(e *message.Encoder, correlationID int32)
 type DecodeFunc func(d *message.Decoder) error
 
@@ -158,6 +185,10 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	}
 
 	c.readLock.Lock()
+	if c.closed {
+		c.readLock.Unlock()
+		return errConnClosed
+	}
 	c.requests[correlationID] = req
 	c.readLock.Unlock()
 
@@ -167,6 +198,16 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.writeLock.Unlock()
 
 	if err != nil {
+		c.raw.Close() // part of a request may have been sent
+
+		c.readLock.Lock()
+		_, ok := c.requests[correlationID]
+		delete(c.requests, correlationID)
+		c.readLock.Unlock()
+
+		if !ok {
+			<-req.reply // decode must not run after Do returns
+		}
 		return err
 	}
 
-- 
2.43.0


From 22f9f2723d7fc13ce5028c98b9825d8f24ede558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:31 +0000
Subject: [PATCH 10/21] fix: give each response its own buffer and refuse
 invalid frames

---
 gen.conn.go | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index 240e955..3f1ebb0 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -115,11 +115,7 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 	defer close(c.doneMessage)
 	defer c.shutdown()
 
-	var (
-		buffer = make([]byte, 2e6) // 2MB
-		d      = message.NewDecoder(buffer, len(buffer))
-	)
-
+	header := make([]byte, 4)
 	for {
 		select {
 		case <-ctx.Done():
@@ -129,23 +125,24 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		}
 
 		// read the header
-		if rb.ReadN(buffer, 4) < 4 {
+		if rb.ReadN(header, len(header)) < len(header) {
 			return
 		}
-		d.Reset(4)
-		v, _ := d.Int32()
+		v, _ := message.NewDecoder(header, len(header)).Int32()
 		size := int(v)
 
 		// read the payload
-		if rb.ReadN(buffer, size) < size {
+		buffer, ok := readPayload(rb, size)
+		if !ok {
 			return
 		}
-		d.Reset(size)
+		d := message.NewDecoder(buffer, len(buffer))
 
+		// without a header there is no telling whose response this is
 		var resp message.ResponseHeader
 		if err := (&resp).Decode(d, 1); err != nil {
 			fmt.Println(err)
-			continue
+			return
 		}
 
 		c.readLock.Lock()
@@ -159,6 +156,30 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 	}
 }
 
+// readPayload reads size bytes into a buffer of its own, as responses refer to it.  The
+// buffer grows with the bytes received rather than with the size announced.
+func readPayload(rb *ring.Buffer, size int) ([]byte, bool) {
+	const max = 1e6 // 1MB
+	if size < 0 {
+		return nil, false
+	}
+
+	var buffer []byte
+	for len(buffer) < size {
+		n := size - len(buffer)
+		if n > max {
+			n = max
+		}
+
+		chunk := make([]byte, n)
+		if rb.ReadN(chunk, n) < n {
+			return nil, false
+		}
+		buffer = append(buffer, chunk...)
+	}
+	return buffer, true
+}
+
 // shutdown ends the connection and every request still waiting for its response
 func (c *Conn) shutdown() {
 	c.raw.Close()
-- 
2.43.0


From 6d118731a5875ee757accf4afa590e55aed3faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:48 +0000
Subject: [PATCH 11/21] fix: negotiate the highest common version

---
 gen.broker.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index 9603348..739b5b4 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -1580,10 +1580,12 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 
 // matchVersion determines which version of the api to use
 func matchVersion(apiKey message.ApiVersionsResponseKey18, minVersion, maxVersion int16) (int16, error) {
-	for version := apiKey.MaxVersion; version >= apiKey.MinVersion; version-- {
-		if version := apiKey.MaxVersion; version >= minVersion && version <= maxVersion {
-			return version, nil
-		}
+	version := apiKey.MaxVersion
+	if version > maxVersion {
+		version = maxVersion
+	}
+	if version < minVersion || version < apiKey.MinVersion {
+		return 0, fmt.Errorf("unable to negotiate version for api key, %v", apiKey.ApiKey)
 	}
-	return 0, fmt.Errorf("unable to negotiate version for api key, %v", apiKey.ApiKey)
+	return version, nil
 }
-- 
2.43.0


From 0b3f7527679bd1ed30401da880d1568dda399488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:09 +0000
Subject: [PATCH 12/21] fix: close the connection of a broker that cannot be
 negotiated with

---
 gen.broker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gen.broker.go b/gen.broker.go
index 739b5b4..8cea2bd 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -46,10 +46,12 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 	//
 	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})
 	if err != nil {
+		broker.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
 	if err != nil {
+		broker.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	broker.apiVersion = apiVersion
-- 
2.43.0


From 6587d743f44196ef2356f1c6e9bd5238e23e85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:09 +0000
Subject: [PATCH 13/21] fix: close the bootstrap connection after use

---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index 303efdc..1fab90c 100644
--- a/client.go
+++ b/client.go
@@ -46,6 +46,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 			continue
 		}
 
+		defer broker.Close()
 		return callback(broker)
 	}
 	return err
-- 
2.43.0


From 28990274b80755c59f5aa487e0ebc35c66dc94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:09 +0000
Subject: [PATCH 14/21] fix: report an empty list of bootstrap servers

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 1fab90c..17dc2ca 100644
--- a/client.go
+++ b/client.go
@@ -16,6 +16,7 @@ package kafka
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -39,7 +40,7 @@ func NewClient(bootstrap []string, opts ...Option) *Client {
 // dialBootstrap dials one of the initial bootstrap servers
 func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 	var broker *Broker
-	var err error
+	err := errors.New("no bootstrap servers")
 	for _, addr := range c.bootstrap {
 		broker, err = NewBroker(addr, c.opts...)
 		if err != nil {
-- 
2.43.0


From 15390a983cd341a75131e5203a6aeddffbb725d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:09 +0000
Subject: [PATCH 15/21] fix: report the error of a coordinator lookup

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 17dc2ca..17346e6 100644
--- a/client.go
+++ b/client.go
@@ -71,6 +71,9 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		if err != nil {
 			return err
 		}
+		if v.ErrorCode != 0 {
+			return fmt.Errorf("unable to find coordinator, %v: error code %v", req.Key, v.ErrorCode)
+		}
 		resp = v
 		return nil
 	}
-- 
2.43.0


From bdeceffdc170ea13eff61bebf23c34f8ef69529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:09 +0000
Subject: [PATCH 16/21] fix: dial nodes whose host is an IPv6 address

---
 client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 17346e6..40f75d7 100644
--- a/client.go
+++ b/client.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"net"
 	"strconv"
 
 	"github.com/savaki/kafka/message"
@@ -57,7 +58,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 func (c *Client) dialNode(meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
 		if broker.NodeId == nodeID {
-			addr := broker.Host + ":" + strconv.Itoa(int(broker.Port))
+			addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))
 			return NewBroker(addr, c.opts...)
 		}
 	}
@@ -81,7 +82,7 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		return nil, err
 	}
 
-	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
+	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
 	return NewBroker(addr, c.opts...)
 }
 
-- 
2.43.0


From 61bd97e598d3fb12c0ea24669505abc47545f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:09 +0000
Subject: [PATCH 17/21] fix: do not take node 0 for the controller if the
 metadata names none

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 40f75d7..3a524e9 100644
--- a/client.go
+++ b/client.go
@@ -136,6 +136,9 @@ func (c *Client) Metadata(ctx context.Context, topics ...string) (message.Metada
 		if err != nil {
 			return err
 		}
+		if b.apiVersion.Metadata < 1 {
+			v.ControllerId = -1 // version 0 does not say
+		}
 		meta = v
 		return nil
 	}
-- 
2.43.0


From 5565c1e1f2dda76fdaafe87f20d19242e73d4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:33 +0000
Subject: [PATCH 18/21] fix: count the headers of a record, which may have none

---
 gen.record_batch.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index dda4446..c944f40 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -130,7 +130,18 @@ func encodeMessage(m Message, encoder *message.Encoder, version int16, firstTime
 	encoder.PutVarInt(0)                                   // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
-	m.Header.Range(encoder.PutRecordHeader)
+	encoder.PutVarInt(int64(headerCount(m))) // headers
+	if m.Header != nil {
+		m.Header.Range(encoder.PutRecordHeader)
+	}
+}
+
+func headerCount(m Message) int {
+	var n int
+	if m.Header != nil {
+		m.Header.Range(func(key, value string) { n++ })
+	}
+	return n
 }
 
 func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) int32 {
@@ -142,7 +153,8 @@ func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) i
 	sz += sizeof.Bytes(m.Key)                                // key
 	sz += sizeof.VarInt(int64(len(m.Value)))                 // valueLength
 	sz += sizeof.Bytes(m.Value)                              // value
-	if version >= magic && m.Header != nil {
+	sz += sizeof.VarInt(int64(headerCount(m)))               // headers
+	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
 			sz += sizeof.VarString(key)
 			sz += sizeof.VarString(value)
-- 
2.43.0


From 10652c0bba447da0c582a6959aa802b2555491d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:33 +0000
Subject: [PATCH 19/21] fix: write the number of records, and the length and
 offset of each

---
 gen.record_batch.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index c944f40..65346ee 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -97,8 +97,10 @@ func (r RecordBatch) Size(version int16) int32 {
 	sz += sizeof.Int16 // ProducerEpoch
 	sz += sizeof.Int32 // BaseSequence
 
+	sz += sizeof.ArrayLength // number of records
 	for _, msg := range r.Records {
-		sz += sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		length := sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		sz += sizeof.VarInt(int64(length)) + length
 	}
 	return sz
 }
@@ -117,17 +119,19 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 	encoder.PutInt16(r.ProducerEpoch)
 	encoder.PutInt32(r.BaseSequence)
 
+	encoder.PutArrayLength(len(r.Records))
 	for _, m := range r.Records {
-		encodeMessage(m, encoder, version, r.FirstTimestamp)
+		encodeMessage(m, encoder, version, r.BaseOffset, r.FirstTimestamp)
 	}
 }
 
 // encodeMessage as per https://kafka.apache.org/documentation/#record
-func encodeMessage(m Message, encoder *message.Encoder, version int16, firstTimestamp int64) {
-	encoder.PutVarInt(int64(m.Size(version)))              // length
+func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffset, firstTimestamp int64) {
+	length := sizeofMessage(m, version, baseOffset, firstTimestamp)
+	encoder.PutVarInt(int64(length))                       // length
 	encoder.PutInt8(0)                                     // attributes
 	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	encoder.PutVarInt(0)                                   // offsetDelta
+	encoder.PutVarInt(m.Offset - baseOffset)               // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
 	encoder.PutVarInt(int64(headerCount(m))) // headers
@@ -149,10 +153,8 @@ func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) i
 	sz += sizeof.Int8                                        // attributes
 	sz += sizeof.VarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
 	sz += sizeof.VarInt(m.Offset - baseOffset)               // offsetDelta
-	sz += sizeof.VarInt(int64(len(m.Key)))                   // keyLength
-	sz += sizeof.Bytes(m.Key)                                // key
-	sz += sizeof.VarInt(int64(len(m.Value)))                 // valueLength
-	sz += sizeof.Bytes(m.Value)                              // value
+	sz += sizeof.VarBytes(m.Key)                             // keyLength and key
+	sz += sizeof.VarBytes(m.Value)                           // valueLength and value
 	sz += sizeof.VarInt(int64(headerCount(m)))               // headers
 	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
-- 
2.43.0


From 8c89e4d0aa6c5f299baa05a9434f58f6ab39d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 20/21] fix: write record timestamps in milliseconds

---
 gen.record_batch.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index 65346ee..b6ca4b3 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -128,10 +128,10 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 // encodeMessage as per https://kafka.apache.org/documentation/#record
 func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffset, firstTimestamp int64) {
 	length := sizeofMessage(m, version, baseOffset, firstTimestamp)
-	encoder.PutVarInt(int64(length))                       // length
-	encoder.PutInt8(0)                                     // attributes
-	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	encoder.PutVarInt(m.Offset - baseOffset)               // offsetDelta
+	encoder.PutVarInt(int64(length))                        // length
+	encoder.PutInt8(0)                                      // attributes
+	encoder.PutVarInt(millis(m.Timestamp) - firstTimestamp) // timestampDelta
+	encoder.PutVarInt(m.Offset - baseOffset)                // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
 	encoder.PutVarInt(int64(headerCount(m))) // headers
@@ -140,6 +140,11 @@ func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffse
 	}
 }
 
+// millis since the epoch, the unit of a record's timestamp
+func millis(t time.Time) int64 {
+	return t.Unix()*1000 + int64(t.Nanosecond())/1e6
+}
+
 func headerCount(m Message) int {
 	var n int
 	if m.Header != nil {
@@ -150,12 +155,12 @@ func headerCount(m Message) int {
 
 func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) int32 {
 	var sz int32
-	sz += sizeof.Int8                                        // attributes
-	sz += sizeof.VarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	sz += sizeof.VarInt(m.Offset - baseOffset)               // offsetDelta
-	sz += sizeof.VarBytes(m.Key)                             // keyLength and key
-	sz += sizeof.VarBytes(m.Value)                           // valueLength and value
-	sz += sizeof.VarInt(int64(headerCount(m)))               // headers
+	sz += sizeof.Int8                                         // attributes
+	sz += sizeof.VarInt(millis(m.Timestamp) - firstTimestamp) // timestampDelta
+	sz += sizeof.VarInt(m.Offset - baseOffset)                // offsetDelta
+	sz += sizeof.VarBytes(m.Key)                              // keyLength and key
+	sz += sizeof.VarBytes(m.Value)                            // valueLength and value
+	sz += sizeof.VarInt(int64(headerCount(m)))                // headers
 	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
 			sz += sizeof.VarString(key)
-- 
2.43.0


From 858561f61a8a8016430d4c49166972e3cc11b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 21/21] fix: write a null key or value of a record as null

---
 gen.record_batch.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index b6ca4b3..6e5952a 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -132,8 +132,8 @@ func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffse
 	encoder.PutInt8(0)                                      // attributes
 	encoder.PutVarInt(millis(m.Timestamp) - firstTimestamp) // timestampDelta
 	encoder.PutVarInt(m.Offset - baseOffset)                // offsetDelta
-	encoder.PutVarBytes(m.Key)
-	encoder.PutVarBytes(m.Value)
+	putNullableVarBytes(encoder, m.Key)
+	putNullableVarBytes(encoder, m.Value)
 	encoder.PutVarInt(int64(headerCount(m))) // headers
 	if m.Header != nil {
 		m.Header.Range(encoder.PutRecordHeader)
@@ -145,6 +145,16 @@ func millis(t time.Time) int64 {
 	return t.Unix()*1000 + int64(t.Nanosecond())/1e6
 }
 
+// putNullableVarBytes writes nil, e.g. the value of a tombstone, with length -1.  That is as
+// long as the length of an empty one.
+func putNullableVarBytes(encoder *message.Encoder, data []byte) {
+	if data == nil {
+		encoder.PutVarInt(-1)
+		return
+	}
+	encoder.PutVarBytes(data)
+}
+
 func headerCount(m Message) int {
 	var n int
 	if m.Header != nil {
-- 
2.43.0

