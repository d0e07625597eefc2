#!/usr/bin/env python3
"""refactors.py [id...]: behaviour-preserving changes to /repo; each is made in a scratch clone, built, tested, and
written to tools/refactor/<id>.diff. tools/quiet.sh then runs the checks on them: none may raise an alarm."""
import os, re, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}

def sub(s, old, new, n=1):
    assert s.count(old) >= 1, "missing: " + old
    return s.replace(old, new) if n == 0 else s.replace(old, new, n)

def between(s, a, b, new):
    i = s.index(a); j = s.index(b, i)
    return s[:i] + new + s[j:]

# --- ring -------------------------------------------------------------------------------------------------------
def r_ring_bulk(read):
    s = read("ring/buffer.go")
    s = between(s, "// WriteN writes", "func incr(", '''// free returns how many bytes can be written in one piece
func (r *Buffer) free(pos, start int32) int32 {
	if start > pos {
		return start - pos - 1
	}
	n := r.size - pos
	if start == 0 {
		n--
	}
	return n
}

// used returns how many bytes can be read in one piece
func (r *Buffer) used(pos, next int32) int32 {
	if next >= pos {
		return next - pos
	}
	return r.size - pos
}

func (r *Buffer) advance(pos, n int32) int32 {
	pos += n
	if pos >= r.size {
		pos -= r.size
	}
	return pos
}

// WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
// blocks until ReadN clears space or the buffer is closed
func (r *Buffer) WriteN(data []byte, n int) {
	pos := atomic.LoadInt32(&r.next)
	for rest := data[:n]; len(rest) > 0; {
		space := r.free(pos, atomic.LoadInt32(&r.start))
		if space == 0 {
			r.readLock.Release()
			if r.free(pos, atomic.LoadInt32(&r.start)) > 0 {
				continue
			}
			if r.ctx.Err() != nil {
				return
			}
			r.writeLock.Wait()
			continue
		}
		written := copy(r.data[pos:pos+space], rest)
		rest = rest[written:]
		pos = r.advance(pos, int32(written))
		atomic.StoreInt32(&r.next, pos)
		r.readLock.Release()
	}
}

// ReadN reads n bytes in the byte array provided.  If insufficient bytes
// are available, blocks until WriteN refills the buffer. Returns the number of
// bytes read, which is less than n only if the buffer was closed.
func (r *Buffer) ReadN(data []byte, n int) int {
	var (
		pos  = atomic.LoadInt32(&r.start)
		done = 0
	)
	for done < n {
		closed := r.ctx.Err() != nil
		avail := r.used(pos, atomic.LoadInt32(&r.next))
		switch {
		case avail > 0:
			got := copy(data[done:n], r.data[pos:pos+avail])
			done += got
			pos = r.advance(pos, int32(got))
			atomic.StoreInt32(&r.start, pos)
			r.writeLock.Release()
		case closed:
			return done
		default:
			r.readLock.Wait()
		}
	}
	return n
}

''')
    return {"ring/buffer.go": s}
R["ring-bulk"] = (r_ring_bulk, "C10 C11 C16 C17 C19")

def r_ring_cond(read):
    s = read("ring/buffer.go")
    head = s[:s.index("package ring")]
    return {"ring/buffer.go": head + '''package ring

import "sync"

// Buffer implements a ring buffer that supports a single reader and
// single writer.
type Buffer struct {
	mu     sync.Mutex
	cond   *sync.Cond
	data   []byte
	start  int
	count  int
	closed bool
}

// New returns a new Buffer suitable for a single reader and a single writer
func New(size int) *Buffer {
	b := &Buffer{data: make([]byte, size)}
	b.cond = sync.NewCond(&b.mu)
	return b
}

func (r *Buffer) Close() error {
	r.mu.Lock()
	r.closed = true
	r.mu.Unlock()
	r.cond.Broadcast()
	return nil
}

// WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
// blocks until ReadN clears space or the buffer is closed
func (r *Buffer) WriteN(data []byte, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()

	limit := len(r.data) - 1
	for i := 0; i < n; i++ {
		for r.count >= limit {
			if r.closed {
				return
			}
			r.cond.Wait()
		}
		r.data[(r.start+r.count)%len(r.data)] = data[i]
		r.count++
		r.cond.Signal()
	}
}

// ReadN reads n bytes in the byte array provided.  If insufficient bytes
// are available, blocks until WriteN refills the buffer. Returns the number of
// bytes read, which is less than n only if the buffer was closed.
func (r *Buffer) ReadN(data []byte, n int) int {
	r.mu.Lock()
	defer r.mu.Unlock()

	for i := 0; i < n; i++ {
		for r.count == 0 {
			if r.closed {
				return i
			}
			r.cond.Wait()
		}
		data[i] = r.data[r.start]
		r.start = (r.start + 1) % len(r.data)
		r.count--
		r.cond.Signal()
	}
	return n
}
'''}
R["ring-cond"] = (r_ring_cond, "C10 C11 C16 C17 C19")

def r_ring_helpers(read):
    s = read("ring/buffer.go")
    s = between(s, "// WriteN writes", "// ReadN reads", '''// publish makes everything before pos visible to the reader
func (r *Buffer) publish(pos int32) {
	atomic.StoreInt32(&r.next, pos)
	r.readLock.Release()
}

func (r *Buffer) full(pos, start int32) bool { return incr(pos, r.size) == start }

// awaitSpace returns the reader's position once there is space at pos, false if closed
func (r *Buffer) awaitSpace(pos int32) (int32, bool) {
	for {
		r.publish(pos)
		start := atomic.LoadInt32(&r.start)
		if !r.full(pos, start) {
			return start, true
		}
		if r.ctx.Err() != nil {
			return start, false
		}
		r.writeLock.Wait()
		if start = atomic.LoadInt32(&r.start); !r.full(pos, start) {
			return start, true
		}
	}
}

// WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
// blocks until ReadN clears space or the buffer is closed
func (r *Buffer) WriteN(data []byte, n int) {
	if n <= 0 {
		return
	}

	var ok bool
	start, pos := atomic.LoadInt32(&r.start), atomic.LoadInt32(&r.next)
	for _, b := range data[:n] {
		if r.full(pos, start) {
			if start, ok = r.awaitSpace(pos); !ok {
				return
			}
		}
		r.data[pos] = b
		pos = incr(pos, r.size)
	}
	r.publish(pos)
}

''')
    s = sub(s, '''	pos++
	if pos == size {
		return 0
	}
	return pos
''', '''	return (pos + 1) % size
''')
    return {"ring/buffer.go": s}
R["ring-helpers"] = (r_ring_helpers, "C10 C11 C16 C17")

# --- conn -------------------------------------------------------------------------------------------------------
def r_conn_helpers(read):
    s = read("gen.conn.go")
    s = between(s, "func (c *Conn) messageLoop", "// readPayload reads", '''// readFrame reads the next frame, false once there is none
func readFrame(rb *ring.Buffer, prefix []byte) ([]byte, bool) {
	if n := rb.ReadN(prefix, len(prefix)); n != len(prefix) {
		return nil, false
	}
	return readPayload(rb, int(int32(binary.BigEndian.Uint32(prefix))))
}

// register adds a request, false if there will be no response
func (c *Conn) register(id int32, req request) bool {
	c.readLock.Lock()
	defer c.readLock.Unlock()

	if c.closed {
		return false
	}
	c.requests[id] = req
	return true
}

// take removes a request
func (c *Conn) take(id int32) (req request, ok bool) {
	c.readLock.Lock()
	defer c.readLock.Unlock()

	if req, ok = c.requests[id]; ok {
		delete(c.requests, id)
	}
	return req, ok
}

// dispatch hands a frame to the request it answers
func (c *Conn) dispatch(frame []byte) error {
	var (
		d    = message.NewDecoder(frame, len(frame))
		resp message.ResponseHeader
	)
	if err := resp.Decode(d, 1); err != nil {
		return err
	}
	if req, ok := c.take(resp.CorrelationId); ok {
		err := req.decode(d)
		req.reply <- err
	}
	return nil
}

func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request) {
	defer func() {
		c.shutdown()
		close(c.doneMessage)
	}()

	var prefix [4]byte
	for ctx.Err() == nil {
		frame, ok := readFrame(rb, prefix[:])
		if !ok {
			break
		}
		if err := c.dispatch(frame); err != nil {
			fmt.Println(err)
			break
		}
	}
}

''')
    s = between(s, "	c.readLock.Lock()\n	if c.closed", "	c.writeLock.Lock()", '''	if !c.register(correlationID, req) {
		return errConnClosed
	}

''')
    s = between(s, "		c.readLock.Lock()\n		_, ok := c.requests[correlationID]", "		if !ok {", '''		_, ok := c.take(correlationID)
''')
    s = sub(s, '	"crypto/tls"\n', '	"crypto/tls"\n	"encoding/binary"\n')
    return {"gen.conn.go": s}
R["conn-helpers"] = (r_conn_helpers, "C15 C16 C17 C18 C19")

def r_conn_syncmap(read):
    s = read("gen.conn.go")
    s = sub(s, "	readLock  sync.Mutex\n	requests  map[int32]request\n	closed    bool // set once no further response will be delivered\n",
            "	requests sync.Map // correlation id to request\n	closed   int32    // 1 once no further response will be delivered\n")
    s = sub(s, "		requests:    map[int32]request{},\n", "")
    s = sub(s, '''		c.readLock.Lock()
		req, ok := c.requests[resp.CorrelationId]
		delete(c.requests, resp.CorrelationId)
		c.readLock.Unlock()

		if ok {
			req.reply <- req.decode(d)
		}
''', '''		if v, ok := c.requests.LoadAndDelete(resp.CorrelationId); ok {
			req := v.(request)
			req.reply <- req.decode(d)
		}
''')
    s = sub(s, '''	c.readLock.Lock()
	defer c.readLock.Unlock()

	c.closed = true
	for id, req := range c.requests {
		delete(c.requests, id)
		req.reply <- errConnClosed
	}
''', '''	atomic.StoreInt32(&c.closed, 1)
	c.requests.Range(func(id, _ interface{}) bool {
		if v, ok := c.requests.LoadAndDelete(id); ok {
			v.(request).reply <- errConnClosed
		}
		return true
	})
''')
    s = sub(s, '''	c.readLock.Lock()
	if c.closed {
		c.readLock.Unlock()
		return errConnClosed
	}
	c.requests[correlationID] = req
	c.readLock.Unlock()
''', '''	// store before looking at closed: either shutdown finds the request or closed is seen here
	c.requests.Store(correlationID, req)
	if atomic.LoadInt32(&c.closed) == 1 {
		if _, ok := c.requests.LoadAndDelete(correlationID); ok {
			return errConnClosed
		}
		return <-req.reply
	}
''')
    s = sub(s, '''		c.readLock.Lock()
		_, ok := c.requests[correlationID]
		delete(c.requests, correlationID)
		c.readLock.Unlock()

		if !ok {
''', '''		if _, ok := c.requests.LoadAndDelete(correlationID); !ok {
''')
    return {"gen.conn.go": s}
R["conn-syncmap"] = (r_conn_syncmap, "C15 C16 C17 C18 C19")

def r_conn_noring(read):
    s = read("gen.conn.go")
    s = between(s, "func (c *Conn) readLoop", "// shutdown ends", '''func (c *Conn) messageLoop(ctx context.Context) {
	defer close(c.doneMessage)
	defer c.shutdown()

	r := bufio.NewReaderSize(c.raw, 64*1024)
	for {
		select {
		case <-ctx.Done():
			return
		default:
			// ok
		}

		var header [4]byte
		if _, err := io.ReadFull(r, header[:]); err != nil {
			fmt.Println(err)
			return
		}
		size := int(int32(binary.BigEndian.Uint32(header[:])))

		buffer, err := readPayload(r, size)
		if err != nil {
			fmt.Println(err)
			return
		}
		d := message.NewDecoder(buffer, len(buffer))

		var resp message.ResponseHeader
		if err := (&resp).Decode(d, 1); err != nil {
			fmt.Println(err)
			return
		}

		c.readLock.Lock()
		req, ok := c.requests[resp.CorrelationId]
		delete(c.requests, resp.CorrelationId)
		c.readLock.Unlock()

		if ok {
			req.reply <- req.decode(d)
		}
	}
}

var errFrameSize = errors.New("invalid frame size")

// readPayload reads size bytes into a buffer of its own, as responses refer to it.
func readPayload(r io.Reader, size int) ([]byte, error) {
	const max = 1 << 20
	if size < 0 {
		return nil, errFrameSize
	}

	var buffer []byte
	for len(buffer) < size {
		n := size - len(buffer)
		if n > max {
			n = max
		}

		at := len(buffer)
		buffer = append(buffer, make([]byte, n)...)
		if _, err := io.ReadFull(r, buffer[at:]); err != nil {
			return nil, err
		}
	}
	return buffer, nil
}

''')
    s = sub(s, '''	go c.readLoop(ctx, rb, raw)
	go c.messageLoop(ctx, rb, ch)
''', '''	go c.messageLoop(ctx)
''')
    s = sub(s, "		rb          = ring.New(5e6)\n		ch          = make(chan request, 32)\n", "")
    s = sub(s, "		ch:          ch,\n", "")
    s = sub(s, "		doneRead:    make(chan struct{}),\n", "")
    s = sub(s, "		rb:          rb,\n", "")
    s = sub(s, "	ch          chan request\n", "")
    s = sub(s, "	doneRead    chan struct{}\n", "")
    s = sub(s, "	rb          *ring.Buffer\n", "")
    s = sub(s, "	c.rb.Close()\n", "", 0)
    s = sub(s, "	<-c.doneRead\n", "")
    s = sub(s, '	"github.com/savaki/kafka/ring"\n', "")
    s = sub(s, '	"errors"\n	"fmt"\n', '	"encoding/binary"\n	"errors"\n	"fmt"\n	"io"\n')
    return {"gen.conn.go": s}
R["conn-noring"] = (r_conn_noring, "C12 C15 C16 C17 C18 C19 C22")

def r_conn_writer(read):
    """requests are written by a goroutine of their own"""
    s = read("gen.conn.go")
    s = sub(s, '''	c.writeLock.Lock()
	encode(c.encoder, correlationID)
	err := c.encoder.Flush()
	c.writeLock.Unlock()

	if err != nil {
''', '''	if err := c.send(encode, correlationID); err != nil {
''')
    s = sub(s, "func (c *Conn) Close() error {", '''// send encodes to memory first, so that a request is sent with a single write
func (c *Conn) send(encode EncodeFunc, correlationID int32) error {
	var frame bytes.Buffer
	e := message.NewEncoder(&frame)
	encode(e, correlationID)
	if err := e.Flush(); err != nil {
		return err
	}

	c.writeLock.Lock()
	defer c.writeLock.Unlock()

	if c.err != nil {
		return c.err
	}
	_, err := c.raw.Write(frame.Bytes())
	c.err = err
	return err
}

func (c *Conn) Close() error {''')
    s = sub(s, "	return c.err\n}\n\x00" if False else "	<-c.doneRead\n	return c.err\n", "	<-c.doneRead\n	return nil\n")
    s = sub(s, "		e           = message.NewEncoder(bufio.NewWriter(raw))\n", "")
    s = sub(s, "		encoder:     e,\n", "")
    s = sub(s, "	encoder     *message.Encoder\n", "")
    s = sub(s, '	"bufio"\n', '	"bytes"\n')
    return {"gen.conn.go": s}
R["conn-writer"] = (r_conn_writer, "C09 C13 C15 C16 C17 C18 C19")

# --- message ----------------------------------------------------------------------------------------------------
def r_enc_helpers(read):
    s = read("message/encoder.go")
    s = between(s, "// PutBool encodes a byte array", "// PutInt32Array encodes", '''func (e *Encoder) write(p []byte) {
	if e.err == nil {
		_, e.err = e.target.Write(p)
	}
}

func (e *Encoder) writeString(s string) {
	if e.err == nil {
		_, e.err = io.WriteString(e.target, s)
	}
}

// PutBytes encodes a byte array
func (e *Encoder) PutBytes(data []byte) {
	e.PutArrayLength(len(data))
	e.write(data)
}

// PutInt8 encodes an int8
func (e *Encoder) PutInt8(i int8) {
	e.buf[0] = byte(i)
	e.write(e.buf[:1])
}

// PutInt16 encodes an int16
func (e *Encoder) PutInt16(i int16) {
	e.write(append(e.buf[:0], byte(i>>8), byte(i)))
}

// PutInt32 encodes an int32
func (e *Encoder) PutInt32(i int32) {
	v := uint32(i)
	for n := 3; n >= 0; n-- {
		e.buf[n] = byte(v)
		v >>= 8
	}
	e.write(e.buf[:4])
}

''')
    s = between(s, "// PutInt64 encodes an", "// PutInt64Array", '''// PutInt64 encodes an int64
func (e *Encoder) PutInt64(i int64) {
	binary.BigEndian.PutUint64(e.buf[8:], uint64(i))
	e.write(e.buf[8:16])
}

''')
    s = between(s, "// PutNullableString", "// PutRecordHeader", '''// PutNullableString encodes a *string
func (e *Encoder) PutNullableString(s *string) {
	if s != nil {
		e.PutString(*s)
	} else {
		e.PutInt16(-1)
	}
}

''')
    s = between(s, "// PutRaw unlike PutBytes puts the bytes as is without first encoding the length\nfunc (e *Encoder) PutVarBytes", "\x00", "") if False else s
    i = s.index("// PutRaw unlike")
    s = s[:i] + '''// PutVarBytes puts the bytes after their length as a var int
func (e *Encoder) PutVarBytes(data []byte) {
	e.PutVarInt(int64(len(data)))
	e.write(data)
}

// PutVarInt encodes a var int
func (e *Encoder) PutVarInt(i int64) {
	v := uint64(i<<1) ^ uint64(i>>63)
	n := 0
	for ; v >= 0x80; n++ {
		e.buf[n] = byte(v) | 0x80
		v >>= 7
	}
	e.buf[n] = byte(v)
	e.write(e.buf[:n+1])
}

// PutVarString puts the string after its length as a var int
func (e *Encoder) PutVarString(s string) {
	e.PutVarInt(int64(len(s)))
	e.writeString(s)
}
'''
    s = sub(s, '''	if e.err == nil {
		_, e.err = io.WriteString(e.target, s)
	}
}

// PutStringArray''', '''	e.writeString(s)
}

// PutStringArray''')
    return {"message/encoder.go": s}
R["enc-helpers"] = (r_enc_helpers, "C01 C02 C03 C04 C05 C06 C08 C09 C13 C24")

def r_dec_helpers(read):
    s = read("message/decoder.go")
    i = s.index("// ArrayLength reads")
    s = s[:i] + '''// take returns the next n bytes
func (d *Decoder) take(n int) ([]byte, error) {
	if err := d.remains(n); err != nil {
		return nil, err
	}
	a := d.offset
	d.offset = a + n
	return d.raw[a : a+n : a+n], nil
}

// ArrayLength reads the head of the buffer as an array length (int32)
func (d *Decoder) ArrayLength() (int, error) {
	v, err := d.Int32()
	if err != nil {
		return 0, err
	}
	n := int(v)
	switch {
	case n < -1:
		return 0, errInvalidLength
	case n > d.length-d.offset: // every element takes up at least one byte
		return 0, io.ErrShortBuffer
	default:
		return n, nil
	}
}

// Bool returns the buffer head as a bool
func (d *Decoder) Bool() (bool, error) {
	i, err := d.Int8()
	return err == nil && i == 1, err
}

// Bytes returns the buffer head as a byte array
func (d *Decoder) Bytes() ([]byte, error) {
	n, err := d.Int32()
	if err != nil || n == -1 {
		return nil, err
	}
	return d.take(int(n))
}

// Discard the specified number of bytes
func (d *Decoder) Discard(n int) error {
	_, err := d.take(n)
	return err
}

// Int8 returns the buffer head as an int8
func (d *Decoder) Int8() (int8, error) {
	b, err := d.take(1)
	if err != nil {
		return 0, err
	}
	return int8(b[0]), nil
}

// Int16 returns the buffer head as an int16
func (d *Decoder) Int16() (int16, error) {
	b, err := d.take(2)
	if err != nil {
		return 0, err
	}
	return int16(b[0])<<8 | int16(b[1]), nil
}

// Int32 returns the buffer head as an int32
func (d *Decoder) Int32() (int32, error) {
	b, err := d.take(4)
	if err != nil {
		return 0, err
	}
	return int32(binary.BigEndian.Uint32(b)), nil
}

// Int64 returns the buffer head as an int64
func (d *Decoder) Int64() (int64, error) {
	b, err := d.take(8)
	if err != nil {
		return 0, err
	}
	var v int64
	for _, c := range b {
		v = v<<8 | int64(c)
	}
	return v, nil
}

// Int32Array returns the buffer head as an []int32
func (d *Decoder) Int32Array() ([]int32, error) {
	n, err := d.ArrayLength()
	if err != nil || n < 0 {
		return nil, err
	}

	items := make([]int32, 0, n)
	for len(items) < n {
		item, err := d.Int32()
		if err != nil {
			return nil, err
		}
		items = append(items, item)
	}
	return items, nil
}

// Int64Array returns the buffer head as an []int64
func (d *Decoder) Int64Array() ([]int64, error) {
	n, err := d.ArrayLength()
	if err != nil || n < 0 {
		return nil, err
	}

	items := make([]int64, n)
	for i := range items {
		if items[i], err = d.Int64(); err != nil {
			return nil, err
		}
	}
	return items, nil
}

// string returns the string at the buffer head, false if it is null
func (d *Decoder) string() (string, bool, error) {
	n, err := d.Int16()
	if err != nil || n == -1 {
		return "", false, err
	}
	b, err := d.take(int(n))
	if err != nil {
		return "", false, err
	}
	return string(b), true, nil
}

// NullableString returns the buffer head as a *string
func (d *Decoder) NullableString() (*string, error) {
	s, ok, err := d.string()
	if !ok {
		return nil, err
	}
	return &s, nil
}

// String returns the buffer head as a string
func (d *Decoder) String() (string, error) {
	s, _, err := d.string()
	return s, err
}

// StringArray returns the buffer head as a []string
func (d *Decoder) StringArray() ([]string, error) {
	n, err := d.ArrayLength()
	if err != nil || n == -1 {
		return nil, err
	}

	items := make([]string, n)
	for i := range items {
		if items[i], err = d.String(); err != nil {
			return nil, err
		}
	}
	return items, nil
}

func (d *Decoder) VarBytes() ([]byte, error) {
	n, err := d.VarInt()
	if err != nil {
		return nil, err
	}
	return d.take(int(n))
}

// VarInt returns the buffer head as an int64
func (d *Decoder) VarInt() (int64, error) {
	var v uint64
	for i := 0; ; i++ {
		if d.offset >= d.length && i < binary.MaxVarintLen64 {
			d.offset = d.length // no further requests can be made
			return 0, io.ErrShortBuffer
		}
		if i == binary.MaxVarintLen64 {
			d.offset = d.length
			return 0, errVarIntOverflow
		}
		b := d.raw[d.offset]
		d.offset++
		if i == binary.MaxVarintLen64-1 && b > 1 {
			d.offset = d.length
			return 0, errVarIntOverflow
		}
		v |= uint64(b&0x7f) << (7 * uint(i))
		if b < 0x80 {
			break
		}
	}
	return int64(v>>1) ^ -int64(v&1), nil
}

func (d *Decoder) VarString() (string, error) {
	b, err := d.VarBytes()
	return string(b), err
}
'''
    return {"message/decoder.go": s}
R["dec-helpers"] = (r_dec_helpers, "C01 C02 C05 C07 C08 C14 C19")

def r_msg_loops(read):
    s = read("message/messages.gen.go")
    s = re.sub(r"for i := len\((t\.\w+)\) - 1; i >= 0; i-- \{\n\t\tsz \+= (t\.\w+)\[i\]\.Size\(version\)", r"for _, item := range \1 {\n\t\tsz += item.Size(version)", s)
    s = re.sub(r"\t(len\d+) := len\((t\.\w+)\)\n\te\.PutArrayLength\(\1\)\n\tfor i := 0; i < \1; i\+\+ \{\n\t\t\2\[i\]\.Encode\(e, version\)",
               r"\te.PutArrayLength(len(\2))\n\tfor i := range \2 {\n\t\titem := &\2[i]\n\t\titem.Encode(e, version)", s)
    s = re.sub(r"\t\t\tvar item (\w+)\n\t\t\tif err := \(&item\)\.Decode\(d, version\); err != nil \{\n\t\t\t\treturn err\n\t\t\t\}\n\t\t\t(t\.\w+)\[i\] = item\n",
               r"\t\t\tif err := \2[i].Decode(d, version); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n", s)
    return {"message/messages.gen.go": s}
R["msg-loops"] = (r_msg_loops, "C04 C05 C06 C07 C08 C13 C14")

def r_msg_append(read):
    """decoded arrays grow, by a closure; errors returned directly"""
    s = read("message/messages.gen.go")
    s = re.sub(r"\t\t(t\.\w+) = make\(\[\](\w+), n\)\n\t\tfor i := 0; i < n; i\+\+ \{\n\t\t\tvar item (\w+)\n\t\t\tif err := \(&item\)\.Decode\(d, version\); err != nil \{\n\t\t\t\treturn err\n\t\t\t\}\n\t\t\t\1\[i\] = item\n\t\t\}\n",
               r"\t\titems := make([]\2, 0, n)\n\t\tfor ; n > 0; n-- {\n\t\t\titems = append(items, \2{})\n\t\t\tif err := items[len(items)-1].Decode(d, version); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t\t\1 = items\n", s)
    s = re.sub(r"\t(t\.\w+), err = (d\.\w+\(\))\n\tif err != nil \{\n\t\treturn err\n\t\}\n", r"\tif \1, err = \2; err != nil {\n\t\treturn err\n\t}\n", s)
    return {"message/messages.gen.go": s}
R["msg-append"] = (r_msg_append, "C05 C07 C08 C14 C19")

def r_sizeof(read):
    s = read("message/sizeof/sizeof.go")
    i = s.index("// VarBytes returns")
    s = s[:i] + '''// VarBytes returns the length of a var int
func VarBytes(data []byte) int32 {
	return varLen(len(data))
}

// VarInt returns the length of a var int
func VarInt(i int64) int32 {
	v := uint64(i<<1) ^ uint64(i>>63)
	return int32((bits.Len64(v|1) + 6) / 7)
}

// VarString returns the length of a var string
func VarString(s string) int32 {
	return varLen(len(s))
}

func varLen(n int) int32 {
	return int32(n) + VarInt(int64(n))
}
'''
    s = sub(s, 'import "encoding/binary"', 'import "math/bits"')
    s = sub(s, '''	var sz int32
	sz += ArrayLength // int32 length of array
	for _, s := range ss {
		sz += String(s)
	}
	return sz
''', '''	sz := ArrayLength + Int16*int32(len(ss))
	for i := range ss {
		sz += int32(len(ss[i]))
	}
	return sz
''')
    return {"message/sizeof/sizeof.go": s}
R["sizeof"] = (r_sizeof, "C03 C04 C13 C24")

# --- broker / client --------------------------------------------------------------------------------------------
def r_broker_call(read):
    s = read("gen.broker.go")
    s = re.sub(r"\terr := b\.conn\.Do\(\n\t\t// encode request\n\t\tfunc\(e \*message\.Encoder, correlationID int32\) \{\n\t\t\thdr := message\.RequestHeader\{\n\t\t\t\tRequestApiKey: +message\.(\w+),\n\t\t\t\tRequestApiVersion: (b\.apiVersion\.\w+),\n.*?\n\t\t\},\n\t\t// decode response\n.*?\n\t\t\},\n\t\)\n\treturn resp, err\n",
               r"\terr := b.call(message.\1, \2, req, &resp)\n\treturn resp, err\n", s, flags=re.S)
    s = sub(s, "// Produce (apiKey: 0)", '''type body interface {
	Size(version int16) int32
	Encode(e *message.Encoder, version int16)
}

type target interface {
	Decode(d *message.Decoder, version int16) error
}

// call sends req and decodes the response to it
func (b *Broker) call(key, version int16, req body, resp target) error {
	return b.conn.Do(
		func(e *message.Encoder, correlationID int32) {
			hdr := message.RequestHeader{
				RequestApiKey:     key,
				RequestApiVersion: version,
				CorrelationId:     correlationID,
				ClientId:          b.config.clientID,
			}
			e.PutInt32(hdr.Size(2) + req.Size(version))
			hdr.Encode(e, 2)
			req.Encode(e, version)
		},
		func(d *message.Decoder) error {
			return resp.Decode(d, version)
		},
	)
}

// Produce (apiKey: 0)''')
    return {"gen.broker.go": s}
R["broker-call"] = (r_broker_call, "C12 C13 C14 C22 C25")

def r_client_with(read):
    s = read("client.go")
    s = between(s, "// dialBootstrap dials one", "// dial a specific node", '''var errNoBootstrap = errors.New("no bootstrap servers")

// connect returns the first usable bootstrap server
func (c *Client) connect() (broker *Broker, err error) {
	err = errNoBootstrap
	for i := 0; i < len(c.bootstrap) && err != nil; i++ {
		broker, err = NewBroker(c.bootstrap[i], c.opts...)
	}
	return broker, err
}

// dialBootstrap dials one of the initial bootstrap servers
func (c *Client) dialBootstrap(callback func(*Broker) error) error {
	broker, err := c.connect()
	if err != nil {
		return err
	}

	err = callback(broker)
	broker.Close()
	return err
}

func (c *Client) dialHost(host string, port int32) (*Broker, error) {
	return NewBroker(net.JoinHostPort(host, fmt.Sprintf("%d", port)), c.opts...)
}

''')
    s = sub(s, '''	for _, broker := range meta.Brokers {
		if broker.NodeId == nodeID {
			addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))
			return NewBroker(addr, c.opts...)
		}
	}
	return nil, fmt.Errorf("no such broker node, %v", nodeID)
''', '''	nodes := make(map[int32]message.MetadataResponseBroker3, len(meta.Brokers))
	for i := len(meta.Brokers) - 1; i >= 0; i-- {
		nodes[meta.Brokers[i].NodeId] = meta.Brokers[i]
	}
	node, ok := nodes[nodeID]
	if !ok {
		return nil, fmt.Errorf("no such broker node, %v", nodeID)
	}
	return c.dialHost(node.Host, node.Port)
''')
    s = sub(s, '''	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
	return NewBroker(addr, c.opts...)
''', '''	return c.dialHost(resp.Host, resp.Port)
''')
    s = sub(s, '	"strconv"\n', "")
    s = sub(s, '''		req := message.MetadataRequest{}
		for _, topic := range topics {
			req.Topics = append(req.Topics, message.MetadataRequestTopic3{Name: topic})
		}
''', '''		var req message.MetadataRequest
		if len(topics) > 0 {
			req.Topics = make([]message.MetadataRequestTopic3, len(topics))
		}
		for i := range req.Topics {
			req.Topics[i].Name = topics[i]
		}
''')
    s = sub(s, '''	t, err := findTopic(meta, topic)
	if err != nil {
		return nil, fmt.Errorf("unable to dial leader: %w", err)
	}

	p, err := findPartition(t, partition)
	if err != nil {
		return nil, fmt.Errorf("unable to dial leader: %w", err)
	}

	return c.dialNode(meta, p.LeaderId)
''', '''	leader, err := findLeader(meta, topic, partition)
	if err != nil {
		return nil, fmt.Errorf("unable to dial leader: %w", err)
	}
	return c.dialNode(meta, leader)
''')
    s = sub(s, "func findPartition(", '''func findLeader(meta message.MetadataResponse, topic string, partition int32) (int32, error) {
	t, err := findTopic(meta, topic)
	if err != nil {
		return 0, err
	}
	p, err := findPartition(t, partition)
	return p.LeaderId, err
}

func findPartition(''')
    return {"client.go": s}
R["client-with"] = (r_client_with, "C20 C21 C22 C23 C25")

def r_options(read):
    s = read("gen.option.go")
    s = between(s, "// WithDialer allows", "// WithTLS", '''// WithDialer allows dialer properties to be configured
func WithDialer(dialer *net.Dialer) Option {
	if dialer == nil {
		dialer = new(net.Dialer)
	}
	return func(c *config) { c.dialer = dialer }
}

''')
    s = between(s, "func buildConfig", "\x00", "") if False else s[:s.index("func buildConfig")] + '''func defaults() config {
	return config{clientID: defaultClientID}
}

func buildConfig(opts []Option) config {
	c := defaults()
	for i := range opts {
		opts[i](&c)
	}
	if c.dialer == nil {
		c.dialer = &net.Dialer{}
	}
	return c
}
'''
    t = read("gen.conn.go")
    t = sub(t, '''	if c.tlsConfig == nil {
		return c.dialer.Dial("tcp", addr)
	}

	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
''', '''	if c.tlsConfig != nil {
		d := tls.Dialer{NetDialer: c.dialer, Config: c.tlsConfig}
		return d.Dial("tcp", addr)
	}

	return c.dialer.DialContext(context.Background(), "tcp", addr)
''')
    return {"gen.option.go": s, "gen.conn.go": t}
R["options"] = (r_options, "C20 C21 C22 C23")

def r_batch_buffer(read):
    s = read("gen.record_batch.go")
    i, j = s.index("// encodeMessage as per"), s.index("// millis since the epoch")
    s = s[:i] + '''type pair struct{ key, value string }

func pairs(h Header) []pair {
	var pp []pair
	if h != nil {
		h.Range(func(key, value string) { pp = append(pp, pair{key, value}) })
	}
	return pp
}

// encodeMessage as per https://kafka.apache.org/documentation/#record
func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffset, firstTimestamp int64) {
	var (
		body bytes.Buffer
		e    = message.NewEncoder(&body)
	)
	e.PutInt8(0)                                      // attributes
	e.PutVarInt(millis(m.Timestamp) - firstTimestamp) // timestampDelta
	e.PutVarInt(m.Offset - baseOffset)                // offsetDelta
	putNullableVarBytes(e, m.Key)
	putNullableVarBytes(e, m.Value)
	headers := pairs(m.Header)
	e.PutVarInt(int64(len(headers)))
	for _, h := range headers {
		e.PutRecordHeader(h.key, h.value)
	}

	encoder.PutVarBytes(body.Bytes())
}

''' + s[j:]
    s = sub(s, "return t.Unix()*1000 + int64(t.Nanosecond())/1e6", "return t.Unix()*1e3 + int64(t.Nanosecond()/1e6)")
    s = sub(s, '''	sz += sizeof.VarInt(int64(headerCount(m)))                // headers
	if m.Header != nil {
		m.Header.Range(func(key, value string) {
			sz += sizeof.VarString(key)
			sz += sizeof.VarString(value)
		})
	}
''', '''	headers := pairs(m.Header)
	sz += sizeof.VarInt(int64(len(headers))) // headers
	for i := range headers {
		sz += sizeof.VarString(headers[i].key) + sizeof.VarString(headers[i].value)
	}
''')
    s = between(s, "func headerCount(", "func sizeofMessage", "")
    s = sub(s, 'import (\n', 'import (\n	"bytes"\n')
    return {"gen.record_batch.go": s}
R["batch-buffer"] = (r_batch_buffer, "C24")

def r_batch_sum(read):
    s = read("gen.record_batch.go")
    i, j = s.index("func (r RecordBatch) Size"), s.index("func (r RecordBatch) Encode")
    s = s[:i] + '''const batchOverhead = 8 + 4 + 4 + 1 + 4 + 2 + 4 + 8 + 8 + 8 + 2 + 4 + 4

func (r RecordBatch) Size(version int16) int32 {
	total := int32(batchOverhead)
	for i := range r.Records {
		n := sizeofMessage(r.Records[i], version, r.BaseOffset, r.FirstTimestamp)
		total += n
		total += sizeof.VarInt(int64(n))
	}
	return total
}

''' + s[j:]
    s = sub(s, '''	if data == nil {
		encoder.PutVarInt(-1)
		return
	}
	encoder.PutVarBytes(data)
''', '''	switch {
	case data != nil:
		encoder.PutVarBytes(data)
	default:
		encoder.PutVarInt(-1)
	}
''')
    return {"gen.record_batch.go": s}
R["batch-sum"] = (r_batch_sum, "C24")

# --- second set ---------------------------------------------------------------------------------------------------
def r_negotiate_table(read):
    s = read("gen.broker.go")
    i = s.index("// negotiateApiVersions accepts"); 
    body = s[i:]
    rows = re.findall(r"case message\.(Key\w+):\n\t\t\tav\.(\w+), err = matchVersion\(apiKey, (\d+), (\d+)\)", body)
    assert len(rows) == 48 or len(rows) == 47, len(rows)
    table = "".join("\tmessage.%s: {%s, %s, func(av *apiVersion) *int16 { return &av.%s }},\n" % (k, a, b, f) for k, f, a, b in rows)
    j = s.index("func matchVersion")
    s = s[:i] + '''type supported struct {
	min, max int16
	field    func(*apiVersion) *int16
}

var supportedVersions = map[int16]supported{
''' + table + '''}

// negotiateApiVersions accepts the apiKeys from the broker and negotiates
// acceptable versions for each api based on the versions supported by
// this library.
func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersion, error) {
	av := new(apiVersion)
	for i := range apiKeys {
		s, ok := supportedVersions[apiKeys[i].ApiKey]
		if !ok {
			continue
		}
		v, err := matchVersion(apiKeys[i], s.min, s.max)
		if err != nil {
			return apiVersion{}, err
		}
		*s.field(av) = v
	}
	return *av, nil
}

''' + s[j:]
    return {"gen.broker.go": s}
R["negotiate-table"] = (r_negotiate_table, "C12 C13 C14 C22")

def r_conn_call(read):
    """a call is a struct of its own; Close waits with a WaitGroup; shutdown runs once"""
    s = read("gen.conn.go")
    s = sub(s, '''type request struct {
	decode func(*message.Decoder) error
	reply  chan error
}
''', '''// call in progress
type call struct {
	decode func(*message.Decoder) error
	done   chan struct{}
	err    error // valid once done is closed
}

func newCall(decode DecodeFunc) *call {
	return &call{decode: decode, done: make(chan struct{})}
}

func (r *call) finish(err error) {
	r.err = err
	close(r.done)
}

func (r *call) wait() error {
	<-r.done
	return r.err
}
''')
    s = sub(s, "	ch          chan request\n	doneMessage chan struct{}\n	doneRead    chan struct{}\n", "	loops       sync.WaitGroup\n	once        sync.Once\n")
    s = sub(s, "	requests  map[int32]request\n", "	requests  map[int32]*call\n")
    s = sub(s, "		ch          = make(chan request, 32)\n", "")
    s = sub(s, "		ch:          ch,\n		doneMessage: make(chan struct{}),\n		doneRead:    make(chan struct{}),\n", "")
    s = sub(s, "map[int32]request{}", "map[int32]*call{}")
    s = sub(s, '''	go c.readLoop(ctx, rb, raw)
	go c.messageLoop(ctx, rb, ch)
''', '''	c.loops.Add(2)
	go c.readLoop(rb, raw)
	go c.messageLoop(ctx, rb)
''')
    s = sub(s, "readLoop(ctx context.Context, rb", "readLoop(rb")
    s = sub(s, "	defer close(c.doneRead)\n", "	defer c.loops.Done()\n")
    s = sub(s, "messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request)", "messageLoop(ctx context.Context, rb *ring.Buffer)")
    s = sub(s, "	defer close(c.doneMessage)\n	defer c.shutdown()\n", "	defer c.loops.Done()\n	defer c.once.Do(c.shutdown)\n")
    s = sub(s, "			req.reply <- req.decode(d)\n", "			req.finish(req.decode(d))\n")
    s = sub(s, "	c.closed = true\n	for id, req := range c.requests {\n		delete(c.requests, id)\n		req.reply <- errConnClosed\n	}\n", "	c.closed = true\n	for _, req := range c.requests {\n		req.finish(errConnClosed)\n	}\n	c.requests = nil\n")
    s = sub(s, '''	req := request{
		decode: decode,
		reply:  make(chan error, 1),
	}
''', '''	req := newCall(decode)
''')
    s = sub(s, "			<-req.reply // decode", "			req.wait() // decode")
    s = sub(s, "	return <-req.reply\n", "	return req.wait()\n")
    s = sub(s, "	<-c.doneMessage\n	<-c.doneRead\n", "	c.loops.Wait()\n")
    return {"gen.conn.go": s}
R["conn-call"] = (r_conn_call, "C15 C16 C17 C18 C19")

def r_conn_pool(read):
    """requests are encoded into pooled buffers; ids are handed out under the lock"""
    s = read("gen.conn.go")
    s = sub(s, '''	c.writeLock.Lock()
	encode(c.encoder, correlationID)
	err := c.encoder.Flush()
	c.writeLock.Unlock()

	if err != nil {
''', '''	if err := c.send(encode, correlationID); err != nil {
''')
    s = sub(s, '''	correlationID := atomic.AddInt32(&c.id, 1)
	req := request{''', '''	req := request{''')
    s = sub(s, "	c.requests[correlationID] = req\n", "	c.id++\n	correlationID := c.id\n	c.requests[correlationID] = req\n")
    s = sub(s, '	"sync/atomic"\n', '')
    s = sub(s, "func (c *Conn) Close() error {", '''var frames = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

// send encodes to memory first, so that a request is sent with a single write
func (c *Conn) send(encode EncodeFunc, correlationID int32) error {
	frame := frames.Get().(*bytes.Buffer)
	defer frames.Put(frame)

	frame.Reset()
	e := message.NewEncoder(frame)
	encode(e, correlationID)
	if err := e.Flush(); err != nil {
		return err
	}

	c.writeLock.Lock()
	defer c.writeLock.Unlock()

	if c.err == nil {
		_, c.err = frame.WriteTo(c.raw)
	}
	return c.err
}

func (c *Conn) Close() error {''')
    s = sub(s, "	<-c.doneRead\n	return c.err\n", "	<-c.doneRead\n	return nil\n")
    s = sub(s, "		e           = message.NewEncoder(bufio.NewWriter(raw))\n", "")
    s = sub(s, "		encoder:     e,\n", "")
    s = sub(s, "	encoder     *message.Encoder\n", "")
    s = sub(s, '	"bufio"\n', '	"bytes"\n')
    return {"gen.conn.go": s}
R["conn-pool"] = (r_conn_pool, "C13 C15 C16 C17 C18 C19")

def r_batch_sorted(read):
    s = read("gen.record_batch.go")
    s = sub(s, '''	for k, v := range m {
		fn(k, v)
	}
''', '''	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fn(k, m[k])
	}
''')
    s = sub(s, "return t.Unix()*1000 + int64(t.Nanosecond())/1e6", "return t.UnixMilli()")
    s = sub(s, '	"time"\n', '	"sort"\n	"time"\n')
    return {"gen.record_batch.go": s}
R["batch-sorted"] = (r_batch_sorted, "C24")

def r_client_errs(read):
    s = read("client.go")
    s = sub(s, '''		bootstrap: bootstrap,
		opts:      opts,
''', '''		bootstrap: append([]string(nil), bootstrap...),
		opts:      append([]Option{}, opts...),
''')
    s = between(s, "// dialBootstrap dials one", "// dial a specific node", '''// bootstrapErrors says why each bootstrap server could not be used
type bootstrapErrors []error

func (e bootstrapErrors) Error() string {
	if len(e) == 0 {
		return "no bootstrap servers"
	}
	var parts []string
	for _, err := range e {
		parts = append(parts, err.Error())
	}
	return strings.Join(parts, "; ")
}

func (e bootstrapErrors) Unwrap() error {
	if len(e) == 0 {
		return nil
	}
	return e[len(e)-1]
}

// dialBootstrap dials one of the initial bootstrap servers
func (c *Client) dialBootstrap(callback func(*Broker) error) error {
	var errs bootstrapErrors
	for _, addr := range c.bootstrap {
		if done, err := c.try(addr, callback); done {
			return err
		} else {
			errs = append(errs, err)
		}
	}
	return errs
}

// try runs callback on the server at addr, if it can be connected to
func (c *Client) try(addr string, callback func(*Broker) error) (connected bool, err error) {
	broker, err := NewBroker(addr, c.opts...)
	if err != nil {
		return false, err
	}
	defer broker.Close()

	return true, callback(broker)
}

''')
    s = sub(s, '	"errors"\n', "")
    s = sub(s, '	"strconv"\n', '	"strconv"\n	"strings"\n')
    return {"client.go": s}
R["client-errs"] = (r_client_errs, "C20 C21 C22 C23 C25")

def r_conn_new(read):
    s = read("gen.conn.go")
    s = between(s, "func dial(c config", "func Connect(", '''// transport is how to reach a broker
type transport interface {
	Dial(network, addr string) (net.Conn, error)
}

type secure struct{ config }

func (s secure) Dial(network, addr string) (net.Conn, error) {
	conn, err := tls.DialWithDialer(s.dialer, network, addr, s.tlsConfig)
	if err != nil {
		return nil, err
	}
	return conn, nil
}

func (c config) transport() transport {
	if c.tlsConfig != nil {
		return secure{c}
	}
	return c.dialer
}

''')
    s = sub(s, "raw, err := dial(config, addr)", 'raw, err := config.transport().Dial("tcp", addr)')
    s = sub(s, '''	var (
		ctx, cancel = context''', '''	return newConn(raw), nil
}

func newConn(raw net.Conn) *Conn {
	var (
		ctx, cancel = context''')
    s = sub(s, '''	go c.messageLoop(ctx, rb, ch)

	return c, nil
''', '''	go c.messageLoop(ctx, rb, ch)

	return c
''')
    return {"gen.conn.go": s}
R["conn-new"] = (r_conn_new, "C17 C20 C21 C22 C23")

def r_msg_count(read):
    """the size of a message is what its encoding would write"""
    s = read("message/messages.gen.go")
    s = re.sub(r"(func \(t (\w+)\) Size\(version int16\) int32 \{\n)(.*?)\n\}\n", r"\1\treturn sizeOf(t, version)\n}\n", s, flags=re.S)
    s = sub(s, '''import (
	"github.com/savaki/kafka/message/sizeof"
)
''', '''type counter int32

func (c *counter) Write(p []byte) (int, error) {
	*c += counter(len(p))
	return len(p), nil
}

func (c *counter) WriteString(s string) (int, error) {
	*c += counter(len(s))
	return len(s), nil
}

func sizeOf(t interface{ Encode(*Encoder, int16) }, version int16) int32 {
	var c counter
	t.Encode(NewEncoder(&c), version)
	return int32(c)
}
''')
    return {"message/messages.gen.go": s}
R["msg-count"] = (r_msg_count, "C04 C13")

# --- other styles -----------------------------------------------------------------------------------------------
def r_conn_reader(read):
    s = read("gen.conn.go")
    s = sub(s, """		// read the header
		if rb.ReadN(header, len(header)) < len(header) {
			return
		}
		v, _ := message.NewDecoder(header, len(header)).Int32()
		size := int(v)
""", """		// read the header
		if _, err := io.ReadFull(ringReader{rb}, header); err != nil {
			return
		}
		size := int(int32(binary.BigEndian.Uint32(header)))
""")
    s = between(s, "	const max = 1e6 // 1MB", "// shutdown ends", """	if size < 0 {
		return nil, false
	}

	var buffer bytes.Buffer
	if _, err := io.CopyN(&buffer, ringReader{rb}, int64(size)); err != nil {
		return nil, false
	}
	return buffer.Bytes(), true
}

// ringReader reads at least one byte, and no more than are there in one piece.
type ringReader struct{ rb *ring.Buffer }

func (r ringReader) Read(p []byte) (int, error) {
	if len(p) > 1e6 {
		p = p[:1e6]
	}
	n := r.rb.ReadN(p, len(p))
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

""")
    s = sub(s, '	"bufio"\n', '	"bufio"\n	"bytes"\n')
    s = sub(s, '	"crypto/tls"\n', '	"crypto/tls"\n	"encoding/binary"\n')
    s = sub(s, '	"fmt"\n', '	"fmt"\n	"io"\n')
    return {"gen.conn.go": s}
R["conn-reader"] = (r_conn_reader, "C15 C16 C17 C18 C19")

def r_conn_registry(read):
    s = read("gen.conn.go")
    s = sub(s, """	readLock  sync.Mutex
	requests  map[int32]request
	closed    bool // set once no further response will be delivered
}
""", """	pending   registry
	down      sync.Once
}

// registry holds the requests waiting for their responses
type registry struct {
	sync.RWMutex
	m      map[int32]request
	closed atomic.Value // set once no further response will be delivered
}

func (r *registry) isClosed() bool {
	v, _ := r.closed.Load().(bool)
	return v
}

func (r *registry) add(id int32, req request) error {
	r.Lock()
	defer r.Unlock()
	if r.isClosed() {
		return errConnClosed
	}
	r.m[id] = req
	return nil
}

func (r *registry) take(id int32) (req request, ok bool) {
	r.RLock()
	req, ok = r.m[id]
	r.RUnlock()
	if !ok {
		return
	}
	r.Lock()
	defer r.Unlock()
	if req, ok = r.m[id]; ok {
		delete(r.m, id)
	}
	return
}

func (r *registry) fail(err error) {
	r.Lock()
	all := r.m
	r.m = nil
	r.closed.Store(true)
	r.Unlock()
	for _, req := range all {
		req.reply <- err
	}
}
""")
    s = sub(s, """		c.readLock.Lock()
		req, ok := c.requests[resp.CorrelationId]
		delete(c.requests, resp.CorrelationId)
		c.readLock.Unlock()

		if ok {
			req.reply <- req.decode(d)
		}
""", """		if req, ok := c.pending.take(resp.CorrelationId); ok {
			req.reply <- req.decode(d)
		}
""")
    s = between(s, "	c.raw.Close()\n	c.rb.Close()\n\n	c.readLock", "type EncodeFunc", """	c.down.Do(func() {
		c.raw.Close()
		c.rb.Close()
		c.pending.fail(errConnClosed)
	})
}

""")
    s = sub(s, """	c.readLock.Lock()
	if c.closed {
		c.readLock.Unlock()
		return errConnClosed
	}
	c.requests[correlationID] = req
	c.readLock.Unlock()
""", """	if err := c.pending.add(correlationID, req); err != nil {
		return err
	}
""")
    s = sub(s, """		c.readLock.Lock()
		_, ok := c.requests[correlationID]
		delete(c.requests, correlationID)
		c.readLock.Unlock()

		if !ok {
""", """		if _, ok := c.pending.take(correlationID); !ok {
""")
    s = sub(s, "		requests:    map[int32]request{},\n", "		pending:     registry{m: map[int32]request{}},\n")
    return {"gen.conn.go": s}
R["conn-registry"] = (r_conn_registry, "C15 C16 C17 C19 C22")

def r_conn_deadline(read):
    s = read("gen.conn.go")
    s = sub(s, """	c.cancel()
	c.rb.Close()
	c.raw.Close()
	<-c.doneMessage
	<-c.doneRead
""", """	c.cancel()
	c.raw.SetDeadline(time.Unix(1, 0)) // ends reads and writes in progress
	c.rb.Close()
	<-c.doneRead
	<-c.doneMessage
	c.raw.Close()
""")
    s = sub(s, '	"sync/atomic"\n', '	"sync/atomic"\n	"time"\n')
    return {"gen.conn.go": s}
R["conn-deadline"] = (r_conn_deadline, "C15 C17 C22")

def r_enc_lazy(read):
    s = read("message/encoder.go")
    s = sub(s, """	if f, ok := e.target.(flusher); ok {
		return f.Flush()
	}
""", """	if e.pending.Len() > 0 {
		_, e.err = e.pending.WriteTo(e.target)
		if e.err != nil {
			return e.err
		}
	}
	if f, ok := e.target.(flusher); ok {
		return f.Flush()
	}
""")
    s = s.replace("e.target.Write(", "e.write(").replace("io.WriteString(e.target, s)", "e.write([]byte(s))")
    s = sub(s, "// PutArrayLength encodes", """// write collects short pieces
func (e *Encoder) write(p []byte) (int, error) {
	if e.pending.Len()+len(p) > 32 {
		if _, err := e.pending.WriteTo(e.target); err != nil {
			return 0, err
		}
		return e.target.Write(p)
	}
	return e.pending.Write(p)
}

// PutArrayLength encodes""")
    s = sub(s, "	err    error\n}", "	err    error\n\n	pending bytes.Buffer\n}")
    s = sub(s, '	"encoding/binary"\n', '	"bytes"\n	"encoding/binary"\n')
    return {"message/encoder.go": s}
R["enc-lazy"] = (r_enc_lazy, "C01 C02 C03 C04 C05 C06 C08 C09 C13 C24")

def r_enc_binary(read):
    s = read("message/encoder.go")
    for n, t in (("16", "uint16"), ("32", "uint32"), ("64", "uint64")):
        s = sub(s, "	binary.BigEndian.PutUint%s(e.buf[:%d], %s(i))\n	_, e.err = e.target.Write(e.buf[:%d])\n" % (n, int(n)//8, t, int(n)//8),
                "	e.err = binary.Write(e.target, binary.BigEndian, i)\n")
    return {"message/encoder.go": s}
R["enc-binary"] = (r_enc_binary, "C01 C02 C04 C06 C09 C13 C24")

def r_client_plan(read):
    s = read("client.go")
    s = s.replace("net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))", "hostPort(broker.Host, broker.Port)")
    s = s.replace("net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))", "hostPort(resp.Host, resp.Port)")
    s = between(s, "	for _, broker := range meta.Brokers {", "func (c *Client) dialCoordinator", """	nodes := map[int32]string{}
	for i := len(meta.Brokers) - 1; i >= 0; i-- {
		nodes[meta.Brokers[i].NodeId] = hostPort(meta.Brokers[i].Host, meta.Brokers[i].Port)
	}
	addr, ok := nodes[nodeID]
	if !ok {
		return nil, fmt.Errorf("no such broker node, %v", nodeID)
	}
	return NewBroker(addr, c.opts...)
}

// hostPort is an address to dial
func hostPort(host string, port int32) string {
	if strings.IndexByte(host, ':') >= 0 {
		host = "[" + host + "]"
	}
	return fmt.Sprintf("%s:%d", host, port)
}

""")
    s = sub(s, """	for _, addr := range c.bootstrap {
		broker, err = NewBroker(addr, c.opts...)
		if err != nil {
			continue
		}

		defer broker.Close()
		return callback(broker)
	}
	return err
""", """	for i := 0; err != nil && i < len(c.bootstrap); i++ {
		broker, err = NewBroker(c.bootstrap[i], c.opts...)
	}
	if err != nil {
		return err
	}

	defer func() {
		_ = broker.Close()
	}()
	return callback(broker)
""")
    s = sub(s, '	"net"\n	"strconv"\n', '	"strings"\n')
    return {"client.go": s}
R["client-plan"] = (r_client_plan, "C20 C21 C22 C23 C25")

def sh(cmd, cwd):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def main():
    for rid in (sys.argv[1:] or R):
        fn, checks = R[rid]
        w = "/tmp/refactor/" + rid
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs("/tmp/refactor", exist_ok=True)
        sh("git clone -q /repo " + w, "/tmp")
        files = fn(lambda f: open(os.path.join(w, f)).read())
        for f, s in files.items():
            open(os.path.join(w, f), "w").write(s)
        sh("gofmt -w " + " ".join(files), w)
        rc, out = sh("go vet . ./ring ./message/... && go test ./... 2>&1 | grep -v 'no test files' ", w)
        rc2, out2 = sh("go build ./...", w)
        bad = rc2 != 0 or "FAIL" in out and "Integration" not in out
        _, diff = sh("git diff", w)
        open(os.path.join(ROOT, "tools/refactor", rid + ".diff"), "w").write(diff)
        open(os.path.join(ROOT, "tools/refactor", rid + ".checks"), "w").write(checks + "\n")
        print(rid, "BAD" if bad else "ok", len(diff.splitlines()), out2[-800:], out[-1500:] if bad else "")
        shutil.rmtree(w)
main()
