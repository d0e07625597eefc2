package zz_hmsg

import (
	"bufio"
	"github.com/savaki/kafka/message"
	v "github.com/savaki/kafka/zz_vrt"
	"io"
)

// ================= C07 arbitrary bytes, primitives =================

const nDecOps = 14

var decNames = [nDecOps]string{"Bool", "Int8", "Int16", "Int32", "Int64", "ArrayLength", "String", "NullableString", "Bytes", "Int32Array",
	"Int64Array", "StringArray", "VarInt", "VarBytes+VarString"}

// within checks that a byte array obtained from d lies within the first n bytes of raw, capacity included.
func within(b, raw []byte, n int, what string) {
	v.Assert(len(b) <= n, what+": more bytes returned than the decoder was given")
	if len(b) > 0 && v.SameArray(b, raw) {
		v.Assert(cap(b)-len(b) <= 0 || cap(b) <= n, what+": the returned slice reaches beyond the decoder's length")
	}
}

func decOp(d *message.Decoder, op int, raw []byte, n int) error {
	var err error
	switch op {
	case 0:
		_, err = d.Bool()
	case 1:
		_, err = d.Int8()
	case 2:
		_, err = d.Int16()
	case 3:
		_, err = d.Int32()
	case 4:
		_, err = d.Int64()
	case 5:
		var k int
		k, err = d.ArrayLength()
		v.Assert(err != nil || k >= -1, "ArrayLength: negative length")
	case 6:
		var s string
		s, err = d.String()
		v.Assert(len(s) <= n, "String: more bytes returned than the decoder was given")
	case 7:
		var s *string
		s, err = d.NullableString()
		v.Assert(s == nil || len(*s) <= n, "NullableString: more bytes returned than the decoder was given")
	case 8:
		var b []byte
		b, err = d.Bytes()
		within(b, raw, n, "Bytes")
	case 9:
		_, err = d.Int32Array()
	case 10:
		_, err = d.Int64Array()
	case 11:
		_, err = d.StringArray()
	case 12:
		_, err = d.VarInt()
	case 13:
		if v.Bool("bytes") {
			var b []byte
			b, err = d.VarBytes()
			within(b, raw, n, "VarBytes")
		} else {
			var s string
			s, err = d.VarString()
			v.Assert(len(s) <= n, "VarString: more bytes returned than the decoder was given")
		}
	}
	v.Assert(d.Discard(0) == nil, decNames[op]+": more bytes are consumed than the decoder was given")
	return err
}

// number of the first variable-length operation: its loops are unwound further
const firstVar = 12

// every other primitive on arbitrary bytes, with data beyond the decoder's length
//
//vrt:all weight=9
//vrt:quick conc=2 unwind=3 time=100
//vrt:thorough conc=4 unwind=5 time=600
func H_C07_fixed() {
	raw := v.Bytes("raw", 1<<16-1)
	n := v.IntRange("n", 0, 1<<16-1)
	v.Assume(n <= len(raw))
	v.AllocLimit(n)
	d := message.NewDecoder(raw, n)
	if d.Discard(3*v.Choose("skip", 2)) != nil {
		v.Reach("short")
		return
	}
	decOp(d, v.Choose("op", firstVar), raw, n)
	v.Reach("end")
}

// every other primitive on arbitrary bytes, from any position
//
//vrt:thorough conc=3 unwind=5 time=1800
func T_C07_fixedAnywhere() {
	raw := v.Bytes("raw", 1<<16-1)
	n := v.IntRange("n", 0, 1<<16-1)
	v.Assume(n <= len(raw))
	v.AllocLimit(n)
	d := message.NewDecoder(raw, n)
	if d.Discard(v.IntRange("skip", 0, 1<<16-1)) != nil {
		v.Reach("short")
		return
	}
	decOp(d, v.Choose("op", firstVar), raw, n)
	v.Reach("end")
}

// any other primitive, then one more byte, also after the first failed
//
//vrt:all weight=8
//vrt:quick conc=1 unwind=3 time=100
func H_C07_fixedNext() {
	raw := v.Bytes("raw", 1<<12-1)
	n := v.IntRange("n", 0, 1<<12-1)
	v.Assume(n <= len(raw))
	v.AllocLimit(n)
	d := message.NewDecoder(raw, n)
	decOp(d, v.Choose("op", firstVar), raw, n)
	decOp(d, 1, raw, n)
	v.Reach("end")
}

// every variable-length primitive on arbitrary bytes, with data beyond the decoder's length
//
//vrt:all weight=9
//vrt:quick conc=2 unwind=12 time=100
//vrt:thorough conc=4 unwind=12 time=600
func H_C07_var() {
	raw := v.Bytes("raw", 1<<16-1)
	n := v.IntRange("n", 0, 1<<16-1)
	v.Assume(n <= len(raw))
	v.AllocLimit(n)
	d := message.NewDecoder(raw, n)
	if d.Discard(3*v.Choose("skip", 2)) != nil {
		v.Reach("short")
		return
	}
	decOp(d, firstVar+v.Choose("op", nDecOps-firstVar), raw, n)
	v.Reach("end")
}

// every variable-length primitive on arbitrary bytes, from any position
//
//vrt:thorough conc=3 unwind=12 time=1800
func T_C07_varAnywhere() {
	raw := v.Bytes("raw", 1<<16-1)
	n := v.IntRange("n", 0, 1<<16-1)
	v.Assume(n <= len(raw))
	v.AllocLimit(n)
	d := message.NewDecoder(raw, n)
	if d.Discard(v.IntRange("skip", 0, 1<<16-1)) != nil {
		v.Reach("short")
		return
	}
	decOp(d, firstVar+v.Choose("op", nDecOps-firstVar), raw, n)
	v.Reach("end")
}

// any variable-length primitive, then one more byte, also after the first failed
//
//vrt:all weight=8
//vrt:quick conc=1 unwind=12 time=100
func H_C07_varNext() {
	raw := v.Bytes("raw", 1<<12-1)
	n := v.IntRange("n", 0, 1<<12-1)
	v.Assume(n <= len(raw))
	v.AllocLimit(n)
	d := message.NewDecoder(raw, n)
	decOp(d, firstVar+v.Choose("op", nDecOps-firstVar), raw, n)
	decOp(d, 1, raw, n)
	v.Reach("end")
}

// any two primitives that are not variable-length in a row, also after the first failed
//
//vrt:thorough conc=2 unwind=3 time=1800
func T_C07_pairs() {
	raw := v.Bytes("raw", 1<<12-1)
	n := v.IntRange("n", 0, 1<<12-1)
	v.Assume(n <= len(raw))
	v.AllocLimit(n)
	d := message.NewDecoder(raw, n)
	decOp(d, v.Choose("op1", firstVar), raw, n)
	decOp(d, v.Choose("op2", firstVar), raw, n)
	v.Reach("end")
}

// a decoder that is reset and used again behaves like a new one
func H_C07_reset() {
	raw := v.Bytes("raw", 1<<12-1)
	n := v.IntRange("n", 0, 1<<12-1)
	m := v.IntRange("m", 0, 1<<12-1)
	v.Assume(n <= len(raw) && m <= len(raw))
	d := message.NewDecoder(raw, n)
	d.Int32()
	d.String()
	d.Reset(m)
	a, ea := d.Int64()
	e := message.NewDecoder(raw, m)
	b, eb := e.Int64()
	v.Assert((ea == nil) == (eb == nil) && a == b, "a reset decoder decodes differently from a new one")
	v.Assert(d.Discard(0) == nil, "more bytes are consumed than the decoder was given")
	v.Reach("end")
}

// discarding any number of bytes, negative included
func H_C07_discard() {
	raw := v.Bytes("raw", 1<<12-1)
	n := v.IntRange("n", 0, 1<<12-1)
	v.Assume(n <= len(raw))
	d := message.NewDecoder(raw, n)
	a := int(v.Int32("a"))
	err := d.Discard(a)
	v.Assert((err == nil) == (a >= 0 && a <= n), "Discard: wrong verdict")
	if err == nil {
		d.Int32()
		v.Assert(d.Discard(n-a) == nil || n-a > 0, "Discard: position lost")
	}
	v.Assert(d.Discard(0) == nil, "Discard: more bytes are consumed than the decoder was given")
	v.Reach("end")
}

// ================= C08 truncation, primitives =================

// every primitive's encoding, cut at every point
//
//vrt:quick n=2
//vrt:thorough n=6
func H_C08_prim() {
	op := v.Choose("op", 15)
	max := v.Param("n", 2)
	var b []byte
	switch op {
	case 0:
		b = rbool(b, v.Bool("x"))
	case 1:
		b = r8(b, v.Int8("x"))
	case 2:
		b = r16(b, v.Int16("x"))
	case 3:
		b = r32(b, v.Int32("x"))
	case 4:
		b = r64(b, v.Int64("x"))
	case 5:
		b = r32(b, 0)
	case 6:
		b = rstr(b, v.Str("x", 32767))
	case 7:
		if v.Bool("set") {
			b = rstr(b, v.Str("x", 32767))
		} else {
			b = r16(b, -1)
		}
	case 8:
		b = rbytes(b, v.Bytes("x", 1<<20-1))
	case 9:
		b = ri32s(b, ndI32s("x", max))
	case 10:
		b = ri64s(b, ndI64s("x", max))
	case 11:
		b = rstrs(b, ndStrs("x", max, 32767))
	case 12:
		b = rvar(b, v.Int64("x"))
	case 13:
		b = rvbytes(b, v.Bytes("x", 1<<20-1))
	case 14:
		b = rvstr(b, v.Str("x", 1<<20-1))
	}
	k := v.IntRange("cut", 0, 1<<20+31)
	v.Assume(k < len(b))
	raw := b
	if v.Bool("exact") {
		raw = b[:k:k]
	}
	d := message.NewDecoder(raw, k)
	var err error
	switch op {
	case 13:
		_, err = d.VarBytes()
	case 14:
		_, err = d.VarString()
	default:
		err = decOp(d, op, raw, k)
	}
	v.Assert(err != nil, "truncated input is decoded without an error")
	v.Assert(message.IsInsufficientDataError(err), "truncated input is not reported as insufficient data")
	v.Reach("end")
}

// IsInsufficientDataError tells truncation from invalid input
func H_C08_invalid() {
	n := v.Int32("n")
	v.Assume(n < -1)
	b := r32(nil, n)
	d := message.NewDecoder(b, 4)
	_, err := d.Bytes()
	v.Assert(err != nil && !message.IsInsufficientDataError(err), "an invalid length is reported as insufficient data")
	v.Assert(!message.IsInsufficientDataError(nil), "no error is reported as insufficient data")
	v.Reach("end")
}

// ================= C09 failing writers =================

type wErr struct{ n int }

func (e *wErr) Error() string { return "write failed" }

// failW fails its fail-th write (0: never) after taking part of it.
type failW struct {
	b        []byte
	fail     int
	part     int
	err      error
	failed   bool
	after    int // writes after the failure
	flushErr error
	flushes  int
}

func (w *failW) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, &wErr{2}
	}
	if w.fail > 0 {
		w.fail--
		if w.fail == 0 {
			w.failed = true
			n := w.part
			if n > len(p) {
				n = len(p)
			}
			w.b = v.Append(w.b, p[:n])
			return n, w.err
		}
	}
	w.b = v.Append(w.b, p)
	return len(p), nil
}

// flushW also has a Flush.
type flushW struct{ failW }

func (w *flushW) Flush() error {
	w.flushes++
	return w.flushErr
}

const nEncOps = 15

// encOp performs one encoder call and returns the bytes it has to write, appended to want.
func encOp(e *message.Encoder, op int, want []byte) []byte {
	switch op {
	case 0:
		x := v.Bool("x")
		e.PutBool(x)
		return rbool(want, x)
	case 1:
		x := v.Int8("x")
		e.PutInt8(x)
		return r8(want, x)
	case 2:
		x := v.Int16("x")
		e.PutInt16(x)
		return r16(want, x)
	case 3:
		x := v.Int32("x")
		e.PutInt32(x)
		return r32(want, x)
	case 4:
		x := v.Int64("x")
		e.PutInt64(x)
		return r64(want, x)
	case 5:
		x := v.IntRange("x", 0, 1<<20-1)
		e.PutArrayLength(x)
		return r32(want, int32(x))
	case 6:
		x := v.Str("x", 32767)
		e.PutString(x)
		return rstr(want, x)
	case 7:
		if v.Bool("null") {
			e.PutNullableString(nil)
			return r16(want, -1)
		}
		x := v.Str("x", 32767)
		e.PutNullableString(&x)
		return rstr(want, x)
	case 8:
		x := v.Bytes("x", 1<<20-1)
		e.PutBytes(x)
		return rbytes(want, x)
	case 9:
		x := ndI32s("x", 1)
		e.PutInt32Array(x)
		return ri32s(want, x)
	case 10:
		x := ndI64s("x", 1)
		e.PutInt64Array(x)
		return ri64s(want, x)
	case 11:
		x := ndStrs("x", 1, 32767)
		e.PutStringArray(x)
		return rstrs(want, x)
	case 12:
		x := int64(v.Int8("x"))
		e.PutVarInt(x)
		return rvar(want, x)
	case 13:
		if v.Bool("long") {
			// of any length whose prefix has two bytes
			x := v.Bytes("x", 8191)
			v.Assume(len(x) >= 64)
			e.PutVarBytes(x)
			return rvbytes(want, x)
		}
		x := v.BytesN("x", 3)
		e.PutVarBytes(x)
		return rvbytes(want, x)
	default:
		if v.Bool("header") {
			k, w := v.StrN("x", 2), v.StrN("y", 3)
			e.PutRecordHeader(k, w)
			return rvstr(rvstr(want, k), w)
		}
		if v.Bool("long") {
			x := v.Str("x", 8191)
			v.Assume(len(x) >= 64)
			e.PutVarString(x)
			return rvstr(want, x)
		}
		x := v.StrN("x", 2)
		e.PutVarString(x)
		return rvstr(want, x)
	}
}

// errOf is a failing write's or flush's error: any that code might treat specially.
func errOf(name string, n int) error {
	switch v.Choose(name, 7) {
	case 1:
		return io.EOF
	case 2:
		return io.ErrShortWrite
	case 3:
		return io.ErrUnexpectedEOF
	case 4:
		return io.ErrClosedPipe
	case 5:
		return io.ErrShortBuffer
	case 6:
		return &timeoutErr{wErr{n}}
	}
	return &wErr{n}
}

// timeoutErr is a temporary net.Error.
type timeoutErr struct{ wErr }

func (*timeoutErr) Timeout() bool   { return true }
func (*timeoutErr) Temporary() bool { return true }

func isPrefix(b, of []byte, what string) {
	if len(b) > len(of) {
		v.Fail(what)
	}
	v.AssertEqBytes(b, of[:len(b)], what)
}

// any two encoder calls on a writer whose k-th write fails after taking any part of the data
//
//vrt:quick fail=4
//vrt:thorough fail=7 time=900
func H_C09_writes() {
	w := &failW{err: &wErr{1}}
	w.fail = v.Choose("fail", v.Param("fail", 4)+1)
	if w.fail == 1 {
		w.err = errOf("error", 1)
	}
	w.part = v.IntRange("part", 0, 7)
	e := message.NewEncoder(w)
	want := encOp(e, v.Choose("op1", nEncOps), nil)
	want = encOp(e, v.Choose("op2", nEncOps), want)
	ferr := e.Flush()
	v.Assert(w.after == 0, "the encoder writes after a failed write")
	if w.failed {
		isPrefix(w.b, want, "the bytes written before the failure are not a prefix of the encoding")
		v.Assert(ferr == w.err, "Flush does not report the failed write's error")
		e.PutInt8(1)
		e.PutString("x")
		v.Assert(w.after == 0, "the encoder writes after a failed write")
		v.Assert(e.Flush() == w.err, "the failed write's error is not kept")
	} else {
		v.Assert(ferr == nil, "Flush reports an error that did not happen")
		v.AssertEqBytes(w.b, want, "the encoding differs")
	}
	v.Reach("end")
}

// a failing flush, with and without a failed write before it
func H_C09_flush() {
	w := &flushW{}
	w.err = errOf("error", 1)
	w.fail = v.Choose("fail", 3)
	if v.Bool("flush fails") {
		w.flushErr = errOf("flush error", 3)
	}
	e := message.NewEncoder(w)
	encOp(e, v.Choose("op", nEncOps), nil)
	err := e.Flush()
	if w.failed {
		v.Assert(err == w.err, "Flush does not report the failed write's error")
	} else {
		v.Assert(err == w.flushErr, "Flush does not return the result of the underlying flush")
		v.Assert(w.flushes > 0, "Flush does not flush the underlying writer")
	}
	v.Reach("end")
}

// richW is a flushing writer with the further methods a bufio.Writer has.
type richW struct {
	flushW
	buffered int
}

func (w *richW) Buffered() int                     { return w.buffered }
func (w *richW) Available() int                    { return 4096 }
func (w *richW) Size() int                         { return 4096 }
func (w *richW) WriteByte(c byte) error            { _, err := w.Write([]byte{c}); return err }
func (w *richW) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// the same for a writer that offers more than Write and Flush
func H_C09_rich() {
	w := &richW{buffered: v.Choose("buffered", 2)}
	w.err = errOf("error", 1)
	w.fail = v.Choose("fail", 3)
	w.part = v.IntRange("part", 0, 7)
	if v.Bool("flush fails") {
		w.flushErr = errOf("flush error", 3)
	}
	e := message.NewEncoder(w)
	want := encOp(e, v.Choose("op", nEncOps), nil)
	err := e.Flush()
	v.Assert(w.after == 0, "the encoder writes after a failed write")
	if w.failed {
		v.Assert(err == w.err, "Flush does not report the failed write's error")
		isPrefix(w.b, want, "the bytes written before the failure are not a prefix of the encoding")
	} else {
		v.Assert(err == w.flushErr, "Flush does not return the result of the underlying flush")
		v.AssertEqBytes(w.b, want, "the encoding differs")
	}
	v.Reach("end")
}

// through a real bufio.Writer, as a connection uses it
//
//vrt:quick strmax=24 fail=2
//vrt:thorough strmax=60 fail=4 more=1
func H_C09_bufio() {
	w := &failW{err: &wErr{1}}
	w.fail = v.Choose("fail", v.Param("fail", 3)+1)
	w.part = v.IntRange("part", 0, 7)
	b := bufio.NewWriterSize(w, 16)
	e := message.NewEncoder(b)
	want := encOp(e, v.Choose("op1", nEncOps), nil)
	op2 := 4
	if v.Param("more", 0) == 1 {
		op2 = v.Choose("op2", nEncOps)
	}
	want = encOp(e, op2, want)
	err := e.Flush()
	v.Assert(w.after == 0, "bytes are written after a failed write")
	if w.failed {
		v.Assert(err == w.err, "Flush does not report the failed write's error")
		isPrefix(w.b, want, "the bytes written before the failure are not a prefix of the encoding")
		e.PutInt8(1)
		v.Assert(e.Flush() == w.err && w.after == 0, "the failed write's error is not kept")
	} else {
		v.Assert(err == nil, "Flush reports an error that did not happen")
		v.AssertEqBytes(w.b, want, "the encoding differs")
	}
	v.Reach("end")
}

// the encoder's own error (a string too long) is sticky, too
func H_C09_toolong() {
	w := &failW{err: &wErr{1}}
	e := message.NewEncoder(w)
	x := v.Str("x", 1<<17-1)
	v.Assume(len(x) > 32767)
	if v.Bool("nullable") {
		e.PutNullableString(&x)
	} else {
		e.PutString(x)
	}
	v.Assert(len(w.b) == 0, "something is written for a string that cannot be written")
	err := e.Flush()
	v.Assert(err != nil, "a string that cannot be written is not reported")
	encOp(e, v.Choose("op", nEncOps), nil)
	v.Assert(len(w.b) == 0, "the encoder writes after an error")
	v.Assert(e.Flush() == err, "the first error is not kept")
	v.Reach("end")
}
