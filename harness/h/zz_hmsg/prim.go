package zz_hmsg

import (
	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/message/sizeof"
	v "github.com/savaki/kafka/zz_vrt"
)

// ================= C01 round trips =================

// bool, int8, int16, int32, int64 and array length, all values, in one stream
func H_C01_fixed() {
	s, e := enc()
	b, i8, i16, i32, i64, al := v.Bool("b"), v.Int8("i8"), v.Int16("i16"), v.Int32("i32"), v.Int64("i64"), v.Int32("al")
	v.Assume(al >= 0)
	mark := v.Int32("mark")
	e.PutBool(b)
	e.PutInt8(i8)
	e.PutInt16(i16)
	e.PutInt32(i32)
	e.PutInt64(i64)
	e.PutInt32(mark)
	d := dec(s, e, "fixed")
	b2, err := d.Bool()
	v.Assert(err == nil && b2 == b, "bool does not round-trip")
	x8, err := d.Int8()
	v.Assert(err == nil && x8 == i8, "int8 does not round-trip")
	x16, err := d.Int16()
	v.Assert(err == nil && x16 == i16, "int16 does not round-trip")
	x32, err := d.Int32()
	v.Assert(err == nil && x32 == i32, "int32 does not round-trip")
	x64, err := d.Int64()
	v.Assert(err == nil && x64 == i64, "int64 does not round-trip")
	after(d, mark, "fixed")
}

// array length: every length for which at least that many bytes follow
func H_C01_arraylen() {
	s, e := enc()
	n := v.IntRange("n", 0, 1<<28-1)
	e.PutArrayLength(n)
	rest := v.Bytes("rest", 1<<28-1)
	v.Assume(len(rest) >= n)
	d := dec(s, e, "array length")
	d = message.NewDecoder(append(s.B, rest...), len(s.B)+len(rest))
	m, err := d.ArrayLength()
	v.Assert(err == nil && m == n, "array length does not round-trip")
	v.Assert(d.Discard(len(rest)) == nil, "array length consumed too much")
	_, err = d.Int8()
	v.Assert(err != nil, "array length consumed too little")
	v.Reach("end")
}

// strings of every length the format allows, every content
func H_C01_string() {
	s, e := enc()
	x := v.Str("s", 32767)
	mark := v.Int32("mark")
	e.PutString(x)
	e.PutInt32(mark)
	d := dec(s, e, "string")
	y, err := d.String()
	v.Assert(err == nil, "string cannot be decoded")
	v.AssertEqStr(x, y, "string does not round-trip")
	after(d, mark, "string")
}

// nullable strings: null, empty and every other value
func H_C01_nullable() {
	s, e := enc()
	var p *string
	if v.Bool("set") {
		x := v.Str("s", 32767)
		p = &x
	}
	mark := v.Int32("mark")
	e.PutNullableString(p)
	e.PutInt32(mark)
	d := dec(s, e, "nullable string")
	y, err := d.NullableString()
	v.Assert(err == nil, "nullable string cannot be decoded")
	v.Assert((p == nil) == (y == nil), "nullable string: null and non-null are confused")
	if p != nil {
		v.AssertEqStr(*p, *y, "nullable string does not round-trip")
	}
	after(d, mark, "nullable string")
}

// byte arrays of every length up to 256 MiB, and nil
func H_C01_bytes() {
	s, e := enc()
	var x []byte
	if v.Bool("set") {
		x = v.Bytes("x", 1<<28-1)
	}
	mark := v.Int32("mark")
	e.PutBytes(x)
	e.PutInt32(mark)
	d := dec(s, e, "bytes")
	y, err := d.Bytes()
	v.Assert(err == nil, "bytes cannot be decoded")
	v.AssertEqBytes(x, y, "bytes do not round-trip")
	after(d, mark, "bytes")
}

// int32 arrays
//
//vrt:all longs=8
//vrt:quick n=4
//vrt:thorough n=24
func H_C01_int32s() {
	s, e := enc()
	x := ndI32s("x", v.Param("n", 4))
	mark := v.Int32("mark")
	e.PutInt32Array(x)
	e.PutInt32(mark)
	d := dec(s, e, "int32 array")
	y, err := d.Int32Array()
	v.Assert(err == nil, "int32 array cannot be decoded")
	v.Assert((x == nil) == (y == nil), "int32 array: null and empty are confused")
	v.Assert(len(x) == len(y), "int32 array: length does not round-trip")
	for i := range x {
		v.Assert(x[i] == y[i], "int32 array: element does not round-trip")
	}
	after(d, mark, "int32 array")
}

// int64 arrays
//
//vrt:all longs=8
//vrt:quick n=4
//vrt:thorough n=24
func H_C01_int64s() {
	s, e := enc()
	x := ndI64s("x", v.Param("n", 4))
	mark := v.Int32("mark")
	e.PutInt64Array(x)
	e.PutInt32(mark)
	d := dec(s, e, "int64 array")
	y, err := d.Int64Array()
	v.Assert(err == nil, "int64 array cannot be decoded")
	v.Assert((x == nil) == (y == nil), "int64 array: null and empty are confused")
	v.Assert(len(x) == len(y), "int64 array: length does not round-trip")
	for i := range x {
		v.Assert(x[i] == y[i], "int64 array: element does not round-trip")
	}
	after(d, mark, "int64 array")
}

// string arrays
//
//vrt:all longs=8
//vrt:quick n=3
//vrt:thorough n=6
func H_C01_strings() {
	s, e := enc()
	x := ndStrs("x", v.Param("n", 3), 32767)
	mark := v.Int32("mark")
	e.PutStringArray(x)
	e.PutInt32(mark)
	d := dec(s, e, "string array")
	y, err := d.StringArray()
	v.Assert(err == nil, "string array cannot be decoded")
	v.Assert((x == nil) == (y == nil), "string array: null and empty are confused")
	v.Assert(len(x) == len(y), "string array: length does not round-trip")
	for i := range x {
		v.AssertEqStr(x[i], y[i], "string array: element does not round-trip")
	}
	after(d, mark, "string array")
}

// varints: every int64
func H_C01_varint() {
	s, e := enc()
	x := v.Int64("x")
	mark := v.Int32("mark")
	e.PutVarInt(x)
	e.PutInt32(mark)
	d := dec(s, e, "varint")
	y, err := d.VarInt()
	v.Assert(err == nil, "varint cannot be decoded")
	v.Assert(x == y, "varint does not round-trip")
	after(d, mark, "varint")
}

// var-length bytes of every length up to 256 MiB
func H_C01_varbytes() {
	s, e := enc()
	x := v.Bytes("x", 1<<28-1)
	mark := v.Int32("mark")
	e.PutVarBytes(x)
	e.PutInt32(mark)
	d := dec(s, e, "var bytes")
	y, err := d.VarBytes()
	v.Assert(err == nil, "var bytes cannot be decoded")
	v.AssertEqBytes(x, y, "var bytes do not round-trip")
	after(d, mark, "var bytes")
}

// var-length strings, short: every content including invalid UTF-8
//
//vrt:quick n=3
//vrt:thorough n=5
func H_C01_varstring_short() {
	s, e := enc()
	x := v.StrN("x", v.Choose("len", v.Param("n", 3)+1))
	mark := v.Int32("mark")
	e.PutVarString(x)
	e.PutInt32(mark)
	d := dec(s, e, "var string")
	y, err := d.VarString()
	v.Assert(err == nil, "var string cannot be decoded")
	v.AssertEqStr(x, y, "var string does not round-trip")
	after(d, mark, "var string")
}

// var-length strings of every length up to 256 MiB
//
//vrt:all unwind=6
func H_C01_varstring() {
	s, e := enc()
	x := v.Str("x", 1<<28-1)
	mark := v.Int32("mark")
	e.PutVarString(x)
	e.PutInt32(mark)
	d := dec(s, e, "var string")
	y, err := d.VarString()
	v.Assert(err == nil, "var string cannot be decoded")
	v.AssertEqStr(x, y, "var string does not round-trip")
	after(d, mark, "var string")
}

// record headers: a pair of var-length strings
//
//vrt:quick n=2
//vrt:thorough n=3
func H_C01_recordheader() {
	s, e := enc()
	k, x := v.StrN("k", v.Choose("klen", v.Param("n", 2)+1)), v.StrN("x", v.Choose("xlen", v.Param("n", 2)+1))
	mark := v.Int32("mark")
	e.PutRecordHeader(k, x)
	e.PutInt32(mark)
	d := dec(s, e, "record header")
	k2, err := d.VarString()
	v.Assert(err == nil, "record header key cannot be decoded")
	v.AssertEqStr(k, k2, "record header key does not round-trip")
	x2, err := d.VarString()
	v.Assert(err == nil, "record header value cannot be decoded")
	v.AssertEqStr(x, x2, "record header value does not round-trip")
	after(d, mark, "record header")
}

// a decoder that is Reset and reused decodes the new contents only
func H_C01_reset() {
	buf := v.BytesN("buf", 16)
	d := message.NewDecoder(buf, len(buf))
	k := v.IntRange("k", 0, 16)
	v.Assert(d.Discard(k) == nil, "Discard within the data fails")
	n := v.IntRange("n", 0, 16)
	d.Reset(n)
	if n >= 8 {
		x, err := d.Int64()
		want := int64(0)
		for i := 0; i < 8; i++ {
			want = want<<8 | int64(buf[i])
		}
		v.Assert(err == nil && x == want, "after Reset the decoder does not start at the beginning")
		n -= 8
	}
	v.Assert(d.Discard(n) == nil, "after Reset the length is not the one given")
	_, err := d.Int8()
	v.Assert(err != nil, "after Reset the decoder reads past the length given")
	v.Reach("end")
}

// ================= C02 wire representation =================

func wire(s *Sink, e *message.Encoder, want []byte, what string) {
	v.Assert(e.Flush() == nil, what+": Flush reports an error")
	v.AssertEqBytes(s.B, want, what+" is not written as Kafka prescribes")
	v.Reach("end")
}

// fixed-width primitives
func H_C02_fixed() {
	s, e := enc()
	var w []byte
	b, i8, i16, i32, i64 := v.Bool("b"), v.Int8("i8"), v.Int16("i16"), v.Int32("i32"), v.Int64("i64")
	n := v.IntRange("n", 0, 1<<31-1)
	e.PutBool(b)
	e.PutInt8(i8)
	e.PutInt16(i16)
	e.PutInt32(i32)
	e.PutInt64(i64)
	e.PutArrayLength(n)
	w = r32(r64(r32(r16(r8(rbool(w, b), i8), i16), i32), i64), int32(n))
	wire(s, e, w, "fixed-width primitive")
}

// strings of every representable length
func H_C02_string() {
	s, e := enc()
	x := v.Str("x", 32767)
	e.PutString(x)
	wire(s, e, rstr(nil, x), "string")
}

// strings too long for the length prefix are refused
func H_C02_longstring() {
	s, e := enc()
	x := v.Str("x", 1<<18-1)
	v.Assume(len(x) > 32767)
	switch v.Choose("how", 3) {
	case 0:
		e.PutString(x)
	case 1:
		e.PutNullableString(&x)
	case 2:
		e.PutStringArray([]string{x})
	}
	v.Assert(e.Flush() != nil, "a string too long for its length prefix is written without an error")
	v.Assert(len(s.B) <= 4, "a string too long for its length prefix is written")
	v.Reach("end")
}

// nullable strings
func H_C02_nullable() {
	s, e := enc()
	if v.Bool("set") {
		x := v.Str("x", 32767)
		e.PutNullableString(&x)
		wire(s, e, rstr(nil, x), "nullable string")
	} else {
		e.PutNullableString(nil)
		wire(s, e, r16(nil, -1), "null string")
	}
}

// byte arrays
func H_C02_bytes() {
	s, e := enc()
	x := v.Bytes("x", 1<<28-1)
	e.PutBytes(x)
	wire(s, e, rbytes(nil, x), "byte array")
}

// int32, int64 and string arrays
//
//vrt:all longs=8
//vrt:quick n=3
//vrt:thorough n=12
func H_C02_arrays() {
	s, e := enc()
	n := v.Param("n", 3)
	switch v.Choose("which", 3) {
	case 0:
		x := ndI32s("x", n)
		e.PutInt32Array(x)
		wire(s, e, ri32s(nil, x), "int32 array")
	case 1:
		x := ndI64s("x", n)
		e.PutInt64Array(x)
		wire(s, e, ri64s(nil, x), "int64 array")
	case 2:
		x := ndStrs("x", n/2+1, 32767)
		e.PutStringArray(x)
		wire(s, e, rstrs(nil, x), "string array")
	}
}

// varints: every int64
func H_C02_varint() {
	s, e := enc()
	x := v.Int64("x")
	e.PutVarInt(x)
	wire(s, e, rvar(nil, x), "varint")
}

// var-length bytes
func H_C02_varbytes() {
	s, e := enc()
	x := v.Bytes("x", 1<<28-1)
	e.PutVarBytes(x)
	wire(s, e, rvbytes(nil, x), "var bytes")
}

// var-length strings, short, every content
//
//vrt:quick n=3
//vrt:thorough n=5
func H_C02_varstring_short() {
	s, e := enc()
	x := v.StrN("x", v.Choose("len", v.Param("n", 3)+1))
	e.PutVarString(x)
	wire(s, e, rvstr(nil, x), "var string")
}

// var-length strings of every length up to 256 MiB
//
//vrt:all unwind=6
func H_C02_varstring() {
	s, e := enc()
	x := v.Str("x", 1<<28-1)
	e.PutVarString(x)
	wire(s, e, rvstr(nil, x), "var string")
}

// record headers
//
//vrt:quick n=2
//vrt:thorough n=3
func H_C02_recordheader() {
	s, e := enc()
	k, x := v.StrN("k", v.Choose("klen", v.Param("n", 2)+1)), v.StrN("x", v.Choose("xlen", v.Param("n", 2)+1))
	e.PutRecordHeader(k, x)
	wire(s, e, rvstr(rvstr(nil, k), x), "record header")
}

// decoding follows the same representation: any bytes decode to the value they represent
func H_C02_decode() {
	raw := v.BytesN("raw", 8)
	d := message.NewDecoder(raw, 8)
	var u uint64
	switch v.Choose("which", 5) {
	case 0:
		x, err := d.Int8()
		v.Assert(err == nil && x == int8(raw[0]), "int8 is decoded wrongly")
	case 1:
		x, err := d.Int16()
		v.Assert(err == nil && x == int16(uint16(raw[0])<<8|uint16(raw[1])), "int16 is decoded wrongly")
	case 2:
		x, err := d.Int32()
		for i := 0; i < 4; i++ {
			u = u<<8 | uint64(raw[i])
		}
		v.Assert(err == nil && x == int32(u), "int32 is decoded wrongly")
	case 3:
		x, err := d.Int64()
		for i := 0; i < 8; i++ {
			u = u<<8 | uint64(raw[i])
		}
		v.Assert(err == nil && x == int64(u), "int64 is decoded wrongly")
	case 4:
		v.Assume(raw[0] < 2)
		x, err := d.Bool()
		v.Assert(err == nil && x == (raw[0] == 1), "bool is decoded wrongly")
	}
	v.Reach("end")
}

// ================= C03 declared sizes =================

func sized(s *Sink, e *message.Encoder, n int32, what string) {
	v.Assert(e.Flush() == nil, "flush fails")
	v.Assert(len(s.B) == int(n), "declared size of "+what+" is not the number of bytes written")
	v.Reach("end")
}

// fixed-width primitives
func H_C03_fixed() {
	s, e := enc()
	e.PutBool(v.Bool("b"))
	sized(s, e, sizeof.Bool, "bool")
	s, e = enc()
	e.PutInt8(v.Int8("i8"))
	sized(s, e, sizeof.Int8, "int8")
	s, e = enc()
	e.PutInt16(v.Int16("i16"))
	sized(s, e, sizeof.Int16, "int16")
	s, e = enc()
	e.PutInt32(v.Int32("i32"))
	sized(s, e, sizeof.Int32, "int32")
	s, e = enc()
	e.PutInt64(v.Int64("i64"))
	sized(s, e, sizeof.Int64, "int64")
	s, e = enc()
	e.PutArrayLength(v.IntRange("n", 0, 1<<31-1))
	sized(s, e, sizeof.ArrayLength, "array length")
}

// strings and byte arrays of every length
func H_C03_blobs() {
	s, e := enc()
	switch v.Choose("which", 4) {
	case 0:
		x := v.Str("x", 32767)
		e.PutString(x)
		sized(s, e, sizeof.String(x), "string")
	case 1:
		x := v.Bytes("x", 1<<28-1)
		e.PutBytes(x)
		sized(s, e, sizeof.Bytes(x), "bytes")
	case 2:
		x := v.Bytes("x", 1<<28-1)
		e.PutVarBytes(x)
		sized(s, e, sizeof.VarBytes(x), "var bytes")
	case 3:
		var x []byte
		e.PutBytes(x)
		sized(s, e, sizeof.Bytes(x), "nil bytes")
	}
}

// arrays
//
//vrt:all longs=8
//vrt:quick n=4
//vrt:thorough n=24
func H_C03_arrays() {
	s, e := enc()
	n := v.Param("n", 4)
	switch v.Choose("which", 3) {
	case 0:
		x := ndI32s("x", n)
		e.PutInt32Array(x)
		sized(s, e, sizeof.Int32Array(x), "int32 array")
	case 1:
		x := ndI64s("x", n)
		e.PutInt64Array(x)
		sized(s, e, sizeof.Int64Array(x), "int64 array")
	case 2:
		x := ndStrs("x", n/2+1, 32767)
		e.PutStringArray(x)
		sized(s, e, sizeof.StringArray(x), "string array")
	}
}

// varints: every int64
func H_C03_varint() {
	s, e := enc()
	x := v.Int64("x")
	e.PutVarInt(x)
	sized(s, e, sizeof.VarInt(x), "varint")
}

// var-length strings, short, every content
//
//vrt:quick n=3
//vrt:thorough n=5
func H_C03_varstring_short() {
	s, e := enc()
	x := v.StrN("x", v.Choose("len", v.Param("n", 3)+1))
	e.PutVarString(x)
	sized(s, e, sizeof.VarString(x), "var string")
}

// var-length strings of every length up to 256 MiB
//
//vrt:all unwind=6
func H_C03_varstring() {
	s, e := enc()
	x := v.Str("x", 1<<28-1)
	e.PutVarString(x)
	sized(s, e, sizeof.VarString(x), "var string")
}
