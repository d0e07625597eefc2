package zz_hmsg

import (
	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/message/sizeof"
	v "github.com/savaki/kafka/zz_vrt"
)

// some is one value of each primitive.
type some struct {
	b   bool
	i8  int8
	i16 int16
	i32 int32
	i64 int64
	s   string
	x   []byte
	as  []int32
	al  []int64
	ss  []string
}

func anySome(name string) some {
	return some{v.Bool(name + ".b"), v.Int8(name + ".i8"), v.Int16(name + ".i16"), v.Int32(name + ".i32"), v.Int64(name + ".i64"),
		v.StrN(name+".s", 2), v.BytesN(name+".x", 2), []int32{v.Int32(name + ".as"), 7}, []int64{v.Int64(name + ".al"), 8}, []string{v.StrN(name+".ss", 1), "x"}}
}

// steps are the calls that encode x.
func (x some) steps(e *message.Encoder) []func() {
	return []func(){
		func() { e.PutBool(x.b) },
		func() { e.PutInt8(x.i8) },
		func() { e.PutInt16(x.i16) },
		func() { e.PutInt32(x.i32) },
		func() { e.PutInt64(x.i64) },
		func() { e.PutVarInt(int64(x.i16)) },
		func() { e.PutString(x.s) },
		func() { e.PutNullableString(&x.s) },
		func() { e.PutBytes(x.x) },
		func() { e.PutVarBytes(x.x) },
		func() { e.PutVarString(x.s) },
		func() { e.PutRecordHeader(x.s, x.s) },
		func() { e.PutArrayLength(1) },
		func() { e.PutInt8(0) },
		func() { e.PutInt32Array(x.as) },
		func() { e.PutInt64Array(x.al) },
		func() { e.PutStringArray(x.ss) },
	}
}

func (x some) encode(e *message.Encoder) {
	for _, f := range x.steps(e) {
		f()
	}
}

func (x some) ref() []byte {
	b := r64(r32(r16(r8(rbool(nil, x.b), x.i8), x.i16), x.i32), x.i64)
	b = rvstr(rvbytes(rbytes(rstr(rstr(rvar(b, int64(x.i16)), x.s), x.s), x.x), x.x), x.s)
	return rstrs(ri64s(ri32s(r8(r32(rvstr(rvstr(b, x.s), x.s), 1), 0), x.as), x.al), x.ss)
}

func (x some) size() int {
	return int(sizeof.Bool + sizeof.Int8 + sizeof.Int16 + sizeof.Int32 + sizeof.Int64 + sizeof.VarInt(int64(x.i16)) + 2*sizeof.String(x.s) + sizeof.Bytes(x.x) +
		sizeof.VarBytes(x.x) + 3*sizeof.VarString(x.s) + sizeof.ArrayLength + sizeof.Int8 + sizeof.Int32Array(x.as) + sizeof.Int64Array(x.al) + sizeof.StringArray(x.ss))
}

// unsteps are the calls that decode x.
func (x some) unsteps(d *message.Decoder) []func() {
	ok := func(err error, same bool) { v.Assert(err == nil && same, "a value does not round-trip") }
	str := func(s string, err error) { ok(err, s == x.s) }
	bs := func(b []byte, err error) {
		ok(err, len(b) == len(x.x))
		v.AssertEqBytes(b, x.x, "a value does not round-trip")
	}
	return []func(){
		func() { b, err := d.Bool(); ok(err, b == x.b) },
		func() { i, err := d.Int8(); ok(err, i == x.i8) },
		func() { i, err := d.Int16(); ok(err, i == x.i16) },
		func() { i, err := d.Int32(); ok(err, i == x.i32) },
		func() { i, err := d.Int64(); ok(err, i == x.i64) },
		func() { i, err := d.VarInt(); ok(err, i == int64(x.i16)) },
		func() { str(d.String()) },
		func() { p, err := d.NullableString(); ok(err, p != nil && *p == x.s) },
		func() { bs(d.Bytes()) },
		func() { bs(d.VarBytes()) },
		func() { str(d.VarString()) },
		func() { str(d.VarString()); str(d.VarString()) },
		func() { n, err := d.ArrayLength(); ok(err, n == 1) },
		func() { ok(d.Discard(1), true) },
		func() { a, err := d.Int32Array(); ok(err, len(a) == 2 && a[0] == x.as[0] && a[1] == x.as[1]) },
		func() { a, err := d.Int64Array(); ok(err, len(a) == 2 && a[0] == x.al[0] && a[1] == x.al[1]) },
		func() { a, err := d.StringArray(); ok(err, len(a) == 2 && a[0] == x.ss[0] && a[1] == x.ss[1]) },
	}
}

func (x some) decode(d *message.Decoder) {
	for _, f := range x.unsteps(d) {
		f()
	}
}

// two encoders, then two decoders, used by turns
//
//vrt:all par=1
func H_C01_turns() {
	x := [2]some{anySome("first"), anySome("second")}
	s, e := enc()
	t, f := enc()
	turns(x[0].steps(e), x[1].steps(f))
	d, g := dec(s, e, "primitives"), dec(t, f, "primitives")
	turns(x[0].unsteps(d), x[1].unsteps(g))
	v.Reach("end")
}

// two encoders used by turns
//
//vrt:all par=1
func H_C02_turns() {
	x := [2]some{anySome("first"), anySome("second")}
	s, e := enc()
	t, f := enc()
	turns(x[0].steps(e), x[1].steps(f))
	v.Assert(e.Flush() == nil && f.Flush() == nil, "Flush reports an error")
	v.AssertEqBytes(s.B, x[0].ref(), "an encoding differs from Kafka's")
	v.AssertEqBytes(t.B, x[1].ref(), "an encoding differs from Kafka's")
	v.Reach("end")
}

func turns(a, b []func()) {
	for i := range a {
		a[i]()
		b[i]()
	}
}

// two encoders, and two decoders, at once
//
//vrt:all par=1
//vrt:replay try
func H_C01_par() {
	x := [2]some{anySome("first"), anySome("second")}
	par(func(i int) {
		s, e := enc()
		x[i].encode(e)
		x[i].decode(dec(s, e, "primitives"))
	})
}

// two encoders at once
//
//vrt:all par=1
//vrt:replay try
func H_C02_par() {
	x := [2]some{anySome("first"), anySome("second")}
	par(func(i int) {
		s, e := enc()
		x[i].encode(e)
		v.Assert(e.Flush() == nil, "Flush reports an error")
		v.AssertEqBytes(s.B, x[i].ref(), "an encoding differs from Kafka's")
	})
}

// sizes of two values at once
//
//vrt:all par=1
//vrt:replay try
func H_C03_par() {
	x := [2]some{anySome("first"), anySome("second")}
	par(func(i int) {
		v.Assert(x[i].size() == len(x[i].ref()), "a size is not the number of bytes encoded")
	})
}
