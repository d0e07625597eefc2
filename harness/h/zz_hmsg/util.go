// Package zz_hmsg holds the harnesses for the message and sizeof packages.
package zz_hmsg

import (
	"github.com/savaki/kafka/message"
	v "github.com/savaki/kafka/zz_vrt"
)

// Sink collects what is written.
type Sink struct{ B []byte }

func (s *Sink) Write(p []byte) (int, error) {
	s.B = v.Append(s.B, p)
	return len(p), nil
}

func enc() (*Sink, *message.Encoder) {
	s := &Sink{}
	return s, message.NewEncoder(s)
}

// after checks that the marker encoded next is decoded next and nothing is left.
func after(d *message.Decoder, mark int32, what string) {
	m, err := d.Int32()
	v.Assert(err == nil, what+": value encoded next cannot be decoded")
	v.Assert(m == mark, what+": value encoded next is decoded differently")
	_, err = d.Int8()
	v.Assert(err != nil, what+": more data than was encoded")
	v.Reach("end")
}

// par runs f twice at once. One schedule, but data races are reported.
func par(f func(i int)) {
	v.AtomicPkg("context")
	v.Races()
	v.Explore(-2)
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			f(i)
			done <- true
		}()
	}
	<-done
	<-done
	v.Reach("end")
}

func dec(s *Sink, e *message.Encoder, what string) *message.Decoder {
	v.Assert(e.Flush() == nil, what+": Flush reports an error")
	return message.NewDecoder(s.B, len(s.B))
}

// ---- independent reference encoders ----

func r8(b []byte, x int8) []byte   { return append(b, byte(x)) }
func r16(b []byte, x int16) []byte { return append(b, byte(uint16(x)>>8), byte(x)) }
func r32(b []byte, x int32) []byte {
	return append(b, byte(uint32(x)>>24), byte(uint32(x)>>16), byte(uint32(x)>>8), byte(x))
}
func r64(b []byte, x int64) []byte { return r32(r32(b, int32(x>>32)), int32(x)) }
func rbool(b []byte, x bool) []byte {
	if x {
		return append(b, 1)
	}
	return append(b, 0)
}
func rstr(b []byte, s string) []byte { return v.AppendStr(r16(b, int16(len(s))), s) }
func rbytes(b []byte, x []byte) []byte {
	return v.Append(r32(b, int32(len(x))), x)
}
func rvar(b []byte, x int64) []byte {
	u := uint64(x<<1) ^ uint64(x>>63)
	for u > 127 {
		b = append(b, byte(u)|128)
		u >>= 7
	}
	return append(b, byte(u))
}
func rvstr(b []byte, s string) []byte   { return v.AppendStr(rvar(b, int64(len(s))), s) }
func rvbytes(b []byte, x []byte) []byte { return v.Append(rvar(b, int64(len(x))), x) }
func ri32s(b []byte, x []int32) []byte {
	if x == nil {
		return r32(b, -1)
	}
	b = r32(b, int32(len(x)))
	for _, e := range x {
		b = r32(b, e)
	}
	return b
}
func ri64s(b []byte, x []int64) []byte {
	if x == nil {
		return r32(b, -1)
	}
	b = r32(b, int32(len(x)))
	for _, e := range x {
		b = r64(b, e)
	}
	return b
}
func rstrs(b []byte, x []string) []byte {
	if x == nil {
		return r32(b, -1)
	}
	b = r32(b, int32(len(x)))
	for _, e := range x {
		b = rstr(b, e)
	}
	return b
}

// ---- symbolic collections ----

// ndLen is -1 (nil), a number up to max, or, if long, one of some larger ones.
func ndLen(name string, max int) (n int, long bool) {
	longs := []int{17, 33, 65, 100, 129, 257, 300, 1025}
	n = v.Choose(name+".n", max+2+v.Param("longs", 0)) - 1
	if n > max {
		return longs[n-max-1], true
	}
	return n, false
}

// ndI32s is nil or any array of up to max elements, or a long one.
func ndI32s(name string, max int) []int32 {
	n, _ := ndLen(name, max)
	if n < 0 {
		return nil
	}
	out := make([]int32, n)
	for i := range out {
		out[i] = v.Int32(name)
	}
	return out
}
func ndI64s(name string, max int) []int64 {
	n, _ := ndLen(name, max)
	if n < 0 {
		return nil
	}
	out := make([]int64, n)
	for i := range out {
		out[i] = v.Int64(name)
	}
	return out
}
func ndStrs(name string, max, slen int) []string {
	n, long := ndLen(name, max)
	if n < 0 {
		return nil
	}
	out := make([]string, n)
	for i := range out {
		if long {
			out[i] = v.StrN(name, i%3)
		} else {
			out[i] = v.Str(name, slen)
		}
	}
	return out
}

// shape decides array lengths: every array has one element, except one array (thorough: or two) that is null, empty
// or longer. Arrays are numbered in the order they are filled.
// Or, in the alternating shapes, every outer array has two elements, whose inner arrays differ.
type shape struct {
	cnt, at, mode, at2, mode2 int
	alt                       int
	stack                     []int
	long                      bool   // one array is long; strings and byte arrays have 2 bytes
	bools                     []bool // their booleans: one that alternates
	strs, blank               int    // the blank-th string or byte array is empty
}

func (s *shape) push(i int) { s.stack = append(s.stack, i) }
func (s *shape) pop()       { s.stack = s.stack[:len(s.stack)-1] }

// nullArrays: a nil array of structures is null in the reference encoding, not empty.
var nullArrays bool

func newShape(sites int) *shape {
	sh := &shape{at: -1, at2: -1, blank: -1}
	if i := v.Param("long", 0); i > 0 {
		sh.at, sh.mode, sh.long = v.Choose("array", sites+1)-1, []int{0, 140, 40, 600}[i], true
		return sh
	}
	kind := v.Param("shapes", 1)
	if kind == 0 {
		return sh
	}
	strs := v.Param("strs", 0)
	if strs > 0 && v.Bool("blank") {
		sh.blank = v.Choose("blank string", strs)
		return sh
	}
	if sites == 0 {
		return sh
	}
	if kind == 2 {
		sh.alt = v.Choose("shape", 4)
		return sh
	}
	long := v.Param("arr", 3)
	k := v.Choose("array", sites+4)
	if k > sites {
		sh.alt = k - sites
		return sh
	}
	sh.at = k - 1
	if sh.at >= 0 {
		sh.mode = shapeMode("mode", long)
	}
	if v.Param("pairs", 0) > 0 && sh.at > 0 {
		sh.at2 = v.Choose("array2", sh.at+1) - 1
		if sh.at2 >= 0 {
			sh.mode2 = shapeMode("mode2", long)
		}
	}
	return sh
}

// shapeMode is -1 (null), 0, or 2..long elements.
func shapeMode(name string, long int) int {
	m := v.Choose(name, long+1) - 1
	if m >= 1 {
		m++
	}
	return m
}

func (s *shape) next() int {
	i := s.cnt
	s.cnt++
	if s.alt > 0 {
		if len(s.stack) == 0 {
			return 2
		}
		second := false
		for _, x := range s.stack {
			if x == 1 {
				second = true
			}
		}
		switch {
		case second && s.alt == 1:
			return -1
		case second && s.alt == 2:
			return 2
		case !second && s.alt == 3:
			return 0
		}
		return 1
	}
	if i == s.at {
		return s.mode
	}
	if i == s.at2 {
		return s.mode2
	}
	return 1
}

func (s *shape) bool(name string) bool {
	if !s.long {
		return v.Bool(name)
	}
	b := false
	if n := len(s.bools); n == 0 {
		b = v.Bool(name)
	} else {
		b = !s.bools[n-1]
	}
	s.bools = append(s.bools[:0], b)
	return b
}
func (s *shape) str(name string) string {
	s.strs++
	if s.strs-1 == s.blank {
		return ""
	}
	if s.long {
		return v.StrN(name, 2)
	}
	return v.Str(name, 32767)
}
func (s *shape) bytes(name string) []byte {
	s.strs++
	if s.strs-1 == s.blank {
		return []byte{}
	}
	if s.long {
		return v.BytesN(name, 2)
	}
	return v.Bytes(name, 1<<20-1)
}
func (s *shape) int32Array(name string) []int32 {
	n := s.next()
	if n < 0 {
		return nil
	}
	out := make([]int32, n)
	for i := range out {
		out[i] = v.Int32(name)
	}
	return out
}
func (s *shape) int64Array(name string) []int64 {
	n := s.next()
	if n < 0 {
		return nil
	}
	out := make([]int64, n)
	for i := range out {
		out[i] = v.Int64(name)
	}
	return out
}
func (s *shape) stringArray(name string) []string {
	n := s.next()
	if n < 0 {
		return nil
	}
	out := make([]string, n)
	for i := range out {
		out[i] = s.str(name)
	}
	return out
}

// nestedDecode is what the Decode of any nested structure may do: fail, or consume any number of available bytes.
// Each nested structure's own harness shows that it does no more than that.
func nestedDecode(d *message.Decoder, version int16) error {
	if v.Bool("nested.fails") {
		return errNested
	}
	return d.Discard(v.IntRange("nested.bytes", 0, 1<<16-1))
}

type nestedErr struct{}

func (nestedErr) Error() string { return "nested" }

var errNested error = nestedErr{}
