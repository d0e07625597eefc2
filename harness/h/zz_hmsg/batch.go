package zz_hmsg

import (
	"time"

	"github.com/savaki/kafka"
	v "github.com/savaki/kafka/zz_vrt"
)

// pairs is a Header with an order.
type pairs [][2]string

func (p pairs) Get(key string) (string, bool) {
	for _, kv := range p {
		if kv[0] == key {
			return kv[1], true
		}
	}
	return "", false
}
func (p pairs) Range(fn func(key, value string)) {
	for _, kv := range p {
		fn(kv[0], kv[1])
	}
}

// rnull is a varint-length byte array or null.
func rnull(b, x []byte) []byte {
	if x == nil {
		return rvar(b, -1)
	}
	return rvbytes(b, x)
}

// What may be anything; the rest has small values, whose varints are one byte long.
const (
	anyTime = iota
	anyFraction
	anyOffset
	anyKey
	anyValue
	anyHeaderKey
	anyHeaderValue
	anyCount // two records and more headers
	focuses
)

func focus(f int) bool { return v.Param("focus", 0) == f || v.Param("focus2", -1) == f }

func limit(f int) int {
	if focus(f) {
		return 1<<20 - 1
	}
	return 3
}

// maybe is null, empty, or up to max bytes.
func maybe(name string, max int) []byte {
	if focus(anyCount) {
		return v.BytesN(name, 1)
	}
	if v.Bool(name + " is null") {
		return nil
	}
	return v.Bytes(name, max)
}

func text(name string, max, i int) string {
	if focus(anyCount) {
		return v.StrN(name, i)
	}
	return v.Str(name, max)
}

func small(name string) int64 {
	x := v.Int64(name)
	v.Assume(x >= -64 && x < 64 && (x >= 0 || !focus(anyCount)))
	return x
}

// record is any message; delta and hs are its timestamp delta and its headers in the order written.
func record(r *kafka.RecordBatch, first bool) (m kafka.Message, delta, offset int64, hs pairs) {
	var sec, nsec int64 = 1500000000, 0
	if focus(anyTime) && first {
		sec, delta = v.Int64("seconds"), v.Int64("timestamp delta")
		v.Assume(sec >= 0 && sec < 1<<33)
		r.FirstTimestamp = sec*1000 - delta
	} else if focus(anyFraction) && first {
		nsec = v.Int64("nanoseconds")
		v.Assume(nsec >= 0 && nsec < 1000000000)
		r.FirstTimestamp = 1500000000000
		delta = nsec / 1000000
	} else if first {
		delta = small("timestamp delta")
		r.FirstTimestamp = 1500000000000 - delta
	} else {
		sec += small("seconds")
		delta = sec*1000 - r.FirstTimestamp
	}
	offset = small("offset delta")
	if focus(anyOffset) {
		offset = v.Int64("offset delta")
	}
	m = kafka.Message{
		Topic:     "t",
		Partition: v.Int32("partition"),
		Offset:    r.BaseOffset + offset,
		Key:       maybe("key", limit(anyKey)),
		Value:     maybe("value", limit(anyValue)),
		Timestamp: time.Unix(sec, nsec),
	}
	k := 1
	if focus(anyCount) {
		k = v.Param("headers", 2)
	}
	n := v.Choose("headers", k+2) - 1
	for i := 0; i < n; i++ {
		hs = append(hs, [2]string{text("header key", limit(anyHeaderKey), 1+i), text("header value", limit(anyHeaderValue), i)})
	}
	switch {
	case n < 0: // no Header
	case n <= 1 && v.Bool("map"):
		h := kafka.MapHeader{}
		for _, kv := range hs {
			h[kv[0]] = kv[1]
		}
		m.Header = h
	default:
		m.Header = hs
	}
	return m, delta, offset, hs
}

// header is what comes before n records.
func header(r kafka.RecordBatch, n int) []byte {
	var b []byte
	b = r64(b, r.BaseOffset)
	b = r32(b, r.BatchLength)
	b = r32(b, r.PartitionLeaderEpoch)
	b = r8(b, 2)
	b = r32(b, r.CRC)
	b = r16(b, r.Attributes)
	b = r32(b, r.LastOffsetDelta)
	b = r64(b, r.FirstTimestamp)
	b = r64(b, r.MaxTimestamp)
	b = r64(b, r.ProducerId)
	b = r16(b, r.ProducerEpoch)
	b = r32(b, r.BaseSequence)
	return r32(b, int32(n))
}

func anyBatch() (kafka.RecordBatch, []byte) {
	r := kafka.RecordBatch{
		BaseOffset:           v.Int64("BaseOffset"),
		BatchLength:          v.Int32("BatchLength"),
		PartitionLeaderEpoch: v.Int32("PartitionLeaderEpoch"),
		Magic:                v.Int8("Magic"), // the bytes are version 2's, whatever it is
		CRC:                  v.Int32("CRC"),
		Attributes:           v.Int16("Attributes"),
		LastOffsetDelta:      v.Int32("LastOffsetDelta"),
		FirstTimestamp:       v.Int64("FirstTimestamp"),
		MaxTimestamp:         v.Int64("MaxTimestamp"),
		ProducerId:           v.Int64("ProducerId"),
		ProducerEpoch:        v.Int16("ProducerEpoch"),
		BaseSequence:         v.Int32("BaseSequence"),
	}
	n := v.Choose("records", 2)
	if focus(anyCount) {
		n = 2
	}
	var recs []byte
	for i := 0; i < n; i++ {
		m, delta, offset, hs := record(&r, i == 0)
		var x []byte
		x = r8(x, 0)
		x = rvar(x, delta)
		x = rvar(x, offset)
		x = rnull(x, m.Key)
		x = rnull(x, m.Value)
		x = rvar(x, int64(len(hs)))
		for _, kv := range hs {
			x = rvstr(x, kv[0])
			x = rvstr(x, kv[1])
		}
		recs = rvar(recs, int64(len(x)))
		recs = v.Append(recs, x)
		r.Records = append(r.Records, m)
	}
	return r, v.Append(header(r, n), recs)
}

// counted is any number of headers with a fixed text; it changes nothing.
type counted struct {
	n    int
	k, x string
}

func (c counted) Get(string) (string, bool) { return "", false }
func (c counted) Range(fn func(key, value string)) {
	for i := 0; i < c.n; i++ {
		fn(c.k, c.x)
	}
}

// numbers of headers at which the length of their varint changes
//
//vrt:quick time=100
//vrt:thorough time=600
func H_C24_many() {
	h := counted{[]int{1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 200}[v.Choose("headers", 11)], v.StrN("key", 1), v.StrN("value", v.Choose("value length", 2))}
	r := kafka.RecordBatch{FirstTimestamp: 1500000000000, Records: []kafka.Message{{Header: h, Timestamp: time.Unix(1500000000, 0)}}}
	x := rvar(rnull(rnull(rvar(rvar(r8(nil, 0), 0), 0), nil), nil), int64(h.n))
	for i := 0; i < h.n; i++ {
		x = rvstr(rvstr(x, h.k), h.x)
	}
	recs := v.Append(rvar(nil, int64(len(x))), x)
	n := r.Size(0)
	s, e := enc()
	r.Encode(e, 0)
	v.Assert(e.Flush() == nil, "encoding a record batch fails")
	v.Assert(int(n) == len(s.B), "a record batch's size is not the number of bytes written")
	v.AssertEqBytes(s.B, v.Append(header(r, 1), recs), "a record batch's bytes are not Kafka's")
	v.Reach("end")
}

// many records
//
//vrt:quick time=100 records=8
//vrt:thorough time=600 records=11
func H_C24_records() {
	n := []int{2, 3, 9, 33, 63, 64, 65, 130, 300, 1000, 8200}[v.Choose("records", v.Param("records", 8))]
	r := kafka.RecordBatch{FirstTimestamp: 1500000000000, BaseOffset: v.Int64("BaseOffset")}
	key := v.BytesN("key", 1)
	var recs []byte
	for i := 0; i < n; i++ {
		m := kafka.Message{Offset: r.BaseOffset + int64(i), Key: key, Timestamp: time.Unix(1500000000, int64(i)*1000000)}
		x := rnull(rnull(rvar(rvar(r8(nil, 0), int64(i)), int64(i)), key), nil)
		if i%3 == 1 {
			m.Header = counted{1, "k", "v"}
			x = rvstr(rvstr(rvar(x, 1), "k"), "v")
		} else {
			x = rvar(x, 0)
		}
		recs = v.Append(rvar(recs, int64(len(x))), x)
		r.Records = append(r.Records, m)
	}
	size := r.Size(0)
	s, e := enc()
	r.Encode(e, 0)
	v.Assert(e.Flush() == nil, "encoding a record batch fails")
	v.Assert(int(size) == len(s.B), "a record batch's size is not the number of bytes written")
	v.AssertEqBytes(s.B, v.Append(header(r, n), recs), "a record batch's bytes are not Kafka's")
	v.Reach("end")
}

// times far away from now, before 1970 too; the milliseconds of a time are rounded down
//
//vrt:quick time=200
//vrt:thorough time=600
func H_C24_times() {
	i := v.Choose("seconds", 10)
	sec := []int64{-1, 0, 1, -1000, 1500000000, 1 << 31, 1 << 33, 9223372037, 253402300799, -9223372037}[i]
	nsec := v.Int64("nanoseconds")
	v.Assume(nsec >= 0 && nsec < 1000000000)
	ms := nsec / 1000000
	r := kafka.RecordBatch{FirstTimestamp: sec * 1000, Records: []kafka.Message{{Timestamp: time.Unix(sec, nsec)}}}
	x := rvar(rnull(rnull(rvar(rvar(r8(nil, 0), ms), 0), nil), nil), 0)
	recs := v.Append(rvar(nil, int64(len(x))), x)
	n := r.Size(0)
	s, e := enc()
	r.Encode(e, 0)
	v.Assert(e.Flush() == nil, "encoding a record batch fails")
	v.Assert(int(n) == len(s.B), "a record batch's size is not the number of bytes written")
	v.AssertEqBytes(s.B, v.Append(header(r, 1), recs), "a record batch's bytes are not Kafka's")
	v.Reach("end")
}

// the declared size is the number of bytes written, which are Kafka's
//
//vrt:all focus=8
//vrt:quick time=300 headers=2
//vrt:thorough time=1500 headers=3
//vrt:split focus
func H_C24_batch() { batch() }

// as above, with two fields that may be anything
//
//vrt:thorough time=1500 focus=8 focus2=8
//vrt:split focus focus2
func T_C24_two() {
	if v.Param("focus", 0) < v.Param("focus2", 0) {
		batch()
	}
	v.Reach("end")
}

func batch() {
	r, b := anyBatch()
	ver := v.Int16("version")
	n := r.Size(ver)
	s, e := enc()
	r.Encode(e, ver)
	v.Assert(e.Flush() == nil, "encoding a record batch fails")
	v.Assert(int(n) == len(s.B), "a record batch's size is not the number of bytes written")
	v.AssertEqBytes(s.B, b, "a record batch's bytes are not Kafka's")
	v.Reach("end")
}

// one batch encoded by two goroutines at once
//
//vrt:all focus=7 time=100
//vrt:replay try
func H_C24_par() {
	r, b := anyBatch()
	par(func(int) {
		n := r.Size(0)
		s, e := enc()
		r.Encode(e, 0)
		v.Assert(e.Flush() == nil, "encoding a record batch fails")
		v.Assert(int(n) == len(s.B), "a record batch's size is not the number of bytes written")
		v.AssertEqBytes(s.B, b, "a record batch's bytes are not Kafka's")
	})
}
