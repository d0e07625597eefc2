H = '''
package message

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"testing"
)

var _ = bufio.NewWriter
var _ = errors.New
var _ = fmt.Sprint
var _ = reflect.DeepEqual
var _ = bytes.NewReader

func enc(f func(e *Encoder)) []byte {
	b := &bytes.Buffer{}
	e := NewEncoder(b)
	f(e)
	if err := e.Flush(); err != nil {
		panic(err)
	}
	return b.Bytes()
}
'''

M = "message/messages.gen.go"
plant("p-sizeof-runes", "C03", [("message/sizeof/sizeof.go", "func String(s string) int32 {", "int32(len(s))", "int32(utf8.RuneCountInString(s))"),
  ("message/sizeof/sizeof.go", 'import "encoding/binary"', 'import (\n\t"encoding/binary"\n\t"unicode/utf8"\n)')], """
package sizeof

import "testing"

func TestDemo(t *testing.T) {
	if got := String("h\u00e9"); got != 5 {
		t.Fatalf("got %d", got)
	}
}
""", "a string with multi-byte characters", "sizeof.String counts characters, not bytes", pkg="./message/sizeof")
plant("p-empty-array-null", "C01", [("message/decoder.go", "func (d *Decoder) Int64Array()", "	if n == -1 {", "	if n <= 0 {")], H + """
func TestDemo(t *testing.T) {
	b := enc(func(e *Encoder) { e.PutInt64Array([]int64{}) })
	got, err := NewDecoder(b, len(b)).Int64Array()
	if err != nil || got == nil {
		t.Fatalf("got %v, %v", got, err)
	}
}
""", "an int64 array that is empty, not null", "an empty int64 array is decoded as null")
plant("p-shared-scratch", "C02", [("message/encoder.go", """	if e.err != nil {
		return
	}

	length := binary.PutVarint(e.buf[:], i)
	_, e.err = e.target.Write(e.buf[0:length])
""", """	if e.err != nil {
		return
	}

	// most values are small
	if u := uint64(i)<<1 ^ uint64(i>>63); u <= 0x80 {
		e.buf[0] = byte(u)
		_, e.err = e.target.Write(e.buf[:1])
		return
	}

	length := binary.PutVarint(e.buf[:], i)
	_, e.err = e.target.Write(e.buf[0:length])
""")], H + """
func TestDemo(t *testing.T) {
	b := enc(func(e *Encoder) { e.PutVarInt(64) })
	if !bytes.Equal(b, []byte{0x80, 0x01}) {
		t.Fatalf("% x", b)
	}
}
""", "the varint 64, the first that takes two bytes", "64 is written as the single byte 0x80")
plant("p-size-gate", "C04", [(M, "func (t FetchablePartitionResponse1) Size(", "	if version >= 5 {", "	if version >= 5 && t.LogStartOffset >= 0 {")], H + """
func TestDemo(t *testing.T) {
	m := FetchablePartitionResponse1{LogStartOffset: -1}
	b := enc(func(e *Encoder) { m.Encode(e, 11) })
	if int(m.Size(11)) != len(b) {
		t.Fatalf("size %d, written %d", m.Size(11), len(b))
	}
}
""", "a fetched partition with an unknown (negative) log start offset", "the declared size leaves out the log start offset that is written")
plant("p-decode-share", "C14", [(M, "func (t *DescribeGroupsResponse) Decode(", """		for i := 0; i < n; i++ {
			var item DescribedGroup15
""", """		var item DescribedGroup15
		for i := 0; i < n; i++ {
""")], H + """
func TestDemo(t *testing.T) {
	m := DescribeGroupsResponse{Groups: []DescribedGroup15{{GroupId: "a", Members: []DescribedGroupMember15{{MemberId: "x"}, {MemberId: "y"}}}, {GroupId: "b", Members: []DescribedGroupMember15{{MemberId: "z"}}}}}
	b := enc(func(e *Encoder) { m.Encode(e, 4) })
	var got DescribeGroupsResponse
	if err := got.Decode(NewDecoder(b, len(b)), 4); err != nil {
		t.Fatal(err)
	}
	if len(got.Groups) != 2 || got.Groups[1].Members[0].MemberId != "z" || got.Groups[0].Members[0].MemberId != "x" {
		t.Fatalf("%+v", got)
	}
	b = enc(func(e *Encoder) {
		e.PutInt32(0)
		e.PutArrayLength(2)
		m.Groups[0].Encode(e, 2)
		e.PutInt16(0)
		for i := 0; i < 4; i++ {
			e.PutString("q")
		}
		e.PutArrayLength(-1)
	})
	var r DescribeGroupsResponse
	if err := r.Decode(NewDecoder(b, len(b)), 2); err != nil || len(r.Groups[1].Members) != 0 {
		t.Fatalf("%v %+v", err, r)
	}
}
""", "a response with two groups, the second with a null member array", "the second group keeps the members of the first")
plant("p-decode-version", "C05", [(M, "func (t *SyncGroupResponse) Decode(", "	t.Assignment, err = d.Bytes()\n	if err != nil {", "	t.Assignment, err = d.Bytes()\n	if len(t.Assignment) == 0 {\n		t.Assignment = nil\n	}\n	if version >= 1 && t.ErrorCode != 0 {\n		t.Assignment = nil // not assigned\n	}\n	if err != nil {")], H + """
func TestDemo(t *testing.T) {
	m := SyncGroupResponse{ErrorCode: 27, Assignment: []byte("x")}
	b := enc(func(e *Encoder) { m.Encode(e, 3) })
	var got SyncGroupResponse
	if err := got.Decode(NewDecoder(b, len(b)), 3); err != nil || string(got.Assignment) != "x" {
		t.Fatalf("%v %+v", err, got)
	}
}
""", "a response that carries an error code and an assignment", "the assignment is dropped when the error code is set")
plant("p-layout-swap", "C06", [
  (M, "func (t MetadataResponsePartition3) Encode(", """	e.PutInt32Array(t.ReplicaNodes) // ReplicaNodes
	e.PutInt32Array(t.IsrNodes)     // IsrNodes
""", """	e.PutInt32Array(t.IsrNodes)     // IsrNodes
	e.PutInt32Array(t.ReplicaNodes) // ReplicaNodes
"""),
  (M, "func (t *MetadataResponsePartition3) Decode(", "	t.ReplicaNodes, err = d.Int32Array()", "	t.XX, err = d.Int32Array()"),
  (M, "func (t *MetadataResponsePartition3) Decode(", "	t.IsrNodes, err = d.Int32Array()", "	t.ReplicaNodes, err = d.Int32Array()"),
  (M, "func (t *MetadataResponsePartition3) Decode(", "	t.XX, err = d.Int32Array()", "	t.IsrNodes, err = d.Int32Array()")], H + """
func TestDemo(t *testing.T) {
	m := MetadataResponsePartition3{ReplicaNodes: []int32{7}, IsrNodes: []int32{9}}
	b := enc(func(e *Encoder) { m.Encode(e, 0) })
	want := []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 7, 0, 0, 0, 1, 0, 0, 0, 9}
	if !bytes.Equal(b, want) {
		t.Fatalf("% x", b)
	}
}
""", "a partition whose in-sync replicas differ from its replicas, seen by a real broker", "replicas and in-sync replicas change places, consistently in both directions")
plant("p-layout-gate", "C06", [
  (M, "func (t OffsetForLeaderPartition23) Size(", "	if version >= 2 {", "	if version >= 1 {"),
  (M, "func (t OffsetForLeaderPartition23) Encode(", "	if version >= 2 {", "	if version >= 1 {"),
  (M, "func (t *OffsetForLeaderPartition23) Decode(", "	if version >= 2 {", "	if version >= 1 {")], H + """
func TestDemo(t *testing.T) {
	m := OffsetForLeaderPartition23{PartitionIndex: 1, LeaderEpoch: 2}
	b := enc(func(e *Encoder) { m.Encode(e, 1) })
	if len(b) != 8 {
		t.Fatalf("% x", b)
	}
}
""", "version 1 of OffsetForLeaderEpoch", "the current leader epoch appears one version too early, in all three functions")
plant("p-bytes-cap", "C07", [("message/decoder.go", "func (d *Decoder) Bytes()", "	v := d.raw[a:b:b] // limit capacity of returned slice", "	v := d.raw[a:b]")], H + """
func TestDemo(t *testing.T) {
	raw := enc(func(e *Encoder) { e.PutBytes([]byte("ab")); e.PutBytes([]byte("cd")) })
	d := NewDecoder(raw, len(raw))
	a, _ := d.Bytes()
	a = append(a, 0xff, 0xff, 0xff, 0xff)
	b, err := d.Bytes()
	if err != nil || string(b) != "cd" {
		t.Fatalf("%q %v", b, err)
	}
}
""", "a caller that appends to a decoded byte array", "a decoded byte array gives access to the bytes after it")
plant("p-skip-flush-error", "C09", [("message/encoder.go", '''	if f, ok := e.target.(flusher); ok {
		return f.Flush()
	}
''', '''	if f, ok := e.target.(flusher); ok {
		if w, ok := e.target.(interface{ Buffered() int }); ok && w.Buffered() == 0 {
			return nil // nothing left to write
		}
		return f.Flush()
	}
''')], H + '''
type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, errors.New("no") }

type lazy struct{ err error }

func (l *lazy) Write(p []byte) (int, error) { l.err = errors.New("lost"); return len(p), nil }
func (l *lazy) Flush() error                { return l.err }
func (l *lazy) Buffered() int               { return 0 }

func TestDemo(t *testing.T) {
	e := NewEncoder(&lazy{})
	e.PutInt32(1)
	if e.Flush() == nil {
		t.Fatal("the flush error is lost")
	}
}
''', "a writer that reports nothing buffered but whose Flush fails", "the error of the writer's Flush is dropped")
plant("p-array-prealloc", "C08", [("message/decoder.go", '''	items := make([]string, n)
	for i := 0; i < n; i++ {
		item, err := d.String()
		if err != nil {
			return nil, err
		}
		items[i] = item
	}
''', '''	items := make([]string, 0, n)
	for len(items) < cap(items) {
		if d.offset == d.length {
			// elements left out at the end are empty
			items = items[:cap(items)]
			break
		}
		item, err := d.String()
		if err != nil {
			return nil, err
		}
		items = append(items, item)
	}
''')], H + '''
func TestDemo(t *testing.T) {
	b := enc(func(e *Encoder) { e.PutStringArray([]string{"a", "b", "c"}) })
	for i := range b {
		if _, err := NewDecoder(b, i).StringArray(); !IsInsufficientDataError(err) {
			t.Fatalf("cut at %d: %v", i, err)
		}
	}
}
''', "a string array cut exactly between two elements", "a truncated string array decodes without an error")
