// Package zz_vrt, native side: the harness runtime used to replay a counterexample against the real code.
// Values come from the replay file; exit 3: assertion violated, exit 4: hang, exit 5: values exhausted or path assumption false.
package zz_vrt

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"sync"
	"time"
)

type val struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Int  int64  `json:"int"`
	Len  int    `json:"len"`
	Hex  string `json:"hex"`
}

type replay struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Vals    []val            `json:"vals"`
}

var (
	mu    sync.Mutex
	rp    replay
	pos   int
	base  uint64
	limit = -1
)

// Main runs harness fn with the replay file.
func Main(path string, find func(string) func()) {
	b, err := ioutil.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(6)
	}
	fn := find(rp.Harness)
	if fn == nil {
		fmt.Println("no such harness", rp.Harness)
		os.Exit(6)
	}
	wd := 8 * time.Second
	if s := os.Getenv("VRT_TIMEOUT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			wd = d
		}
	}
	go func() {
		time.Sleep(wd)
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		fmt.Printf("VRT-HANG: harness did not finish within %v\n%s\n", wd, buf[:n])
		os.Exit(4)
	}()
	fn()
	checkAlloc()
	fmt.Println("VRT-OK")
	os.Exit(0)
}

func next(kind, name string) val {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(rp.Vals) {
		// the model leaves values after the violation open
		return val{Kind: kind, Name: name}
	}
	v := rp.Vals[pos]
	pos++
	if v.Name != name {
		fmt.Printf("VRT-DIVERGED: wanted %s, file has %s\n", name, v.Name)
		os.Exit(5)
	}
	return v
}

func Int8(name string) int8   { return int8(next("int8", name).Int) }
func Int16(name string) int16 { return int16(next("int16", name).Int) }
func Int32(name string) int32 { return int32(next("int32", name).Int) }
func Int64(name string) int64 { return next("int64", name).Int }
func Uint8(name string) uint8 { return uint8(next("uint8", name).Int) }
func Bool(name string) bool   { return next("bool", name).Int != 0 }
func IntRange(name string, lo, hi int) int {
	v := int(next("int", name).Int)
	if v < lo {
		v = lo
	}
	return v
}
func Choose(name string, n int) int { return int(next("int", name).Int) }
func raw(kind, name string) []byte {
	v := next(kind, name)
	b, _ := hex.DecodeString(v.Hex)
	if len(b) < v.Len {
		b = append(b, make([]byte, v.Len-len(b))...)
	}
	return b
}
func Str(name string, max int) string   { return string(raw("str", name)) }
func StrN(name string, n int) string    { return fit(string(raw("str", name)), n) }
func Bytes(name string, max int) []byte { return raw("bytes", name) }
func BytesN(name string, n int) []byte  { return []byte(fit(string(raw("bytes", name)), n)) }
func fit(s string, n int) string {
	for len(s) < n {
		s += string(make([]byte, n-len(s)))
	}
	return s
}
func Assume(c bool) {
	if !c {
		fmt.Println("VRT-ASSUME: assumption false")
		os.Exit(5)
	}
}
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}
func Fail(msg string) {
	fmt.Println("VRT-VIOLATION:", msg)
	os.Exit(3)
}
func AssertEqStr(a, b string, msg string) {
	if a != b {
		Fail(fmt.Sprintf("%s: %.200q != %.200q", msg, a, b))
	}
}
func AssertEqBytes(a, b []byte, msg string) {
	if !bytes.Equal(a, b) {
		Fail(fmt.Sprintf("%s: %.200x != %.200x", msg, a, b))
	}
}
func Reach(label string) {}
func checkAlloc() {
	if limit < 0 {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if d := m.TotalAlloc - base; d > 512*uint64(limit)+1<<20 {
		Fail(fmt.Sprintf("allocated %d bytes, allowed in proportion to %d", d, limit))
	}
}
func Append(b, p []byte) []byte {
	return append(append([]byte{}, b...), p...)
}
func AppendStr(b []byte, p string) []byte {
	return append(append([]byte{}, b...), p...)
}
func Contract(fn, except string) {}
func AllocLimit(n int) {
	checkAlloc()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	base, limit = m.TotalAlloc, n
}
func Explore(preempt int)  {}
func Deterministic()       {}
func AtomicPkg(p string)   {}
func Races()               {}
func AllowDeadlock(b bool) {}
func Param(name string, def int) int {
	if v, ok := rp.Params[name]; ok {
		return int(v)
	}
	return def
}

// Scale and Expand undo the engine's scaling of the connection's buffers.
func Scale(n int) int { return n * Param("scale", 1) }
func Expand(b []byte) []byte {
	var out []byte
	for _, x := range b {
		out = append(out, bytes.Repeat([]byte{x}, Param("scale", 1))...)
	}
	return out
}
func Symbolic() bool { return false }
func Quiesce()       { time.Sleep(60 * time.Millisecond) }
func Settle()        { Quiesce() }
func Live() int      { return runtime.NumGoroutine() - 2 }
func SameArray(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	return &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
}
func Yield()             { runtime.Gosched() }
func Concrete(n int) int { return n }
func Dump(name string, v interface{}) {
	fmt.Printf("DUMP %s %+v\n", name, v)
}

// Finding reports a defect identified by key.
func Finding(key, msg string) { Fail(key + ": " + msg) }
