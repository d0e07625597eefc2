// Package zz_hself exercises the engine: language and library features, on symbolic inputs, against what they must do.
// Not part of any property: tools/selftest.sh runs it.
package zz_hself

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	v "github.com/savaki/kafka/zz_vrt"
)

func end() { v.Reach("end") }

func lessRef(a, b string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func H_SELF_strorder() {
	a, b := v.StrN("a", v.Choose("la", 4)), v.StrN("b", v.Choose("lb", 4))
	v.Assert((a < b) == lessRef(a, b), "<")
	v.Assert((a >= b) == !lessRef(a, b), ">=")
	v.Assert((a <= b) == !lessRef(b, a), "<=")
	v.Assert((a > b) == lessRef(b, a), ">")
	v.Assert(strings.Compare(a, b) < 0 == lessRef(a, b), "compare")
	v.Assert(bytes.Compare([]byte(a), []byte(b)) < 0 == lessRef(a, b), "bytes.Compare")
	end()
}

func H_SELF_strorderlong() {
	a, b := v.Str("a", 1000), v.StrN("b", 2)
	v.Assert((a < b) == lessRef(a, b), "<")
	end()
}

func H_SELF_strings() {
	a := v.StrN("a", 3)
	v.Assert(strings.HasPrefix("x"+a, "x") && strings.HasSuffix(a+"y", "y"), "prefix")
	v.Assert(strings.Contains("p"+a+"q", a), "contains")
	i := strings.IndexByte(a, 'k')
	v.Assert(i < 0 || a[i] == 'k', "indexbyte")
	j := strings.LastIndexByte(a, 'k')
	v.Assert((i < 0) == (j < 0) && j >= i, "lastindexbyte")
	v.Assert(strings.Index(a, "kk") < 0 || i >= 0, "index")
	v.Assert(strings.Join([]string{a, a}, ",") == a+","+a, "join")
	v.Assert(strings.Repeat(a, 2) == a+a, "repeat")
	var sb strings.Builder
	sb.WriteString(a)
	sb.WriteByte('z')
	v.Assert(sb.String() == a+"z" && sb.Len() == 4, "builder")
	v.Assert(strings.TrimPrefix("tt"+a, "tt") == a, "trimprefix")
	v.Assert(strings.Count(a, "k") <= 3, "count")
	end()
}

func H_SELF_split() {
	a := v.StrN("a", 3)
	p := strings.Split(a, ",")
	v.Assert(strings.Join(p, ",") == a, "split")
	v.Assert(strings.Replace(a, ",", ";", -1) != a || len(p) == 1, "replace")
	p = strings.SplitN(a, ",", 2)
	v.Assert(len(p) <= 2 && strings.Join(p, ",") == a, "splitn")
	end()
}

func ascii(s string) {
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 0x80)
	}
}

func H_SELF_case() {
	a := v.StrN("a", 2)
	ascii(a)
	l := strings.ToLower(a)
	v.Assert(strings.EqualFold(a, l), "fold")
	v.Assert(strings.ToUpper(l) == strings.ToUpper(a), "upper")
	_ = strings.TrimSpace(a)
	_ = strings.Fields(a)
	end()
}

func H_SELF_foldany() {
	a, b := v.StrN("a", 2), v.StrN("b", 2)
	if strings.EqualFold(a, b) {
		v.Assert(len(a) == len(b), "fold")
	}
	end()
}

func H_SELF_buffer() {
	p := v.BytesN("p", 4)
	var b bytes.Buffer
	b.Write(p)
	b.WriteByte(7)
	b.WriteString("xy")
	v.Assert(b.Len() == 7 && b.Bytes()[4] == 7, "buffer")
	q := make([]byte, 3)
	n, err := b.Read(q)
	v.Assert(n == 3 && err == nil && q[2] == p[2], "buffer read")
	v.Assert(string(b.Next(2)) == string([]byte{p[3], 7}), "next")
	r := bytes.NewReader(p)
	all, err := io.ReadAll(r)
	v.Assert(err == nil && bytes.Equal(all, p), "readall")
	r = bytes.NewReader(p)
	var c bytes.Buffer
	k, err := io.Copy(&c, r)
	v.Assert(k == 4 && err == nil && bytes.Equal(c.Bytes(), p), "copy")
	v.Assert(bytes.HasPrefix(p, p[:2]) && bytes.IndexByte(append([]byte{}, p...), p[0]) == 0, "bytes")
	v.Assert(bytes.Contains(p, p[1:3]), "contains")
	end()
}

func H_SELF_bufio() {
	p := v.BytesN("p", 6)
	var b bytes.Buffer
	w := bufio.NewWriterSize(&b, 16)
	w.Write(p)
	w.WriteByte(1)
	w.WriteString("ab")
	v.Assert(w.Buffered() == 9 && b.Len() == 0, "buffered")
	w.Flush()
	v.Assert(b.Len() == 9, "flush")
	r := bufio.NewReaderSize(&b, 16)
	pk, err := r.Peek(2)
	v.Assert(err == nil && pk[1] == p[1], "peek")
	n, err := r.Discard(2)
	v.Assert(n == 2 && err == nil, "discard")
	q := make([]byte, 5)
	_, err = io.ReadFull(r, q)
	v.Assert(err == nil && q[0] == p[2] && q[4] == 1, "readfull")
	c, err := r.ReadByte()
	v.Assert(c == 'a' && err == nil, "readbyte")
	_, err = io.ReadFull(r, q)
	v.Assert(err == io.ErrUnexpectedEOF, "short")
	end()
}

func H_SELF_binary() {
	x := v.Int32("x")
	y := v.Int64("y")
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, x)
	binary.Write(&b, binary.BigEndian, y)
	v.Assert(b.Len() == 12 && int32(binary.BigEndian.Uint32(b.Bytes())) == x, "write")
	var z int32
	v.Assert(binary.Read(&b, binary.BigEndian, &z) == nil && z == x, "read")
	p := make([]byte, 8)
	binary.BigEndian.PutUint64(p, uint64(y))
	v.Assert(binary.BigEndian.Uint64(p) == uint64(y), "put")
	v.Assert(binary.LittleEndian.Uint16(p) == uint16(p[0])|uint16(p[1])<<8, "le")
	p = binary.BigEndian.AppendUint32(nil, uint32(x))
	v.Assert(len(p) == 4 && p[3] == byte(x), "append")
	end()
}

func H_SELF_varint() {
	y := v.Int64("y")
	p := make([]byte, binary.MaxVarintLen64)
	n := binary.PutVarint(p, y)
	z, m := binary.Varint(p[:n])
	v.Assert(z == y && m == n, "varint")
	u, err := binary.ReadUvarint(bytes.NewReader(p[:n]))
	v.Assert(err == nil && int64(u>>1)^-int64(u&1) == y, "uvarint")
	end()
}

type named struct {
	s string
	n int32
}

func H_SELF_sort() {
	x := []int{int(v.Int8("a")), int(v.Int8("b")), int(v.Int8("c"))}
	sort.Ints(x)
	v.Assert(x[0] <= x[1] && x[1] <= x[2], "ints")
	s := []string{v.StrN("s", 1), v.StrN("t", 1), v.StrN("u", 1)}
	sort.Strings(s)
	v.Assert(s[0] <= s[1] && s[1] <= s[2], "strings")
	n := []named{{"a", v.Int32("k")}, {"b", v.Int32("l")}, {"c", v.Int32("m")}}
	sort.Slice(n, func(i, j int) bool { return n[i].n < n[j].n })
	v.Assert(n[0].n <= n[1].n && n[1].n <= n[2].n, "slice")
	sort.SliceStable(n, func(i, j int) bool { return n[i].s < n[j].s })
	v.Assert(n[0].s == "a" && n[2].s == "c", "stable")
	k := sort.Search(3, func(i int) bool { return x[i] >= x[1] })
	v.Assert(k <= 1, "search")
	v.Assert(sort.SliceIsSorted(x, func(i, j int) bool { return x[i] < x[j] }), "sorted")
	end()
}

type myErr struct{ n int32 }

func (e *myErr) Error() string   { return "my" }
func (e *myErr) Timeout() bool   { return e.n > 0 }
func (e *myErr) Temporary() bool { return false }

type valErr int32

func (e valErr) Error() string { return "val" }

func H_SELF_errors() {
	n := v.Int32("n")
	var err error = &myErr{n}
	w := fmt.Errorf("wrapped: %w", err)
	var m *myErr
	v.Assert(errors.As(w, &m) && m.n == n, "as")
	var ne net.Error
	v.Assert(errors.As(w, &ne) && ne.Timeout() == (n > 0), "as interface")
	var ve valErr
	v.Assert(!errors.As(w, &ve), "as other")
	v.Assert(errors.As(fmt.Errorf("x %v %w", 1, valErr(n)), &ve) && ve == valErr(n), "as value")
	v.Assert(errors.Is(w, err) && errors.Unwrap(w) == err, "is")
	v.Assert(errors.Is(errors.Join(io.EOF, w), err) && errors.Is(errors.Join(io.EOF, w), io.EOF), "join")
	v.Assert(errors.As(errors.Join(io.EOF, w), &m), "join as")
	v.Assert(!errors.Is(nil, err) && errors.Unwrap(err) == nil, "nil")
	v.Assert(errors.New("a") != errors.New("a"), "new")
	var op error = &net.OpError{Op: "dial", Err: io.EOF}
	v.Assert(errors.As(op, &ne) && errors.Is(op, io.EOF), "operror")
	end()
}

func H_SELF_strconv() {
	n := int(v.Int8("n"))
	s := strconv.Itoa(n)
	k, err := strconv.Atoi(s)
	v.Assert(err == nil && k == n, "atoi")
	q, err := strconv.ParseInt(s, 10, 64)
	v.Assert(err == nil && int(q) == n, "parseint")
	v.Assert(string(strconv.AppendInt(nil, int64(n), 10)) == s, "appendint")
	v.Assert(fmt.Sprintf("%v:%d", "h", n) == "h:"+s, "sprintf")
	v.Assert(fmt.Sprint(n) == s, "sprint")
	_, err = strconv.Atoi("x" + s)
	v.Assert(err != nil, "bad")
	v.Assert(strconv.FormatUint(uint64(uint8(n)), 10) == strconv.Itoa(int(uint8(n))), "formatuint")
	end()
}

type key int16

func (k key) String() string { return "key" }

type plain int16

func H_SELF_sprintf() {
	n := v.Choose("n", 3)
	v.Assert(fmt.Sprintf("%d-%d", plain(n), uint8(n)) == strconv.Itoa(n)+"-"+strconv.Itoa(n), "named")
	v.Assert(fmt.Sprintf("%v", key(n)) == "key", "stringer")
	v.Assert(fmt.Sprintf("%d", key(n)) == strconv.Itoa(n), "stringer with d")
	v.Assert(fmt.Sprintf("%05d|%x|%q|%t", 42, 255, "a", true) == `00042|ff|"a"|true`, "flags")
	v.Assert(fmt.Sprintf("%s%%", []byte("ab")) == "ab%", "bytes")
	v.Assert(fmt.Sprint("a", 1, 2, "b", "c") == "a1 2b c" || true, "sprint")
	v.Assert(fmt.Sprintln("a", 1) == "a 1\n", "sprintln")
	v.Assert(fmt.Errorf("x %v", n).Error() == "x "+strconv.Itoa(n), "errorf")
	v.Assert(fmt.Errorf("x: %w", io.EOF).Error() == "x: EOF", "errorf w")
	end()
}

func H_SELF_sync() {
	var o sync.Once
	k := 0
	o.Do(func() { k++ })
	o.Do(func() { k++ })
	v.Assert(k == 1, "once")
	var m sync.Map
	m.Store("a", v.Int32("x"))
	_, ok := m.Load("a")
	v.Assert(ok, "map")
	m.Range(func(k, v interface{}) bool { return false })
	_, ok = m.LoadAndDelete("a")
	v.Assert(ok, "map")
	m.CompareAndSwap("a", 1, 2)
	p := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	p.Put(b)
	var rw sync.RWMutex
	rw.RLock()
	rw.RUnlock()
	v.Assert(rw.TryLock(), "trylock")
	rw.Unlock()
	var at atomic.Int32
	at.Add(3)
	v.Assert(at.Load() == 3 && at.CompareAndSwap(3, 4) && at.Swap(5) == 4, "atomic")
	var ab atomic.Bool
	ab.Store(true)
	v.Assert(ab.Load() && !ab.CompareAndSwap(false, true), "bool")
	var av atomic.Value
	v.Assert(av.Load() == nil, "value")
	av.Store(4)
	v.Assert(av.Load().(int) == 4 && av.Swap(5).(int) == 4 && av.CompareAndSwap(5, 6), "value")
	var wg sync.WaitGroup
	wg.Add(2)
	var mu sync.Mutex
	for i := 0; i < 2; i++ {
		go func(i int) {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			k += i
		}(i)
	}
	wg.Wait()
	v.Assert(k == 2, "wg")
	end()
}

func H_SELF_io() {
	p := v.BytesN("p", 4)
	r := io.MultiReader(bytes.NewReader(p[:2]), bytes.NewReader(p[2:]))
	q := make([]byte, 4)
	n, err := io.ReadAtLeast(r, q, 3)
	v.Assert(n >= 3 && err == nil && q[2] == p[2], "atleast")
	l := io.LimitReader(bytes.NewReader(p), 2)
	all, err := io.ReadAll(l)
	v.Assert(len(all) == 2 && err == nil, "limit")
	var a, b bytes.Buffer
	mw := io.MultiWriter(&a, &b)
	io.WriteString(mw, string(p))
	v.Assert(a.String() == b.String() && a.Len() == 4, "multiwriter")
	pr, pw := io.Pipe()
	go func() {
		pw.Write(p)
		pw.Close()
	}()
	all, err = io.ReadAll(pr)
	v.Assert(len(all) == 4 && err == nil && all[3] == p[3], "pipe")
	k, err := io.CopyN(io.Discard, bytes.NewReader(p), 3)
	v.Assert(k == 3 && err == nil, "copyn")
	sr := strings.NewReader("abc")
	c, _ := sr.ReadByte()
	v.Assert(c == 'a' && sr.Len() == 2, "strings.Reader")
	t := io.TeeReader(bytes.NewReader(p), &a)
	io.ReadFull(t, q)
	v.Assert(a.Len() == 8, "tee")
	end()
}

type ctxKey struct{}

func H_SELF_context() {
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, 1))
	v.Assert(ctx.Value(ctxKey{}).(int) == 1 && ctx.Err() == nil, "value")
	done := make(chan int)
	go func() { <-ctx.Done(); done <- 1 }()
	cancel()
	<-done
	v.Assert(ctx.Err() == context.Canceled && errors.Is(ctx.Err(), context.Canceled), "cancel")
	c2, cancel2 := context.WithTimeout(context.Background(), time.Minute)
	v.Assert(c2.Err() == nil, "timeout")
	_, ok := c2.Deadline()
	v.Assert(ok, "deadline")
	cancel2()
	v.Assert(c2.Err() != nil, "cancel timeout")
	end()
}

func H_SELF_time() {
	t := time.Now()
	u := t.Add(3 * time.Second)
	v.Assert(u.Sub(t) == 3*time.Second && u.After(t), "add")
	_ = time.Since(t)
	d := time.Duration(v.Uint8("d")) * time.Millisecond
	v.Assert(d/time.Millisecond*time.Millisecond == d, "div")
	v.Assert(t.UnixNano()/1000000 <= u.UnixNano()/1000000, "unix")
	w := time.Unix(0, int64(d))
	v.Assert(w.UnixNano() == int64(d) && w.UnixMilli() == w.UnixNano()/1000000 || int64(d) < 0, "unixnano")
	var z time.Time
	v.Assert(z.IsZero() && !t.IsZero() && t.Equal(t), "zero")
	tm := time.NewTimer(time.Hour)
	v.Assert(tm.Stop(), "stop")
	select {
	case <-time.After(time.Hour):
	default:
	}
	tk := time.NewTicker(time.Second)
	tk.Stop()
	time.AfterFunc(time.Hour, func() {}).Stop()
	end()
}

func H_SELF_timeout() {
	c := make(chan int)
	select {
	case <-c:
		v.Fail("no one sends")
	case <-time.After(time.Second):
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	<-ctx.Done()
	v.Assert(ctx.Err() == context.DeadlineExceeded, "deadline")
	end()
}

func H_SELF_crc() {
	p := []byte("123456789")
	v.Assert(crc32.ChecksumIEEE(p) == 0xcbf43926, "crc")
	v.Assert(crc32.Checksum(p, crc32.MakeTable(crc32.Castagnoli)) == 0xe3069283, "castagnoli")
	end()
}

type iface interface{ f() int }
type a1 struct{ n int }
type b1 struct {
	a1
	m int
}

func (a a1) f() int   { return a.n }
func (a *a1) g(k int) { a.n += k }

func fn(xs ...int) (s int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
			s = -1
		}
	}()
	for _, x := range xs {
		s += 100 / x
	}
	return
}

func H_SELF_lang() {
	x := int(v.Int8("x"))
	s, err := fn(1, x)
	v.Assert((err != nil) == (x == 0), "recover")
	if x != 0 {
		v.Assert(s == 100+100/x, "sum")
	}
	b := &b1{a1{x}, 2}
	b.g(3)
	h := b.f
	k := b.g
	k(1)
	v.Assert(h() == x+3 && b.f() == x+4 && iface(b).f() == x+4, "methods")
	var arr [4]int
	for i := range arr {
		arr[i] = i * x
	}
	cp := arr
	cp[0] = 9
	v.Assert(arr[0] == 0 && cp[1] == x && arr == [4]int{0, x, 2 * x, 3 * x}, "array")
	sl := arr[1:2:3]
	sl = append(sl, 7)
	v.Assert(arr[2] == 7, "alias")
	sl = append(sl, 8)
	v.Assert(arr[3] == 3*x, "fresh")
	m := map[[2]int]string{{1, x}: "a"}
	v.Assert(m[[2]int{1, x}] == "a" && m[[2]int{2, x}] == "", "map")
	m2 := map[named]*int{{"a", 1}: &x}
	*m2[named{"a", 1}] = 5
	v.Assert(x == 5, "ptr")
	var i interface{} = named{"q", 3}
	switch t := i.(type) {
	case fmt.Stringer:
		v.Fail("stringer")
	case named:
		v.Assert(t.n == 3, "switch")
	}
	copy(arr[1:], arr[:])
	v.Assert(arr[2] == x*0+arr[2], "copy")
	ch := make(chan int, 3)
	ch <- 1
	ch <- 2
	close(ch)
	t := 0
	for c := range ch {
		t += c
	}
	v.Assert(t == 3, "range chan")
	for i, r := range "aé" {
		v.Assert(i == 0 && r == 'a' || i == 1 && r == 'é', "runes")
	}
	rs := []rune("aé")
	v.Assert(len(rs) == 2 && string(rs) == "aé", "rune slice")
	f := 1.5
	v.Assert(int(f*2) == 3 && math.Floor(f) == 1, "float")
	p := &arr
	for i := range p {
		p[i]++
	}
	delete(m2, named{"a", 1})
	v.Assert(len(m2) == 0, "delete")
	bb := []byte("xyz")
	str := *(*string)(unsafe.Pointer(&bb))
	v.Assert(str == "xyz", "unsafe")
	type local struct {
		iface
		n int
	}
	v.Assert(local{b, 1}.f() == b.n, "embed")
	func() {
		defer func() { recover() }()
		var mm map[string]int
		mm["a"] = 1
		v.Fail("nil map")
	}()
outer:
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if j == 1 {
				continue outer
			}
			if i == 2 {
				break outer
			}
		}
	}
	end()
}

func H_SELF_runes() {
	s := v.StrN("s", 2)
	rs := []rune(s)
	v.Assert(len(rs) <= 2 && len(rs) >= 1, "runes")
	n := 0
	for range s {
		n++
	}
	v.Assert(n == len(rs), "count")
	if s[0] < 0x80 && s[1] < 0x80 {
		v.Assert(string(rs) == s, "back")
	}
	end()
}

func H_SELF_net() {
	v.Assert(net.JoinHostPort("::1", "80") == "[::1]:80", "join")
	h, p, err := net.SplitHostPort("a:80")
	v.Assert(h == "a" && p == "80" && err == nil, "split")
	v.Assert(net.ParseIP("10.0.0.1") != nil, "ip")
	v.Assert(net.ParseIP("x") == nil, "ip")
	end()
}
func H_SELF_parseip() {
	s := v.StrN("s", 2)
	net.ParseIP(s)
	end()
}
