B = "ring/buffer.go"
RH = '''
package ring

import (
	"runtime"
	"testing"
	"time"
)

var _ = runtime.Gosched

// transfer moves n numbered bytes in calls of w and r bytes and reports what went wrong.
func transfer(size, n, w, r int) string {
	rb := New(size)
	done := make(chan string, 1)
	go func() {
		b := make([]byte, w)
		for i := 0; i < n; i += w {
			for k := range b {
				b[k] = byte(i + k)
			}
			rb.WriteN(b, w)
		}
	}()
	go func() {
		b := make([]byte, r)
		for i := 0; i < n; i += r {
			rb.ReadN(b, r)
			for k := range b {
				if b[k] != byte(i+k) {
					done <- "wrong byte"
					return
				}
			}
		}
		done <- ""
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(20 * time.Second):
		return "hang"
	}
}
'''
plant("p-ring-early-free", "C10", [(B, "func (r *Buffer) ReadN(", '''		next = atomic.LoadInt32(&r.next)
	)
''', '''		next = atomic.LoadInt32(&r.next) // end of data
	)

	// everything is there: the writer may go on while it is copied
	if avail := (next - pos + r.size) % r.size; int(avail) >= n {
		atomic.StoreInt32(&r.start, (pos+int32(n))%r.size)
	}
''')], RH + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for i := 0; i < 10; i++ {
		if s := transfer(31, 30000, 15, 15); s != "" {
			t.Fatal(s)
		}
	}
}
''', "the writer filling the buffer between the reader freeing several bytes and copying them", "the reader frees bytes before it has copied them", pkg="./ring", race=True)
plant("p-ring-overcopy", "C10", [(B, "func (r *Buffer) ReadN(", '''		data[i] = r.data[pos]
''', '''		if i == 0 && pos+int32(n) == next {
			// contiguous: no need to go byte by byte
			copy(data, r.data[pos:])
			pos = next
			break
		}
		data[i] = r.data[pos]
''')], RH + '''
func TestDemo(t *testing.T) {
	rb := New(64)
	rb.WriteN([]byte("abc"), 3)
	b := []byte("------")
	rb.ReadN(b, 3)
	if string(b) != "abc---" {
		t.Fatalf("%q", b)
	}
}
''', "a slice longer than the number of bytes asked for, when exactly that many are buffered", "ReadN overwrites bytes of the caller's slice after the requested range", pkg="./ring")
plant("p-ring-wake-if-empty", "C11", [(B, "func (r *Buffer) WriteN(", '''		start = atomic.LoadInt32(&r.start) // start of data
''', '''		start = atomic.LoadInt32(&r.start) // start of data
		empty = pos == start               // the reader may be waiting
'''), (B, "	atomic.StoreInt32(&r.next, pos)\n	if n > 0 {", '''		r.readLock.Release()
''', '''		if empty {
			r.readLock.Release()
		}
''')], RH + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for i := 0; i < 60; i++ {
		if s := transfer(64, 60000, 3, 2); s != "" {
			t.Fatal(s)
		}
	}
}
''', "the reader draining the buffer and waiting after the writer looked at its position", "the writer wakes the reader only if the buffer was empty when the write began: a lost wake-up", pkg="./ring")
