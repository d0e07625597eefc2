package zz_hring

import (
	"github.com/savaki/kafka/ring"
	v "github.com/savaki/kafka/zz_vrt"
)

const guard = 0xEE

// data is n symbolic bytes followed by two bytes that are not to be written.
func data(n int, stream []byte, off int) []byte {
	b := make([]byte, n+2)
	for i := 0; i < n; i++ {
		b[i] = stream[off+i]
	}
	b[n], b[n+1] = guard, guard
	return b
}

// write sends the first n bytes in calls of the given sizes.
func write(rb *ring.Buffer, stream []byte, sizes []int) {
	off := 0
	for _, n := range sizes {
		b := data(n, stream, off)
		rb.WriteN(b, n)
		for i := 0; i < n; i++ {
			v.Assert(b[i] == stream[off+i], "WriteN changed its caller's slice")
		}
		v.Assert(b[n] == guard && b[n+1] == guard, "WriteN changed its caller's slice")
		off += n
	}
}

// read obtains bytes in calls of the given sizes and compares them with the stream.
func read(rb *ring.Buffer, stream []byte, sizes []int) {
	off := 0
	for _, n := range sizes {
		b := make([]byte, n+2)
		b[n], b[n+1] = guard, guard
		v.Assert(rb.ReadN(b, n) == n, "ReadN returned short although the buffer was not closed")
		for i := 0; i < n; i++ {
			v.Assert(b[i] == stream[off+i], "the reader obtained a byte that differs from the one written at its position")
		}
		v.Assert(b[n] == guard && b[n+1] == guard, "ReadN wrote beyond the requested range")
		off += n
	}
}

// split chooses at most k sizes, in 0..max, that add up to total.
func split(name string, total, k, max int) []int {
	var out []int
	for i := 0; i < k; i++ {
		if i == k-1 {
			v.Assume(total <= max)
			out = append(out, total)
			break
		}
		n := v.Choose(name, max+1)
		v.Assume(n <= total)
		out = append(out, n)
		total -= n
	}
	return out
}

func stream(n int) []byte {
	s := make([]byte, n)
	for i := range s {
		s[i] = v.Uint8("byte")
	}
	return s
}

func setup() {
	v.AtomicPkg("context")
	v.Races()
	v.Explore(v.Param("preempt", 0))
}

// one writer and one reader, every way to cut the stream into calls
//
//vrt:quick size=3 total=4 calls=2 time=200
//vrt:thorough size=4 total=6 calls=3 time=1800
//vrt:replay stress
func H_C10_stream() {
	size := 2 + v.Choose("size", v.Param("size", 3)-1)
	total := 1 + v.Choose("total", v.Param("total", 4))
	k := v.Param("calls", 2)
	ws := split("w", total, k, total)
	rs := split("r", total, k, total)
	s := stream(total)
	setup()
	v.AllowDeadlock(true)
	rb := ring.New(size)
	done := make(chan bool, 1)
	go func() {
		write(rb, s, ws)
		done <- true
	}()
	read(rb, s, rs)
	v.Reach("end")
}

// preroll moves the positions of an empty buffer forward.
func preroll(rb *ring.Buffer, n int) {
	b := make([]byte, 1)
	for i := 0; i < n; i++ {
		rb.WriteN(b, 1)
		rb.ReadN(b, 1)
	}
}

// from any position in the buffer, in one call each side or byte by byte
//
//vrt:quick size=4 total=4 time=200
//vrt:thorough size=6 total=8 time=1800
//vrt:replay stress
func H_C10_positions() {
	size := 2 + v.Choose("size", v.Param("size", 4)-1)
	total := 1 + v.Choose("total", v.Param("total", 4))
	ws, rs := []int{total}, []int{total}
	if v.Bool("wbytes") {
		ws = ones(total)
	}
	if v.Bool("rbytes") {
		rs = ones(total)
	}
	s := stream(total)
	v.AtomicPkg("context")
	rb := ring.New(size)
	preroll(rb, v.Choose("pos", size))
	setup()
	v.AllowDeadlock(true)
	go write(rb, s, ws)
	read(rb, s, rs)
	v.Reach("end")
}

func ones(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, 1)
	}
	return out
}

// Close at any moment: what the reader gets before ReadN returns short is still a prefix of what was written
//
//vrt:quick size=3 total=2 time=200
//vrt:thorough size=4 total=4 time=1800
//vrt:replay stress
func H_C10_close() {
	size := 2 + v.Choose("size", v.Param("size", 3)-1)
	total := 1 + v.Choose("total", v.Param("total", 2))
	s := stream(total)
	setup()
	v.AllowDeadlock(true)
	rb := ring.New(size)
	go write(rb, s, split("w", total, 2, total))
	go rb.Close()
	off := 0
	for _, n := range split("r", total+1, 2, total+1) {
		b := make([]byte, n+1)
		b[n] = guard
		k := rb.ReadN(b, n)
		v.Assert(k >= 0 && k <= n && off+k <= total, "ReadN reports more bytes than were written")
		for i := 0; i < k; i++ {
			v.Assert(b[i] == s[off+i], "the reader obtained a byte that differs from the one written at its position")
		}
		v.Assert(b[n] == guard, "ReadN wrote beyond the requested range")
		off += k
		if k < n {
			break
		}
	}
	v.Reach("end")
}

// ================= C11 =================

// reader and writer return: every byte is read but for some that the buffer can hold
//
//vrt:quick size=3 total=4 calls=2 time=200
//vrt:thorough size=4 total=6 calls=3 time=1800
//vrt:replay stress
func H_C11_progress() {
	size := 2 + v.Choose("size", v.Param("size", 3)-1)
	total := 1 + v.Choose("total", v.Param("total", 4))
	rest := v.Choose("rest", size)
	v.Assume(rest <= total)
	k := v.Param("calls", 2)
	ws := split("w", total, k, total)
	rs := split("r", total-rest, k, total-rest)
	s := make([]byte, total)
	setup()
	rb := ring.New(size)
	wdone, rdone := make(chan bool, 1), make(chan bool, 1)
	go func() {
		write(rb, s, ws)
		wdone <- true
	}()
	go func() {
		for _, n := range rs {
			rb.ReadN(make([]byte, n), n)
		}
		rdone <- true
	}()
	<-rdone
	<-wdone
	v.Reach("end")
}

// the same from any position
//
//vrt:quick size=4 total=4 time=200
//vrt:thorough size=6 total=8 time=1800
//vrt:replay stress
func H_C11_positions() {
	size := 2 + v.Choose("size", v.Param("size", 4)-1)
	total := 1 + v.Choose("total", v.Param("total", 4))
	ws, rs := []int{total}, []int{total}
	if v.Bool("wbytes") {
		ws = ones(total)
	}
	if v.Bool("rbytes") {
		rs = ones(total)
	}
	s := make([]byte, total)
	v.AtomicPkg("context")
	rb := ring.New(size)
	preroll(rb, v.Choose("pos", size))
	setup()
	wdone := make(chan bool, 1)
	go func() {
		write(rb, s, ws)
		wdone <- true
	}()
	for _, n := range rs {
		rb.ReadN(make([]byte, n), n)
	}
	<-wdone
	v.Reach("end")
}

// Close at any moment: pending and later calls return
//
//vrt:quick size=3 w=3 r=2 time=200
//vrt:thorough size=4 w=5 r=4 time=1800
//vrt:replay stress
func H_C11_close() {
	size := 2 + v.Choose("size", v.Param("size", 3)-1)
	nw := v.Choose("w", v.Param("w", 3)+1)
	nr := v.Choose("r", v.Param("r", 2)+1)
	each := v.Bool("bytes")
	ws, rs := []int{nw, nw}, []int{nr, nr}
	if each {
		ws, rs = ones(nw), ones(nr)
	}
	setup()
	rb := ring.New(size)
	wdone, rdone := make(chan bool, 1), make(chan bool, 1)
	go func() {
		write(rb, make([]byte, 2*nw), ws)
		wdone <- true
	}()
	go func() {
		for _, n := range rs {
			rb.ReadN(make([]byte, n), n)
		}
		rdone <- true
	}()
	rb.Close()
	<-wdone
	<-rdone
	// later calls
	rb.WriteN(make([]byte, 2*size), 2*size)
	rb.ReadN(make([]byte, 2*size), 2*size)
	rb.WriteN(make([]byte, 1), 1)
	rb.ReadN(make([]byte, 2), 2)
	rb.Close()
	v.Reach("end")
}

// ================= larger buffers =================

// one goroutine writes and reads in turns, within what the buffer holds
//
//vrt:quick size=8 turns=2 time=200
//vrt:thorough size=12 turns=2 time=1800
func H_C10_turns() {
	size := 2 + v.Choose("size", v.Param("size", 8)-1)
	v.AtomicPkg("context")
	rb := ring.New(size)
	preroll(rb, v.Choose("pos", size))
	turns(rb, size, v.Param("turns", 2), func(name string, max int) int { return v.Choose(name, max+1) })
}

// as above, buffers of other sizes and calls of 1 byte, about half the buffer, and all there is
//
//vrt:quick turns=2 time=200
//vrt:thorough turns=3 time=1800
func H_C10_large() {
	sizes := []int{16, 31, 64, 100, 128, 255, 256, 257, 1000}
	size := sizes[v.Choose("size", len(sizes))]
	v.AtomicPkg("context")
	rb := ring.New(size)
	turns(rb, size, v.Param("turns", 2), func(name string, max int) int {
		n := []int{1, size / 2, size/2 + 1, max - 1, max}[v.Choose(name, 5)]
		v.Assume(n >= 0 && n <= max)
		return n
	})
}

// turns writes and reads some bytes by turns, and then all that are left.
func turns(rb *ring.Buffer, size, n int, some func(name string, max int) int) {
	var s []byte
	r := 0
	for i := 0; i < n; i++ {
		w := some("w", size-1-(len(s)-r))
		at := len(s)
		s = append(s, stream(w)...)
		write(rb, s[at:], []int{w})
		k := some("r", len(s)-r)
		read(rb, s[r:], []int{k})
		r += k
	}
	read(rb, s[r:], []int{len(s) - r})
	v.Reach("end")
}

// much more data than the buffer holds; few preemptions
//
//vrt:quick preempt=1 time=200
//vrt:thorough preempt=2 time=1800
//vrt:replay stress
func H_C11_large() {
	sizes := []int{5, 8, 9, 16}
	size := sizes[v.Choose("size", len(sizes))]
	total := []int{size, 2*size + 3}[v.Choose("total", 2)]
	s := stream(total)
	ws, rs := chunks("w", total, size), chunks("r", total, size)
	setup()
	rb := ring.New(size)
	wdone := make(chan bool, 1)
	go func() {
		write(rb, s, ws)
		wdone <- true
	}()
	read(rb, s, rs)
	<-wdone
	v.Reach("end")
}

// chunks cuts total into calls of one size.
func chunks(name string, total, size int) []int {
	n := []int{3, size - 1, size, total}[v.Choose(name, 4)]
	var out []int
	for ; total > n; total -= n {
		out = append(out, n)
	}
	return append(out, total)
}
