package zz_hconn

import (
	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	v "github.com/savaki/kafka/zz_vrt"
)

// doBytes is a call whose response is a string and a byte array.
func doBytes(c *kafka.Conn, tag int32) (s string, b []byte, err error) {
	err = c.Do(
		func(e *message.Encoder, cid int32) {
			e.PutInt32(8)
			e.PutInt32(cid)
			e.PutInt32(tag)
		},
		func(d *message.Decoder) error {
			var err error
			if s, err = d.String(); err != nil {
				return err
			}
			b, err = d.Bytes()
			return err
		})
	return
}

// frame puts the length in front of cid and body.
func frame(cid int32, body []byte) []byte {
	b := be32(int32(4 + len(body)))
	b = append(b, be32(cid)...)
	return append(b, body...)
}

func symBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = v.Uint8(name)
	}
	return b
}

// ================= C16 =================

// two responses, of different lengths, and possibly one with an unknown correlation id before them, cut into chunks at
// any places; the connection ends after them, also together with the last of the bytes
//
//vrt:quick cuts=2 time=300
//vrt:thorough cuts=3 time=3000
//vrt:replay try
func H_C16_chunks() {
	c, p := connect()
	type res struct {
		x   int32
		s   string
		b   []byte
		err error
	}
	r1, r2 := make(chan res, 1), make(chan res, 1)
	go func() {
		x, err := do(c, 1)
		r1 <- res{x: x, err: err}
	}()
	cid1, _, ok := request(p)
	v.Assert(ok, "the connection ends early")
	go func() {
		s, b, err := doBytes(c, 2)
		r2 <- res{s: s, b: b, err: err}
	}()
	cid2, _, ok := request(p)
	v.Assert(ok, "the connection ends early")

	x := v.Int32("x")
	b := symBytes("b", 3)
	str := string(symBytes("s", 2))
	all := response(cid1, x)
	body := append([]byte{0, 2}, str...)
	body = append(append(body, be32(3)...), b...)
	all = append(all, frame(cid2, body)...)
	if v.Bool("stray") {
		all = append(frame(cid1+cid2+1, []byte{9}), all...)
	}
	end := v.Choose("end", 3)
	at := 0
	for i := 0; i < v.Param("cuts", 2); i++ {
		k := v.Choose("cut", len(all)-at)
		if k == 0 {
			break
		}
		p.Write(all[at : at+k])
		v.Settle()
		at += k
	}
	switch end {
	case 0:
		p.Write(all[at:])
	case 1:
		p.Write(all[at:])
		p.Close()
	case 2:
		p.CloseJoined(all[at:])
	}
	a, z := <-r1, <-r2
	v.Assert(a.err == nil && z.err == nil, "a call fails although its response arrived")
	v.Assert(a.x == x, "a response depends on how the stream is cut")
	v.Assert(z.s == str, "a response depends on how the stream is cut")
	v.AssertEqBytes(z.b, b, "a response depends on how the stream is cut")
	v.Reach("end")
}

// byte by byte
//
//vrt:replay try
func H_C16_bytes() {
	c, p := connect()
	x := v.Int32("x")
	go func() {
		for i := 0; i < 2; i++ {
			cid, _, ok := request(p)
			v.Assert(ok, "the connection ends early")
			for _, b := range response(cid, x+int32(i)) {
				p.Write([]byte{b})
			}
		}
	}()
	for i := int32(0); i < 2; i++ {
		got, err := do(c, 1)
		v.Assert(err == nil && got == x+i, "a response depends on how the stream is cut")
	}
	v.Reach("end")
}

// ================= C17 =================

// serve answers requests until ends, then ends the connection in one of several ways.
func lose(p *v.Peer, how int) {
	switch how {
	case 0:
		p.Close()
	case 1:
		p.Reset()
	case 2:
		p.CloseJoined(nil)
	case 3:
		p.Timeout()
	}
}

// one call; the connection is lost before the request, or after any number of bytes of the response; then a later
// call, and Close
//
//vrt:quick how=4 time=600
//vrt:thorough how=4 time=3000
//vrt:split how
//vrt:replay stress
func H_C17_lost() {
	how := v.Param("how", 0)
	resp := v.Int32("resp")
	n := v.Choose("bytes", 14) - 1
	c, p := connect()
	setup()
	go func() {
		if n >= 0 {
			cid, _, ok := request(p)
			if ok {
				p.Write(response(cid, resp)[:n])
			}
		}
		lose(p, how)
	}()
	x, err := do(c, 1)
	if n == 12 {
		v.Assert(err == nil, "a call fails although its response arrived")
	}
	if err == nil {
		v.Assert(n == 12 && x == resp, "a call returns without an error although its response did not arrive")
	}
	_, err = do(c, 2)
	v.Assert(err != nil, "a call on a lost connection returns without an error")
	c.Close()
	_, err = do(c, 3)
	v.Assert(err != nil, "a call on a closed connection returns without an error")
	v.Settle()
	v.Assert(!v.Symbolic() || v.Live() == 0, "a goroutine outlives Close")
	v.Reach("end")
}

// two calls at once, of which at most one is answered before the connection is lost
//
//vrt:quick how=2 answers=2 preempt=2 time=600
//vrt:thorough how=4 answers=2 preempt=4 time=3000
//vrt:split how answers
//vrt:replay stress
func H_C17_pair() {
	how, answers := v.Param("how", 0), v.Param("answers", 0)
	c, p := connect()
	setup()
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			x, err := do(c, int32(i))
			if err == nil {
				v.Assert(answers > 0 && x == int32(10+i), "a call returns without an error although its response did not arrive")
			}
			done <- err == nil
		}()
	}
	for i := 0; i < answers; i++ {
		cid, t, ok := request(p)
		if ok {
			p.Write(response(cid, 10+t))
		}
	}
	lose(p, how)
	n := 0
	for i := 0; i < 2; i++ {
		if <-done {
			n++
		}
	}
	v.Assert(n <= answers, "a call returns without an error although its response did not arrive")
	c.Close()
	v.Reach("end")
}

// Close at any moment, with a call in progress that is answered or not
//
//vrt:quick answer=2 time=600
//vrt:thorough answer=2 time=3000
//vrt:split answer
//vrt:replay stress
func H_C17_close() {
	answer := v.Param("answer", 0) == 1
	resp := v.Int32("resp")
	c, p := connect()
	setup()
	go func() {
		cid, _, ok := request(p)
		if ok && answer {
			p.Write(response(cid, resp))
		}
	}()
	closed := make(chan bool, 1)
	go func() {
		c.Close()
		closed <- true
	}()
	x, err := do(c, 1)
	if err == nil {
		v.Assert(answer && x == resp, "a call returns without an error although its response did not arrive")
	}
	<-closed
	_, err = do(c, 2)
	v.Assert(err != nil, "a call on a closed connection returns without an error")
	c.Close()
	v.Settle()
	v.Assert(!v.Symbolic() || v.Live() == 0, "a goroutine outlives Close")
	v.Reach("end")
}

// two goroutines call Close while a call (thorough: two) is in progress
//
//vrt:quick preempt=2 calls=1 time=600
//vrt:thorough preempt=2 calls=2 time=3000
//vrt:replay stress
func H_C17_close2() {
	c, p := connect()
	setup()
	done := make(chan bool, 4)
	calls := v.Param("calls", 1)
	for i := 0; i < calls; i++ {
		i := i
		go func() {
			_, err := do(c, int32(i))
			v.Assert(err != nil, "a call returns without an error although its response did not arrive")
			done <- true
		}()
	}
	for i := 0; i < 2; i++ {
		go func() {
			c.Close()
			done <- true
		}()
	}
	_ = p
	for i := 0; i < 2+calls; i++ {
		<-done
	}
	v.Reach("end")
}

// two calls of which one may be answered, Close twice, and the loss of the connection, all at once
//
//vrt:quick preempt=-4 answers=2 how=2 time=600
//vrt:thorough preempt=-5 answers=2 how=4 time=3000
//vrt:split answers how
//vrt:replay stress
func H_C17_all() {
	answers, how := v.Param("answers", 0), v.Param("how", 0)
	c, p := connect()
	setup()
	done := make(chan bool, 5)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			x, err := do(c, int32(i))
			if err == nil {
				v.Assert(answers > 0 && x == int32(10+i), "a call returns without an error although its response did not arrive")
			}
			done <- err == nil
		}()
	}
	go func() {
		for i := 0; i < answers; i++ {
			cid, t, ok := request(p)
			if ok {
				p.Write(response(cid, 10+t))
			}
		}
		lose(p, how)
		done <- false
	}()
	for i := 0; i < 2; i++ {
		go func() {
			c.Close()
			done <- false
		}()
	}
	n := 0
	for i := 0; i < 5; i++ {
		if <-done {
			n++
		}
	}
	v.Assert(n <= answers, "a call returns without an error although its response did not arrive")
	_, err := do(c, 2)
	v.Assert(err != nil, "a call on a closed connection returns without an error")
	v.Settle()
	v.Assert(!v.Symbolic() || v.Live() == 0, "a goroutine outlives Close")
	v.Reach("end")
}

// the peer does not read, so that a call blocks while it sends its request: Close, or the loss of the connection, lets
// it return
//
//vrt:quick how=5 time=600
//vrt:thorough how=5 time=3000
//vrt:split how
//vrt:replay try
func H_C17_blocked() {
	how := v.Param("how", 0)
	c, p := connect()
	p.BlockWrites()
	setup()
	done := make(chan bool, 1)
	go func() {
		_, err := do(c, 1)
		v.Assert(err != nil, "a call returns without an error although its response did not arrive")
		done <- true
	}()
	if how < 4 {
		lose(p, how)
	} else {
		c.Close()
	}
	<-done
	c.Close()
	v.Reach("end")
}

// a write of the request fails, at once or after part of it
//
//vrt:replay try
func H_C17_write() {
	c, p := connect()
	k := 1 + v.Choose("fail", 2)
	p.FailWrite(k)
	setup()
	go func() {
		for {
			cid, t, ok := request(p)
			if !ok {
				return
			}
			p.Write(response(cid, t))
		}
	}()
	for i := 1; i <= 3; i++ {
		x, err := do(c, int32(i))
		if i < k {
			v.Assert(err == nil && x == int32(i), "a call fails although its response arrived")
		} else if i == k {
			v.Assert(err != nil, "a call whose request could not be sent returns without an error")
		} else if err == nil {
			v.Assert(x == int32(i), "a call returns another call's response")
		}
	}
	c.Close()
	v.Reach("end")
}

// a call whose request cannot be sent, because a write fails or it cannot be encoded, while another one waits for its
// response: both return, and so do later ones
//
//vrt:quick how=2 time=600
//vrt:thorough how=2 time=3000
//vrt:split how
//vrt:replay try
func H_C17_unsent() {
	c, p := connect()
	done := make(chan bool, 1)
	go func() {
		_, err := do(c, 1)
		v.Assert(err != nil, "a call returns without an error although its response did not arrive")
		done <- true
	}()
	request(p)
	setup()
	if v.Param("how", 0) == 0 {
		p.FailWrite(1)
		_, err := do(c, 2)
		v.Assert(err != nil, "a call whose request could not be sent returns without an error")
	} else {
		err := c.Do(
			func(e *message.Encoder, cid int32) {
				e.PutInt32(8)
				e.PutInt32(cid)
				e.PutString(string(make([]byte, 40000)))
			},
			func(d *message.Decoder) error { return nil })
		v.Assert(err != nil, "a call whose request cannot be encoded returns without an error")
		go func() {
			for {
				if _, _, ok := request(p); !ok {
					return
				}
			}
		}()
		p.Close()
	}
	<-done
	_, err := do(c, 3)
	v.Assert(err != nil, "a call on a lost connection returns without an error")
	c.Close()
	v.Reach("end")
}

// a response arrives that is too short to be decoded, with any number of bytes of its body; then the connection stays,
// is lost, or is closed
//
//vrt:quick how=2 preempt=2 time=600
//vrt:thorough how=2 preempt=4 time=3000
//vrt:split how
//vrt:replay try
func H_C17_garbled() {
	how := v.Param("how", 0)
	n := v.Choose("bytes", 4)
	body := symBytes("body", n)
	c, p := connect()
	setup()
	done := make(chan bool, 1)
	go func() {
		_, err := do(c, 1)
		v.Assert(err != nil, "a call whose response cannot be decoded returns without an error")
		done <- true
	}()
	cid, _, ok := request(p)
	v.Assert(ok, "the connection ends early")
	p.Write(frame(cid, body))
	switch how {
	case 0:
		p.Close()
	case 1:
		v.Settle()
		c.Close()
	}
	<-done
	c.Close()
	v.Reach("end")
}

// ================= C18 =================

// the byte array and the string of a response stay what they are while other responses, expected or not, arrive
//
//vrt:quick len=6 time=300
//vrt:thorough len=12 time=3000
func H_C18_bytes() {
	c, p := connect()
	max := v.Param("len", 6)
	mk := func(name string) (string, []byte, []byte) {
		s := symBytes(name+".s", v.Choose(name+".slen", 3))
		b := symBytes(name+".b", v.Choose(name+".blen", max+1))
		body := append([]byte{0, byte(len(s))}, s...)
		body = append(append(body, be32(int32(len(b)))...), b...)
		return string(s), b, body
	}
	s1, b1, body1 := mk("first")
	s2, b2, body2 := mk("second")
	stray := v.Choose("stray", 2) == 1
	go func() {
		cid, _, ok := request(p)
		v.Assert(ok, "the connection ends early")
		p.Write(frame(cid, body1))
		cid, _, ok = request(p)
		v.Assert(ok, "the connection ends early")
		if stray {
			p.Write(frame(cid+1, body2))
		}
		p.Write(frame(cid, body2))
	}()
	s, b, err := doBytes(c, 1)
	v.Assert(err == nil, "a call fails although its response arrived")
	v.AssertEqBytes(b, b1, "a response differs from what was sent")
	v.Assert(s == s1, "a response differs from what was sent")
	t, d, err := doBytes(c, 2)
	v.Assert(err == nil, "a call fails although its response arrived")
	v.AssertEqBytes(b, b1, "a response that was returned is changed by a later one")
	v.Assert(s == s1, "a response that was returned is changed by a later one")
	c.Close()
	v.AssertEqBytes(b, b1, "a response that was returned is changed by a later one")
	v.AssertEqBytes(d, b2, "a response differs from what was sent")
	v.Assert(t == s2, "a response differs from what was sent")
	v.Reach("end")
}

// ================= C19 =================

// any frame length followed by any bytes, then the end of the stream, while a call waits
//
//vrt:quick bytes=14 time=300
//vrt:thorough bytes=26 time=3000
//vrt:replay try
func H_C19_bytes() {
	c, p := connect()
	n := v.Choose("n", v.Param("bytes", 14)+1)
	raw := symBytes("raw", n)
	stay := v.Bool("stay")
	v.AllocLimit(1 << 28)
	closing := make(chan bool, 1)
	go func() {
		_, _, ok := request(p)
		v.Assert(ok, "the connection ends early")
		p.Write(raw)
		if stay {
			<-closing
		}
		p.Close()
	}()
	res := make(chan bool, 1)
	go func() {
		_, _, err := doBytes(c, 1)
		_ = err
		res <- true
	}()
	v.Settle()
	if stay {
		// with a whole frame no call can wait for, or with none yet, the call may still wait
		closing <- true
	}
	<-res
	c.Close()
	v.Reach("end")
}

// a frame without room for its header: it cannot be known whose response it is, so no call may be left waiting
//
//vrt:replay try
func H_C19_header() {
	c, p := connect()
	size := v.Int32("size")
	v.Assume(size < 4)
	v.AllocLimit(1 << 28)
	go func() {
		_, _, ok := request(p)
		v.Assert(ok, "the connection ends early")
		p.Write(append(be32(size), 0, 0, 0))
	}()
	_, err := do(c, 1)
	v.Assert(err != nil, "a call returns without an error although its response did not arrive")
	c.Close()
	v.Reach("end")
}

// responses larger than the connection's buffers, whose sizes are divided by scale, arrive intact
//
//vrt:all scale=100000
//vrt:quick time=300
//vrt:thorough time=3000 all=1
//vrt:replay try
func H_C19_large() {
	c, p := connect()
	var n int
	if v.Param("all", 0) == 1 {
		n = v.Choose("units", 120)
	} else {
		n = []int{9, 10, 11, 12, 13, 18, 19, 20, 21, 22, 38, 39, 40, 41, 42, 43, 44, 48, 49, 50, 51, 52, 70, 98, 99, 100, 101, 102, 120}[v.Choose("units", 29)]
	}
	b := v.Expand(symBytes("b", n))
	after := v.Int32("after")
	two := v.Bool("coalesced")
	go func() {
		cid, _, ok := request(p)
		v.Assert(ok, "the connection ends early")
		body := append([]byte{0, 0}, be32(int32(len(b)))...)
		all := frame(cid, append(body, b...))
		if two {
			all = append(all, frame(99, b)...)
		}
		p.Write(all)
		cid, _, ok = request(p)
		v.Assert(ok, "the connection ends early")
		p.Write(response(cid, after))
	}()
	_, d, err := doBytes(c, 1)
	v.Assert(err == nil, "a response larger than the buffers is not delivered")
	v.AssertEqBytes(d, b, "a response larger than the buffers is not delivered intact")
	x, err := do(c, 2)
	v.Assert(err == nil && x == after, "the call after a large response fails")
	v.AssertEqBytes(d, b, "a response larger than the buffers is not delivered intact")
	c.Close()
	v.Reach("end")
}

// a length of any size that is not followed by that many bytes: no more is allocated than is justified, and the call
// returns
//
//vrt:replay try
func H_C19_claim() {
	c, p := connect()
	size := v.Int32("size")
	k := v.Choose("bytes", 3)
	v.Assume(int(size) > k)
	v.AllocLimit(1 << 28)
	go func() {
		cid, _, ok := request(p)
		v.Assert(ok, "the connection ends early")
		p.Write(append(be32(size), be32(cid)[:k]...))
		v.Settle()
		p.Close()
	}()
	_, err := do(c, 1)
	v.Assert(err != nil, "a call returns without an error although its response did not arrive")
	c.Close()
	v.Reach("end")
}

// many calls are pending when the connection ends; some have been answered
//
//vrt:all maporder=2
//vrt:quick calls=70 time=300 steps=200000000
//vrt:thorough calls=300 time=3000 steps=2000000000
//vrt:replay try
func H_C17_many() {
	c, p := connect()
	n := v.Param("calls", 70)
	k := []int{0, 1, n / 2, n - 1}[v.Choose("answered", 4)]
	x := v.Int32("x")
	done := make(chan bool, n)
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			var got int32
			got, errs[i] = do(c, int32(i))
			v.Assert(errs[i] != nil || got == x, "a call returns another response than its own")
			done <- true
		}()
	}
	var ids []int32
	ok := make([]bool, n)
	for i := 0; i < n; i++ {
		id, t, got := request(p)
		v.Assert(got, "the connection ends early")
		ids = append(ids, id)
		if i < k {
			ok[v.Concrete(int(t))] = true
		}
	}
	for _, id := range ids[:k] {
		p.Write(response(id, x))
	}
	v.Settle()
	how := v.Choose("how", 3)
	switch how {
	case 0:
		p.Close()
	case 1:
		p.Reset()
	case 2:
		c.Close()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	for i := range errs {
		if ok[i] {
			v.Assert(errs[i] == nil, "a call fails although its response arrived")
		} else {
			v.Assert(errs[i] != nil, "a call succeeds although its response did not arrive")
		}
	}
	_, err := do(c, 0)
	v.Assert(err != nil, "a call on a lost connection succeeds")
	c.Close()
	v.Reach("end")
}

// ================= many =================

// many calls on a connection that is lost, one after the other or at once: all return
//
//vrt:quick calls=130 time=300 steps=200000000
//vrt:thorough calls=1100 time=3000 steps=2000000000
//vrt:replay try
func H_C17_later() {
	c, p := connect()
	how := v.Choose("how", 3)
	if how == 0 {
		p.Close()
	} else if how == 1 {
		p.FailWrite(1)
	} else {
		c.Close()
	}
	n := v.Param("calls", 130)
	if v.Bool("at once") {
		done := make(chan bool, n)
		for i := 0; i < n; i++ {
			go func() {
				_, err := do(c, 1)
				v.Assert(err != nil, "a call on a lost connection returns without an error")
				done <- true
			}()
		}
		for i := 0; i < n; i++ {
			<-done
		}
	} else {
		for i := 0; i < n; i++ {
			_, err := do(c, 1)
			v.Assert(err != nil, "a call on a lost connection returns without an error")
		}
	}
	c.Close()
	v.Reach("end")
}

// calls whose responses cannot be decoded, many of them, do not keep others from returning
//
//vrt:quick calls=130 time=300 steps=200000000
//vrt:thorough calls=1100 time=3000 steps=2000000000
//vrt:replay try
func H_C17_undecodable() {
	c, p := connect()
	x := v.Int32("x")
	n := v.Param("calls", 130)
	go func() {
		for i := 0; ; i++ {
			cid, _, ok := request(p)
			if !ok {
				return
			}
			if i < n {
				p.Write(frame(cid, symBytes("short", i%4)))
			} else {
				p.Write(response(cid, x))
			}
		}
	}()
	for i := 0; i < n; i++ {
		_, err := do(c, 1)
		v.Assert(err != nil, "a call whose response cannot be decoded returns without an error")
	}
	got, err := do(c, 1)
	v.Assert(err == nil && got == x, "a call does not return its response")
	c.Close()
	v.Reach("end")
}

// many frames with unknown correlation ids
//
//vrt:quick frames=130 time=300 steps=200000000
//vrt:thorough frames=3000 time=3000 steps=2000000000
//vrt:replay try
func H_C15_strays() {
	c, p := connect()
	x := v.Int32("x")
	n := v.Param("frames", 130)
	size := v.Choose("size", 3) * 5
	go func() {
		for i := 0; i < 2; i++ {
			cid, _, ok := request(p)
			v.Assert(ok, "the connection ends early")
			for j := 1; j <= n; j++ {
				p.Write(frame(cid+int32(j), symBytes("stray", size)))
			}
			p.Write(response(cid, x))
		}
	}()
	for i := 0; i < 2; i++ {
		got, err := do(c, 1)
		v.Assert(err == nil && got == x, "a call does not return its response")
	}
	v.Reach("end")
}

// the same with large responses, of which the first and the last bytes are symbolic, and many responses later
//
//vrt:quick sizes=5 later=2 time=300 steps=200000000
//vrt:thorough sizes=7 later=70 time=3000 steps=2000000000
//vrt:replay try
func H_C18_large() {
	c, p := connect()
	n := []int{16, 127, 1000, 4097, 5000, 70000, 1100000}[v.Choose("size", v.Param("sizes", 5))]
	m := []int{n, n - 1, n/2 + 1, 1}[v.Choose("next", 4)]
	body := func(name string, n int) ([]byte, []byte) {
		b := make([]byte, n)
		copy(b, symBytes(name, 4))
		copy(b[n-min(n, 4):], symBytes(name, 4))
		return b, append(append([]byte{0, 1, 's'}, be32(int32(n))...), b...)
	}
	b1, body1 := body("first", n)
	b2, body2 := body("second", m)
	k := v.Param("later", 2)
	go func() {
		for i := 0; i < 1+k; i++ {
			cid, _, ok := request(p)
			v.Assert(ok, "the connection ends early")
			if i == 0 {
				p.Write(frame(cid, body1))
			} else {
				p.Write(frame(cid, body2))
			}
		}
	}()
	_, b, err := doBytes(c, 1)
	v.Assert(err == nil, "a call fails although its response arrived")
	v.AssertEqBytes(b, b1, "a response differs from what was sent")
	for i := 0; i < k; i++ {
		_, d, err := doBytes(c, 2)
		v.Assert(err == nil, "a call fails although its response arrived")
		v.AssertEqBytes(d, b2, "a response differs from what was sent")
	}
	v.AssertEqBytes(b, b1, "a response that was returned is changed by a later one")
	c.Close()
	v.AssertEqBytes(b, b1, "a response that was returned is changed by a later one")
	v.Reach("end")
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
