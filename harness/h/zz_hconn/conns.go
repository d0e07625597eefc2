package zz_hconn

import (
	"github.com/savaki/kafka"
	v "github.com/savaki/kafka/zz_vrt"
)

// two connections used at once: each call returns what its own server answers, also after the other one is closed
//
//vrt:quick preempt=-4 time=300
//vrt:thorough preempt=-5 time=3000
//vrt:replay stress
func H_C15_conns() {
	l := v.Listen("b1:9092")
	var c [2]*kafka.Conn
	var p [2]*v.Peer
	var resp, again [2]int32
	for i := range c {
		c[i], p[i] = connectTo(l)
		resp[i], again[i] = v.Int32("response"), v.Int32("another")
	}
	setup()
	done := make(chan bool, 2)
	for i := range c {
		i := i
		go func() {
			for _, x := range []int32{resp[i], again[i]}[:2-i] {
				cid, tag, ok := request(p[i])
				v.Assert(ok && tag == int32(i), "a request reaches another connection's server")
				p[i].Write(response(cid, x))
			}
		}()
		go func() {
			x, err := do(c[i], int32(i))
			v.Assert(err == nil, "a call fails although its response arrived")
			v.Assert(x == resp[i], "a call returns another connection's response")
			done <- true
		}()
	}
	<-done
	<-done
	c[1].Close()
	x, err := do(c[0], 0)
	v.Assert(err == nil && x == again[0], "a call fails once another connection is closed")
	c[0].Close()
	v.Reach("end")
}

// connections one after the other, to one server: the first one ends with part of a response, or a whole one nobody
// waits for, received
//
//vrt:quick time=200
//vrt:thorough time=600
func H_C16_again() {
	l := v.Listen("b1:9092")
	n := v.Choose("received", 25)
	early := v.Choose("close", 2) == 1
	some := v.BytesN("received", n)
	if n > 4 {
		v.Assume(some[0] == 0 && some[1] == 0 && some[2] == 0) // a frame of any length under 256
	}
	for i := 0; i < 3; i++ {
		c, p := connectTo(l)
		resp := v.Int32("response")
		if !early || i > 0 {
			go func() {
				cid, tag, ok := request(p)
				v.Assert(ok && tag == int32(i), "a request is not what was sent")
				p.Write(response(cid, resp))
			}()
			x, err := do(c, int32(i))
			v.Assert(err == nil && x == resp, "a call on a new connection does not return its response")
		}
		p.Write(some)
		v.Settle()
		c.Close()
	}
	v.Reach("end")
}

// responses of a connection are kept while it is closed and others are used
//
//vrt:quick time=200
//vrt:thorough time=600
func H_C18_conns() {
	l := v.Listen("b1:9092")
	n := []int{1, 4, 20, 1000}[v.Choose("size", 4)]
	closed := v.Choose("close", 3) // the first connection is closed before the second one is made, before it is used, or later
	body := func() ([]byte, []byte) {
		b := make([]byte, n)
		copy(b, symBytes("data", min(n, 4)))
		return b, append(append([]byte{0, 1, 's'}, be32(int32(n))...), b...)
	}
	call := func(c *kafka.Conn, p *v.Peer) (want, got []byte) {
		b, body := body()
		go func() {
			cid, _, ok := request(p)
			v.Assert(ok, "the connection ends early")
			p.Write(frame(cid, body))
		}()
		s, d, err := doBytes(c, 1)
		v.Assert(err == nil && s == "s", "a call fails although its response arrived")
		v.AssertEqBytes(d, b, "a response differs from what was sent")
		return b, d
	}
	var want, got [3][]byte
	c, p := connectTo(l)
	want[0], got[0] = call(c, p)
	if closed == 0 {
		c.Close()
	}
	d, q := connectTo(l)
	if closed == 1 {
		c.Close()
	}
	want[1], got[1] = call(d, q)
	if closed == 2 {
		want[2], got[2] = call(c, p)
		c.Close()
	}
	d.Close()
	for i := range want {
		v.AssertEqBytes(got[i], want[i], "a response that was returned is changed by another connection")
	}
	v.Reach("end")
}
