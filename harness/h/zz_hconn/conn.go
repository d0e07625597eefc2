// Package zz_hconn holds the harnesses for a connection: requests and responses over a network whose server end the
// harness plays.
package zz_hconn

import (
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	v "github.com/savaki/kafka/zz_vrt"
)

func be32(x int32) []byte {
	return []byte{byte(uint32(x) >> 24), byte(uint32(x) >> 16), byte(uint32(x) >> 8), byte(x)}
}
func un32(b []byte) int32 {
	return int32(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]))
}

// connect starts a server and a connection to it.
func connect() (*kafka.Conn, *v.Peer) {
	return connectTo(v.Listen("b1:9092"))
}

func connectTo(l *v.Listener) (*kafka.Conn, *v.Peer) {
	c, err := kafka.Connect(l.Addr())
	v.Assert(err == nil, "cannot connect")
	return c, l.Accept()
}

// do sends tag in a request and returns the number in the response.
func do(c *kafka.Conn, tag int32) (int32, error) {
	var got int32
	err := c.Do(
		func(e *message.Encoder, cid int32) {
			e.PutInt32(8)
			e.PutInt32(cid)
			e.PutInt32(tag)
		},
		func(d *message.Decoder) error {
			x, err := d.Int32()
			got = x
			return err
		})
	return got, err
}

// request reads one request frame; false at the end of the stream.
func request(p *v.Peer) (cid, tag int32, ok bool) {
	b, ok := p.ReadN(12)
	if !ok {
		return 0, 0, false
	}
	v.Assert(un32(b) == 8, "a request frame is not written whole")
	return un32(b[4:]), un32(b[8:]), true
}

// response is a frame that answers cid with x.
func response(cid, x int32) []byte {
	b := append([]byte{0, 0, 0, 8}, be32(cid)...)
	return append(b, be32(x)...)
}

func setup() {
	v.AtomicPkg("context")
	v.AtomicPkg("github.com/savaki/kafka/ring")
	v.Races()
	v.Explore(v.Param("preempt", 0))
}

// two callers at once; the server answers in either order, with or without an unknown correlation id in between
//
//vrt:quick time=600 order=2 stray=4
//vrt:thorough time=3000 order=2 stray=4
//vrt:split order stray
//vrt:replay stress
func H_C15_pair() { pair(v.Param("order", 0), v.Param("stray", 0)) }

func pair(order, stray int) {
	tag := [2]int32{v.Int32("tag1"), v.Int32("tag2")}
	v.Assume(tag[0] != tag[1])
	resp := [2]int32{v.Int32("resp1"), v.Int32("resp2")}
	c, p := connect()
	setup()
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			x, err := do(c, tag[i])
			v.Assert(err == nil, "a call fails although its response arrived")
			v.Assert(x == resp[i], "a call returns another call's response")
			done <- true
		}()
	}
	var cid [2]int32
	for n := 0; n < 2; n++ {
		id, t, ok := request(p)
		v.Assert(ok, "the connection ends early")
		i := 0
		if t == tag[1] {
			i = 1
		}
		v.Assert(t == tag[i], "a request frame differs from what was encoded")
		cid[i] = id
	}
	v.Assert(cid[0] != cid[1], "two calls in flight have the same correlation id")
	for n := 0; n < 2; n++ {
		if stray == n+1 {
			s := v.Int32("stray id")
			v.Assume(s != cid[0] && s != cid[1])
			p.Write(response(s, 77))
		}
		i := n ^ order
		p.Write(response(cid[i], resp[i]))
		if stray == 3 && n == 0 {
			// answered again, differently
			again := response(cid[i], 78)
			p.Write(append(again, again...))
		}
	}
	<-done
	<-done
	v.Reach("end")
}

// frames with unknown correlation ids and any contents, before, between and after the responses
//
//vrt:quick bytes=9 time=300
//vrt:thorough bytes=20 time=3000
//vrt:replay try
func H_C15_unknown() {
	c, p := connect()
	x := v.Int32("x")
	n := v.Choose("bytes", v.Param("bytes", 9)+1)
	at := v.Choose("at", 3)
	go func() {
		for i := 0; i < 3; i++ {
			cid, t, ok := request(p)
			v.Assert(ok, "the connection ends early")
			if at == i {
				id := v.Int32("stray id")
				v.Assume(id != cid)
				b := append(be32(int32(4+n)), be32(id)...)
				for k := 0; k < n; k++ {
					b = append(b, v.Uint8("stray"))
				}
				p.Write(b)
			}
			p.Write(response(cid, x+t))
		}
	}()
	for i := int32(0); i < 3; i++ {
		got, err := do(c, i)
		v.Assert(err == nil, "a call fails although its response arrived")
		v.Assert(got == x+i, "a call returns another call's response")
	}
	v.Reach("end")
}

// the response of one of two calls is too short to be decoded: that call returns an error, the other one and a later one
// their responses
//
//vrt:quick preempt=2 time=300
//vrt:thorough time=3000
//vrt:replay try
func H_C15_undecodable() {
	c, p := connect()
	n := v.Choose("bytes", 4)
	body := make([]byte, n)
	for i := range body {
		body[i] = v.Uint8("body")
	}
	x := v.Int32("x")
	last := v.Bool("last")
	setup()
	done := make(chan bool, 2)
	for i := int32(0); i < 2; i++ {
		i := i
		go func() {
			got, err := do(c, i)
			if i == 0 {
				v.Assert(err != nil, "a call whose response cannot be decoded returns without an error")
			} else {
				v.Assert(err == nil, "a call fails although its response arrived")
				v.Assert(got == x, "a call returns another call's response")
			}
			done <- true
		}()
	}
	var cid [2]int32
	for k := 0; k < 2; k++ {
		id, t, ok := request(p)
		v.Assert(ok, "the connection ends early")
		cid[v.Concrete(int(t))] = id
	}
	if last {
		p.Write(response(cid[1], x))
		p.Write(frameOf(cid[0], body))
	} else {
		p.Write(frameOf(cid[0], body))
		p.Write(response(cid[1], x))
	}
	<-done
	<-done
	go func() {
		id, _, ok := request(p)
		v.Assert(ok, "the connection ends early")
		p.Write(response(id, x))
	}()
	got, err := do(c, 2)
	v.Assert(err == nil && got == x, "a call fails although its response arrived")
	v.Reach("end")
}

// frameOf puts the length in front of cid and body.
func frameOf(cid int32, body []byte) []byte {
	return append(append(be32(int32(4+len(body))), be32(cid)...), body...)
}

// the server takes its time to answer, while the connection is idle between calls and while several calls wait
//
//vrt:all time=300
//vrt:replay try
func H_C15_slow() {
	c, p := connect()
	x := v.Int32("x")
	long := 100 * time.Hour
	wait := [3]time.Duration{0, time.Second, long}
	before, between, idle := wait[v.Choose("before", 3)], wait[v.Choose("between", 3)], wait[v.Choose("idle", 3)]
	go func() {
		for {
			var cid, tag [2]int32
			for k := 0; k < 2; k++ {
				id, t, ok := request(p)
				if !ok {
					return
				}
				cid[k], tag[k] = id, t
			}
			v.Sleep(before)
			p.Write(response(cid[1], x+tag[1]))
			v.Sleep(between)
			p.Write(response(cid[0], x+tag[0]))
		}
	}()
	for round := int32(0); round < 2; round++ {
		done := make(chan bool, 2)
		for i := int32(0); i < 2; i++ {
			i := i + 2*round
			go func() {
				got, err := do(c, i)
				v.Assert(err == nil, "a call whose response is slow to arrive fails")
				v.Assert(got == x+i, "a call returns another call's response")
				done <- true
			}()
		}
		<-done
		<-done
		v.Sleep(idle)
	}
	v.Reach("end")
}

// requests larger than the write buffer, sent by two goroutines at once
//
//vrt:quick time=300 preempt=2
//vrt:thorough time=3000
//vrt:replay stress
func H_C15_big() {
	c, p := connect()
	const n = 5000
	setup()
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			body := make([]byte, n)
			body[0], body[n-1] = byte(1+i), byte(1+i)
			var got int32
			err := c.Do(
				func(e *message.Encoder, cid int32) {
					e.PutInt32(4 + 4 + n)
					e.PutInt32(cid)
					e.PutBytes(body)
				},
				func(d *message.Decoder) error {
					x, err := d.Int32()
					got = x
					return err
				})
			v.Assert(err == nil, "a call fails although its response arrived")
			v.Assert(got == int32(1+i), "a call returns another call's response")
			done <- true
		}()
	}
	for i := 0; i < 2; i++ {
		b, ok := p.ReadN(12 + n)
		v.Assert(ok, "the connection ends early")
		v.Assert(un32(b) == 8+n && un32(b[8:]) == n, "a request frame is not written whole")
		v.Assert(b[12] == b[11+n] && (b[12] == 1 || b[12] == 2) && b[13] == 0 && b[10+n] == 0, "a request frame is not written whole")
		p.Write(response(un32(b[4:]), int32(b[12])))
	}
	<-done
	<-done
	v.Reach("end")
}

// three callers at once, answered in any order
//
//vrt:quick time=300 preempt=-5 order=2
//vrt:thorough time=3000 preempt=-5 order=6
//vrt:split order
//vrt:replay stress
func H_C15_three() {
	perm := [6][3]int{{2, 0, 1}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 1, 0}}[v.Param("order", 0)]
	c, p := connect()
	setup()
	done := make(chan bool, 3)
	for i := int32(0); i < 3; i++ {
		i := i
		go func() {
			x, err := do(c, i)
			v.Assert(err == nil, "a call fails although its response arrived")
			v.Assert(x == 10+i, "a call returns another call's response")
			done <- true
		}()
	}
	var cid, tag [3]int32
	for n := 0; n < 3; n++ {
		id, t, ok := request(p)
		v.Assert(ok, "the connection ends early")
		cid[n], tag[n] = id, t
	}
	v.Assert(cid[0] != cid[1] && cid[0] != cid[2] && cid[1] != cid[2], "two calls in flight have the same correlation id")
	for _, k := range perm {
		p.Write(response(cid[k], 10+tag[k]))
	}
	<-done
	<-done
	<-done
	v.Reach("end")
}

// one call is pending while many others are made and answered, then it is answered
//
//vrt:quick calls=300 time=300 steps=200000000
//vrt:thorough calls=3000 time=3000 steps=2000000000
//vrt:replay try
func H_C15_pending() {
	c, p := connect()
	x, y := v.Int32("x"), v.Int32("y")
	v.Assume(x != y)
	n := v.Param("calls", 300)
	done := make(chan bool, 1)
	go func() {
		got, err := do(c, -1)
		v.Assert(err == nil, "a call fails although its response arrived")
		v.Assert(got == x, "a call returns another call's response")
		done <- true
	}()
	first, t, ok := request(p)
	v.Assert(ok && t == -1, "a request frame differs from what was encoded")
	go func() {
		for i := 0; i < n; i++ {
			id, t, ok := request(p)
			v.Assert(ok && t == int32(i), "a request frame differs from what was encoded")
			v.Assert(id != first, "two calls in flight have the same correlation id")
			p.Write(response(id, y))
		}
	}()
	for i := 0; i < n; i++ {
		got, err := do(c, int32(i))
		v.Assert(err == nil, "a call fails although its response arrived")
		v.Assert(got == y, "a call returns another call's response")
	}
	p.Write(response(first, x))
	<-done
	v.Reach("end")
}

// many calls are pending at once, and answered in order, in reverse, or every other one first
//
//vrt:quick calls=70 time=300 steps=200000000
//vrt:thorough calls=300 time=3000 steps=2000000000
//vrt:replay try
func H_C15_many() {
	c, p := connect()
	x := v.Int32("x")
	n := v.Param("calls", 70)
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			got, err := do(c, int32(i))
			v.Assert(err == nil, "a call fails although its response arrived")
			v.Assert(got == x+int32(i), "a call returns another call's response")
			done <- true
		}()
	}
	cid, tag := make([]int32, n), make([]int32, n)
	seen := map[int32]bool{}
	for i := 0; i < n; i++ {
		id, t, ok := request(p)
		v.Assert(ok, "the connection ends early")
		v.Assert(!seen[id], "two calls in flight have the same correlation id")
		seen[id] = true
		cid[i], tag[i] = id, t
	}
	order := v.Choose("order", 3)
	var all []byte
	for i := 0; i < n; i++ {
		k := i
		switch order {
		case 1:
			k = n - 1 - i
		case 2:
			k = 2 * i
			if k >= n {
				k = k - n + 1 - n%2
			}
		}
		b := response(cid[k], x+tag[k])
		if v.Param("joined", 1) == 1 {
			all = append(all, b...)
		} else {
			p.Write(b)
		}
	}
	p.Write(all)
	for i := 0; i < n; i++ {
		<-done
	}
	v.Reach("end")
}
