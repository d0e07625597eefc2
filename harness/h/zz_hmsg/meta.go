package zz_hmsg

import (
	"context"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	v "github.com/savaki/kafka/zz_vrt"
)

// the topics asked for and the answer, in every version
//
//vrt:all strfix=2
//vrt:quick shapes=2 time=200 topics=3
//vrt:thorough shapes=1 arr=2 time=900 topics=4
func H_C25_metadata() {
	ver := v.Choose("version", 10)
	s := serve("b1:9092", good, int16(ver))
	var topics []string
	n := v.Choose("topics", v.Param("topics", 3)+1)
	for i := 0; i < n; i++ {
		topics = append(topics, topicName())
	}
	w := fill_MetadataResponse(newShape(6))
	nullArrays = true
	s.meta = w
	ask(kafka.NewClient([]string{s.l.Addr()}), s, topics, w, ver)
	v.Reach("end")
}

// the answer changes between two calls of one client
//
//vrt:all strfix=2 shapes=0
//vrt:quick time=200
func H_C25_twice() {
	ver := v.Choose("version", 10)
	s := serve("b1:9092", good, int16(ver))
	c := kafka.NewClient([]string{s.l.Addr()})
	nullArrays = true
	same := v.Bool("same topics")
	var topics []string
	for i := 0; i < 2; i++ {
		if i == 0 || !same {
			topics = nil
			for n := v.Choose("topics", 3); n > 0; n-- {
				topics = append(topics, topicName())
			}
		}
		s.meta = fill_MetadataResponse(newShape(0))
		s.topics, s.n = nil, 0
		ask(c, s, topics, s.meta, ver)
	}
	v.Reach("end")
}

// topicName is any name of up to 2 bytes.
func topicName() string { return v.StrN("topic", v.Choose("topic length", 3)) }

// ask calls Metadata and checks the request and the result.
func ask(c *kafka.Client, s *server, topics []string, w message.MetadataResponse, ver int) {
	got, err := c.Metadata(context.Background(), topics...)
	v.Assert(err == nil, "the call fails although the answer is good")
	v.Assert(s.n == 1 && len(s.topics) == 1, "not one request is made")
	asked := s.topics[0]
	for _, t := range topics {
		v.Assert(contains(asked, t), "a topic is not asked for")
	}
	for _, t := range asked {
		v.Assert(contains(topics, t), "a topic that was not given is asked for")
	}
	v.Assert(!s.create, "the cluster is told to create the topics")
	if ver < 1 {
		got.ControllerId = 0 // not in this version; the client may say so
	}
	eq_MetadataResponse(w, got, ver)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// an answer that cannot be decoded is an error
//
//vrt:all strfix=2 shapes=0
//vrt:quick time=100
func H_C25_garbled() {
	ver := v.Choose("version", 10)
	s := serve("b1:9092", good, int16(ver))
	s.meta = fill_MetadataResponse(newShape(0))
	s.cut = 1 + v.Choose("cut", 20)
	_, err := kafka.NewClient([]string{s.l.Addr()}).Metadata(context.Background(), "t")
	v.Assert(err != nil, "an answer that cannot be decoded is returned without an error")
	v.Reach("end")
}

// many topics, and long names
//
//vrt:all strfix=2 shapes=0
//vrt:quick time=100 topics=8
//vrt:thorough time=600 topics=12
func H_C25_long() {
	ver := []int{0, 1, 4, 9}[v.Choose("version", 4)]
	s := serve("b1:9092", good, int16(ver))
	n := []int{9, 17, 33, 65, 100, 129, 257, 300, 513, 1000, 1025, 3000}[v.Choose("topics", v.Param("topics", 8))]
	size := 4
	if v.Bool("long names") {
		n, size = 2, []int{32, 64, 127, 128, 129, 249, 255, 256, 1000, 4096, 32766, 32767}[v.Choose("name length", v.Param("topics", 8))]
	}
	var topics []string
	tail := v.StrN("topic", 2)
	for i := 0; i < n; i++ {
		b := make([]byte, size-2)
		for j := range b {
			b[j] = 'a'
		}
		b[0], b[1] = byte(i), byte(i>>8)
		topics = append(topics, string(b)+tail)
	}
	w := fill_MetadataResponse(newShape(6))
	nullArrays = true
	s.meta = w
	got, err := kafka.NewClient([]string{s.l.Addr()}).Metadata(context.Background(), topics...)
	v.Assert(err == nil, "the call fails although the answer is good")
	v.Assert(s.n == 1 && len(s.topics) == 1, "not one request is made")
	asked := make([]bool, n)
	for _, t := range s.topics[0] {
		v.Assert(len(t) == size, "a topic that was not given is asked for")
		i := int(t[0]) | int(t[1])<<8
		v.Assert(i < n && t == topics[i], "a topic that was not given is asked for")
		asked[i] = true
	}
	for _, ok := range asked {
		v.Assert(ok, "a topic is not asked for")
	}
	if ver < 1 {
		got.ControllerId = 0
	}
	eq_MetadataResponse(w, got, ver)
	v.Reach("end")
}

// two calls of one client at once: each asks for its topics and gets its answer
//
//vrt:quick time=100 preempt=-3
//vrt:thorough time=1500 preempt=-1
//vrt:replay stress
func H_C25_concurrent() {
	l := v.Listen("b1:9092")
	hold := v.Choose("hold", 3) // whose answer may take until the other call is done
	release := make(chan bool, 2)
	ctl := [2]int32{v.Int32("controller"), v.Int32("controller")}
	version := v.Choose("version", 2) * 9
	go func() {
		for {
			p := l.Accept()
			go func() {
				for {
					b, ok := p.ReadN(4)
					if !ok {
						return
					}
					b, ok = p.ReadN(v.Concrete(int(u32(b))))
					if !ok {
						return
					}
					key, cid := v.Concrete(int(u16(b))), u32(b[4:])
					body := b[10+v.Concrete(int(u16(b[8:]))):]
					if key == 18 {
						reply(p, cid, r16(r16(r16(r32(r16(nil, 0), 1), 3), 0), int16(version)))
						continue
					}
					v.Assert(len(body) >= 7 && body[3] == 1 && body[5] == 1, "a topic is not asked for, or another one is")
					i := 0
					if body[6] == 'u' {
						i = 1
					}
					v.Assert(body[6] == "tu"[i], "a topic that was not given is asked for")
					if hold == i+1 {
						<-release
					}
					reply(p, cid, ref_MetadataResponse(nil, message.MetadataResponse{ControllerId: ctl[i], ClusterId: "tu"[i : i+1]}, version))
				}
			}()
		}
	}()
	c := kafka.NewClient([]string{l.Addr()})
	setup()
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			m, err := c.Metadata(context.Background(), "tu"[i:i+1])
			v.Assert(err == nil, "the call fails although the answer is good")
			if version > 0 {
				v.Assert(m.ControllerId == ctl[i] && m.ClusterId == "tu"[i:i+1], "a call returns another call's answer")
			}
			release <- true
			done <- true
		}()
	}
	<-done
	<-done
	v.Reach("end")
}
