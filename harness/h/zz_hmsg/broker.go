package zz_hmsg

import (
	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	v "github.com/savaki/kafka/zz_vrt"
)

// api is an API as Kafka and the library's specification define it.
type api struct {
	key, min, max int16
	name          string
}

const clientID = "github.com/savaki/kafka"

func u16(b []byte) int16 { return int16(uint16(b[0])<<8 | uint16(b[1])) }
func u32(b []byte) int32 {
	return int32(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]))
}

// frame reads one request frame and checks its header.
func frame(p *v.Peer) (key, ver int16, cid int32, body []byte) {
	b, ok := p.ReadN(4)
	v.Assert(ok, "no request frame is sent")
	n := v.Concrete(int(u32(b)))
	v.Assert(n >= 10, "the frame's length leaves no room for the header")
	b, ok = p.ReadN(n)
	v.Assert(ok, "the frame's length is not that of what follows")
	key, ver, cid = u16(b), u16(b[2:]), u32(b[4:])
	k := v.Concrete(int(u16(b[8:])))
	v.Assert(k == len(clientID) && 10+k <= n, "the client id in the header is wrong")
	v.Assert(string(b[10:10+k]) == clientID, "the client id in the header is wrong")
	return key, ver, cid, b[10+k:]
}

// reply sends a response frame.
func reply(p *v.Peer, cid int32, body []byte) {
	b := r32(nil, int32(4+len(body)))
	b = r32(b, cid)
	p.Write(v.Append(b, body))
}

// ranges is what the broker advertises: for every API what the library supports, but lo to hi for key.
func ranges(key, lo, hi int16) []byte {
	b := r16(nil, 0)
	b = r32(b, int32(len(apis)))
	for _, a := range apis {
		b = r16(b, a.key)
		if a.key == key {
			b = r16(r16(b, lo), hi)
		} else {
			b = r16(r16(b, a.min), a.max)
		}
	}
	return b
}

// dialBroker connects to a broker that advertises lo to hi for key.
func dialBroker(key, lo, hi int16) (*kafka.Broker, *v.Peer, error) {
	return dialBrokerAs(ranges(key, lo, hi))
}

func dialBrokerAs(apiVersions []byte) (*kafka.Broker, *v.Peer, error) {
	return dialBrokerAt(v.Listen("b1:9092"), apiVersions)
}

func dialBrokerAt(l *v.Listener, apiVersions []byte) (*kafka.Broker, *v.Peer, error) {
	var b *kafka.Broker
	var err error
	done := make(chan bool, 1)
	go func() {
		b, err = kafka.NewBroker(l.Addr())
		done <- true
	}()
	p := l.Accept()
	key, ver, cid, body := frame(p)
	v.Assert(key == 18 && ver == 0 && len(body) == 0, "the versions are not asked for with an ApiVersions request of version 0")
	reply(p, cid, apiVersions)
	<-done
	return b, p, err
}

// APIs the library does not know are ignored, whatever their ranges and wherever they are in the list
//
//vrt:quick unknown=2 time=200
//vrt:thorough unknown=3 time=600
//vrt:replay try
func H_C12_unknown() {
	n := v.Param("unknown", 2)
	at := v.Choose("at", 3)
	mine := [2]int16{v.Int16("heartbeat"), v.Int16("metadata")}
	v.Assume(mine[0] >= 0 && mine[0] <= 3 && mine[1] >= 0 && mine[1] <= 9)
	b := r32(r16(nil, 0), int32(2+n))
	for i := 0; i < 3; i++ {
		if i == at {
			for k := 0; k < n; k++ {
				key, lo, hi := v.Int16("key"), v.Int16("min"), v.Int16("max")
				for _, a := range apis {
					v.Assume(key != a.key)
				}
				b = r16(r16(r16(b, key), lo), hi)
			}
		}
		switch i {
		case 0:
			b = r16(r16(r16(b, 12), 0), mine[0])
		case 1:
			b = r16(r16(r16(b, 3), 0), mine[1])
		}
	}
	br, p, err := dialBrokerAs(b)
	v.Assert(err == nil, "an API the library does not know makes connecting fail")
	done := make(chan bool, 1)
	go func() {
		br.Heartbeat(message.HeartbeatRequest{})
		br.Metadata(message.MetadataRequest{})
		done <- true
	}()
	key, ver, cid, _ := frame(p)
	v.Assert(key == 12 && ver == mine[0], "an API the library does not know changes the version of another one")
	reply(p, cid, nil)
	key, ver, cid, _ = frame(p)
	v.Assert(key == 3 && ver == mine[1], "an API the library does not know changes the version of another one")
	reply(p, cid, nil)
	<-done
	br.Close()
	v.Assert(p.ClosedByClient(), "Close leaves the connection open")
	v.Reach("end")
}

func setup() {
	v.AtomicPkg("context")
	v.AtomicPkg("github.com/savaki/kafka/ring")
	v.Races()
	v.Explore(v.Param("preempt", 2))
}

// two calls of one broker at once, of two APIs or the same one
//
//vrt:quick time=300 preempt=2 same=2 order=2
//vrt:thorough time=3000 preempt=4 same=2 order=2
//vrt:split same order
//vrt:replay stress
func H_C15_broker() {
	b, p, err := dialBroker(12, 0, 1)
	v.Assert(err == nil, "cannot connect")
	setup()
	gen, code := v.Int32("generation"), [2]int16{v.Int16("code"), v.Int16("code")}
	throttle := v.Int32("throttle")
	done := make(chan bool, 2)
	go func() {
		r, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g", GenerationId: gen, MemberId: "m"})
		v.Assert(err == nil, "a call fails although its response arrived")
		v.Assert(r.ErrorCode == code[0] && r.ThrottleTimeMs == throttle, "a call returns another call's response")
		done <- true
	}()
	same := v.Param("same", 0) == 1
	go func() {
		if same {
			r, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "h", GenerationId: gen, MemberId: "m"})
			v.Assert(err == nil, "a call fails although its response arrived")
			v.Assert(r.ErrorCode == code[1] && r.ThrottleTimeMs == throttle+1, "a call returns another call's response")
		} else {
			r, err := b.LeaveGroup(message.LeaveGroupRequest{GroupId: "h", MemberId: "m"})
			v.Assert(err == nil, "a call fails although its response arrived")
			v.Assert(r.ErrorCode == code[1] && r.ThrottleTimeMs == throttle+1, "a call returns another call's response")
		}
		done <- true
	}()
	var cid [2]int32
	for i := 0; i < 2; i++ {
		key, ver, id, body := frame(p)
		v.Assert(len(body) > 2 && body[0] == 0 && body[1] == 1, "a request differs from the one made")
		k := 0
		if body[2] == 'h' {
			k = 1
		}
		want := r32(rstr(nil, "g"), gen)
		if k == 1 && same {
			want = r32(rstr(nil, "h"), gen)
		}
		want = rstr(want, "m")
		if k == 1 && !same {
			v.Assert(key == 13, "a request differs from the one made")
			w, e := enc()
			message.LeaveGroupRequest{GroupId: "h", MemberId: "m"}.Encode(e, ver)
			e.Flush()
			want = w.B
		} else {
			v.Assert(key == 12, "a request differs from the one made")
			v.Assert(ver == 1, "a request differs from the one made")
		}
		v.AssertEqBytes(body, want, "a request differs from the one made")
		cid[k] = id
	}
	v.Assert(cid[0] != cid[1], "two calls in flight have the same correlation id")
	for i := 0; i < 2; i++ {
		k := i ^ v.Param("order", 0)
		body := r16(r32(nil, throttle+int32(k)), code[k])
		if k == 1 && !same {
			body = r32(body, 0) // no members
		}
		reply(p, cid[k], body)
	}
	<-done
	<-done
	v.Reach("end")
}

// many APIs the library does not know, before and between those it knows
//
//vrt:quick time=200
//vrt:replay try
func H_C12_many() {
	n := []int{10, 20, 60, 150}[v.Choose("unknown", 4)]
	first := v.Bool("first")
	mine := v.Int16("mine")
	which := v.Choose("which", len(apis))
	v.Assume(mine >= apis[which].min && mine <= apis[which].max)
	b := r32(r16(nil, 0), int32(len(apis)+n))
	rest := n
	for i := range apis {
		a := apis[len(apis)-1-i] // from the last one on
		k := n / len(apis)
		if first {
			k = rest
		}
		for ; k > 0; k-- {
			b = r16(r16(r16(b, int16(1000+rest)), 0), 3)
			rest--
		}
		hi := a.max
		if a.key == apis[which].key {
			hi = mine
		}
		b = r16(r16(r16(b, a.key), a.min), hi)
	}
	for ; rest > 0; rest-- {
		b = r16(r16(r16(b, int16(1000+rest)), 0), 3)
	}
	br, p, err := dialBrokerAs(b)
	v.Assert(err == nil, "an API the library does not know makes connecting fail")
	v.Assume(callVersion[apis[which].key] != nil)
	done := make(chan bool, 1)
	go func() {
		callVersion[apis[which].key](br)
		done <- true
	}()
	key, ver, cid, _ := frame(p)
	v.Assert(key == apis[which].key && ver == mine, "an API the library does not know changes the version of another one")
	reply(p, cid, nil)
	<-done
	br.Close()
	v.Reach("end")
}

var callVersion = map[int16]func(*kafka.Broker){
	0:  func(b *kafka.Broker) { b.Produce(message.ProduceRequest{}) },
	1:  func(b *kafka.Broker) { b.Fetch(message.FetchRequest{}) },
	3:  func(b *kafka.Broker) { b.Metadata(message.MetadataRequest{}) },
	10: func(b *kafka.Broker) { b.FindCoordinator(message.FindCoordinatorRequest{}) },
	12: func(b *kafka.Broker) { b.Heartbeat(message.HeartbeatRequest{}) },
	19: func(b *kafka.Broker) { b.CreateTopics(message.CreateTopicsRequest{}) },
	32: func(b *kafka.Broker) { b.DescribeConfigs(message.DescribeConfigsRequest{}) },
}

// two connections to one address, one after the other or both at once, whose broker supports other versions each time:
// each uses those of its own
//
//vrt:quick time=200
//vrt:replay try
func H_C12_again() {
	l := v.Listen("b1:9092")
	which := v.Choose("which", len(apis))
	a := apis[which]
	v.Assume(callVersion[a.key] != nil)
	both := v.Bool("both")
	var hi [2]int16
	var b [2]*kafka.Broker
	var p [2]*v.Peer
	use := func(i int) {
		done := make(chan bool, 1)
		go func() {
			callVersion[a.key](b[i])
			done <- true
		}()
		key, ver, cid, _ := frame(p[i])
		v.Assert(key == a.key && ver == hi[i], "a connection uses the versions of another one")
		reply(p[i], cid, nil)
		<-done
	}
	for i := range b {
		hi[i] = v.Int16("max")
		v.Assume(hi[i] >= a.min && hi[i] <= a.max)
		var err error
		b[i], p[i], err = dialBrokerAt(l, ranges(a.key, a.min, hi[i]))
		v.Assert(err == nil, "connecting fails although there is a common version")
		if !both || i > 0 {
			use(i)
			b[i].Close()
		}
	}
	if both {
		use(0)
		b[0].Close()
	}
	v.Reach("end")
}
