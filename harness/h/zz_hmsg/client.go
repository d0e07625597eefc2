package zz_hmsg

import (
	"context"
	"crypto/tls"
	"net"
	"strings"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	v "github.com/savaki/kafka/zz_vrt"
)

// How a server behaves.
const (
	good      = iota
	dead                  // nobody listens
	hangsUp               // accepts and closes
	noCommon              // advertises no common version of Metadata
	garbled               // its answer to ApiVersions cannot be decoded
	hangsUp2              // closes instead of answering anything but ApiVersions
	kinds                 // number of kinds
	badFrame  = kinds     // its answer to ApiVersions has a negative length
	refuses   = kinds + 1 // its answer to ApiVersions says that this version of it is not supported
	startKind = good
)

// server plays a broker.
type server struct {
	l     *v.Listener
	kind  int
	max   int16 // the highest version of Metadata and FindCoordinator it supports
	meta  message.MetadataResponse
	coord message.FindCoordinatorResponse
	// asked are the topics and the groups asked for
	topics [][]string
	all    bool
	create bool // it was told to create topics that do not exist
	groups []string
	quiet  bool // what is asked for is not recorded
	cut    int  // how much of the answer to Metadata is missing
	other  bool // a coordinator that is not a group's was asked for
	n      int  // requests other than ApiVersions
	before func(key int)
}

func serve(addr string, kind int, max int16) *server {
	s := &server{kind: kind, max: max}
	if kind == dead {
		return s
	}
	s.l = v.Listen(addr)
	go func() {
		for {
			p := s.l.Accept()
			go s.conn(p)
		}
	}()
	return s
}

func (s *server) conn(p *v.Peer) {
	if s.kind == hangsUp {
		p.Close()
		return
	}
	for {
		b, ok := p.ReadN(4)
		if !ok {
			return
		}
		b, ok = p.ReadN(v.Concrete(int(u32(b))))
		if !ok {
			return
		}
		key, ver, cid := v.Concrete(int(u16(b))), v.Concrete(int(u16(b[2:]))), u32(b[4:])
		body := b[10+v.Concrete(int(u16(b[8:]))):]
		if s.before != nil {
			s.before(key)
		}
		if key == 18 {
			s.versions(p, cid)
			continue
		}
		if !s.quiet {
			s.n++
		}
		if s.kind == hangsUp2 {
			p.Close()
			return
		}
		v.Assert(ver <= int(s.max), "a request is made in a version the broker does not support")
		switch key {
		case 3:
			if !s.quiet {
				s.metadata(ver, body)
			}
			b := ref_MetadataResponse(nil, s.meta, ver)
			reply(p, cid, b[:len(b)-s.cut])
		case 10:
			k := v.Concrete(int(u16(body)))
			s.groups = append(s.groups, string(body[2:2+k]))
			if ver >= 1 && body[2+k] != 0 {
				s.other = true
			}
			reply(p, cid, ref_FindCoordinatorResponse(nil, s.coord, ver))
		default:
			v.Fail("a request the operation does not need is made")
		}
	}
}

func (s *server) versions(p *v.Peer, cid int32) {
	b := r32(r16(nil, 0), 2)
	switch s.kind {
	case refuses:
		reply(p, cid, r32(r16(nil, 35), 0))
		return
	case noCommon:
		b = r16(r16(r16(b, 3), 100), 101)
	case garbled:
		reply(p, cid, b)
		return
	case badFrame:
		p.Write([]byte{255, 255, 255, 255})
		return
	default:
		b = r16(r16(r16(b, 3), 0), s.max)
	}
	b = r16(r16(r16(b, 10), 0), s.max)
	reply(p, cid, b)
}

func (s *server) metadata(ver int, body []byte) {
	n := v.Concrete(int(u32(body)))
	if n < 0 || n == 0 && ver == 0 {
		s.all = true
	}
	var ts []string
	at := 4
	for i := 0; i < n; i++ {
		k := v.Concrete(int(u16(body[at:])))
		ts = append(ts, string(body[at+2:at+2+k]))
		at += 2 + k
	}
	if ver >= 4 && body[at] != 0 {
		s.create = true
	}
	s.topics = append(s.topics, ts)
}

func (s *server) open() int {
	if s.l == nil {
		return 0
	}
	return s.l.OpenConns()
}

func (s *server) conns() int {
	if s.l == nil {
		return 0
	}
	return len(s.l.Conns())
}

// Where a server that plays node i is, and a metadata entry for it.
var nodeAddrs = []string{"h1:1", "h1:2", "h2:1"}

func (s *server) entry(id int32) message.MetadataResponseBroker3 {
	return message.MetadataResponseBroker3{NodeId: id, Host: s.l.Host(), Port: s.l.Port()}
}

// cluster is one bootstrap server and brokers with symbolic ids, one of which may be the bootstrap server itself.
type cluster struct {
	boot  *server
	nodes []*server
	ids   []int32
}

func newCluster(max int16) *cluster {
	c := &cluster{boot: serve("b1:9092", good, max)}
	n, self, first := v.Param("brokers", 3), -1, 0
	if v.Param("fixed", 0) == 1 {
		self = v.Choose("bootstrap is", 2) - 1
	} else {
		n = v.Choose("brokers", n+1)
		self = v.Choose("bootstrap is", n+1) - 1
		first = v.Choose("first", 2) // in which order the addresses appear
	}
	for i := 0; i < n; i++ {
		var s *server
		if i == self {
			s = c.boot
		} else {
			s = serve(nodeAddrs[(i+first)%3], good, 9)
		}
		id := v.Int32("node")
		v.Assume(id >= 0)
		for _, x := range c.ids {
			v.Assume(id != x)
		}
		c.nodes = append(c.nodes, s)
		c.ids = append(c.ids, id)
		c.boot.meta.Brokers = append(c.boot.meta.Brokers, s.entry(id))
	}
	return c
}

// find is the node with an id; nil: there is none.
func (c *cluster) find(id int32) *server {
	for i, x := range c.ids {
		if id == x {
			return c.nodes[i]
		}
	}
	return nil
}

// check decides whether the result of dialling is a connection to want (nil: an error).
func (c *cluster) check(b *kafka.Broker, err error, want *server, what string) {
	all := append([]*server{c.boot}, c.nodes...)
	if want == nil {
		v.Assert(err != nil, what+": no error although the cluster's answer does not contain it")
		v.Assert(b == nil, what+": a broker is returned together with an error")
	} else {
		v.Assert(err == nil, what+": an error although the cluster's answer contains it")
		v.Assert(b != nil, what+": no broker is returned")
	}
	for _, s := range all {
		if s == want {
			v.Assert(s.open() >= 1, what+": the node asked for is not connected to")
		} else if s != c.boot {
			v.Assert(s.conns() == 0, what+": another node is dialled")
		}
	}
	for _, d := range v.Dials() {
		v.Assert(d.OK, what+": an address that is no node's is dialled")
	}
	if want != nil {
		n := want.open()
		b.Close()
		v.Assert(want.open() == n-1, what+": the connection returned is not the one to the node")
	}
	v.Reach("end")
}

// asked checks that a topic was asked for.
func (s *server) asked(topic string) {
	ok := s.all
	for _, ts := range s.topics {
		for _, t := range ts {
			if t == topic {
				ok = true
			}
		}
	}
	v.Assert(ok, "the topic is not asked for")
}

// someName is any name of 1 or 2 bytes.
func someName(what string) string { return v.StrN(what, 1+v.Choose(what+" length", 2)) }

// the controller
//
//vrt:quick time=300 brokers=2
//vrt:thorough time=1500 brokers=3
func H_C20_controller() {
	ver := v.Choose("version", 10)
	c := newCluster(int16(ver))
	ctl := v.Int32("controller")
	v.Assume(ctl >= -1)
	c.boot.meta.ControllerId = ctl
	b, err := kafka.NewClient([]string{c.boot.l.Addr()}).DialController(context.Background())
	want := c.find(ctl)
	if ver < 1 {
		want = nil // the answer does not say
	}
	c.check(b, err, want, "DialController")
}

// a partition's leader: topics and partitions with symbolic names, indices and leaders
//
//vrt:all fixed=1 version=2 topics=3 p1=3 p2=3 weight=1
//vrt:quick time=300 brokers=2
//vrt:thorough time=3000 brokers=3
//vrt:split version topics p1 p2
func H_C20_leader() {
	ver := []int{0, 9}[v.Param("version", 0)]
	if v.Param("topics", 0) < 2 && v.Param("p2", 0) > 0 || v.Param("topics", 0) < 1 && v.Param("p1", 0) > 0 {
		v.Reach("end")
		return
	}
	c := newCluster(int16(ver))
	topic := someName("topic")
	part := v.Int32("partition")
	v.Assume(part >= 0)
	c.boot.meta.ControllerId = v.Int32("controller")
	var want *server
	var names []string
	nt := v.Param("topics", 0)
	for i := 0; i < nt; i++ {
		t := message.MetadataResponseTopic3{Name: someName("name")}
		for _, x := range names {
			v.Assume(x != t.Name)
		}
		names = append(names, t.Name)
		np := v.Param([]string{"p1", "p2"}[i], 0)
		for j := 0; j < np; j++ {
			p := message.MetadataResponsePartition3{PartitionIndex: v.Int32("index"), LeaderId: v.Int32("leader")}
			v.Assume(p.PartitionIndex >= 0 && p.LeaderId >= -1)
			p.ReplicaNodes, p.IsrNodes = c.ids, c.ids // which says nothing about the leader
			for _, x := range t.Partitions {
				v.Assume(x.PartitionIndex != p.PartitionIndex)
			}
			if p.LeaderId == -1 {
				p.ErrorCode = 5 // LEADER_NOT_AVAILABLE
			}
			if t.Name == topic && p.PartitionIndex == part {
				want = c.find(p.LeaderId)
			}
			t.Partitions = append(t.Partitions, p)
		}
		if np == 0 {
			t.ErrorCode = 3 // UNKNOWN_TOPIC_OR_PARTITION
		}
		c.boot.meta.Topics = append(c.boot.meta.Topics, t)
	}
	b, err := kafka.NewClient([]string{c.boot.l.Addr()}).DialLeader(context.Background(), topic, part)
	c.boot.asked(topic)
	c.check(b, err, want, "DialLeader")
}

// a group's coordinator
//
//vrt:quick time=300
//vrt:thorough time=1500 brokers=3
func H_C20_coordinator() {
	ver := v.Choose("version", 4)
	c := newCluster(int16(ver))
	group := v.StrN("group", v.Choose("group length", 4))
	k := v.Choose("coordinator", len(c.nodes)+1)
	var want *server
	if k < len(c.nodes) {
		want = c.nodes[k]
		e := c.boot.meta.Brokers[k]
		c.boot.coord = message.FindCoordinatorResponse{NodeId: e.NodeId, Host: e.Host, Port: e.Port}
	} else {
		// no coordinator, and whatever else the answer says
		code := v.Int16("error")
		v.Assume(code != 0)
		c.boot.coord = message.FindCoordinatorResponse{ErrorCode: code, NodeId: -1, Port: -1}
		if len(c.nodes) > 0 && v.Bool("stale") {
			e := c.boot.meta.Brokers[0]
			c.boot.coord = message.FindCoordinatorResponse{ErrorCode: code, NodeId: e.NodeId, Host: e.Host, Port: e.Port}
		}
	}
	b, err := kafka.NewClient([]string{c.boot.l.Addr()}).DialGroupCoordinator(context.Background(), group)
	ok := false
	for _, g := range c.boot.groups {
		if g == group {
			ok = true
		}
	}
	v.Assert(ok && !c.boot.other, "the group's coordinator is not asked for")
	c.check(b, err, want, "DialGroupCoordinator")
}

// the cluster changes between two operations of one client
//
//vrt:all ops=9
//vrt:quick time=300
//vrt:split ops
func H_C20_twice() {
	boot := serve("b1:9092", good, 9)
	var nodes []*server
	for _, a := range nodeAddrs {
		nodes = append(nodes, serve(a, good, 9))
	}
	c := kafka.NewClient([]string{boot.l.Addr()})
	for i := 0; i < 2; i++ {
		// any node, under any id
		k := v.Choose("node", 3)
		id := v.Int32("id")
		v.Assume(id >= 0)
		boot.names(nodes[k], "c")
		boot.meta.Brokers[0].NodeId = id
		if v.Bool("another") {
			other := v.Int32("id")
			v.Assume(other >= 0 && other != id)
			boot.meta.Brokers = append([]message.MetadataResponseBroker3{nodes[(k+1)%3].entry(other)}, boot.meta.Brokers[0])
		}
		boot.meta.ControllerId = id
		boot.meta.Topics[0].Partitions[0].LeaderId = id
		n := [3]int{nodes[0].conns(), nodes[1].conns(), nodes[2].conns()}
		op := v.Param("ops", 0) / 3
		if i == 1 {
			op = v.Param("ops", 0) % 3
		}
		b, _, err := operate(c, op)
		v.Assert(err == nil && b != nil, "the operation fails")
		for j := range nodes {
			if j != k {
				v.Assert(nodes[j].conns() == n[j], "another node than the one the answer names now is dialled")
			}
		}
		v.Assert(nodes[k].open() == 1, "the node the answer names now is not connected to")
		b.Close()
		v.Assert(nodes[k].open() == 0, "the connection returned is not the one to the node")
	}
	v.Reach("end")
}

// two operations of one client at once: each reaches its own node
//
//vrt:quick time=100 preempt=-3
//vrt:thorough time=1500 preempt=-1
//vrt:replay stress
func H_C20_concurrent() {
	boot := serve("b1:9092", good, 9)
	boot.quiet = true
	n := [2]*server{serve("h1:1", good, 9), serve("h1:2", good, 9)}
	id := [2]int32{v.Int32("id1"), v.Int32("id2")}
	v.Assume(id[0] >= 0 && id[1] >= 0 && id[0] != id[1])
	op := v.Choose("operations", 2)
	boot.meta = message.MetadataResponse{
		ControllerId: id[0],
		Brokers:      []message.MetadataResponseBroker3{n[0].entry(id[0]), n[1].entry(id[1])},
		Topics: []message.MetadataResponseTopic3{
			{Name: "t", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 0, LeaderId: id[0]}, {PartitionIndex: 1, LeaderId: id[1]}}},
			{Name: "u", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 0, LeaderId: id[1]}}},
		},
	}
	// the answer to one of them may take until the other operation is done
	tokens, release := make(chan int, 2), make(chan bool, 2)
	tokens <- 0
	tokens <- 1
	hold := v.Choose("hold", 3)
	boot.before = func(key int) {
		if key == 3 && <-tokens == hold {
			<-release
		}
	}
	c := kafka.NewClient([]string{boot.l.Addr()})
	setup()
	var b [2]*kafka.Broker
	var err [2]error
	done := make(chan bool, 2)
	go func() {
		b[0], err[0] = c.DialController(context.Background())
		release <- true
		done <- true
	}()
	go func() {
		if op == 0 {
			b[1], err[1] = c.DialLeader(context.Background(), "t", 1)
		} else {
			b[1], err[1] = c.DialLeader(context.Background(), "u", 0)
		}
		release <- true
		done <- true
	}()
	<-done
	<-done
	for i := range b {
		v.Assert(err[i] == nil && b[i] != nil, "the operation fails")
		v.Assert(n[i].conns() == 1 && n[i].open() == 1, "the node asked for is not connected to")
		b[i].Close()
		v.Assert(n[i].open() == 0, "the connection returned is not the one to the node")
	}
	v.Reach("end")
}

// large clusters: many brokers, topics and partitions in any order, of which one is asked for
//
//vrt:quick time=200 sizes=3
//vrt:thorough time=1500 sizes=7
func H_C20_long() {
	boot, node, other := serve("b1:9092", good, 9), serve("h1:1", good, 9), serve("h1:2", good, 9)
	n := []int{4, 11, 130, 40, 300, 1000, 3000}[v.Choose("size", v.Param("sizes", 3))]
	var k int
	if n <= 11 {
		k = v.Choose("which", n)
	} else {
		k = []int{0, n / 2, n - 1}[v.Choose("which", 3)]
	}
	there := v.Bool("there")
	step := []int{1, n - 1, 3}[v.Choose("order", 3)] // ascending, descending, mixed (n is no multiple of 3)
	v.Assume(n%3 != 0 || step != 3)
	base := v.Int32("base")
	v.Assume(base >= 0 && base < 1<<30)
	id := func(i int) int32 { return base + int32(i*step%n) }
	op := v.Choose("operation", 2)
	for i := 0; i < n; i++ {
		s := other
		if i == k {
			s = node
		}
		if i == k && !there {
			continue
		}
		boot.meta.Brokers = append(boot.meta.Brokers, s.entry(id(i)))
	}
	boot.meta.ControllerId = id(k)
	if op == 1 {
		boot.meta.ControllerId = id((k + 1) % n)
		dim := v.Choose("long", 2) // many topics, or many partitions
		nt, np := []int{n, 2}[dim], []int{2, n}[dim]
		kt, kp := []int{k, 1}[dim], []int{1, k}[dim]
		for i := 0; i < nt; i++ {
			t := message.MetadataResponseTopic3{Name: name(i * step % n)}
			for j := 0; j < np; j++ {
				p := message.MetadataResponsePartition3{PartitionIndex: int32(j * step % n), LeaderId: id((k + 1) % n)}
				if i == kt && j == kp {
					p.LeaderId = id(k)
				}
				t.Partitions = append(t.Partitions, p)
			}
			boot.meta.Topics = append(boot.meta.Topics, t)
		}
		b, err := kafka.NewClient([]string{boot.l.Addr()}).DialLeader(context.Background(), name(kt*step%n), int32(kp*step%n))
		only(b, err, there, node, other)
		return
	}
	b, err := kafka.NewClient([]string{boot.l.Addr()}).DialController(context.Background())
	only(b, err, there, node, other)
}

// name is the name of topic i.
func name(i int) string { return "topic" + string([]byte{byte('0' + i>>6), byte('0' + i&63)}) }

// only checks that b is a connection to node, or none.
func only(b *kafka.Broker, err error, there bool, node, other *server) {
	v.Assert(other.conns() == 0, "another node is dialled")
	if there {
		v.Assert(err == nil && b != nil && node.open() == 1, "the node asked for is not connected to")
		b.Close()
		v.Assert(node.open() == 0, "the connection returned is not the one to the node")
	} else {
		v.Assert(err != nil && b == nil && node.conns() == 0, "no error although the cluster's answer does not contain it")
	}
	v.Reach("end")
}

// whatever host and port the answer gives, the address dialled is made of these
//
//vrt:quick time=300 host=3
//vrt:thorough time=1500 host=6
//vrt:replay try
func H_C20_address() {
	if !v.Symbolic() {
		v.Reach("end")
		return
	}
	boot := serve("b1:9092", good, 9)
	host := ""
	hosts := []string{"kafka-1.example.com", "::1", "fe80::1%lo", "10.0.0.1", "2001:db8::9092", "0.0.0.0", "127.0.0.1", "localhost", "::", "Kafka-1.EXAMPLE.com.", "kafka_1", "x", "::ffff:10.0.0.1",
		strings.Repeat("very-long.", 25) + "example"}
	if k := v.Choose("host", 1+len(hosts)); k > 0 {
		host = hosts[k-1]
	} else {
		host = v.StrN("host", 1+v.Choose("host length", v.Param("host", 3)))
		v.Assume(host != "b1") // the bootstrap server
	}
	ports := []int32{1, 80, 9092, 19092, 32768, 65535, 9, 10, 443, 999, 1000, 9093, 10000, 32767, 65534}
	texts := []string{"1", "80", "9092", "19092", "32768", "65535", "9", "10", "443", "999", "1000", "9093", "10000", "32767", "65534"}
	pi := v.Choose("port", len(ports))
	port, text := ports[pi], texts[pi]
	colon := false
	for i := 0; i < len(host); i++ {
		if host[i] == ':' {
			colon = true
		}
	}
	want := host + ":" + text
	if colon {
		want = "[" + host + "]:" + text
	}
	id := v.Int32("node")
	v.Assume(id >= 0)
	boot.meta.Brokers = []message.MetadataResponseBroker3{{NodeId: id, Host: host, Port: port}}
	boot.meta.ControllerId = id
	boot.meta.Topics = []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{LeaderId: id}}}}
	boot.coord = message.FindCoordinatorResponse{NodeId: id, Host: host, Port: port}
	n := len(v.Dials())
	_, _, err := operate(kafka.NewClient([]string{boot.l.Addr()}), v.Choose("operation", 3))
	v.Assert(err != nil, "an address nobody listens at is connected to")
	k := 0
	for _, d := range v.Dials()[n:] {
		if d.OK {
			continue
		}
		v.Assert(d.Addr == want, "the address dialled is not the node's host and port")
		k++
	}
	v.Assert(k > 0, "the node is not dialled")
	v.Reach("end")
}

// operate performs one of the client's operations.
func operate(c *kafka.Client, op int) (*kafka.Broker, message.MetadataResponse, error) {
	return operateIn(context.Background(), c, op)
}

func operateIn(ctx context.Context, c *kafka.Client, op int) (*kafka.Broker, message.MetadataResponse, error) {
	var b *kafka.Broker
	var m message.MetadataResponse
	var err error
	switch op {
	case 0:
		b, err = c.DialController(ctx)
	case 1:
		b, err = c.DialLeader(ctx, "t", 0)
	case 2:
		b, err = c.DialGroupCoordinator(ctx, "g")
	case 3:
		m, err = c.Metadata(ctx, "t")
	}
	return b, m, err
}

// names makes s's answers name the node at n for everything.
func (s *server) names(n *server, clusterID string) {
	id := v.Int32("node")
	v.Assume(id >= 0)
	s.meta = message.MetadataResponse{
		ClusterId:    clusterID,
		ControllerId: id,
		Brokers:      []message.MetadataResponseBroker3{n.entry(id)},
		Topics:       []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{LeaderId: id}}}},
	}
	s.coord = message.FindCoordinatorResponse{NodeId: id, Host: n.l.Host(), Port: n.l.Port()}
}

var bootAddrs = []string{"b1:9092", "b2:9092", "b3:9092"}

// bootstrap lists of every length, each address usable or not in one of several ways
//
//vrt:quick time=300 boots=3
//vrt:thorough time=1500 boots=4
//vrt:replay try
func H_C21_list() {
	n := v.Choose("addresses", v.Param("boots", 3)+1)
	var ss []*server
	var addrs []string
	first := -1
	node := serve("h1:1", good, 9)
	for i := 0; i < n; i++ {
		a := "b" + string(rune('1'+i)) + ":9092"
		k := good
		if i <= 1 || first < 0 {
			k = v.IntRange("kind", 0, kinds-2) // hangsUp2 is for H_C21_fails
		}
		s := serve(a, k, 9)
		if k == dead {
			addrs = append(addrs, v.Dead(a))
		} else {
			s.names(node, "cluster"+string(rune('1'+i)))
			addrs = append(addrs, s.l.Addr())
		}
		if k == good && first < 0 {
			first = i
		}
		ss = append(ss, s)
	}
	c := kafka.NewClient(addrs)
	for i := 0; i < v.Param("times", 2); i++ {
		tries(c, addrs, ss, first, node)
	}
	v.Reach("end")
}

// long bootstrap lists, of which at most one address is usable
//
//vrt:quick time=200 boots=7
//vrt:thorough time=1500 boots=9
//vrt:replay try
func H_C21_long() {
	n := 3 + v.Choose("addresses", v.Param("boots", 7)-2)
	first := v.Choose("usable", n+1) - 1
	bad := dead
	if v.Bool("hangs up") {
		bad = hangsUp
	}
	node := serve("h1:1", good, 9)
	var ss []*server
	var addrs []string
	for i := 0; i < n; i++ {
		a := "b" + string(rune('1'+i)) + ":9092"
		k := bad
		if i == first {
			k = good
		}
		s := serve(a, k, 9)
		if k == dead {
			addrs = append(addrs, v.Dead(a))
		} else {
			s.names(node, "cluster"+string(rune('1'+i)))
			addrs = append(addrs, s.l.Addr())
		}
		ss = append(ss, s)
	}
	tries(kafka.NewClient(addrs), addrs, ss, first, node)
	v.Reach("end")
}

// tries performs an operation and checks which bootstrap servers it uses.
func tries(c *kafka.Client, addrs []string, ss []*server, first int, node *server) {
	n := len(addrs)
	op := v.Choose("operation", 4)
	dials := len(v.Dials())
	nodes := node.conns()
	before := make([]int, n)
	for i, s := range ss {
		before[i] = s.conns()
	}
	b, m, err := operate(c, op)
	if first < 0 {
		v.Assert(err != nil, "no bootstrap address is usable, but no error is returned")
		v.Assert(b == nil, "a broker is returned together with an error")
		v.Assert(node.conns() == nodes, "a node is dialled although no bootstrap address is usable")
	} else {
		v.Assert(err == nil, "a bootstrap address is usable, but the operation fails")
		if op == 3 {
			v.Assert(m.ClusterId == "cluster"+string(rune('1'+first)), "the answer is not the first usable bootstrap server's")
		} else {
			v.Assert(b != nil && node.open() == 1, "the operation connects to no node")
		}
		for i, s := range ss {
			if i < first && s.kind != dead {
				v.Assert(s.conns() > before[i], "a bootstrap address is skipped")
			}
			if i > first {
				v.Assert(s.conns() == before[i], "a bootstrap address is tried after one that is usable")
			}
		}
	}
	// in order: every address is dialled once those before it have been, up to the first usable one
	if v.Symbolic() {
		at := 0
		for _, d := range v.Dials()[dials:] {
			if d.Addr == node.l.Addr() {
				continue
			}
			if at > 0 && d.Addr == addrs[at-1] {
				continue // again
			}
			v.Assert(at < n && d.Addr == addrs[at], "the bootstrap addresses are not tried in order")
			at++
		}
		if first >= 0 {
			v.Assert(at == first+1, "a bootstrap address is not tried, or one too many is")
		} else {
			v.Assert(at == n, "a bootstrap address is not tried")
		}
	}
	if b != nil {
		b.Close()
	}
}

// a nil list, and bootstrap servers that end the connection instead of answering: never an empty result
//
//vrt:quick time=100
//vrt:replay try
func H_C21_fails() {
	node := serve("h1:1", good, 9)
	var addrs []string
	n := v.Choose("addresses", 3)
	if v.Bool("not nil") {
		addrs = []string{}
	}
	for i := 0; i < n; i++ {
		s := serve(bootAddrs[i], hangsUp2, 9)
		s.names(node, "c")
		addrs = append(addrs, s.l.Addr())
	}
	b, _, err := operate(kafka.NewClient(addrs), v.Choose("operation", 4))
	v.Assert(err != nil, "no bootstrap server answers, but no error is returned")
	v.Assert(b == nil, "a broker is returned together with an error")
	v.Assert(node.conns() == 0, "a node is dialled although no bootstrap server answers")
	v.Reach("end")
}

// every operation, with every kind of bootstrap servers and node
//
//vrt:quick time=300
//vrt:thorough time=1500 badframe=1
//vrt:replay try
func H_C22_client() {
	nk := kinds + 2
	if v.Param("badframe", 1) == 0 {
		nk = kinds
	}
	kind := v.IntRange("node kind", 0, nk-1)
	node := serve("h1:1", kind, 9)
	if kind == dead {
		node.l = v.Listen("h9:1")
	}
	var addrs []string
	var ss []*server
	for i := 0; i < 2; i++ {
		s := serve(bootAddrs[i], v.IntRange("bootstrap kind", 0, nk-1), 9)
		if s.kind == dead {
			addrs = append(addrs, v.Dead(bootAddrs[i]))
			continue
		}
		s.names(node, "c")
		if kind == dead {
			s.meta.Brokers[0].Port++
			s.coord.Port++
		}
		switch v.IntRange("answer", 0, 2) {
		case 1: // names no node
			s.meta.Brokers = nil
			s.coord.ErrorCode = 15
		case 2: // names no topic
			s.meta.Topics = nil
		}
		addrs = append(addrs, s.l.Addr())
		ss = append(ss, s)
	}
	live := v.Live()
	b, _, err := operate(kafka.NewClient(addrs), v.Choose("operation", 4))
	closed(b, err, node, ss, live)
}

// as above, with a context that is cancelled before or during the operation
//
//vrt:quick time=300
//vrt:replay try
func H_C22_cancel() {
	boot := serve("b1:9092", good, 9)
	node := serve("h1:1", v.IntRange("node kind", 0, 3), 9)
	if node.kind == dead {
		node.l = v.Listen("h9:1")
	}
	boot.names(node, "c")
	if node.kind == dead {
		boot.meta.Brokers[0].Port++
		boot.coord.Port++
	}
	ctx, cancel := context.WithCancel(context.Background())
	switch v.IntRange("cancelled", 0, 4) {
	case 0:
		cancel()
	case 1: // while the bootstrap server is asked for its versions
		boot.before = func(key int) {
			if key == 18 {
				cancel()
			}
		}
	case 2: // while it is asked for the answer
		boot.before = func(key int) {
			if key != 18 {
				cancel()
			}
		}
	case 3: // while the node is connected to
		node.before = func(int) { cancel() }
	}
	live := v.Live()
	b, _, err := operateIn(ctx, kafka.NewClient([]string{boot.l.Addr()}), v.Choose("operation", 4))
	closed(b, err, node, []*server{boot}, live)
	cancel()
}

// closed checks that nothing but the connection handed to the user is open, and that closing it leaves nothing.
func closed(b *kafka.Broker, err error, node *server, ss []*server, live int) {
	for _, s := range ss {
		v.Assert(s.open() == 0, "a connection to a bootstrap server is left open")
	}
	v.Assert(b == nil || err == nil, "a broker is returned together with an error")
	if b == nil {
		v.Assert(node.open() == 0, "a connection that is not handed to the user is left open")
	} else {
		v.Assert(node.open() == 1, "the connection handed to the user is not open")
		b.Close()
		v.Assert(node.open() == 0, "Close leaves the network connection open")
	}
	v.Settle()
	v.Assert(v.Live() <= live, "goroutines are left behind")
	v.Reach("end")
}

// NewBroker and Connect, with every kind of broker
//
//vrt:quick time=100
//vrt:replay try
func H_C22_broker() {
	s := serve("b1:9092", v.IntRange("kind", 0, kinds+1), 9)
	addr := ""
	if s.kind == dead {
		addr = v.Dead("b1:9092")
	} else {
		addr = s.l.Addr()
	}
	live := v.Live()
	if v.Bool("connect") {
		c, err := kafka.Connect(addr)
		if err == nil {
			if s.kind != hangsUp {
				v.Assert(s.open() == 1, "the connection handed to the user is not open")
			}
			c.Close()
		}
		v.Assert(s.open() == 0, "Close leaves the network connection open")
		v.Settle()
		v.Assert(v.Live() <= live, "goroutines are left behind")
		v.Reach("end")
		return
	}
	b, err := kafka.NewBroker(addr)
	v.Assert((err == nil) == (s.kind == good || s.kind == hangsUp2) || s.kind == refuses, "connecting to a broker that cannot be used succeeds, or the reverse")
	closed(b, err, s, nil, live)
}

// sequences of options on every way of connecting
//
//vrt:quick time=300 options=3
//vrt:thorough time=1500 options=4
func H_C23_options() {
	d1 := &net.Dialer{Timeout: 11 * time.Second, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 31)}}
	d2 := &net.Dialer{Timeout: 12 * time.Second, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 32)}}
	t1 := &tls.Config{ServerName: "s1", InsecureSkipVerify: true}
	t2 := &tls.Config{ServerName: "s2", InsecureSkipVerify: true}
	dialer, name := 0, ""
	var opts []kafka.Option
	n := v.Choose("options", v.Param("options", 3)+1)
	for i := 0; i < n; i++ {
		switch v.IntRange("option", 0, 5) {
		case 0:
			opts, dialer = append(opts, kafka.WithDialer(d1)), 31
		case 1:
			opts, dialer = append(opts, kafka.WithDialer(d2)), 32
		case 2:
			opts, dialer = append(opts, kafka.WithDialer(nil)), 0
		case 3:
			opts, name = append(opts, kafka.WithTLS(t1)), "s1"
		case 4:
			opts, name = append(opts, kafka.WithTLS(t2)), "s2"
		case 5:
			opts, name = append(opts, kafka.WithTLS(nil)), ""
		}
	}
	boot := serve("b1:9092", good, 9)
	dead := serve("b2:9092", noCommon, 9)
	node := serve("h1:1", good, 9)
	boot.names(node, "c")
	dead.names(node, "c")
	how := v.Choose("how", 6)
	var err error
	switch how {
	case 4:
		_, err = kafka.NewBroker(node.l.Addr(), opts...)
	case 5:
		_, err = kafka.Connect(node.l.Addr(), opts...)
	default:
		_, _, err = operate(kafka.NewClient([]string{dead.l.Addr(), boot.l.Addr()}, opts...), how)
	}
	v.Assert(err == nil, "cannot connect")
	for _, s := range []*server{boot, dead, node} {
		for _, p := range s.l.Conns() {
			if name == "" {
				v.Assert(!p.TLS(), "TLS is used although it is not configured")
			} else {
				v.Assert(p.TLS(), "a connection is made without TLS although it is configured")
				v.Assert(p.ServerName() == name, "another TLS configuration than the last one given is used")
			}
			v.Assert(p.DialerTag() == dialer, "another dialer than the last one given is used")
		}
	}
	v.Reach("end")
}

// long lists of options, of which the last dialer and the last TLS configuration count
//
//vrt:quick time=100
func H_C23_long() {
	n := []int{4, 5, 6, 8, 9, 12, 16, 17, 33}[v.Choose("options", 9)]
	at := []int{0, 1, n / 2, n - 1}[v.Choose("at", 4)] // where TLS is configured
	mine := &net.Dialer{Timeout: time.Second, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 41)}}
	cfg := &tls.Config{ServerName: "s1", InsecureSkipVerify: true}
	var opts []kafka.Option
	for i := 0; i < n; i++ {
		switch {
		case i == at:
			opts = append(opts, kafka.WithTLS(cfg))
		case i == n-1 || i == n-2 && at == n-1:
			opts = append(opts, kafka.WithDialer(mine))
		default:
			opts = append(opts, kafka.WithDialer(&net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, byte(42+i))}}))
		}
	}
	boot, node := serve("b1:9092", good, 9), serve("h1:1", good, 9)
	boot.names(node, "c")
	how := v.Choose("how", 6)
	var err error
	switch how {
	case 4:
		_, err = kafka.NewBroker(node.l.Addr(), opts...)
	case 5:
		_, err = kafka.Connect(node.l.Addr(), opts...)
	default:
		_, _, err = operate(kafka.NewClient([]string{boot.l.Addr()}, opts...), how)
	}
	v.Assert(err == nil, "cannot connect")
	for _, s := range []*server{boot, node} {
		for _, p := range s.l.Conns() {
			v.Assert(p.TLS() && p.ServerName() == "s1", "a connection is made without TLS although it is configured")
			v.Assert(p.DialerTag() == 41, "another dialer than the last one given is used")
		}
	}
	v.Reach("end")
}

// servers that TLS cannot be used with: not without TLS either
//
//vrt:quick time=300
func H_C23_handshake() {
	cfg := &tls.Config{ServerName: "s1", InsecureSkipVerify: true}
	verify := v.Bool("verify") // the servers' certificate is not to be trusted
	if verify {
		cfg = &tls.Config{}
		if v.Bool("name") {
			cfg.ServerName = "s1"
		}
	}
	plain := v.IntRange("plain", 0, 3)
	first := serve("b2:9092", good, 9)
	boot := serve("b1:9092", good, 9)
	node := serve("h1:1", good, 9)
	boot.names(node, "c")
	first.names(node, "c")
	ok := !verify
	if plain&1 == 1 {
		first.l.NoTLS()
	}
	how := v.Choose("how", 6)
	if plain&2 == 2 {
		node.l.NoTLS()
		ok = ok && how == 3
	}
	var b *kafka.Broker
	var err error
	live := v.Live()
	switch how {
	case 4:
		b, err = kafka.NewBroker(node.l.Addr(), kafka.WithTLS(cfg))
	case 5:
		var c *kafka.Conn
		c, err = kafka.Connect(node.l.Addr(), kafka.WithTLS(cfg))
		if err == nil {
			c.Close()
		}
	default:
		b, _, err = operate(kafka.NewClient([]string{first.l.Addr(), boot.l.Addr()}, kafka.WithTLS(cfg)), how)
	}
	for _, s := range []*server{boot, first, node} {
		for _, p := range s.l.Conns() {
			v.Assert(!p.Plain(), "a connection is used without TLS although it is configured")
		}
	}
	if how != 5 || ok { // Connect may leave the handshake to the first call
		v.Assert((err == nil) == ok, "connecting to a server that TLS cannot be used with succeeds, or the reverse")
	}
	if b != nil {
		b.Close()
	}
	for _, s := range []*server{boot, first, node} {
		v.Assert(s.open() == 0, "a connection is left open")
	}
	v.Settle()
	v.Assert(v.Live() <= live, "goroutines are left behind")
	v.Reach("end")
}
