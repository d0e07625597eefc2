KH = '''
package kafka

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/savaki/kafka/message"
)

var (
	_ = bytes.Equal
	_ = context.Background
	_ = tls.Dial
	_ = errors.New
	_ = fmt.Sprint
	_ = runtime.NumGoroutine
	_ = strconv.Itoa
)

// demoServer plays a broker: answer gives the body of the response; nil: none.
type demoServer struct {
	l      net.Listener
	mu     sync.Mutex
	opened int
	closed int
	api    map[int16][2]int16
	answer func(c net.Conn, key, ver int16, cid int32, body []byte) []byte
	frames []([]byte)
}

func demoFrame(cid int32, body []byte) []byte {
	b := make([]byte, 8, 8+len(body))
	binary.BigEndian.PutUint32(b, uint32(4+len(body)))
	binary.BigEndian.PutUint32(b[4:], uint32(cid))
	return append(b, body...)
}

func encode(t interface {
	Encode(e *message.Encoder, v int16)
}, v int16) []byte {
	var b bytes.Buffer
	e := message.NewEncoder(&b)
	t.Encode(e, v)
	e.Flush()
	return b.Bytes()
}

func startServer(t *testing.T, api map[int16][2]int16, answer func(c net.Conn, key, ver int16, cid int32, body []byte) []byte) *demoServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &demoServer{l: l, api: api, answer: answer}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.opened++
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
	return s
}

func (s *demoServer) serve(c net.Conn) {
	defer func() {
		c.Close()
		s.mu.Lock()
		s.closed++
		s.mu.Unlock()
	}()
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(h))
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		key, ver := int16(binary.BigEndian.Uint16(b)), int16(binary.BigEndian.Uint16(b[2:]))
		cid := int32(binary.BigEndian.Uint32(b[4:]))
		body := b[10+int(binary.BigEndian.Uint16(b[8:])):]
		s.mu.Lock()
		s.frames = append(s.frames, b)
		s.mu.Unlock()
		var out []byte
		if key == 18 {
			var r message.ApiVersionsResponse
			for k, v := range s.api {
				r.ApiKeys = append(r.ApiKeys, message.ApiVersionsResponseKey18{ApiKey: k, MinVersion: v[0], MaxVersion: v[1]})
			}
			out = encode(r, 0)
		} else if s.answer != nil {
			out = s.answer(c, key, ver, cid, body)
		}
		if out != nil {
			c.Write(demoFrame(cid, out))
		}
	}
}

func (s *demoServer) addr() string { return s.l.Addr().String() }
func (s *demoServer) port() int32  { return int32(s.l.Addr().(*net.TCPAddr).Port) }
func (s *demoServer) counts() (opened, open int) {
	for i := 0; i < 20; i++ {
		time.Sleep(10 * time.Millisecond)
		s.mu.Lock()
		opened, open = s.opened, s.opened-s.closed
		s.mu.Unlock()
		if open == 0 {
			break
		}
	}
	return
}

// soon fails if fn does not return.
func soon(t *testing.T, fn func()) {
	done := make(chan bool)
	go func() {
		fn()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("does not return")
	}
}

// node is a broker that can be dialled and nothing more.
func node(t *testing.T) *demoServer { return startServer(t, nil, nil) }

// put makes a request that holds a number.
func put(c *Conn, x int32) (int32, error) {
	var got int32
	err := c.Do(func(e *message.Encoder, cid int32) {
		e.PutInt32(14)
		e.PutInt16(99)
		e.PutInt16(0)
		e.PutInt32(cid)
		e.PutString("")
		e.PutInt32(x)
	}, func(d *message.Decoder) error {
		var err error
		got, err = d.Int32()
		return err
	})
	return got, err
}
'''
G = "gen.broker.go"
C = "gen.conn.go"
plant("p-negotiate-swallow", "C12", [(G, "case message.KeyElectLeaders:", '''			if err != nil {
				return apiVersion{}, err
			}
''', '''			if err != nil && av.DeleteGroups == 0 {
				return apiVersion{}, err
			}
''')], KH + '''
func TestDemo(t *testing.T) {
	s := startServer(t, map[int16][2]int16{42: {0, 2}, 43: {9, 9}}, nil)
	_, err := NewBroker(s.addr())
	for i := 0; err != nil && i < 50; i++ {
		_, e := NewBroker(s.addr())
		if e == nil {
			err = nil
		}
	}
	if err == nil {
		t.Fatal("connected although ElectLeaders has no version in common")
	}
}
''', "a broker that advertises DeleteGroups before ElectLeaders, and for the latter no common version", "the failure to negotiate an API is forgotten", ".")
plant("p-negotiate-pair", "C12", [(G, "av.DescribeDelegationToken, err = matchVersion(apiKey, 0, 1)", "av.DescribeDelegationToken, err = matchVersion(apiKey, av.ExpireDelegationToken, 1)")], KH + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		s := startServer(t, map[int16][2]int16{40: {0, 1}, 41: {0, 0}}, nil)
		if _, err := NewBroker(s.addr()); err != nil {
			t.Fatal(err)
		}
	}
}
''', "a broker that supports version 1 of ExpireDelegationToken, but only version 0 of DescribeDelegationToken", "connecting fails although there is a common version", ".")
plant("p-frame-size", "C13", [(G, "func (b *Broker) DeleteAcls(", "req.Size(b.apiVersion.DeleteAcls)", "req.Size(b.apiVersion.CreateAcls)")], KH + '''
func TestDemo(t *testing.T) {
	s := startServer(t, map[int16][2]int16{30: {0, 1}, 31: {0, 0}}, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte {
		return encode(message.DeleteAclsResponse{}, ver)
	})
	b, err := NewBroker(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	soon(t, func() {
		b.DeleteAcls(message.DeleteAclsRequest{Filters: []message.DeleteAclsFilter31{{}}})
	})
}
''', "a broker that supports different versions of CreateAcls and DeleteAcls", "the frame's length is that of another version", ".")
plant("p-frame-header-version", "C13", [(G, "func (b *Broker) AlterConfigs(", "RequestApiVersion: b.apiVersion.AlterConfigs,", "RequestApiVersion: b.apiVersion.DescribeConfigs & 1,")], KH + '''
func TestDemo(t *testing.T) {
	var got int16 = -1
	s := startServer(t, map[int16][2]int16{32: {0, 2}, 33: {0, 1}}, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte {
		got = ver
		return encode(message.AlterConfigsResponse{}, ver)
	})
	b, err := NewBroker(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	soon(t, func() { b.AlterConfigs(message.AlterConfigsRequest{}) })
	if got != 1 {
		t.Fatal("version", got)
	}
}
''', "a broker whose version of DescribeConfigs is even while that of AlterConfigs is 1", "the header announces another version than the request is encoded in", ".")
plant("p-resp-version", "C14", [(G, "func (b *Broker) AddPartitionsToTxn(", "return (&resp).Decode(d, b.apiVersion.AddPartitionsToTxn)", '''if err := (&resp).Decode(d, b.apiVersion.AddPartitionsToTxn); err != nil && !message.IsInsufficientDataError(err) {
				return err
			}
			return nil''')], KH + '''
func TestDemo(t *testing.T) {
	s := startServer(t, map[int16][2]int16{24: {0, 1}}, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte {
		return []byte{0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 't', 0, 0, 0, 2, 0, 0, 0, 7, 0, 0}
	})
	b, err := NewBroker(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	soon(t, func() {
		if _, err := b.AddPartitionsToTxn(message.AddPartitionsToTxnRequest{}); err == nil {
			t.Error("no error for a response cut short")
		}
	})
}
''', "a response cut short", "a response that cannot be decoded is returned without an error", ".")
plant("p-flush-unlocked", "C15", [(C, '''	err := c.encoder.Flush()
	c.writeLock.Unlock()
''', '''	c.writeLock.Unlock()
	err := c.encoder.Flush()
''')], KH + '''
func TestDemo(t *testing.T) {
	s := startServer(t, nil, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte { return body })
	c, err := Connect(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				x, err := put(c, int32(10000*g+i))
				if err != nil || x != int32(10000*g+i) {
					bad <- fmt.Sprint(x, err)
					return
				}
			}
		}()
	}
	soon(t, wg.Wait)
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''', "one call encoding its request while another flushes the shared encoder", "frames are interleaved or written twice", ".", race=True)
plant("p-id-byte", "C15", [(C, "correlationID := atomic.AddInt32(&c.id, 1)", "correlationID := atomic.AddInt32(&c.id, 1) & 0xff // small ids encode alike")], KH + '''
func TestDemo(t *testing.T) {
	var first int32
	var held net.Conn
	n := 0
	s := startServer(t, nil, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte {
		n++
		if n == 1 {
			first, held = cid, c
			return nil
		}
		if n == 300 {
			held.Write(demoFrame(first, []byte{0, 0, 0, 42}))
		}
		return body
	})
	c, err := Connect(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	soon(t, func() {
		done := make(chan bool)
		go func() {
			x, err := put(c, 1)
			if err != nil || x != 42 {
				t.Error(x, err)
			}
			close(done)
		}()
		for first == 0 {
			time.Sleep(time.Millisecond)
		}
		for i := 0; i < 299; i++ {
			if x, err := put(c, int32(i)); err != nil || x != int32(i) {
				t.Error(i, x, err)
			}
		}
		<-done
	})
}
''', "a call that is still pending when 255 others have been made", "two calls in flight share a correlation id", ".")
plant("p-register-late", "C15", [(C, '''	c.requests[correlationID] = req
	c.readLock.Unlock()

	c.writeLock.Lock()
	encode(c.encoder, correlationID)
	err := c.encoder.Flush()
	c.writeLock.Unlock()
''', '''	c.readLock.Unlock()

	c.writeLock.Lock()
	encode(c.encoder, correlationID)
	err := c.encoder.Flush()
	c.writeLock.Unlock()

	c.readLock.Lock()
	if err == nil && !c.closed {
		c.requests[correlationID] = req
	} else if c.closed {
		req.reply <- errConnClosed
	}
	c.readLock.Unlock()
''')], KH + '''
// slow returns from Write late, as a loaded machine might.
type slow struct{ net.Conn }

func (s slow) Write(p []byte) (int, error) {
	n, err := s.Conn.Write(p)
	time.Sleep(50 * time.Millisecond)
	return n, err
}

func TestDemo(t *testing.T) {
	s := startServer(t, nil, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte { return body })
	c, err := Connect(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	c.encoder = message.NewEncoder(slow{c.raw})
	soon(t, func() {
		if x, err := put(c, 5); err != nil || x != 5 {
			t.Error(x, err)
		}
	})
}
''', "a response that arrives before the caller continues after its write", "the response is dropped and the call hangs", ".")
plant("p-read-atleast", "C16", [(C, "n, err := raw.Read(buffer)", "n, err := io.ReadAtLeast(raw, buffer, 4) // a frame starts with its length"),
 (C, '''	"fmt"
	"net"''', '''	"fmt"
	"io"
	"net"''')], KH + '''
func TestDemo(t *testing.T) {
	s := startServer(t, nil, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte {
		f := demoFrame(cid, body)
		c.Write(f[:len(f)-2])
		time.Sleep(50 * time.Millisecond)
		c.Write(f[len(f)-2:])
		return nil
	})
	c, err := Connect(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	soon(t, func() {
		if x, err := put(c, 5); err != nil || x != 5 {
			t.Error(x, err)
		}
	})
}
''', "a response whose last one to three bytes arrive by themselves", "the call does not return until more data arrives", ".")
plant("p-reply-unbuffered", "C17", [(C, "reply:  make(chan error, 1),", "reply:  make(chan error),")], KH + '''
// failing fails to write, once the connection is gone.
type failing struct{ c *Conn }

func (f failing) Write(p []byte) (int, error) {
	f.c.raw.Close()
	time.Sleep(50 * time.Millisecond)
	return 0, errors.New("broken pipe")
}

func TestDemo(t *testing.T) {
	s := startServer(t, nil, nil)
	c, err := Connect(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	c.encoder = message.NewEncoder(failing{c})
	soon(t, func() {
		if _, err := put(c, 5); err == nil {
			t.Error("no error")
		}
	})
	soon(t, func() { c.Close() })
	soon(t, func() { put(c, 6) })
}
''', "the connection being lost while a call's write fails", "the connection's shutdown and the failing call wait for each other", ".")
plant("p-close-nowait", "C17", [(C, '''		c.readLock.Lock()
		req, ok := c.requests[resp.CorrelationId]
		delete(c.requests, resp.CorrelationId)
		c.readLock.Unlock()

		if ok {
''', '''		c.readLock.Lock()
		req, ok := c.requests[resp.CorrelationId]
		delete(c.requests, resp.CorrelationId)
		c.readLock.Unlock()

		if ok && ctx.Err() == nil {
''')], KH + '''
func TestDemo(t *testing.T) {
	s := startServer(t, nil, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte { return body })
	c, err := Connect(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	soon(t, func() {
		// hold the loop between the response's arrival and its delivery
		c.readLock.Lock()
		done := make(chan bool)
		go func() {
			time.Sleep(100 * time.Millisecond)
			close(done)
		}()
		c.readLock.Unlock()
		ch := make(chan error)
		go func() {
			_, err := put(c, 1)
			ch <- err
		}()
		time.Sleep(0)
		for {
			c.readLock.Lock()
			n := len(c.requests)
			if n == 1 {
				break
			}
			c.readLock.Unlock()
			select {
			case <-ch:
				t.Error("the demo lost its race")
				return
			default:
			}
		}
		time.Sleep(100 * time.Millisecond) // the response has arrived
		c.cancel()
		c.readLock.Unlock()
		<-ch
		<-done
	})
}
''', "Close while a response is being delivered", "the call whose response was being delivered hangs", ".")
plant("p-scratch-payload", "C18", [(C, '''		var resp message.ResponseHeader
		if err''', '''		scratch = append(scratch[:0], buffer...) // let go of the chunks
		d = message.NewDecoder(scratch, len(scratch))
		resp := message.ResponseHeader{}
		if err'''), (C, '''	defer close(c.doneMessage)
	defer c.shutdown()
''', '''	var scratch []byte
	defer close(c.doneMessage)
	defer c.shutdown()
''')], KH + '''
func TestDemo(t *testing.T) {
	s := startServer(t, nil, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte { return body })
	c, err := Connect(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	get := func(x []byte) (got []byte) {
		c.Do(func(e *message.Encoder, cid int32) {
			e.PutInt32(14 + int32(len(x)))
			e.PutInt16(99)
			e.PutInt16(0)
			e.PutInt32(cid)
			e.PutString("")
			e.PutBytes(x)
		}, func(d *message.Decoder) error {
			var err error
			got, err = d.Bytes()
			return err
		})
		return
	}
	soon(t, func() {
		a := get([]byte("abcdef"))
		get([]byte("xyz"))
		if string(a) != "abcdef" {
			t.Errorf("%q", a)
		}
	})
}
''', "a response with a byte array, followed by another that is no longer", "the byte array is overwritten", ".")
plant("p-size-unsigned", "C19", [(C, "size := int(v)", "size := int(uint32(v))")], KH + '''
func TestDemo(t *testing.T) {
	s := startServer(t, nil, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte {
		c.Write([]byte{255, 255, 255, 254})
		return body
	})
	c, err := Connect(s.addr())
	if err != nil {
		t.Fatal(err)
	}
	soon(t, func() {
		if _, err := put(c, 5); err == nil {
			t.Error("no error")
		}
	})
}
''', "a negative frame length", "the call waits for 4 GB", ".")
L = "client.go"
KH += '''
// metaServer answers Metadata and FindCoordinator.
func metaServer(t *testing.T, meta func() message.MetadataResponse, coord func() message.FindCoordinatorResponse) *demoServer {
	return startServer(t, map[int16][2]int16{3: {0, 8}, 10: {0, 2}}, func(c net.Conn, key, ver int16, cid int32, body []byte) []byte {
		if key == 3 {
			return encode(meta(), ver)
		}
		return encode(coord(), ver)
	})
}

func entry(s *demoServer, id int32) message.MetadataResponseBroker3 {
	return message.MetadataResponseBroker3{NodeId: id, Host: "127.0.0.1", Port: s.port()}
}
'''
plant("p-partition-position", "C20", [(L, "func findPartition(", '''	for _, p := range topic.Partitions {
		if p.PartitionIndex == partition {
''', '''	for i, p := range topic.Partitions {
		if int(partition) == i || p.PartitionIndex == partition {
''')], KH + '''
func TestDemo(t *testing.T) {
	a, b := node(t), node(t)
	s := metaServer(t, func() message.MetadataResponse {
		return message.MetadataResponse{
			Brokers: []message.MetadataResponseBroker3{entry(a, 1), entry(b, 2)},
			Topics: []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{
				{PartitionIndex: 1, LeaderId: 1}, {PartitionIndex: 0, LeaderId: 2}}}},
		}
	}, nil)
	soon(t, func() {
		br, err := NewClient([]string{s.addr()}).DialLeader(context.Background(), "t", 0)
		if err != nil {
			t.Error(err)
			return
		}
		defer br.Close()
		if n, _ := b.counts(); n != 1 {
			t.Error("the wrong node is dialled")
		}
	})
}
''', "an answer that does not list the partitions in order", "another partition's leader is dialled", ".")
plant("p-topic-fold", "C20", [(L, "if topic.Name == topicName {", "if strings.EqualFold(topic.Name, topicName) {"), (L, '	"strconv"\n', '	"strconv"\n	"strings"\n')], KH + '''
func TestDemo(t *testing.T) {
	a, b := node(t), node(t)
	s := metaServer(t, func() message.MetadataResponse {
		return message.MetadataResponse{
			Brokers: []message.MetadataResponseBroker3{entry(a, 1), entry(b, 2)},
			Topics: []message.MetadataResponseTopic3{
				{Name: "Logs", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 0, LeaderId: 1}}},
				{Name: "logs", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 0, LeaderId: 2}}}},
		}
	}, nil)
	soon(t, func() {
		br, err := NewClient([]string{s.addr()}).DialLeader(context.Background(), "logs", 0)
		if err != nil {
			t.Error(err)
			return
		}
		defer br.Close()
		if n, _ := b.counts(); n != 1 {
			t.Error("the wrong node is dialled")
		}
	})
}
''', "two topics whose names differ in case", "the leader of another topic is dialled", ".")
plant("p-node-narrow", "C20", [(L, "if broker.NodeId == nodeID {", "if int16(broker.NodeId) == int16(nodeID) && nodeID >= 0 {")], KH + '''
func TestDemo(t *testing.T) {
	a, b := node(t), node(t)
	s := metaServer(t, func() message.MetadataResponse {
		return message.MetadataResponse{ControllerId: 65537, Brokers: []message.MetadataResponseBroker3{entry(a, 1), entry(b, 65537)}}
	}, nil)
	soon(t, func() {
		br, err := NewClient([]string{s.addr()}).DialController(context.Background())
		if err != nil {
			t.Error(err)
			return
		}
		defer br.Close()
		if n, _ := b.counts(); n != 1 {
			t.Error("the wrong node is dialled")
		}
	})
}
''', "node ids that differ by a multiple of 65536", "the wrong node is dialled", ".")
plant("p-bootstrap-sticky", "C21", [(L, '''	for _, addr := range c.bootstrap {
		broker, err = NewBroker(addr, c.opts...)
		if err != nil {
			continue
		}
''', '''	for i := range c.bootstrap {
		i = (i + c.last) % len(c.bootstrap) // start with the one that worked last
		broker, err = NewBroker(c.bootstrap[i], c.opts...)
		if err != nil {
			continue
		}
		c.last = i
'''), (L, "	opts      []Option\n", "	opts      []Option\n	last      int\n")], KH + '''
func TestDemo(t *testing.T) {
	mk := func(id string) *demoServer {
		return metaServer(t, func() message.MetadataResponse { return message.MetadataResponse{ClusterId: id} }, nil)
	}
	a, b := mk("a"), mk("b")
	api := a.api
	a.api = map[int16][2]int16{3: {50, 50}}
	c := NewClient([]string{a.addr(), b.addr()})
	soon(t, func() {
		if m, err := c.Metadata(context.Background()); err != nil || m.ClusterId != "b" {
			t.Error(m, err)
		}
		a.api = api
		if m, err := c.Metadata(context.Background()); err != nil || m.ClusterId != "a" {
			t.Error(m, err)
		}
	})
}
''', "a first operation during which the first bootstrap server cannot be used, and a second one", "the second operation does not use the first bootstrap address", ".")
plant("p-bootstrap-stop", "C21", [(L, '''		broker, err = NewBroker(addr, c.opts...)
		if err != nil {
			continue
		}
''', '''		broker, err = NewBroker(addr, c.opts...)
		if ne := net.Error(nil); errors.As(err, &ne) {
			continue // not reachable
		}
		if err != nil {
			return err
		}
''')], KH + '''
func TestDemo(t *testing.T) {
	mk := func(id string) *demoServer {
		return metaServer(t, func() message.MetadataResponse { return message.MetadataResponse{ClusterId: id} }, nil)
	}
	a, b := mk("a"), mk("b")
	a.api = map[int16][2]int16{3: {50, 50}}
	soon(t, func() {
		if m, err := NewClient([]string{a.addr(), b.addr()}).Metadata(context.Background()); err != nil || m.ClusterId != "b" {
			t.Error(m, err)
		}
	})
}
''', "a first bootstrap server that accepts connections but cannot be negotiated with", "the second bootstrap address is not tried", ".")
plant("p-ctx-leak", "C22", [(L, '''	return c.dialNode(meta, p.LeaderId)
''', '''	b, err := c.dialNode(meta, p.LeaderId)
	if err == nil && ctx.Err() != nil {
		return nil, ctx.Err() // nobody is waiting any more
	}
	return b, err
''')], KH + '''
func TestDemo(t *testing.T) {
	a := node(t)
	s := metaServer(t, func() message.MetadataResponse {
		return message.MetadataResponse{
			Brokers: []message.MetadataResponseBroker3{entry(a, 1)},
			Topics:  []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 0, LeaderId: 1}}}},
		}
	}, nil)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	soon(t, func() {
		b, err := NewClient([]string{s.addr()}).DialLeader(ctx, "t", 0)
		if err == nil {
			b.Close()
		}
	})
	if _, open := a.counts(); open != 0 {
		t.Error("a connection is left open")
	}
}
''', "a context that is cancelled before the leader has been dialled", "the connection to the leader is left open", ".")
plant("p-retry-leak", "C22", [(C, '''	raw, err := dial(config, addr)
	if err != nil {
''', '''	raw, err := dial(config, addr)
	if err == nil && raw.LocalAddr() != nil && raw.LocalAddr().String() == raw.RemoteAddr().String() {
		raw, err = dial(config, addr) // connected to itself
	}
	if err != nil {
''')], "", "x", "y", ".") if False else None
plant("p-dialer-nil-kept", "C23", [("gen.option.go", '''		if dialer == nil {
			c.dialer = &net.Dialer{}
			return
		}
''', '''		if dialer == nil {
			return // the default one
		}
''')], KH + '''
func TestDemo(t *testing.T) {
	s := node(t)
	d := &net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 9)}}
	c, err := Connect(s.addr(), WithDialer(d), WithDialer(nil))
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	if ip := c.raw.LocalAddr().(*net.TCPAddr).IP.String(); ip == "127.0.0.9" {
		t.Error("a nil dialer does not mean the default one")
	}
}
''', "WithDialer(nil) after WithDialer(d)", "the earlier dialer is used", ".")
plant("p-tls-downgrade", "C23", [(C, '''	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
''', '''	conn, err := tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
	if _, ok := err.(tls.RecordHeaderError); ok {
		return c.dialer.Dial("tcp", addr) // a plaintext listener
	}
	if err != nil {
		return nil, err
	}
	return conn, nil
''')], KH + '''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			c.Write([]byte("HTTP/1.1 400 Bad Request\\r\\n\\r\\n"))
		}
	}()
	soon(t, func() {
		if c, err := Connect(l.Addr().String(), WithTLS(&tls.Config{InsecureSkipVerify: true})); err == nil {
			c.Close()
			t.Error("connected without TLS")
		}
	})
}
''', "a broker that does not answer the TLS handshake with TLS", "the connection is made without TLS", ".")
plant("p-header-empty", "C24", [("gen.record_batch.go", '''			sz += sizeof.VarString(value)
''', '''			if len(value) > 0 {
				sz += sizeof.VarString(value)
			}
''')], KH + '''
func TestDemo(t *testing.T) {
	r := RecordBatch{Records: []Message{{Key: []byte("k"), Value: []byte("v"), Timestamp: time.Unix(1, 0), Header: MapHeader{"a": ""}}}}
	if n := len(encode(r, 2)); int(r.Size(2)) != n {
		t.Error(r.Size(2), n)
	}
}
''', "a header with an empty value", "the size is one byte less than is written", ".")
plant("p-attr-sequence", "C24", [("gen.record_batch.go", '''	encoder.PutInt64(r.ProducerId)
	encoder.PutInt16(r.ProducerEpoch)
	encoder.PutInt32(r.BaseSequence)
''', '''	encoder.PutInt64(r.ProducerId)
	encoder.PutInt16(r.ProducerEpoch)
	if r.ProducerId < 0 {
		encoder.PutInt32(-1) // not idempotent
	} else {
		encoder.PutInt32(r.BaseSequence)
	}
''')], KH + '''
func TestDemo(t *testing.T) {
	r := RecordBatch{ProducerId: -5, BaseSequence: 7}
	b := encode(r, 2)
	if !bytes.Equal(b[53:57], []byte{0, 0, 0, 7}) {
		t.Error(b)
	}
}
''', "a batch with a negative producer id and a base sequence", "the base sequence is written as another", ".")
plant("p-meta-cache", "C25", [(L, '''	if err := c.dialBootstrap(callback); err != nil {
		return message.MetadataResponse{}, err
	}
	return meta, nil
''', '''	if len(topics) == 0 && len(c.meta.Brokers) > 0 {
		return c.meta, nil // brokers seldom change
	}
	if err := c.dialBootstrap(callback); err != nil {
		return message.MetadataResponse{}, err
	}
	c.meta = meta
	return meta, nil
'''), (L, "	opts      []Option\n", "	opts      []Option\n	meta      message.MetadataResponse\n")], KH + '''
func TestDemo(t *testing.T) {
	n := int32(0)
	s := metaServer(t, func() message.MetadataResponse {
		n++
		return message.MetadataResponse{ControllerId: n, Brokers: []message.MetadataResponseBroker3{{NodeId: n}}}
	}, nil)
	c := NewClient([]string{s.addr()})
	soon(t, func() {
		c.Metadata(context.Background())
		if m, err := c.Metadata(context.Background()); err != nil || m.ControllerId != 2 {
			t.Error(m, err)
		}
	})
}
''', "two calls without topics between which the cluster changes", "the second call returns the first answer", ".")
plant("p-meta-alias", "C25", [(L, '''			req.Topics = append(req.Topics, message.MetadataRequestTopic3{Name: topic})
''', '''			if n := len(req.Topics); n > 0 && req.Topics[n-1].Name >= topic {
				continue // asked for already
			}
			req.Topics = append(req.Topics, message.MetadataRequestTopic3{Name: topic})
''')], KH + '''
func TestDemo(t *testing.T) {
	s := metaServer(t, func() message.MetadataResponse { return message.MetadataResponse{} }, nil)
	soon(t, func() { NewClient([]string{s.addr()}).Metadata(context.Background(), "b", "a") })
	f := s.frames[len(s.frames)-1]
	if !bytes.Contains(f, []byte{0, 1, 'a'}) {
		t.Error("a topic is not asked for")
	}
}
''', "topics that are not given in order", "a topic is not asked for", ".")
