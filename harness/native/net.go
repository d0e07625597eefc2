package zz_vrt

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"math/big"
	"net"
	"sync"
	"time"
)

// The native network: real sockets on the loopback interface.

// Peer is the server's end of a connection.
type Peer struct {
	raw    net.Conn
	tls    *tls.Conn
	c      net.Conn
	mu     sync.Mutex
	buf    []byte
	eof    bool
	cond   *sync.Cond
	paused bool
	plain  bool
}

// Plain reports whether the client uses the connection without TLS.
func (p *Peer) Plain() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.plain
}

// NoTLS makes the server speak plain text only.
func (l *Listener) NoTLS() {
	l.mu.Lock()
	l.noTLS = true
	l.mu.Unlock()
}

// sniffed is a connection whose first byte has been read.
type sniffed struct {
	net.Conn
	first []byte
}

func (s *sniffed) Read(p []byte) (int, error) {
	if len(s.first) > 0 && len(p) > 0 {
		n := copy(p, s.first)
		s.first = s.first[n:]
		return n, nil
	}
	return s.Conn.Read(p)
}

var cert = func() func() *tls.Config {
	var once sync.Once
	var cfg *tls.Config
	return func() *tls.Config {
		once.Do(func() {
			key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			if err != nil {
				panic(err)
			}
			t := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(time.Hour)}
			der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
			if err != nil {
				panic(err)
			}
			cfg = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
		})
		return cfg
	}
}()

func newPeer(raw net.Conn, noTLS bool) *Peer {
	p := &Peer{raw: raw, c: raw}
	p.cond = sync.NewCond(&p.mu)
	go func() {
		b := make([]byte, 1<<16)
		// a TLS client speaks first, with a handshake record
		n, err := raw.Read(b[:1])
		if n == 1 && b[0] == 0x16 && noTLS {
			raw.Write([]byte("this is not TLS"))
			n = 0
		} else if n == 1 && b[0] == 0x16 {
			t := tls.Server(&sniffed{raw, []byte{b[0]}}, cert())
			if t.Handshake() == nil {
				p.mu.Lock()
				p.tls, p.c = t, t
				p.mu.Unlock()
			}
			n = 0
		}
		p.mu.Lock()
		p.buf = append(p.buf, b[:n]...)
		p.plain = n > 0
		p.eof = err != nil
		c := p.c
		p.cond.Broadcast()
		p.mu.Unlock()
		if err != nil {
			return
		}
		for {
			p.mu.Lock()
			for p.paused {
				p.cond.Wait()
			}
			p.mu.Unlock()
			n, err := c.Read(b)
			p.mu.Lock()
			p.buf = append(p.buf, b[:n]...)
			if err != nil {
				p.eof = true
			}
			p.cond.Broadcast()
			p.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return p
}

// TLS reports whether the connection uses TLS, ServerName the name the client gave.
func (p *Peer) TLS() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.tls != nil
}
func (p *Peer) ServerName() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.tls == nil {
		return ""
	}
	return p.tls.ConnectionState().ServerName
}

// DialerTag is the last byte of the client's address; 0 for the default one.
func (p *Peer) DialerTag() int {
	ip := p.raw.RemoteAddr().(*net.TCPAddr).IP
	if n := int(ip[len(ip)-1]); n > 30 && n < 40 {
		return n
	}
	return 0
}

// ReadN reads exactly n bytes; false at end of stream.
func (p *Peer) ReadN(n int) ([]byte, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) < n && !p.eof {
		p.cond.Wait()
	}
	if len(p.buf) < n {
		return nil, false
	}
	b := append([]byte{}, p.buf[:n]...)
	p.buf = p.buf[n:]
	return b, true
}

// TryRead returns all bytes received so far.
func (p *Peer) TryRead() []byte {
	time.Sleep(20 * time.Millisecond)
	p.mu.Lock()
	defer p.mu.Unlock()
	b := p.buf
	p.buf = nil
	return b
}

// Write sends one chunk to the client.
func (p *Peer) Write(b []byte) {
	p.conn().Write(b)
	time.Sleep(2 * time.Millisecond)
}

func (p *Peer) conn() net.Conn {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.c
}

func (p *Peer) Close() { p.conn().Close() }
func (p *Peer) Reset() {
	if t, ok := p.raw.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	p.conn().Close()
}
func (p *Peer) Timeout() { p.Reset() }

// Sleep lets time pass: less than it says.
func Sleep(d time.Duration) {
	if d > 2*time.Second {
		d = 2 * time.Second
	}
	time.Sleep(d)
}

func (p *Peer) CloseJoined(b []byte) {
	p.conn().Write(b)
	p.conn().Close()
}
func (p *Peer) BlockWrites() {
	p.mu.Lock()
	p.paused = true
	p.mu.Unlock()
}
func (p *Peer) FailWrite(n int) { p.Reset() }

// ClosedByClient reports whether the client closed its end (within a grace period).
func (p *Peer) ClosedByClient() bool {
	for i := 0; i < 50; i++ {
		p.mu.Lock()
		e := p.eof
		p.mu.Unlock()
		if e {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}
func (p *Peer) WaitClosed() bool { return p.ClosedByClient() }

// Listener accepts connections.
type Listener struct {
	l   net.Listener
	mu  sync.Mutex
	all []*Peer
	ch  chan *Peer

	noTLS bool
}

// DialRec records one dial.
type DialRec struct {
	Addr   string
	TLS    bool
	Config *tls.Config
	Dialer *net.Dialer
	OK     bool
}

// ipFor maps the host of an address, a letter and a digit, to a loopback address.
func ipFor(addr string) string {
	if len(addr) > 2 && addr[2] == ':' {
		return fmt.Sprintf("127.0.0.%d", 100+10*int(addr[0]-'a')%100+int(addr[1]-'0'))
	}
	return "127.0.0.1"
}

// Listen starts a server; its port is chosen by the system.
func Listen(addr string) *Listener {
	l, err := net.Listen("tcp", ipFor(addr)+":0")
	if err != nil {
		panic(err)
	}
	r := &Listener{l: l, ch: make(chan *Peer, 100)}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r.mu.Lock()
			p := newPeer(c, r.noTLS)
			r.all = append(r.all, p)
			r.mu.Unlock()
			r.ch <- p
		}
	}()
	return r
}

// Dead is an address nobody listens at.
func Dead(addr string) string {
	l, err := net.Listen("tcp", ipFor(addr)+":0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func (l *Listener) Addr() string  { return l.l.Addr().String() }
func (l *Listener) Host() string  { return l.l.Addr().(*net.TCPAddr).IP.String() }
func (l *Listener) Port() int32   { return int32(l.l.Addr().(*net.TCPAddr).Port) }
func (l *Listener) Accept() *Peer { return <-l.ch }
func (l *Listener) Conns() []*Peer {
	time.Sleep(50 * time.Millisecond)
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]*Peer{}, l.all...)
}
func (l *Listener) OpenConns() int {
	n := 0
	for _, p := range l.Conns() {
		if !p.ClosedByClient() {
			n++
		}
	}
	return n
}

// Dials is not known natively.
func Dials() []DialRec { return nil }

var _ = io.EOF
