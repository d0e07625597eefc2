package zz_vrt

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

// In-memory network. Everything in this package runs atomically unless it blocks.

type waitq struct{ w []chan struct{} }

// waitUntil waits like wait, and until the deadline if there is one.
func (q *waitq) waitUntil(deadline int64) {
	if deadline == 0 {
		q.wait()
		return
	}
	c := make(chan struct{}, 1)
	q.w = append(q.w, c)
	t := timeNewTimer(time.Duration(deadline - clock))
	select {
	case <-c:
	case <-t.C:
	}
	timerStop(t)
	for i, r := range timers {
		if r.t == t {
			timers = append(append([]*timerRec{}, timers[:i]...), timers[i+1:]...)
			break
		}
	}
}

func (q *waitq) wait() {
	c := make(chan struct{}, 1)
	q.w = append(q.w, c)
	<-c
}
func (q *waitq) wake() {
	w := q.w
	q.w = nil
	for _, c := range w {
		c <- struct{}{}
	}
}

type half struct {
	chunks [][]byte
	eof    bool // no more data will be written
	err    error
	joined bool // the last chunk and the end are returned by the same Read
	q      waitq
	space  waitq
	seen   bool // something has been written
}

// conn is the client's end.
type conn struct {
	in, out    *half
	closed     bool
	peerClosed bool
	addr       string
	wfail      int // fail the n-th write from now (0: never)
	nclose     int
	wblock     bool  // the peer does not read: writes block
	dial       int   // its index in dials
	noTLS      bool  // the peer does not speak TLS
	rdl, wdl   int64 // deadlines; 0: none
}

func errTimeout(op string) error {
	return &net.OpError{Op: op, Net: "tcp", Err: os.ErrDeadlineExceeded}
}

func nanos(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	if n := t.UnixNano(); n > 0 {
		return n
	}
	return 1
}

func errClosed(op string) error { return &net.OpError{Op: op, Net: "tcp", Err: net.ErrClosed} }
func errReset(op string) error {
	return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError(op, syscall.ECONNRESET)}
}
func errRefused() error {
	return &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
}

func (c *conn) Read(p []byte) (int, error) {
	for len(c.in.chunks) == 0 && !c.in.eof && !c.closed && (c.rdl == 0 || clock < c.rdl) {
		c.in.q.waitUntil(c.rdl)
	}
	if c.closed {
		return 0, errClosed("read")
	}
	if c.rdl != 0 && clock >= c.rdl {
		return 0, errTimeout("read")
	}
	if len(c.in.chunks) > 0 {
		b := c.in.chunks[0]
		n := copy(p, b)
		if n == len(b) {
			c.in.chunks = c.in.chunks[1:]
			if c.in.joined && c.in.eof && len(c.in.chunks) == 0 {
				return n, c.in.end()
			}
		} else {
			c.in.chunks[0] = b[n:]
		}
		return n, nil
	}
	return 0, c.in.end()
}

func (h *half) end() error {
	if err := h.err; err != nil {
		h.err = nil // reported once, then the stream is at its end
		return err
	}
	return io.EOF
}

func (c *conn) Write(p []byte) (int, error) {
	if c.closed {
		return 0, errClosed("write")
	}
	if c.peerClosed {
		return 0, errReset("write")
	}
	for c.wblock && !c.closed && !c.peerClosed && (c.wdl == 0 || clock < c.wdl) {
		c.out.space.waitUntil(c.wdl)
	}
	if c.closed {
		return 0, errClosed("write")
	}
	if c.wdl != 0 && clock >= c.wdl {
		return 0, errTimeout("write")
	}
	if c.peerClosed {
		return 0, errReset("write")
	}
	if c.wfail > 0 {
		c.wfail--
		if c.wfail == 0 {
			return 0, errReset("write")
		}
	}
	b := append([]byte{}, p...)
	c.out.chunks = append(c.out.chunks, b)
	c.out.seen = true
	c.out.q.wake()
	return len(p), nil
}

func (c *conn) Close() error {
	c.nclose++
	if c.closed {
		return errClosed("close")
	}
	c.closed = true
	c.out.eof = true
	c.in.q.wake()
	c.out.q.wake()
	c.out.space.wake()
	return nil
}
func (c *conn) LocalAddr() net.Addr  { return nil }
func (c *conn) RemoteAddr() net.Addr { return nil }
func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return errClosed("set")
	}
	c.rdl = nanos(t)
	c.in.q.wake()
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return errClosed("set")
	}
	c.wdl = nanos(t)
	c.out.space.wake()
	return nil
}

// Peer is the server's end of a connection.
type Peer struct{ c *conn }

// ReadN reads exactly n bytes; false at end of stream.
func (p *Peer) ReadN(n int) ([]byte, bool) {
	var out []byte
	h := p.c.out
	for len(out) < n {
		for len(h.chunks) == 0 && !h.eof {
			h.q.wait()
		}
		if len(h.chunks) == 0 {
			return out, false
		}
		b := h.chunks[0]
		k := n - len(out)
		if len(b) <= k {
			out = append(out, b...)
			h.chunks = h.chunks[1:]
		} else {
			out = append(out, b[:k]...)
			h.chunks[0] = b[k:]
		}
	}
	return out, true
}

// TryRead returns all bytes received so far, without blocking.
func (p *Peer) TryRead() []byte {
	var out []byte
	h := p.c.out
	for len(h.chunks) > 0 {
		out = append(out, h.chunks[0]...)
		h.chunks = h.chunks[1:]
	}
	return out
}

// Write sends one chunk to the client (never empty).
func (p *Peer) Write(b []byte) {
	if p.c.closed || len(b) == 0 {
		return
	}
	p.c.in.chunks = append(p.c.in.chunks, append([]byte{}, b...))
	p.c.in.q.wake()
}

// Close ends the connection from the server's side.
func (p *Peer) Close() {
	p.c.peerClosed = true
	p.c.in.eof = true
	p.c.in.q.wake()
	p.c.out.space.wake()
}

// Reset ends the connection with an error.
func (p *Peer) Reset() {
	p.c.in.err = errReset("read")
	p.Close()
}

// Timeout ends the connection with an error that is a timeout.
func (p *Peer) Timeout() {
	p.c.in.err = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ETIMEDOUT)}
	p.Close()
}

// Sleep lets time pass, once nothing else can run.
func Sleep(d time.Duration) { <-timeNewTimer(d).C }

// CloseJoined sends b and closes; the client's Read returns the last bytes together with the end of the stream.
func (p *Peer) CloseJoined(b []byte) {
	p.c.in.joined = true
	if len(b) > 0 && !p.c.closed {
		p.c.in.chunks = append(p.c.in.chunks, append([]byte{}, b...))
	}
	p.Close()
}

// BlockWrites makes the client's writes block until the connection is closed.
func (p *Peer) BlockWrites() { p.c.wblock = true }

// FailWrite makes the client's n-th next write to the socket fail (n>=1).
func (p *Peer) FailWrite(n int) { p.c.wfail = n }

// ClosedByClient reports whether the client closed its end.
func (p *Peer) ClosedByClient() bool { return p.c.closed }

// WaitClosed waits until the client closed its end; in the engine it does not block.
func (p *Peer) WaitClosed() bool { return p.c.closed }

// TLS reports whether the connection uses TLS, ServerName the name the client's configuration gives.
func (p *Peer) TLS() bool { return dials[p.c.dial].TLS }
func (p *Peer) ServerName() string {
	if c := dials[p.c.dial].Config; c != nil {
		return c.ServerName
	}
	return ""
}

// DialerTag is the last byte of the local address the client's dialer is configured with.
func (p *Peer) DialerTag() int {
	d := dials[p.c.dial].Dialer
	if d == nil || d.LocalAddr == nil {
		return 0
	}
	ip := d.LocalAddr.(*net.TCPAddr).IP
	return int(ip[len(ip)-1])
}

// Listener accepts connections dialled to an address.
type Listener struct {
	addr  string
	pend  []*Peer
	all   []*Peer
	q     waitq
	noTLS bool
}

// NoTLS makes the server speak plain text only: TLS handshakes with it fail.
func (l *Listener) NoTLS() { l.noTLS = true }

// Plain reports whether the client uses the connection without TLS.
func (p *Peer) Plain() bool { return !p.TLS() && (len(p.c.out.chunks) > 0 || p.c.out.seen) }

// DialRec records one dial.
type DialRec struct {
	Addr   string
	TLS    bool
	Config *tls.Config
	Dialer *net.Dialer
	OK     bool
}

var listeners []*Listener
var dials []DialRec
var tlsConns []*tlsPair

type tlsPair struct {
	t   *tls.Conn
	c   *conn
	cfg *tls.Config
}

// Listen registers a server at addr.
func Listen(addr string) *Listener {
	l := &Listener{addr: addr}
	listeners = append(listeners, l)
	return l
}

// Addr is the address to dial.
func (l *Listener) Addr() string { return l.addr }

// Accept waits for the next connection.
func (l *Listener) Accept() *Peer {
	for len(l.pend) == 0 {
		l.q.wait()
	}
	p := l.pend[0]
	l.pend = l.pend[1:]
	return p
}

// Conns is every connection made so far.
func (l *Listener) Conns() []*Peer { return l.all }

// OpenConns is the number of connections the client has not closed.
func (l *Listener) OpenConns() int {
	n := 0
	for _, p := range l.all {
		if !p.c.closed {
			n++
		}
	}
	return n
}

// Dials is every dial made so far.
func Dials() []DialRec { return dials }

func dialTo(d *net.Dialer, addr string, isTLS bool, cfg *tls.Config) (*conn, error) {
	for _, l := range listeners {
		if l.addr == addr {
			dials = append(dials, DialRec{Addr: addr, TLS: isTLS, Config: cfg, Dialer: d, OK: true})
			c := &conn{in: &half{}, out: &half{}, addr: addr, dial: len(dials) - 1, noTLS: l.noTLS}
			p := &Peer{c}
			l.pend = append(l.pend, p)
			l.all = append(l.all, p)
			l.q.wake()
			return c, nil
		}
	}
	dials = append(dials, DialRec{Addr: addr, TLS: isTLS, Config: cfg, Dialer: d})
	return nil, errRefused()
}

func plain(d *net.Dialer, addr string) (net.Conn, error) {
	c, err := dialTo(d, addr, false, nil)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func secure(d *net.Dialer, addr string, cfg *tls.Config) (*tls.Conn, error) {
	c, err := dialTo(d, addr, true, cfg)
	if err != nil {
		return nil, err
	}
	t := &tlsPair{t: new(tls.Conn), c: c, cfg: cfg}
	tlsConns = append(tlsConns, t)
	if err := t.handshake(); err != nil {
		c.Close()
		return nil, err
	}
	return t.t, nil
}

// handshake fails when the server does not speak TLS, or when its certificate, which no one signed, is verified.
func (t *tlsPair) handshake() error {
	if t.c.noTLS {
		return tls.RecordHeaderError{Msg: "first record does not look like a TLS handshake", Conn: t.c}
	}
	if t.cfg == nil || !t.cfg.InsecureSkipVerify {
		return &tls.CertificateVerificationError{Err: x509.UnknownAuthorityError{}}
	}
	return nil
}

func under(t *tls.Conn) *tlsPair {
	for _, p := range tlsConns {
		if p.t == t {
			return p
		}
	}
	panic("unknown tls.Conn")
}

//vrt:replace (*net.Dialer).Dial
func dialerDial(d *net.Dialer, network, addr string) (net.Conn, error) { return plain(d, addr) }

//vrt:replace (*net.Dialer).DialContext
func dialerDialContext(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	return plain(d, addr)
}

//vrt:replace net.Dial
func netDial(network, addr string) (net.Conn, error) { return plain(nil, addr) }

//vrt:replace net.DialTimeout
func netDialTimeout(network, addr string, t time.Duration) (net.Conn, error) { return plain(nil, addr) }

//vrt:replace crypto/tls.DialWithDialer
func tlsDialWithDialer(d *net.Dialer, network, addr string, cfg *tls.Config) (*tls.Conn, error) {
	return secure(d, addr, cfg)
}

//vrt:replace crypto/tls.Dial
func tlsDial(network, addr string, cfg *tls.Config) (*tls.Conn, error) { return secure(nil, addr, cfg) }

//vrt:replace (*crypto/tls.Dialer).Dial
func tlsDialerDial(d *tls.Dialer, network, addr string) (net.Conn, error) {
	t, err := secure(d.NetDialer, addr, d.Config)
	if err != nil {
		return nil, err
	}
	return t, nil
}

//vrt:replace (*crypto/tls.Dialer).DialContext
func tlsDialerDialContext(d *tls.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	t, err := secure(d.NetDialer, addr, d.Config)
	if err != nil {
		return nil, err
	}
	return t, nil
}

//vrt:replace (*crypto/tls.Conn).Read
func tlsRead(t *tls.Conn, p []byte) (int, error) {
	if err := tlsHandshake(t); err != nil {
		return 0, err
	}
	return under(t).c.Read(p)
}

//vrt:replace (*crypto/tls.Conn).Write
func tlsWrite(t *tls.Conn, p []byte) (int, error) {
	if err := tlsHandshake(t); err != nil {
		return 0, err
	}
	return under(t).c.Write(p)
}

//vrt:replace (*crypto/tls.Conn).Close
func tlsClose(t *tls.Conn) error { return under(t).c.Close() }

//vrt:replace (*crypto/tls.Conn).Handshake
func tlsHandshake(t *tls.Conn) error { return under(t).handshake() }

//vrt:replace (*crypto/tls.Conn).HandshakeContext
func tlsHandshakeContext(t *tls.Conn, ctx context.Context) error { return under(t).handshake() }

//vrt:replace (*crypto/tls.Conn).NetConn
func tlsNetConn(t *tls.Conn) net.Conn { return under(t).c }

//vrt:replace (*crypto/tls.Conn).SetDeadline
func tlsSetDeadline(t *tls.Conn, d time.Time) error { return under(t).c.SetDeadline(d) }

//vrt:replace (*crypto/tls.Conn).SetReadDeadline
func tlsSetReadDeadline(t *tls.Conn, d time.Time) error { return under(t).c.SetReadDeadline(d) }

//vrt:replace (*crypto/tls.Conn).SetWriteDeadline
func tlsSetWriteDeadline(t *tls.Conn, d time.Time) error { return under(t).c.SetWriteDeadline(d) }

//vrt:replace crypto/tls.Client
func tlsClient(c net.Conn, cfg *tls.Config) *tls.Conn {
	t := new(tls.Conn)
	cc := c.(*conn)
	tlsConns = append(tlsConns, &tlsPair{t, cc, cfg})
	dials[cc.dial].TLS, dials[cc.dial].Config = true, cfg
	return t
}

// Dead is an address nobody listens at.
func Dead(addr string) string { return addr }

// Host and Port are the parts of the listener's address.
func (l *Listener) Host() string { h, _, _ := net.SplitHostPort(l.addr); return h }
func (l *Listener) Port() int32 {
	n := int32(0)
	_, p, _ := net.SplitHostPort(l.addr)
	for i := 0; i < len(p); i++ {
		n = 10*n + int32(p[i]-'0')
	}
	return n
}
