// Package net is the controlled replacement of the standard package: a
// simulated network of reliable byte streams with bounded buffers. Addresses,
// errors and interfaces are the standard ones.
package net

import (
	"context"
	"errors"
	"io"
	rn "net"
	"os"
	"strconv"
	"syscall"
	"time"
	"unsafe"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

type (
	Addr                = rn.Addr
	Conn                = rn.Conn
	Listener            = rn.Listener
	Error               = rn.Error
	OpError             = rn.OpError
	AddrError           = rn.AddrError
	ParseError          = rn.ParseError
	DNSError            = rn.DNSError
	InvalidAddrError    = rn.InvalidAddrError
	UnknownNetworkError = rn.UnknownNetworkError
	IP                  = rn.IP
	IPNet               = rn.IPNet
	IPMask              = rn.IPMask
	IPAddr              = rn.IPAddr
	TCPAddr             = rn.TCPAddr
	UDPAddr             = rn.UDPAddr
	UnixAddr            = rn.UnixAddr
	Interface           = rn.Interface
	HardwareAddr        = rn.HardwareAddr
	PacketConn          = rn.PacketConn
	KeepAliveConfig     = rn.KeepAliveConfig
	Flags               = rn.Flags
)

var (
	ErrClosed           = rn.ErrClosed
	ErrWriteToConnected = rn.ErrWriteToConnected
	IPv4zero            = rn.IPv4zero
	IPv6zero            = rn.IPv6zero
	IPv6loopback        = rn.IPv6loopback
	SplitHostPort       = rn.SplitHostPort
	JoinHostPort        = rn.JoinHostPort
	ParseIP             = rn.ParseIP
	ParseCIDR           = rn.ParseCIDR
	IPv4                = rn.IPv4
	CIDRMask            = rn.CIDRMask
	ResolveUnixAddr     = rn.ResolveUnixAddr
)

func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	return rn.ResolveTCPAddr(network, norm(address))
}

func norm(a string) string {
	h, p, err := rn.SplitHostPort(a)
	if err != nil {
		return a
	}
	if h == "localhost" {
		h = "127.0.0.1"
	}
	return rn.JoinHostPort(h, p)
}

// ---- the simulation

type dir struct {
	o       mc.Obj
	buf     []byte
	capn    int
	wclosed bool // writer closed: end of stream after the buffered bytes
	rclosed bool // reader closed
	broken  bool // reset
	stalled bool // bytes written are not visible to the reader
	wlock   bool
	total   int64
	v       byte
}

type stream struct {
	in, out *dir
	network string
	la, ra  Addr
	closed  bool
	o       mc.Obj
	rdl     time.Time
	wdl     time.Time
	rt, wt  mc.SchedTimer
	peer    *stream
	sync    bool
	v       byte
	id      int
	self    Conn
	server  bool
}

// TCPConn and UnixConn are the dynamic types of the connections.
type TCPConn struct{ stream }
type UnixConn struct{ stream }
type pipeConn struct{ stream }

// Sim is the harness's handle on the network; it is reset for each execution.
type Simulation struct {
	Buf        int  // buffer of each direction, bytes
	ShortReads bool // a read may return fewer bytes (a deviation)
	Blackhole  bool // writes to a peer that has closed succeed once
	conns      []*stream
	lns        []*listener
	port       int
	DialLog    []DialRec
	Removed    []string
	o          mc.Obj
	v          byte
	OnDial     func(network, addr string) error
}

type DialRec struct {
	Addr string
	At   time.Duration
	Err  error
}

var Sim *Simulation

func init() {
	mc.OnReset(func() {
		Sim = &Simulation{Buf: 64 << 10, port: 40000}
	})
}

func opErr(op, network string, la, ra Addr, err error) error {
	return &OpError{Op: op, Net: network, Source: la, Addr: ra, Err: err}
}

var zero = time.Unix(1_000_000_000, 0).UTC()

func expired(dl time.Time) bool {
	return !dl.IsZero() && !zero.Add(time.Duration(mc.NowQuiet())).Before(dl)
}

func (c *stream) err(op string, e error) error {
	if c.sync {
		return e
	}
	if op == "write" || op == "read" {
		return opErr(op, c.network, c.la, c.ra, e)
	}
	return opErr(op, c.network, nil, c.la, e)
}

func (c *stream) Read(p []byte) (int, error) {
	mc.Live()
	if len(p) == 0 {
		mc.Point("net read 0")
		if c.closed {
			return 0, c.err("read", c.closedErr())
		}
		return 0, nil
	}
	d := c.in
	mc.Block("net read", func() bool {
		return c.closed || d.broken || (!d.stalled && (len(d.buf) > 0 || d.wclosed)) || expired(c.rdl)
	})
	mc.TouchW(&d.o)
	mc.TouchR(&c.o)
	mc.RaceAcquire(unsafe.Pointer(&d.v))
	switch {
	case c.closed:
		return 0, c.err("read", c.closedErr())
	case expired(c.rdl):
		return 0, c.err("read", os.ErrDeadlineExceeded)
	case d.broken:
		return 0, c.err("read", os.NewSyscallError("read", syscall.ECONNRESET))
	case len(d.buf) == 0:
		return 0, io.EOF
	}
	n := len(d.buf)
	if n > len(p) {
		n = len(p)
	}
	if Sim.ShortReads && n > 1 {
		if n > 2 {
			n = [3]int{n, 1, n - 1}[mc.Deviate(3)]
		} else {
			n = [2]int{n, 1}[mc.Deviate(2)]
		}
	}
	mc.RaceWriteRange(p[:n])
	copy(p, d.buf[:n])
	d.buf = d.buf[n:]
	if len(d.buf) == 0 {
		d.buf = nil
	}
	mc.RaceReleaseMerge(unsafe.Pointer(&d.v))
	return n, nil
}

func (c *stream) closedErr() error {
	if c.sync {
		return io.ErrClosedPipe
	}
	return ErrClosed
}

func (c *stream) Write(p []byte) (int, error) { return c.writev(p) }

func (c *stream) writev(bufs ...[]byte) (int, error) {
	mc.Live()
	d := c.out
	mc.Block("net write", func() bool { return c.closed || !d.wlock || expired(c.wdl) })
	mc.TouchW(&d.o)
	mc.TouchR(&c.o)
	mc.RaceAcquire(unsafe.Pointer(&d.v))
	if c.closed {
		return 0, c.err("write", c.closedErr())
	}
	if expired(c.wdl) {
		return 0, c.err("write", os.ErrDeadlineExceeded)
	}
	d.wlock = true
	n := 0
	done := func(err error) (int, error) {
		d.wlock = false
		mc.RaceReleaseMerge(unsafe.Pointer(&d.v))
		return n, err
	}
	for _, p := range bufs {
		if len(p) == 0 && (d.rclosed || d.broken) {
			return done(c.wErr(d))
		}
		mc.RaceReadRange(p)
		for len(p) > 0 {
			space := d.capn - len(d.buf)
			if c.sync {
				space = len(p)
			}
			if space <= 0 && !d.rclosed && !d.broken {
				mc.Block("net write (full)", func() bool {
					return c.closed || d.rclosed || d.broken || len(d.buf) < d.capn || expired(c.wdl)
				})
				mc.TouchW(&d.o)
				space = d.capn - len(d.buf)
			}
			switch {
			case c.closed:
				return done(c.err("write", c.closedErr()))
			case d.rclosed, d.broken:
				if Sim.Blackhole && !d.broken {
					d.broken = true
					n += len(p)
					p = nil
					continue
				}
				return done(c.wErr(d))
			case expired(c.wdl) && space <= 0:
				return done(c.err("write", os.ErrDeadlineExceeded))
			}
			k := len(p)
			if k > space {
				k = space
			}
			d.buf = mc.Append(d.buf, p[:k]...)
			d.total += int64(k)
			n += k
			p = p[k:]
			mc.RaceReleaseMerge(unsafe.Pointer(&d.v))
			if c.sync {
				mc.Block("pipe write", func() bool { return c.closed || d.rclosed || len(d.buf) == 0 || expired(c.wdl) })
				mc.TouchW(&d.o)
				if left := len(d.buf); left > 0 {
					d.buf = nil
					n -= left
					if expired(c.wdl) {
						return done(os.ErrDeadlineExceeded)
					}
					return done(io.ErrClosedPipe)
				}
			}
		}
	}
	return done(nil)
}

func (c *stream) wErr(d *dir) error {
	if c.sync {
		return io.ErrClosedPipe
	}
	if d.broken {
		return c.err("write", os.NewSyscallError("write", syscall.ECONNRESET))
	}
	return c.err("write", os.NewSyscallError("write", syscall.EPIPE))
}

func (c *stream) Close() error {
	if mc.Killing() {
		return nil
	}
	mc.Point("net close")
	return c.closeNow()
}

func (c *stream) closeNow() error {
	mc.TouchW(&c.o)
	if c.closed {
		if c.sync {
			return nil
		}
		return c.err("close", ErrClosed)
	}
	c.closed = true
	mc.TouchW(&c.in.o)
	mc.TouchW(&c.out.o)
	c.in.rclosed = true
	c.out.wclosed = true
	c.rt.Stop()
	c.wt.Stop()
	mc.RaceReleaseMerge(unsafe.Pointer(&c.out.v))
	mc.RaceReleaseMerge(unsafe.Pointer(&c.in.v))
	return nil
}

func (c *stream) CloseWrite() error {
	mc.Point("net closewrite")
	mc.TouchW(&c.out.o)
	if c.closed {
		return c.err("close", ErrClosed)
	}
	c.out.wclosed = true
	mc.RaceReleaseMerge(unsafe.Pointer(&c.out.v))
	return nil
}

func (c *stream) CloseRead() error { return nil }

func (c *stream) LocalAddr() Addr  { return c.la }
func (c *stream) RemoteAddr() Addr { return c.ra }

func (c *stream) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func arm(t *mc.SchedTimer, dl time.Time) {
	t.Stop()
	if !dl.IsZero() {
		t.Arm(dl.Sub(zero.Add(time.Duration(mc.NowQuiet()))), func() {})
	}
}

func (c *stream) SetReadDeadline(t time.Time) error {
	mc.Live()
	mc.Point("SetReadDeadline")
	mc.TouchW(&c.o)
	if c.closed {
		return c.err("set", ErrClosed)
	}
	c.rdl = t
	arm(&c.rt, t)
	return nil
}

func (c *stream) SetWriteDeadline(t time.Time) error {
	mc.Live()
	mc.Point("SetWriteDeadline")
	mc.TouchW(&c.o)
	if c.closed {
		return c.err("set", ErrClosed)
	}
	c.wdl = t
	arm(&c.wt, t)
	return nil
}

func (c *stream) SetNoDelay(bool) error                    { return nil }
func (c *stream) SetKeepAlive(bool) error                  { return nil }
func (c *stream) SetKeepAlivePeriod(time.Duration) error   { return nil }
func (c *stream) SetKeepAliveConfig(KeepAliveConfig) error { return nil }
func (c *stream) SetLinger(int) error                      { return nil }
func (c *stream) SetReadBuffer(int) error                  { return nil }
func (c *stream) SetWriteBuffer(int) error                 { return nil }

// Buffers writes several slices; on the connections here as one write.
type Buffers [][]byte

type vwriter interface {
	writev(bufs ...[]byte) (int, error)
}

func (v *Buffers) WriteTo(w io.Writer) (int64, error) {
	if x, ok := w.(vwriter); ok {
		n, err := x.writev(*v...)
		v.consume(int64(n))
		return int64(n), err
	}
	var n int64
	for _, b := range *v {
		nb, err := w.Write(b)
		n += int64(nb)
		if err != nil {
			v.consume(n)
			return n, err
		}
	}
	v.consume(n)
	return n, nil
}

func (v *Buffers) Read(p []byte) (n int, err error) {
	for len(p) > 0 && len(*v) > 0 {
		n0 := copy(p, (*v)[0])
		v.consume(int64(n0))
		p = p[n0:]
		n += n0
	}
	if len(*v) == 0 {
		err = io.EOF
	}
	return
}

func (v *Buffers) consume(n int64) {
	for len(*v) > 0 {
		ln0 := int64(len((*v)[0]))
		if ln0 > n {
			(*v)[0] = (*v)[0][n:]
			return
		}
		n -= ln0
		(*v)[0] = nil
		*v = (*v)[1:]
	}
}

// ---- connecting

type listener struct {
	network  string
	addr     Addr
	key      string
	unlinked bool // its file is gone
	closed   bool
	q        []Conn
	o        mc.Obj
	dl       time.Time
	t        mc.SchedTimer
	v        byte
}

type TCPListener struct{ listener }
type UnixListener struct{ listener }

func (l *listener) Accept() (Conn, error) {
	mc.Live()
	mc.Block("accept", func() bool { return l.closed || len(l.q) > 0 || expired(l.dl) })
	mc.TouchW(&l.o)
	mc.RaceAcquire(unsafe.Pointer(&l.v))
	if l.closed {
		return nil, opErr("accept", l.network, nil, l.addr, ErrClosed)
	}
	if len(l.q) == 0 {
		return nil, opErr("accept", l.network, nil, l.addr, os.ErrDeadlineExceeded)
	}
	c := l.q[0]
	l.q = l.q[1:]
	return c, nil
}

func (l *listener) Close() error {
	if mc.Killing() {
		return nil
	}
	mc.Point("listener close")
	mc.TouchW(&l.o)
	if l.closed {
		return opErr("close", l.network, nil, l.addr, ErrClosed)
	}
	l.closed = true
	mc.RaceReleaseMerge(unsafe.Pointer(&l.v))
	if f := Sim.find(l.key); l.network == "unix" && f != nil {
		f.unlinked = true // by its name, as package net does
	}
	for i, x := range Sim.lns {
		if x == l {
			Sim.lns = mc.Without(Sim.lns, i)
			break
		}
	}
	for _, c := range l.q {
		x := raw(c)
		x.in.broken, x.out.broken = true, true
		x.closeNow()
	}
	l.q = nil
	return nil
}

func (l *listener) Addr() Addr { return l.addr }

func (l *listener) SetDeadline(t time.Time) error {
	mc.Live()
	mc.TouchW(&l.o)
	l.dl = t
	arm(&l.t, t)
	return nil
}

func raw(c Conn) *stream {
	switch x := c.(type) {
	case *TCPConn:
		return &x.stream
	case *UnixConn:
		return &x.stream
	case *pipeConn:
		return &x.stream
	}
	return nil
}

func simTouch() {
	mc.TouchW(&Sim.o)
	mc.RaceAcquire(unsafe.Pointer(&Sim.v))
	mc.RaceReleaseMerge(unsafe.Pointer(&Sim.v))
}

func isTCP(n string) bool { return n == "tcp" || n == "tcp4" || n == "tcp6" }

// resolve gives the listener key of an address.
func resolve(op, network, address string) (string, Addr, error) {
	switch {
	case isTCP(network):
		if h, _, err := rn.SplitHostPort(address); err == nil && h != "" && h != "localhost" && rn.ParseIP(h) == nil {
			return "", nil, &OpError{Op: op, Net: network, Err: &rn.DNSError{Err: "no such host", Name: h, IsNotFound: true}}
		}
		a, err := rn.ResolveTCPAddr("tcp", norm(address))
		if err != nil {
			return "", nil, &OpError{Op: op, Net: network, Err: err}
		}
		return "tcp:" + strconv.Itoa(a.Port), a, nil
	case network == "unix":
		return "unix:" + address, &UnixAddr{Name: address, Net: "unix"}, nil
	}
	return "", nil, &OpError{Op: op, Net: network, Err: UnknownNetworkError(network)}
}

func Listen(network, address string) (Listener, error) {
	mc.Live()
	mc.Point("listen")
	simTouch()
	key, a, err := resolve("listen", network, address)
	if err != nil {
		return nil, err
	}
	if ta, ok := a.(*TCPAddr); ok {
		if ta.IP == nil {
			ta.IP = rn.IPv6zero
		}
		if ta.Port == 0 {
			Sim.port++
			ta.Port = Sim.port
			key = "tcp:" + strconv.Itoa(ta.Port)
		}
	}
	if Sim.find(key) != nil {
		return nil, opErr("listen", network, nil, a, os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	var l Listener
	var ll *listener
	if network == "unix" {
		x := &UnixListener{listener{network: network, addr: a, key: key}}
		l, ll = x, &x.listener
	} else {
		x := &TCPListener{listener{network: network, addr: a, key: key}}
		l, ll = x, &x.listener
	}
	Sim.lns = mc.Append(Sim.lns, ll)
	return l, nil
}

func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

func newPair(network string, la, ra Addr) (Conn, Conn) {
	ab := &dir{capn: Sim.Buf}
	ba := &dir{capn: Sim.Buf}
	mk := func(in, out *dir, l, r Addr, server bool) (Conn, *stream) {
		st := stream{in: in, out: out, network: network, la: l, ra: r, server: server, id: len(Sim.conns)}
		var c Conn
		var p *stream
		switch network {
		case "unix":
			x := &UnixConn{st}
			c, p = x, &x.stream
		case "pipe":
			x := &pipeConn{st}
			x.sync = true
			c, p = x, &x.stream
		default:
			x := &TCPConn{st}
			c, p = x, &x.stream
		}
		p.self = c
		Sim.conns = mc.Append(Sim.conns, p)
		return c, p
	}
	c1, s1 := mk(ba, ab, la, ra, false)
	c2, s2 := mk(ab, ba, ra, la, true)
	s1.peer, s2.peer = s2, s1
	return c1, c2
}

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "pipe" }

func Pipe() (Conn, Conn) {
	mc.Live()
	simTouch()
	return newPair("pipe", pipeAddr{}, pipeAddr{})
}

func dial(ctx context.Context, network, address string) (Conn, error) {
	mc.Live()
	mc.Point("dial")
	simTouch()
	rec := func(err error) {
		Sim.DialLog = mc.Append(Sim.DialLog, DialRec{address, time.Duration(mc.NowQuiet()), err})
	}
	if ctx != nil {
		if err := ctx.Err(); err != nil {
			e := opErr("dial", network, nil, nil, mapCtx(err))
			rec(e)
			return nil, e
		}
	}
	key, a, err := resolve("dial", network, address)
	if err != nil {
		rec(err)
		return nil, err
	}
	if Sim.OnDial != nil {
		if err := Sim.OnDial(network, address); err != nil {
			e := opErr("dial", network, nil, a, err)
			rec(e)
			return nil, e
		}
	}
	l := Sim.find(key)
	if l == nil {
		e := opErr("dial", network, nil, a, os.NewSyscallError("connect", syscall.ECONNREFUSED))
		if network == "unix" {
			e = opErr("dial", network, nil, a, os.NewSyscallError("connect", syscall.ENOENT))
		}
		rec(e)
		return nil, e
	}
	rec(nil)
	var la Addr
	if isTCP(network) {
		Sim.port++
		la = &TCPAddr{IP: rn.IPv4(127, 0, 0, 1), Port: Sim.port}
	} else {
		la = &UnixAddr{Name: "", Net: "unix"}
	}
	c, sc := newPair(network, la, a)
	l.q = mc.Append(l.q, sc)
	mc.TouchW(&l.o)
	mc.RaceReleaseMerge(unsafe.Pointer(&l.v))
	return c, nil
}

var errCanceled = errors.New("operation was canceled")

func mapCtx(err error) error {
	if err == context.Canceled {
		return errCanceled
	}
	return os.ErrDeadlineExceeded
}

func Dial(network, address string) (Conn, error) { return dial(nil, network, address) }
func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return dial(nil, network, address)
}
func DialTCP(network string, la, ra *TCPAddr) (*TCPConn, error) {
	c, err := dial(nil, network, ra.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig KeepAliveConfig
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (Conn, error) { return dial(nil, network, address) }
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	return dial(ctx, network, address)
}

type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig KeepAliveConfig
}

func (*ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}

// ---- harness controls

// Conns lists the connection ends in order of creation (dialling end first).
func (m *Simulation) Conns() []Conn {
	var out []Conn
	for _, c := range m.conns {
		out = mc.Append(out, c.self)
	}
	return out
}

// OpenConns counts the ends that have not been closed.
func (m *Simulation) OpenConns() int {
	n := 0
	for _, c := range m.conns {
		if !c.closed {
			n++
		}
	}
	return n
}

// Listeners counts the open listeners.
func (m *Simulation) Listeners() int { return len(m.lns) }

// Break resets the connection c belongs to.
func (m *Simulation) Break(c Conn) {
	mc.Live()
	mc.Point("break")
	x := raw(c)
	for _, d := range []*dir{x.in, x.out} {
		mc.TouchW(&d.o)
		d.broken = true
		d.buf = nil
	}
}

// Stall makes what is written to c's peer invisible; Resume undoes it.
func (m *Simulation) Stall(c Conn, on bool) {
	mc.Live()
	mc.Point("stall")
	x := raw(c)
	mc.TouchW(&x.out.o)
	x.out.stalled = on
}

// Pair makes two connected ends with the given buffer size.
func (m *Simulation) Pair(buf int) (Conn, Conn) {
	mc.Live()
	simTouch()
	old := m.Buf
	m.Buf = buf
	a, b := newPair("tcp", &TCPAddr{IP: rn.IPv4(127, 0, 0, 1), Port: 1}, &TCPAddr{IP: rn.IPv4(127, 0, 0, 1), Port: 2})
	m.Buf = old
	return a, b
}

// SetBuf sets the buffer size of the direction c writes to.
func SetBuf(c Conn, n int) { raw(c).out.capn = n }

// Pending is the number of bytes written by c that its peer has not read.
func Pending(c Conn) int { return len(raw(c).out.buf) }

// Peer is the other end.
func Peer(c Conn) Conn { return raw(c).peer.self }

// IsClosed tells whether this end was closed.
func IsClosed(c Conn) bool { return raw(c).closed }

// Inject puts bytes into the stream c reads from.
func Inject(c Conn, b []byte) {
	mc.Point("inject")
	d := raw(c).in
	mc.TouchW(&d.o)
	d.buf = mc.Append(d.buf, b...)
	mc.RaceReleaseMerge(unsafe.Pointer(&d.v))
}

// Remove replaces os.Remove for the code under test: it unlinks the file of a
// unix listener and otherwise only records.
func Remove(name string) error {
	mc.Live()
	mc.Point("remove")
	simTouch()
	Sim.Removed = mc.Append(Sim.Removed, name)
	if l := Sim.find("unix:" + name); l != nil {
		l.unlinked = true
		return nil
	}
	return &os.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
}

func (m *Simulation) ListenersAt(key string) bool { return m.find(key) != nil }

func (m *Simulation) find(key string) *listener {
	for _, l := range m.lns {
		if l.key == key && !l.unlinked {
			return l
		}
	}
	return nil
}

// IOPipe replaces io.Pipe.
func IOPipe() (*PipeReader, *PipeWriter) {
	a, b := Pipe()
	return &PipeReader{a}, &PipeWriter{b}
}

type PipeReader struct{ c Conn }
type PipeWriter struct{ c Conn }

func (r *PipeReader) Read(p []byte) (int, error)  { return r.c.Read(p) }
func (r *PipeReader) Close() error                { return r.c.Close() }
func (r *PipeReader) CloseWithError(error) error  { return r.c.Close() }
func (w *PipeWriter) Write(p []byte) (int, error) { return w.c.Write(p) }
func (w *PipeWriter) Close() error                { return w.c.Close() }
func (w *PipeWriter) CloseWithError(error) error  { return w.c.Close() }
