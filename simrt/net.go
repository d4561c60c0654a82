package simrt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Network is the simulated TCP network.
type Network struct {
	s         *Sim
	listeners map[string]*Listener
	Cfg       NetConfig
	nextPort  int
	Conns     []*Conn // client side of every connection made
	cut       map[string]int64
	// DialPlan lets the harness decide the outcome of a dial attempt: nil for
	// success, otherwise the error; the duration is how long the attempt takes.
	DialPlan   func(from *Proc, addr string, attempt int) (error, int64)
	dials      map[string]int
	OnConn     func(c *Conn)
	OnRead     func(c *Conn, b []byte)
	OnWrite    func(c *Conn, b []byte)
	AcceptPlan func(p *Proc, n int) error
	accepts    map[*Proc]int
	Down       map[string]bool
}

// NetConfig are the run's network conditions.
type NetConfig struct {
	LatencyNs   int64 // base one-way latency
	JitterNs    int64 // extra, uniform per segment
	FragRead    int   // per mille: a read returns fewer bytes than available
	FragSeg     int   // per mille: a write is split into several segments
	BufBytes    int   // capacity of one direction (send buffer + receive buffer)
	BytesPerSec int64 // link bandwidth per direction, 0 = unlimited
}

func newNetwork(s *Sim) *Network {
	return &Network{s: s, listeners: map[string]*Listener{}, nextPort: 40000, cut: map[string]int64{}, dials: map[string]int{}, accepts: map[*Proc]int{}, Down: map[string]bool{}, Cfg: NetConfig{LatencyNs: 1e6, BufBytes: 65536}}
}

type segment struct {
	at   int64
	data []byte
	fin  bool
	rst  bool
}

// half is one direction of a connection.
type half struct {
	from, to *Conn
	segs     []segment // in flight
	inflight int
	recv     []byte // arrived, unread
	fin      bool   // arrived
	reset    bool   // arrived
	lastAt   int64
	busyTill int64
	pumping  bool
	held     bool // by SetHold
	cap      int
	readers  []tref
	writers  []tref
	Total    int64 // bytes accepted from the writer
	Deliv    int64 // bytes handed to the reader
	vc       []uint32
}

// Conn is one endpoint of a simulated TCP connection.
type Conn struct {
	ID      int
	Net     *Network
	Proc    *Proc
	Peer    *Conn
	Dialer  bool
	in, out *half
	laddr   *net.TCPAddr
	raddr   *net.TCPAddr
	closed  bool // locally
	dead    bool // reset seen locally
	wclosed bool
	rdl     int64
	wdl     int64
	opened  int64
	Extra   any
	// Failed is when a read or write of this end first failed for a reason
	// other than its own Close or a deadline.
	Failed  int64
	FailErr error
	wfail   error
	wfailN  int
}

// FailWrite makes the next write of this end fail after n bytes.
func (c *Conn) FailWrite(err error, n int) { c.wfail, c.wfailN = err, n }

// failed notes a failing operation.
func (c *Conn) failed(op string, err error) error {
	if err != io.EOF {
		err = opErr(op, c, err)
	}
	if c.FailErr == nil {
		c.Failed, c.FailErr = c.Net.s.now, err
	}
	return err
}

// TCPConn replaces net.TCPConn.
type TCPConn = Conn

func hostIP(id int) net.IP { return net.IPv4(10, 0, byte(id>>8), byte(id+1)) }

func (n *Network) procByAddr(addr string) (*Proc, string) {
	h, port, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, ""
	}
	var found *Proc
	for _, p := range n.s.Procs {
		if p.Name == h || hostIP(p.ID).String() == h {
			if found == nil || !p.Dead {
				found = p
			}
		}
	}
	return found, h + ":" + port
}

func cutKey(a, b *Proc) string {
	if a.Name > b.Name {
		a, b = b, a
	}
	return a.Name + "|" + b.Name
}

// Cut holds all traffic between two processes until the given time.
func (n *Network) Cut(a, b *Proc, until int64) {
	k := cutKey(a, b)
	if until > n.cut[k] {
		n.cut[k] = until
	}
	n.s.FaultN["partition"]++
	if n.s.TraceOn {
		n.s.Tracef("FAULT partition %s-%s until %s", a.Name, b.Name, time.Duration(until))
	}
}

// HealAll ends every partition now.
func (n *Network) HealAll() {
	for k := range n.cut {
		n.cut[k] = 0
	}
	for _, c := range n.Conns {
		c.in.repump(n)
		c.out.repump(n)
	}
}

func (h *half) repump(n *Network) {
	if len(h.segs) > 0 {
		n.s.After(0, func() { n.pump(h) })
	}
}

func (n *Network) cutUntil(a, b *Proc) int64 { return n.cut[cutKey(a, b)] }

// tref is a task together with the blocking operation it was in.
type tref struct {
	t *Task
	g int
}

func (t *Task) ref() tref { return tref{t, t.gen + 1} }

func wakeTasks(q *[]tref) {
	for _, r := range *q {
		if t := r.t; t.state == stBlocked && !t.doom && t.gen == r.g {
			S.ready(t)
		}
	}
	*q = nil
}

func (n *Network) newPair(cp, sp *Proc, sport int) (*Conn, *Conn) {
	n.nextPort++
	ca := &net.TCPAddr{IP: hostIP(cp.ID), Port: n.nextPort}
	sa := &net.TCPAddr{IP: hostIP(sp.ID), Port: sport}
	id := len(n.Conns)
	c := &Conn{ID: id, Net: n, Proc: cp, Dialer: true, laddr: ca, raddr: sa, opened: n.s.now}
	d := &Conn{ID: id, Net: n, Proc: sp, laddr: sa, raddr: ca, opened: n.s.now}
	c.Peer, d.Peer = d, c
	c.out = &half{from: c, to: d, cap: n.Cfg.BufBytes}
	d.out = &half{from: d, to: c, cap: n.Cfg.BufBytes}
	c.in, d.in = d.out, c.out
	n.Conns = append(n.Conns, c)
	cp.conns = append(cp.conns, c)
	sp.conns = append(sp.conns, d)
	return c, d
}

// latency draws the delay of one segment.
func (n *Network) latency() int64 {
	l := n.Cfg.LatencyNs
	if n.Cfg.JitterNs > 0 {
		l += n.s.NetRng.Int63n(n.Cfg.JitterNs + 1)
	}
	if l < 1000 {
		l = 1000
	}
	return l
}

func (n *Network) send(h *half, seg segment) {
	at := n.s.now + n.latency()
	if bw := n.Cfg.BytesPerSec; bw > 0 && len(seg.data) > 0 {
		start := n.s.now
		if h.busyTill > start {
			start = h.busyTill
		}
		h.busyTill = start + int64(len(seg.data))*1e9/bw
		at += h.busyTill - n.s.now
	}
	if at < h.lastAt {
		at = h.lastAt
	}
	h.lastAt = at
	seg.at = at
	h.segs = append(h.segs, seg)
	h.inflight += len(seg.data)
	n.s.At(at, func() { n.pump(h) })
}

// pump moves due segments into the receive buffer.
func (n *Network) pump(h *half) {
	s := n.s
	if h.held {
		return
	}
	if u := n.cutUntil(h.from.Proc, h.to.Proc); u > s.now {
		s.At(u, func() { n.pump(h) })
		return
	}
	moved := false
	for len(h.segs) > 0 && h.segs[0].at <= s.now {
		g := h.segs[0]
		h.segs = h.segs[1:]
		h.inflight -= len(g.data)
		moved = true
		if h.reset {
			continue
		}
		if g.rst {
			h.reset = true
			h.recv = nil
			h.to.dead = true
			h.to.out.dropAll()
			wakeTasks(&h.to.out.writers)
			break
		}
		if g.fin {
			h.fin = true
			continue
		}
		if h.to.closed {
			// data for a closed socket: the kernel answers with RST
			n.rst(h.to.out)
			h.recv = nil
			continue
		}
		h.recv = append(h.recv, g.data...)
	}
	if moved {
		wakeTasks(&h.readers)
		wakeTasks(&h.writers)
	}
}

func (h *half) dropAll() {
	h.segs = nil
	h.inflight = 0
}

func (n *Network) rst(h *half) {
	for _, g := range h.segs {
		if g.rst {
			return
		}
	}
	n.send(h, segment{rst: true})
}

// Hold stops (or resumes) one direction of a connection.
func (c *Conn) Hold(v bool) {
	c.out.held = v
	if !v {
		c.out.repump(c.Net)
	}
}

// Reset breaks the connection as a middlebox or the peer's kernel would.
func (c *Conn) Reset() {
	n := c.Net
	if n.s.TraceOn {
		n.s.Tracef("FAULT reset conn %d %s-%s", c.ID, c.Proc.Name, c.Peer.Proc.Name)
	}
	n.s.FaultN["conn_reset"]++
	for _, e := range []*Conn{c, c.Peer} {
		e.in.reset = true
		e.in.recv = nil
		e.in.dropAll()
		e.dead = true
		wakeTasks(&e.in.readers)
		wakeTasks(&e.out.writers)
	}
}

// Inject puts raw bytes into the stream towards the peer of c, as if c had
// sent them.
func (c *Conn) Inject(b []byte) {
	c.Net.send(c.out, segment{data: append([]byte(nil), b...)})
}

func (n *Network) procDied(p *Proc) {
	for _, l := range p.lns {
		l.Close()
	}
	p.lns = nil
	for _, c := range p.conns {
		if c.closed || c.dead {
			continue
		}
		c.closed = true
		c.out.wakeAll()
		// Data that was accepted by the kernel is still delivered, unless
		// unread input makes the kernel answer with a reset.
		if len(c.in.recv) > 0 || n.s.Choose(2) == 1 {
			n.rst(c.out)
		} else {
			n.send(c.out, segment{fin: true})
		}
	}
	p.conns = nil
}

func (h *half) wakeAll() { wakeTasks(&h.readers); wakeTasks(&h.writers) }

func opErr(op string, c *Conn, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

// Read implements net.Conn.
func (c *Conn) Read(b []byte) (int, error) {
	s := c.Net.s
	s.point()
	if c == nil {
		return 0, syscall.EINVAL
	}
	for {
		h := c.in
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.rdl != 0 && s.now >= c.rdl {
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if len(h.recv) > 0 {
			n := len(h.recv)
			if n > len(b) {
				n = len(b)
			}
			if n > 1 && c.Net.Cfg.FragRead > 0 && s.Chance(c.Net.Cfg.FragRead) {
				n = 1 + (n-1-s.Choose(n))%n
				if n <= 0 {
					n = 1
				}
				s.FaultN["short_read"]++
			}
			copy(b, h.recv[:n])
			h.recv = h.recv[n:]
			if len(h.recv) == 0 {
				h.recv = nil
			}
			h.Deliv += int64(n)
			wakeTasks(&h.writers)
			if f := c.Net.OnRead; f != nil {
				f(c, b[:n])
			}
			return n, nil
		}
		if h.reset || c.dead {
			return 0, c.failed("read", syscall.ECONNRESET)
		}
		if h.fin {
			return 0, c.failed("read", io.EOF)
		}
		h.readers = append(h.readers, s.cur.ref())
		var e *event
		if c.rdl != 0 {
			t := s.cur
			e = s.At(c.rdl, func() {
				if t.why == "conn read" {
					s.ready(t)
				}
			})
		}
		s.block("conn read")
		s.cancel(e)
	}
}

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	s := c.Net.s
	s.point()
	done := 0
	for {
		h := c.out
		if c.closed || c.wclosed {
			return done, opErr("write", c, net.ErrClosed)
		}
		if c.dead {
			return done, c.failed("write", syscall.ECONNRESET)
		}
		if done == len(b) {
			return done, nil
		}
		if c.wdl != 0 && s.now >= c.wdl {
			return done, opErr("write", c, os.ErrDeadlineExceeded)
		}
		room := h.cap - h.inflight - len(h.recv)
		if room > 0 {
			n := len(b) - done
			if n > room {
				n = room
			}
			if c.wfail != nil {
				if c.wfailN <= 0 {
					err := c.wfail
					c.wfail = nil
					s.FaultN["write_error"]++
					return done, c.failed("write", err)
				}
				n = min(n, c.wfailN)
				c.wfailN -= n
			}
			if n > 1 && c.Net.Cfg.FragSeg > 0 && s.Chance(c.Net.Cfg.FragSeg) {
				n = 1 + (n-1-s.Choose(n))%n
				if n <= 0 {
					n = 1
				}
				s.FaultN["split_segment"]++
			}
			d := append([]byte(nil), b[done:done+n]...)
			if f := c.Net.OnWrite; f != nil {
				f(c, d)
			}
			h.Total += int64(n)
			done += n
			c.Net.send(h, segment{data: d})
			continue
		}
		s.FaultN["backpressure"]++
		h.writers = append(h.writers, s.cur.ref())
		var e *event
		if c.wdl != 0 {
			t := s.cur
			e = s.At(c.wdl, func() {
				if t.why == "conn write" {
					s.ready(t)
				}
			})
		}
		s.block("conn write")
		s.cancel(e)
	}
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	s := c.Net.s
	if s.cur != nil {
		if s.cur.killed {
			return nil
		}
		s.point()
	}
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.closed = true
	if s.TraceOn {
		s.Tracef("%s closes conn %d", c.Proc.Name, c.ID)
	}
	if !c.dead {
		if len(c.in.recv) > 0 {
			c.in.recv = nil
			c.Net.rst(c.out)
		} else if !c.wclosed {
			c.Net.send(c.out, segment{fin: true})
		}
	}
	wakeTasks(&c.in.readers)
	wakeTasks(&c.out.writers)
	wakeTasks(&c.in.writers)
	return nil
}

// Closed tells whether this end was closed or reset.
func (c *Conn) Closed() bool { return c.closed || c.dead }

// LocallyClosed tells whether the owner closed this end.
func (c *Conn) LocallyClosed() bool { return c.closed }

// Alive tells whether both ends are open.
func (c *Conn) Alive() bool {
	return !c.Closed() && !c.Peer.Closed() && !c.Proc.Dead && !c.Peer.Proc.Dead
}

// Backlog is the number of bytes written by c that its peer has not read.
func (c *Conn) Backlog() int { return c.out.inflight + len(c.out.recv) }

// Written is the number of bytes c has written.
func (c *Conn) Written() int64 { return c.out.Total }

// CloseWrite mirrors net.TCPConn.CloseWrite.
func (c *Conn) CloseWrite() error {
	if c.closed || c.wclosed {
		return opErr("close", c, net.ErrClosed)
	}
	c.wclosed = true
	c.Net.send(c.out, segment{fin: true})
	return nil
}

// CloseRead mirrors net.TCPConn.CloseRead.
func (c *Conn) CloseRead() error { return nil }

func (c *Conn) LocalAddr() net.Addr  { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr { return c.raddr }

func (c *Conn) dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	v := int64(t.Sub(Now())) + c.Net.s.now
	if v <= 0 {
		v = 1
	}
	return v
}

// SetDeadline and friends implement net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rdl = c.dl(t)
	wakeTasks(&c.in.readers)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.wdl = c.dl(t)
	wakeTasks(&c.out.writers)
	return nil
}

// SetWriteBuffer sizes the outgoing direction.
func (c *Conn) SetWriteBuffer(n int) error             { return nil }
func (c *Conn) SetReadBuffer(n int) error              { return nil }
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetLinger(int) error                    { return nil }
func (c *Conn) SyscallConn() (syscall.RawConn, error)  { return rawConn{}, nil }

type rawConn struct{}

func (rawConn) Control(f func(fd uintptr)) error    { f(3); return nil }
func (rawConn) Read(f func(fd uintptr) bool) error  { f(3); return nil }
func (rawConn) Write(f func(fd uintptr) bool) error { f(3); return nil }

// ---------------------------------------------------------------- listen/dial

// Listener is a simulated TCP listener.
type Listener struct {
	net  *Network
	p    *Proc
	key  string
	port int
	back []*Conn
	wait []tref
	done bool
}

func (n *Network) listen(p *Proc, addr string) (net.Listener, error) {
	_, port, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: err}
	}
	pn, _ := strconv.Atoi(port)
	key := p.Name + ":" + port
	if o := n.listeners[key]; o != nil && !o.done {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}
	}
	l := &Listener{net: n, p: p, key: key, port: pn}
	n.listeners[key] = l
	p.lns = append(p.lns, l)
	return l, nil
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	s := l.net.s
	s.point()
	for {
		if l.done {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.back) > 0 {
			if f := l.net.AcceptPlan; f != nil {
				k := l.net.accepts[l.p]
				l.net.accepts[l.p]++
				if err := f(l.p, k); err != nil {
					s.FaultN["accept_error"]++
					return nil, &net.OpError{Op: "accept", Net: "tcp", Err: err}
				}
			}
			c := l.back[0]
			l.back = l.back[1:]
			if s.TraceOn {
				s.Tracef("%s accepts conn %d from %s", l.p.Name, c.ID, c.Peer.Proc.Name)
			}
			if f := l.net.OnConn; f != nil {
				f(c)
			}
			return c, nil
		}
		l.wait = append(l.wait, s.cur.ref())
		s.block("accept")
	}
}

// Close implements net.Listener.
func (l *Listener) Close() error {
	if l.done {
		return net.ErrClosed
	}
	l.done = true
	for _, c := range l.back {
		c.closed = true
		l.net.rst(c.out)
	}
	l.back = nil
	wakeTasks(&l.wait)
	return nil
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return &net.TCPAddr{IP: hostIP(l.p.ID), Port: l.port} }

// Pending is the number of connections nobody has accepted yet.
func (l *Listener) Pending() int { return len(l.back) }

// Listener finds the live listener of p.
func (p *Proc) Listeners() []*Listener { return p.lns }

// NetListen replaces net.Listen.
func NetListen(network, addr string) (net.Listener, error) {
	S.point()
	return S.Net.listen(S.CurProc(), addr)
}

// NetListenConfig replaces net.ListenConfig.
type NetListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

// Listen mirrors net.ListenConfig.Listen.
func (lc *NetListenConfig) Listen(ctx context.Context, network, addr string) (net.Listener, error) {
	S.point()
	if lc.Control != nil {
		if err := lc.Control(network, addr, rawConn{}); err != nil {
			return nil, err
		}
	}
	return S.Net.listen(S.CurProc(), addr)
}

// NetDialer replaces net.Dialer.
type NetDialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Control       func(network, address string, c syscall.RawConn) error
}

// Dial mirrors net.Dialer.Dial.
func (d *NetDialer) Dial(network, addr string) (net.Conn, error) {
	if d.Control != nil {
		if err := d.Control(network, addr, rawConn{}); err != nil {
			return nil, err
		}
	}
	return S.Net.dial(addr, int64(d.Timeout))
}

// DialContext mirrors net.Dialer.DialContext.
func (d *NetDialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	return d.Dial(network, addr)
}

// NetDial replaces net.Dial.
func NetDial(network, addr string) (net.Conn, error) { return S.Net.dial(addr, 0) }

// NetDialTimeout replaces net.DialTimeout.
func NetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return S.Net.dial(addr, int64(d))
}

// ErrDialTimeout is what a dial to a black hole returns.
var ErrDialTimeout = errors.New("connect: connection timed out")

func (n *Network) dial(addr string, timeout int64) (net.Conn, error) {
	s := n.s
	p := s.CurProc()
	s.point()
	fail := func(err error, d int64) (net.Conn, error) {
		if d > 0 {
			if timeout > 0 && d > timeout {
				d = timeout
				err = os.ErrDeadlineExceeded
			}
			Sleep(time.Duration(d))
		}
		if s.TraceOn {
			s.Tracef("%s dial %s: %v", p.Name, addr, err)
		}
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: err}
	}
	k := p.Name + ">" + addr
	att := n.dials[k]
	n.dials[k]++
	if n.DialPlan != nil {
		if err, d := n.DialPlan(p, addr, att); err != nil {
			s.FaultN["dial_fault"]++
			return fail(err, d)
		}
	}
	q, key := n.procByAddr(addr)
	if q == nil {
		return fail(fmt.Errorf("lookup %s: no such host", strings.Split(addr, ":")[0]), 1e6)
	}
	// SYN
	lat := n.latency()
	Sleep(time.Duration(lat))
	for n.cutUntil(p, q) > s.now {
		w := n.cutUntil(p, q) - s.now
		max := int64(60e9)
		if timeout > 0 && timeout < max {
			max = timeout
		}
		if w > max {
			return fail(syscall.ETIMEDOUT, max)
		}
		Sleep(time.Duration(w))
	}
	q, key = n.procByAddr(addr)
	hostPort := strings.Split(key, ":")
	l := n.listeners[q.Name+":"+hostPort[len(hostPort)-1]]
	if q.Dead || l == nil || l.done {
		return fail(syscall.ECONNREFUSED, n.latency())
	}
	c, d := n.newPair(p, q, l.port)
	l.back = append(l.back, d)
	wakeTasks(&l.wait)
	Sleep(time.Duration(n.latency()))
	if s.TraceOn {
		s.Tracef("%s dialed %s: conn %d", p.Name, addr, c.ID)
	}
	if n.OnConn != nil {
		n.OnConn(c)
	}
	return c, nil
}

// Garbage returns n deterministic random bytes for harness clients.
func Garbage(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
