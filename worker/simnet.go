package main

// An in-memory TCP: reliable, ordered byte streams between endpoints, with
// latency, segmentation, coalescing, bounded windows, partitions, resets,
// half-open peers, refused and black-holed dials, and truncation.
//
// The process is single-threaded and switches goroutines only at blocking
// operations and at preemption points, none of which occur inside the short
// state updates below, so no locks are needed.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type NetCfg struct {
	LatMinUs int64 `json:"latMinUs"`
	LatMaxUs int64 `json:"latMaxUs"`
	MSS      int   `json:"mss"`     // 0: whole writes; else random segments of 1..MSS
	Window   int   `json:"window"`  // bytes unread by the peer before writers block
	ShortRd  int   `json:"shortRd"` // 0: full reads; else reads return at most 1..ShortRd bytes
}

type segment struct {
	data []byte
	at   time.Duration // virtual arrival time
}

// half is one direction of a connection.
type half struct {
	head     []byte // the first four bytes ever written
	segs     []segment
	buffered int // bytes written and not read
	total    int64
	lastAt   time.Duration
	fin      bool
	finAt    time.Duration
	cutAt    int64 // deliver only this many bytes, then reset both ends (-1 none)
	rd, wr   []chan struct{}
}

type connPair struct {
	left      time.Duration // when its client said goodbye
	raw       bool          // its client writes bytes as it likes
	net       *SimNet
	id        int
	client    *simConn
	server    *simConn
	addr      string
	cut       bool // partitioned
	wasCut    bool
	frozen    bool // partitioned for a while without losing anything
	disturbed bool
	harness   bool // an end belongs to the harness: not counted as a leak
	openedAt  time.Duration
	switched  bool // its server agreed to change the protocol
}

// rxHook runs once, at the n-th read of the client at addr that gets bytes.
type rxHook struct {
	addr string
	n    int
	f    func()
}

func (n *SimNet) received(addr string) {
	for i := 0; i < len(n.rx); i++ {
		h := n.rx[i]
		if h.addr != addr {
			continue
		}
		if h.n--; h.n <= 0 {
			n.rx = append(n.rx[:i:i], n.rx[i+1:]...)
			i--
			h.f()
		}
	}
}

// abandonedPreface tells of a clear text HTTP/2 connection broken within the
// 24 bytes of the client's preface. golang.org/x/net/http2/h2c (v0.8.0) has
// taken the connection over by then and leaves it open when reading the rest
// fails; that is outside this repository and no session ever existed.
func (p *connPair) abandonedPreface() bool {
	h := p.client.out
	return string(h.head) == "PRI " && h.total-int64(h.buffered) < 24 && p.client.closed
}

type simConn struct {
	pair     *connPair
	side     int // 0 client end, 1 server end
	in, out  *half
	closed   bool
	closedAt time.Duration // since the start of the run
	resetAt  time.Duration
	reset    error // error seen by reads and writes from now on
	vanished bool  // peer is gone without telling
	laddr    net.Addr
	raddr    net.Addr
	rdl, wdl time.Time
	hasR     bool
	hasW     bool
	unreadOK bool
}

type simListener struct {
	net    *SimNet
	addr   *net.TCPAddr
	key    string
	queue  []*simConn
	wake   chan struct{}
	closed bool
}

type SimNet struct {
	rx        []*rxHook
	cfg       NetCfg
	rng       *Rng
	listeners map[string]*simListener
	conns     []*connPair
	nextPort  int
	start     time.Time
	dialMode  map[string]string // addr -> "", "refuse", "hang", "drop" (accept then reset)
	fired     map[string]int
	onConn    func(p *connPair)
	bytes     int64
	writes    int
	moved     int64 // bytes written plus bytes read
	onWrite   func(c *simConn, n int)
	onDial    func(key string) func()
	onOrphan  func() // nobody knows whose the connection is
	dials     int
	t0        time.Duration
}

func newSimNet(cfg NetCfg, rng *Rng) *SimNet {
	if cfg.Window <= 0 {
		cfg.Window = 256 << 10
	}
	return &SimNet{cfg: cfg, rng: rng, listeners: map[string]*simListener{}, nextPort: 40000,
		t0: time.Duration(runtime.SimNow()), start: time.Now(), dialMode: map[string]string{}, fired: map[string]int{}}
}

func (n *SimNet) now() time.Duration { return time.Duration(runtime.SimNow()) }

func (n *SimNet) latency() time.Duration {
	d := n.cfg.LatMinUs
	if n.cfg.LatMaxUs > n.cfg.LatMinUs {
		d += int64(n.rng.Intn(int(n.cfg.LatMaxUs - n.cfg.LatMinUs)))
	}
	return time.Duration(d) * time.Microsecond
}

func (n *SimNet) install() {
	net.SimDial = n.dial
	net.SimListen = n.listen
}

func splitAddr(address string) (*net.TCPAddr, string, error) {
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, "", err
	}
	port, err := strconv.Atoi(p)
	if err != nil {
		return nil, "", err
	}
	if h == "" || h == "localhost" || h == "0.0.0.0" {
		h = "127.0.0.1"
	}
	ip := net.ParseIP(h)
	if ip == nil {
		return nil, "", fmt.Errorf("no such host %s", h)
	}
	return &net.TCPAddr{IP: ip, Port: port}, h + ":" + p, nil
}

// listenKey: all loopback addresses of a port reach one listener, so that
// every client can have an address of its own.
func listenKey(key string) string {
	_, p, _ := net.SplitHostPort(key)
	return ":" + p
}

func (n *SimNet) listen(ctx context.Context, network, address string) (net.Listener, error) {
	a, key, err := splitAddr(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	key = listenKey(key)
	if l := n.listeners[key]; l != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &simListener{net: n, addr: a, key: key, wake: make(chan struct{}, 1)}
	n.listeners[key] = l
	return l, nil
}

func (l *simListener) Accept() (net.Conn, error) {
	for {
		runtime.SimYield(0xACC)
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		<-l.wake
	}
}

func (l *simListener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	delete(l.net.listeners, l.key)
	for _, c := range l.queue {
		c.closed = true
		c.pair.resetBoth()
	}
	l.queue = nil
	signal(l.wake)
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

func signal(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

func (n *SimNet) dial(ctx context.Context, network, address string) (net.Conn, error) {
	a, key, err := splitAddr(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	if owner, ok := ctx.Value(ownerKey{}).(string); ok {
		key = owner
	} else if n.onOrphan != nil && a.IP.String() == "127.0.0.9" {
		n.fired["dial-orphan"]++
		n.onOrphan()
	}
	if n.onDial != nil {
		done := n.onDial(key)
		defer done()
	}
	n.dials++
	runtime.SimYield(0xD1A)
	opErr := func(e error) error { return &net.OpError{Op: "dial", Net: network, Addr: a, Err: e} }
	wait := func(d time.Duration) error {
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
			return nil
		case <-ctx.Done():
			if errors.Is(ctx.Err(), context.DeadlineExceeded) {
				return opErr(os.ErrDeadlineExceeded)
			}
			return opErr(ctx.Err())
		}
	}
	if d := 2 * n.latency(); d > 0 {
		if err := wait(d); err != nil {
			return nil, err
		}
	}
	modeOf := func() string {
		if m := n.dialMode[key]; m != "" {
			return m
		}
		return n.dialMode["*"]
	}
	l := n.listeners[listenKey(key)]
	mode := modeOf()
	if mode == "hang" {
		n.fired["dial-hang"]++
		// poll for the end of the black hole, as SYN retransmission would
		for i, d := 0, time.Second; i < 7; i++ {
			if err := wait(d); err != nil {
				return nil, err
			}
			d *= 2
			if modeOf() != "hang" {
				break
			}
			if i == 6 {
				return nil, opErr(os.NewSyscallError("connect", syscall.ETIMEDOUT))
			}
		}
		l = n.listeners[listenKey(key)]
		mode = modeOf()
	}
	if l == nil || mode == "refuse" {
		n.fired["dial-refused"]++
		return nil, opErr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	n.nextPort++
	ca := &net.TCPAddr{IP: net.ParseIP("127.0.0.1"), Port: n.nextPort}
	ab := &half{cutAt: -1}
	ba := &half{cutAt: -1}
	p := &connPair{net: n, id: len(n.conns), addr: key, openedAt: n.now()}
	p.client = &simConn{pair: p, side: 0, in: ba, out: ab, laddr: ca, raddr: a}
	p.server = &simConn{pair: p, side: 1, in: ab, out: ba, laddr: a, raddr: ca}
	n.conns = append(n.conns, p)
	if mode == "drop" {
		n.fired["accept-drop"]++
		p.server.closed = true
		p.resetBoth()
		return p.client, nil
	}
	l.queue = append(l.queue, p.server)
	signal(l.wake)
	if n.onConn != nil {
		n.onConn(p)
	}
	runtime.SimYield(0xD1B)
	return p.client, nil
}

func (h *half) wakeAll() {
	for _, c := range h.rd {
		signal(c)
	}
	for _, c := range h.wr {
		signal(c)
	}
}

func (p *connPair) wake() {
	p.client.in.wakeAll()
	p.client.out.wakeAll()
}

func (p *connPair) dead() bool {
	return (p.client.closed || p.client.reset != nil) && (p.server.closed || p.server.reset != nil)
}

// resetBoth aborts the connection: both ends see ECONNRESET.
func (p *connPair) resetBoth() {
	p.resetEnd(0)
	p.resetEnd(1)
}

func (p *connPair) end(side int) *simConn {
	if side == 0 {
		return p.client
	}
	return p.server
}

func (p *connPair) resetEnd(side int) {
	c := p.end(side)
	if c.reset == nil {
		c.setReset(syscall.ECONNRESET)
	}
	p.wake()
}

func (c *simConn) setReset(err error) {
	c.reset = err
	c.resetAt = c.pair.net.since()
}

func (n *SimNet) since() time.Duration { return n.now() - n.t0 }

func (p *connPair) setCut(v bool) {
	p.cut = v
	if v {
		p.wasCut = true
	}
	if !v {
		p.wake()
		// probes that were pending while partitioned
		for s := 0; s < 2; s++ {
			c := p.end(s)
			o := p.end(1 - s)
			if o.reset != nil && c.reset == nil && !c.closed {
				p.scheduleReset(s, p.net.latency())
			}
		}
	}
}

func (p *connPair) scheduleReset(side int, d time.Duration) {
	time.AfterFunc(d, func() {
		if p.cut {
			return
		}
		p.resetEnd(side)
	})
}

// vanish makes the end disappear without a word (power loss, NAT drop). The
// other end finds out when it writes, or from keep-alive after 150 s.
func (p *connPair) vanish(side int) {
	p.wasCut = true
	c := p.end(side)
	if c.reset == nil {
		c.setReset(syscall.ECONNRESET)
	}
	o := p.end(1 - side)
	o.vanished = true
	c.in.wakeAll()
	c.out.wakeAll()
	time.AfterFunc(150*time.Second, func() {
		if o.reset == nil {
			o.setReset(syscall.ETIMEDOUT)
			p.wake()
		}
	})
}

func (c *simConn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

func (c *simConn) Read(b []byte) (int, error) {
	runtime.SimYield(0x4EAD)
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, c.op("read", net.ErrClosed)
		}
		now := c.pair.net.now()
		if c.hasR && !time.Now().Before(c.rdl) {
			return 0, c.op("read", os.ErrDeadlineExceeded)
		}
		h := c.in
		if !c.pair.cut && len(h.segs) > 0 && h.segs[0].at <= now {
			lim := len(b)
			if s := c.pair.net.cfg.ShortRd; s > 0 {
				if k := 1 + c.pair.net.rng.Intn(s); k < lim {
					lim = k
				}
			}
			n := 0
			for n < lim && len(h.segs) > 0 && h.segs[0].at <= now {
				k := copy(b[n:lim], h.segs[0].data)
				n += k
				h.segs[0].data = h.segs[0].data[k:]
				if len(h.segs[0].data) == 0 {
					h.segs = h.segs[1:]
				}
			}
			h.buffered -= n
			for _, w := range h.wr {
				signal(w)
			}
			c.pair.net.bytes += int64(n)
			c.pair.net.moved += int64(n)
			if c.side == 0 {
				c.pair.net.received(c.pair.addr)
			}
			runtime.SimYield(0x4EAE)
			return n, nil
		}
		if c.reset != nil {
			return 0, c.op("read", os.NewSyscallError("read", c.reset))
		}
		if !c.pair.cut && h.fin && len(h.segs) == 0 && h.finAt <= now {
			return 0, io.EOF
		}
		var next time.Duration = -1
		if !c.pair.cut {
			if len(h.segs) > 0 {
				next = h.segs[0].at - now
			} else if h.fin {
				next = h.finAt - now
			}
		}
		if c.hasR {
			if d := time.Until(c.rdl); next < 0 || d < next {
				next = d
			}
		}
		w := make(chan struct{}, 1)
		h.rd = append(h.rd, w)
		waitChan(w, next)
		h.rd = removeChan(h.rd, w)
	}
}

func waitChan(w chan struct{}, d time.Duration) {
	if d < 0 {
		<-w
		return
	}
	t := time.NewTimer(d)
	select {
	case <-w:
	case <-t.C:
	}
	t.Stop()
}

func removeChan(l []chan struct{}, w chan struct{}) []chan struct{} {
	for i, c := range l {
		if c == w {
			return append(l[:i:i], l[i+1:]...)
		}
	}
	return l
}

func (c *simConn) Write(b []byte) (int, error) {
	runtime.SimYield(0x3417E)
	n := c.pair.net
	if n.onWrite != nil {
		n.onWrite(c, len(b))
	}
	n.writes++
	if c == c.pair.server && bytes.HasPrefix(b, []byte("HTTP/1.1 101 ")) {
		c.pair.switched = true
	}
	done := 0
	for done < len(b) {
		if c.closed {
			return done, c.op("write", net.ErrClosed)
		}
		if c.reset != nil {
			return done, c.op("write", os.NewSyscallError("write", c.reset))
		}
		if c.hasW && !time.Now().Before(c.wdl) {
			return done, c.op("write", os.ErrDeadlineExceeded)
		}
		h := c.out
		peer := c.pair.end(1 - c.side)
		if c.vanished {
			// the first write after the peer vanished is answered by RST
			c.pair.scheduleReset(c.side, 2*n.latency()+time.Millisecond)
			return len(b), nil
		}
		if peer.closed || peer.reset != nil {
			// data to a closed socket: accepted, answered by RST
			c.pair.scheduleReset(c.side, 2*n.latency())
			return len(b), nil
		}
		room := n.cfg.Window - h.buffered
		if room <= 0 {
			n.fired["backpressure"]++
			d := time.Duration(-1)
			if c.hasW {
				d = time.Until(c.wdl)
			}
			w := make(chan struct{}, 1)
			h.wr = append(h.wr, w)
			waitChan(w, d)
			h.wr = removeChan(h.wr, w)
			continue
		}
		k := len(b) - done
		if k > room {
			k = room
		}
		if m := n.cfg.MSS; m > 0 {
			if s := 1 + n.rng.Intn(m); s < k {
				k = s
			}
		}
		cut := false
		if h.cutAt >= 0 && h.total+int64(k) >= h.cutAt {
			k = int(h.cutAt - h.total)
			cut = true
		}
		at := n.now() + n.latency()
		if at < h.lastAt {
			at = h.lastAt
		}
		h.lastAt = at
		if k > 0 {
			h.segs = append(h.segs, segment{append([]byte(nil), b[done:done+k]...), at})
			h.buffered += k
			if r := 4 - len(h.head); r > 0 {
				h.head = append(h.head, b[done:min(done+k, done+r)]...)
			}
			h.total += int64(k)
			n.moved += int64(k)
			done += k
		}
		for _, r := range h.rd {
			signal(r)
		}
		if cut {
			n.fired["cut-mid-message"]++
			h.cutAt = -1
			p := c.pair
			if c.reset == nil {
				c.setReset(syscall.ECONNRESET)
			}
			time.AfterFunc(at-n.now(), func() { p.resetBoth() })
			p.wake()
			if done == len(b) {
				// the cut came right after this write
				return done, nil
			}
			return done, c.op("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
	}
	runtime.SimYield(0x3417F)
	return done, nil
}

func (c *simConn) Close() error {
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	c.closedAt = c.pair.net.since()
	h := c.out
	h.fin = true
	h.finAt = c.pair.net.now() + c.pair.net.latency()
	if h.finAt < h.lastAt {
		h.finAt = h.lastAt
	}
	if c.in.buffered > 0 && c.reset == nil {
		// unread data: RST, as a kernel does
		o := 1 - c.side
		if c.pair.end(o).reset == nil {
			c.pair.scheduleReset(o, h.finAt-c.pair.net.now())
		}
	}
	c.pair.wake()
	return nil
}

// CloseWrite is the half-close of TCP.
func (c *simConn) CloseWrite() error {
	h := c.out
	if !h.fin {
		h.fin = true
		h.finAt = c.pair.net.now() + c.pair.net.latency()
		if h.finAt < h.lastAt {
			h.finAt = h.lastAt
		}
		c.pair.wake()
	}
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return c.laddr }
func (c *simConn) RemoteAddr() net.Addr { return c.raddr }
func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *simConn) SetReadDeadline(t time.Time) error {
	c.rdl, c.hasR = t, !t.IsZero()
	for _, w := range c.in.rd {
		signal(w)
	}
	return nil
}
func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.wdl, c.hasW = t, !t.IsZero()
	for _, w := range c.out.wr {
		signal(w)
	}
	return nil
}

// open lists the connections to addr that are not dead ("" for all).
func (n *SimNet) open(addr string) []*connPair {
	var l []*connPair
	for _, p := range n.conns {
		if (addr == "" || p.addr == addr) && !p.dead() {
			l = append(l, p)
		}
	}
	return l
}

func hostKey(a string) string { return strings.Replace(a, "localhost", "127.0.0.1", 1) }
