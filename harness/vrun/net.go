package main

// Peers, hubs, docks and proxies made by the harness, and helpers that start
// the real ones in this process.

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
)

const nSlots = 16

// Every worker has a range of hub ports and of dock ports of its own, below the
// ephemeral ports.
const (
	hubBase, hubSpan   = 10000, 600
	dockBase, dockSpan = 20001, 790
	minPort, maxPort   = 20001, 49000
)

var (
	portMu             sync.Mutex
	nextHub, nextBlock int
)

// hubPort returns an unused port for a hub or anything else that listens.
func (w *W) hubPort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		if nextHub >= hubSpan {
			fail("out of hub ports")
		}
		p := hubBase + w.Slot*hubSpan + nextHub
		nextHub++
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		return p
	}
}

// block reserves n dock ports and returns the first.
func (w *W) block(n int) int {
	portMu.Lock()
	defer portMu.Unlock()
	if nextBlock+n > dockSpan {
		fail("out of dock ports")
	}
	p := dockBase + w.Slot*dockSpan + nextBlock
	nextBlock += n
	return p
}

// blackExcept lists all ports of the hub's range but those of the block.
func blackExcept(first, n int) []int {
	out := make([]int, 0, maxPort-minPort)
	for p := minPort; p <= maxPort; p++ {
		if p < first || p >= first+n {
			out = append(out, p)
		}
	}
	return out
}

func canDial(addr string) bool {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// startHub runs a real hub in this process that hands out n ports.
func (w *W) startHub(n int) string {
	first := w.block(n)
	addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
	w.serve(addr, blackExcept(first, n)...)
	return addr
}

func (w *W) serve(addr string, black ...int) {
	go ferry.Serve(addr, black...)
	if !w.Await(func() bool { return canDial(addr) }) {
		w.Viol("hang", "hub does not listen on %s\n%s", addr, Dump())
		w.finish()
		exit()
	}
}

// Peer is a connection that speaks the protocol without using the code under
// test.
type Peer struct {
	net.Conn
	w      *W
	r      *rand.Rand
	mu     sync.Mutex
	got    []Packet
	bad    error // frame that does not follow the protocol
	closed bool  // remote has closed
	wmu    sync.Mutex
	on     func(p *Peer, k Packet)
	raw    int64
}

func newPeer(w *W, c net.Conn, seed int64, on func(p *Peer, k Packet)) *Peer {
	p := &Peer{Conn: c, w: w, r: rand.New(rand.NewSource(seed)), on: on}
	go p.loop()
	return p
}

func (p *Peer) loop() {
	h := make([]byte, 4)
	for {
		_, err := io.ReadFull(p.Conn, h)
		var body []byte
		if err == nil {
			n := binary.LittleEndian.Uint32(h)
			if n > 1<<28 {
				p.mu.Lock()
				p.bad = fmt.Errorf("frame of %d bytes", n)
				p.mu.Unlock()
				io.Copy(io.Discard, p.Conn)
				err = io.EOF
			} else {
				body = make([]byte, n)
				_, err = io.ReadFull(p.Conn, body)
			}
		}
		if err != nil {
			p.mu.Lock()
			p.closed = true
			p.mu.Unlock()
			return
		}
		k, err := decPacket(body)
		p.mu.Lock()
		if err != nil {
			if p.bad == nil {
				p.bad = fmt.Errorf("% x: %v", body[:min(len(body), 80)], err)
			}
			p.mu.Unlock()
			continue
		}
		p.got = append(p.got, k)
		on := p.on
		p.mu.Unlock()
		if on != nil {
			on(p, k)
		}
	}
}

// Put sends a packet, with integers of any width if the peer has been told to.
func (p *Peer) Put(id int, fields ...interface{}) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	_, err := p.Conn.Write(encPacket(p.r, id, fields...))
	return err
}

func (p *Peer) PutRaw(b []byte) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	_, err := p.Conn.Write(b)
	return err
}

func (p *Peer) Closed() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.closed }
func (p *Peer) Bad() error   { p.mu.Lock(); defer p.mu.Unlock(); return p.bad }

// Got returns the packets of an id received so far.
func (p *Peer) Got(id int) []Packet {
	p.mu.Lock()
	defer p.mu.Unlock()
	var out []Packet
	for _, k := range p.got {
		if k.ID == id {
			out = append(out, k)
		}
	}
	return out
}

func (p *Peer) All() []Packet {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Packet(nil), p.got...)
}

// AwaitN waits for n packets of an id.
func (p *Peer) AwaitGot(id, n int) bool {
	return p.w.Await(func() bool { return len(p.Got(id)) >= n })
}

var peerSeed int64

// dialPeer connects to addr, from a given local host if any.
func (w *W) dialPeer(host, addr string, on func(p *Peer, k Packet)) *Peer {
	c, err := dialFrom(host, addr)
	if err != nil {
		// Under heavy use the kernel may be short of ports or backlog.
		for i := 0; i < 50 && err != nil; i++ {
			w.Sleep(2)
			c, err = dialFrom(host, addr)
		}
		if err != nil {
			return nil
		}
	}
	return newPeer(w, c, w.Job.Seed*31+atomic.AddInt64(&peerSeed, 1), on)
}

func dialFrom(host, addr string) (net.Conn, error) {
	d := net.Dialer{}
	if host != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(host)}
	}
	return d.Dial("tcp", addr)
}

// FakeHub is a hub made by the harness: it assigns ports, answers queries and
// keeps what it has seen.
type FakeHub struct {
	w     *W
	Addr  string
	l     net.Listener
	first int
	n     int
	mu    sync.Mutex
	conns []*hubConn
	// Route maps the address of a dock to the one that is handed out.
	Route   func(addr string) string
	Delay   func()
	pending map[string][]*Peer
	queries int
	Answer  func(p *Peer, slot string) (addr string, ok bool) // overrides routing
	Spoil   func(p *Peer, id int, field interface{})          // called before an answer is sent
}

type hubConn struct {
	p     *Peer
	slots []string
	ready map[string]bool
	port  int
	regs  int
}

func (w *W) fakeHub(n int) *FakeHub {
	h := &FakeHub{w: w, first: w.block(n), n: n, pending: map[string][]*Peer{}}
	h.Addr = fmt.Sprintf("127.0.0.1:%d", w.hubPort())
	l, err := net.Listen("tcp", h.Addr)
	if err != nil {
		fail("%v", err)
	}
	h.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			hc := &hubConn{ready: map[string]bool{}}
			h.mu.Lock()
			h.conns = append(h.conns, hc)
			hc.p = newPeer(w, c, w.Job.Seed*77+atomic.AddInt64(&peerSeed, 1), func(p *Peer, k Packet) { h.handle(hc, p, k) })
			h.mu.Unlock()
		}
	}()
	return h
}

func (h *FakeHub) handle(hc *hubConn, p *Peer, k Packet) {
	if h.Delay != nil {
		h.Delay()
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	switch k.ID {
	case pRegReq:
		hc.regs++
		hc.slots = append(hc.slots, k.Strs(0)...)
		if hc.port == 0 {
			if h.n == 0 {
				fail("fake hub is out of ports")
			}
			hc.port = h.first
			h.first++
			h.n--
		}
		if h.Spoil != nil {
			h.Spoil(p, pRegResp, hc.port)
		}
		p.Put(pRegResp, hc.port)
	case pReady:
		for _, s := range k.Strs(0) {
			hc.ready[s] = true
			for _, q := range h.pending[s] {
				h.answer(q, s, hc)
			}
			delete(h.pending, s)
		}
	case pQueryReq:
		h.queries++
		s := k.Str(0)
		if h.Answer != nil {
			if a, ok := h.Answer(p, s); ok {
				p.Put(pQueryResp, a)
				return
			}
		}
		for i := len(h.conns) - 1; i >= 0; i-- {
			if c := h.conns[i]; c.ready[s] && c.p != nil && !c.p.Closed() {
				h.answer(p, s, c)
				return
			}
		}
		h.pending[s] = append(h.pending[s], p)
	}
}

func (h *FakeHub) answer(p *Peer, slot string, c *hubConn) {
	host, _, _ := net.SplitHostPort(c.p.RemoteAddr().String())
	a := net.JoinHostPort(host, strconv.Itoa(c.port))
	if h.Route != nil {
		a = h.Route(a)
	}
	if h.Spoil != nil {
		h.Spoil(p, pQueryResp, a)
	}
	p.Put(pQueryResp, a)
}

// End stops listening.
func (h *FakeHub) End() { h.l.Close() }

// Conns returns the connections as they are now.
func (h *FakeHub) Conns() []hubConn {
	h.mu.Lock()
	defer h.mu.Unlock()
	var out []hubConn
	for _, c := range h.conns {
		out = append(out, *c)
	}
	return out
}

func (h *FakeHub) Queries() int { h.mu.Lock(); defer h.mu.Unlock(); return h.queries }

// FakeDock is a dock made by the harness. It registers with a hub, real or not.
type FakeDock struct {
	w     *W
	Hub   *Peer
	Addr  string
	Port  int
	Slots []string
	l     net.Listener
	mu    sync.Mutex
	conns []*Peer
	On    func(p *Peer, k Packet) // rpc requests and whatever else
	Quiet bool                    // no register request and ready of its own
	Acc   func(p *Peer)           // a new connection
	host  string
	gone  bool
}

// fakeDock joins the hub from the host and listens on the port it is given.
func (w *W) fakeDock(host, hub string, slots []string, on func(p *Peer, k Packet)) *FakeDock {
	return w.fakeDockWith(host, hub, slots, on, nil)
}

// fakeDockWith calls setup before the dock listens.
func (w *W) fakeDockWith(host, hub string, slots []string, on func(p *Peer, k Packet), setup func(d *FakeDock)) *FakeDock {
	d := &FakeDock{w: w, Slots: slots, On: on, host: host}
	if host == "" {
		host = "127.0.0.1"
	}
	d.Hub = w.dialPeer(host, hub, nil)
	if d.Hub == nil {
		return nil
	}
	d.Hub.Put(pRegReq, slots)
	if !d.Hub.AwaitGot(pRegResp, 1) {
		return nil
	}
	d.Port = int(d.Hub.Got(pRegResp)[0].Int(0))
	d.Addr = net.JoinHostPort(host, strconv.Itoa(d.Port))
	if setup != nil {
		setup(d)
	}
	if !d.Listen() {
		fail("fake dock can't listen on %s", d.Addr)
	}
	return d
}

func (d *FakeDock) Listen() bool {
	l, err := net.Listen("tcp", d.Addr)
	if err != nil {
		return false
	}
	d.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			p := newPeer(d.w, c, d.w.Job.Seed*131+atomic.AddInt64(&peerSeed, 1), d.handle)
			d.mu.Lock()
			d.conns = append(d.conns, p)
			gone := d.gone
			d.mu.Unlock()
			if gone {
				p.Close()
				return
			}
			if !d.Quiet {
				p.Put(pRegReq, d.Slots)
			}
			if d.Acc != nil {
				d.Acc(p)
			}
		}
	}()
	return true
}

func (d *FakeDock) handle(p *Peer, k Packet) {
	if k.ID == pRegReq && !d.Quiet {
		p.Put(pReady, d.Slots)
	}
	if d.On != nil {
		d.On(p, k)
	}
}

func (d *FakeDock) Ready() { d.Hub.Put(pReady, d.Slots) }

func (d *FakeDock) Conns() []*Peer {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]*Peer(nil), d.conns...)
}

// End stops listening, and every connection that is just being made.
func (d *FakeDock) End() {
	d.mu.Lock()
	d.gone = true
	d.mu.Unlock()
	d.l.Close()
}

// Kill ends the dock abruptly.
func (d *FakeDock) Kill() {
	d.End()
	d.Hub.Close()
	for _, c := range d.Conns() {
		c.Close()
	}
}

// dialDock connects to a dock's port like a dock would. It registers before it
// is ready, hub doesn't need to know the slots then.
func (w *W) dialDock(addr string, slots []string, on func(p *Peer, k Packet)) *Peer {
	var once sync.Once
	register := func(q *Peer) {
		once.Do(func() { q.Put(pRegReq, slots) })
	}
	p := w.dialPeer("", addr, func(q *Peer, k Packet) {
		if k.ID == pRegReq {
			register(q)
			q.Put(pReady, slots)
		}
		if on != nil {
			on(q, k)
		}
	})
	if p != nil {
		register(p)
	}
	return p
}

// Proxy forwards connections, cutting and delaying the stream.
type Proxy struct {
	Addr   string
	target string
	l      net.Listener
	mu     sync.Mutex
	conns  []net.Conn
	seg    int
	delay  time.Duration
	seed   int64
	n      int64
	cuts   int
	closed bool
	hold   chan struct{} // if not nil, nothing passes until it is closed
	Bytes  int64
	Writes int64
}

func (w *W) proxy(target string, seg int, delay time.Duration) *Proxy {
	p := &Proxy{target: target, seg: seg, delay: delay, seed: w.Job.Seed*257 + atomic.AddInt64(&peerSeed, 1)}
	p.Addr = fmt.Sprintf("127.0.0.1:%d", w.hubPort())
	l, err := net.Listen("tcp", p.Addr)
	if err != nil {
		fail("%v", err)
	}
	p.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			cuts := p.cuts
			p.mu.Unlock()
			go p.handle(c, cuts)
		}
	}()
	return p
}

func (p *Proxy) handle(c net.Conn, cuts int) {
	t, err := net.Dial("tcp", p.target)
	if err != nil {
		c.Close()
		return
	}
	p.mu.Lock()
	cut := p.cuts != cuts || p.closed
	if !cut {
		p.conns = append(p.conns, c, t)
	}
	p.mu.Unlock()
	if cut {
		// Meanwhile.
		c.Close()
		t.Close()
		return
	}
	n := atomic.AddInt64(&p.n, 2)
	go p.pipe(c, t, n)
	p.pipe(t, c, n+1)
}

func (p *Proxy) pipe(from, to net.Conn, k int64) {
	r := rand.New(rand.NewSource(p.seed + k))
	defer to.Close()
	if p.hold != nil {
		<-p.hold
	}
	b := make([]byte, 64<<10)
	for {
		if p.delay > 0 && r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Int63n(int64(p.delay))))
		}
		n, err := from.Read(b)
		out := b[:n]
		for len(out) > 0 {
			m := len(out)
			if p.seg > 0 {
				m = 1 + r.Intn(p.seg)
				// Big transfers are not cut into single bytes all the way.
				if r.Intn(4) == 0 || n > 4096 {
					m += r.Intn(2000)
				}
				if m > len(out) {
					m = len(out)
				}
			}
			if _, e := to.Write(out[:m]); e != nil {
				from.Close()
				return
			}
			atomic.AddInt64(&p.Writes, 1)
			atomic.AddInt64(&p.Bytes, int64(m))
			out = out[m:]
			if p.delay > 0 && len(out) > 0 && r.Intn(8) == 0 {
				time.Sleep(time.Duration(r.Int63n(int64(p.delay))))
			}
		}
		if err != nil {
			return
		}
	}
}

// Cut breaks all connections, with a reset if asked to.
func (p *Proxy) Cut(reset bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.cuts++
	for _, c := range p.conns {
		if t, ok := c.(*net.TCPConn); ok && reset {
			t.SetLinger(0)
		}
		c.Close()
	}
	p.conns = nil
}

func (p *Proxy) Close() {
	p.mu.Lock()
	p.closed = true
	p.mu.Unlock()
	p.l.Close()
	p.Cut(false)
}

// ProxyNet makes a proxy per target address, for FakeHub.Route.
type ProxyNet struct {
	w     *W
	mu    sync.Mutex
	m     map[string]*Proxy
	seg   int
	delay time.Duration
}

func (w *W) proxyNet(seg int, delay time.Duration) *ProxyNet {
	return &ProxyNet{w: w, m: map[string]*Proxy{}, seg: seg, delay: delay}
}

func (n *ProxyNet) Route(addr string) string {
	n.mu.Lock()
	defer n.mu.Unlock()
	p := n.m[addr]
	if p == nil {
		p = n.w.proxy(addr, n.seg, n.delay)
		n.m[addr] = p
	}
	return p.Addr
}

func hostOf(addr string) string {
	i := strings.LastIndex(addr, ":")
	return addr[:i]
}
