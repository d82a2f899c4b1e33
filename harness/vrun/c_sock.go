package main

// C14 and C15: the network package by itself.

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry/network"
)

// Serializers of the harness. Each knows how to wrap bytes into an object.
type lenSer struct{ size int } // objects are []byte, the header has size bytes

func (s lenSer) Marshal(o interface{}) []byte {
	b := o.([]byte)
	h := make([]byte, 8)
	binary.LittleEndian.PutUint64(h, uint64(len(b)))
	return append(h[:s.size:s.size], b...)
}
func (s lenSer) Unmarshal(d []byte) interface{} { return append([]byte(nil), d[s.size:]...) }
func (s lenSer) Slice(src []byte) int {
	if len(src) < s.size {
		return 0
	}
	h := make([]byte, 8)
	copy(h, src[:s.size])
	n := int(binary.LittleEndian.Uint64(h)) + s.size
	if len(src) < n {
		return 0
	}
	return n
}

type lineSer struct{} // objects are strings, frames end with a newline

func (lineSer) Marshal(o interface{}) []byte   { return []byte(o.(string) + "\n") }
func (lineSer) Unmarshal(d []byte) interface{} { return string(d[:len(d)-1]) }
func (lineSer) Slice(src []byte) int           { return bytes.IndexByte(src, '\n') + 1 }

type object struct{ body []byte }
type objSer struct{} // objects are structs, Unmarshal keeps the slice it is given

func (objSer) Marshal(o interface{}) []byte {
	b := o.(*object).body
	h := make([]byte, 7)
	h[0], h[1] = 'O', 'K'
	binary.BigEndian.PutUint32(h[2:], uint32(len(b)))
	return append(append(h, b...), 'E')
}
func (objSer) Unmarshal(d []byte) interface{} {
	if d[0] != 'O' || d[1] != 'K' || d[len(d)-1] != 'E' {
		return fmt.Errorf("frame % x", d[:min(len(d), 40)])
	}
	return &object{d[7 : len(d)-1]}
}
func (objSer) Slice(src []byte) int {
	if len(src) < 7 {
		return 0
	}
	n := int(binary.BigEndian.Uint32(src[2:])) + 8
	if len(src) < n {
		return 0
	}
	return n
}

type wire struct {
	name string
	ser  network.ISerializer // nil for one that exists already
	wrap func(b []byte) interface{}
	open func(o interface{}) []byte
}

func openBytes(o interface{}) []byte { b, _ := o.([]byte); return b }
func openHex(cut int) func(o interface{}) []byte {
	return func(o interface{}) []byte {
		s, _ := o.(string)
		if len(s) < cut {
			return nil
		}
		b, _ := hex.DecodeString(s[:len(s)-cut])
		return b
	}
}

func wires(uniq string) []wire {
	return []wire{
		{"txt", nil, func(b []byte) interface{} { return hex.EncodeToString(b) + "\x00" }, openHex(1)},
		{"len4" + uniq, lenSer{4}, func(b []byte) interface{} { return b }, openBytes},
		{"len8" + uniq, lenSer{8}, func(b []byte) interface{} { return b }, openBytes},
		{"line" + uniq, lineSer{}, func(b []byte) interface{} { return hex.EncodeToString(b) }, openHex(0)},
		{"obj" + uniq, objSer{}, func(b []byte) interface{} { return &object{b} }, func(o interface{}) []byte {
			x, ok := o.(*object)
			if !ok {
				return nil
			}
			return x.body
		}},
	}
}

// message: sender, number, checksum, body.
func message(sender, seq uint32, size int) []byte {
	b := make([]byte, 12, 12+size)
	binary.BigEndian.PutUint32(b, sender)
	binary.BigEndian.PutUint32(b[4:], seq)
	b = append(b, blob(int64(sender)<<32|int64(seq), size)...)
	binary.BigEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[12:])^sender^seq)
	return b
}

// mailbox judges what one side of a connection receives.
type mailbox struct {
	mu    sync.Mutex
	next  map[uint32]uint32 // sender -> number due
	total int
	bad   string
	what  string
	kept  [][]byte
}

func (m *mailbox) keep(b []byte) { m.mu.Lock(); m.kept = append(m.kept, b); m.mu.Unlock() }

// intact tells what is wrong with a message.
func intact(b []byte) string {
	if len(b) < 12 {
		return fmt.Sprintf("not a message: % x", b)
	}
	sender, seq, sum := binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:]), binary.BigEndian.Uint32(b[8:])
	if crc32.ChecksumIEEE(b[12:])^sender^seq != sum || string(b[12:]) != blob(int64(sender)<<32|int64(seq), len(b)-12) {
		return fmt.Sprintf("damaged, of %d bytes", len(b))
	}
	return ""
}

func (m *mailbox) take(b []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.total++
	if m.bad != "" {
		return
	}
	if len(b) < 12 {
		m.bad = fmt.Sprintf("%s receives an object that nobody has sent: % x", m.what, b)
		return
	}
	sender, seq := binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
	if intact(b) != "" {
		m.bad = fmt.Sprintf("%s receives a damaged object of %d bytes", m.what, len(b))
		return
	}
	if m.next[sender] != seq {
		m.bad = fmt.Sprintf("%s receives object %d of sender %d, but %d is due", m.what, seq, sender, m.next[sender])
		return
	}
	m.next[sender]++
}

func (m *mailbox) count() int { m.mu.Lock(); defer m.mu.Unlock(); return m.total }

// side is a sink. Each peer has a life of its own.
type side struct {
	name   string
	mu     sync.Mutex
	lives  []*life
	byPeer map[network.IPeer]*life
	stray  string
	onConn func(l *life)
	onPack func(l *life, o interface{})
	onEnd  func(l *life)
}

type life struct {
	peer      network.IPeer
	mu        sync.Mutex
	connected int
	closed    int
	packets   []interface{}
	npackets  int
	late      int // packets after OnClosed
	early     int // packets before OnConnected
	box       *mailbox
	token     uint32
}

func newSide(name string) *side { return &side{name: name, byPeer: map[network.IPeer]*life{}} }

func (s *side) life(p network.IPeer) *life {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.byPeer[p]
	if l == nil {
		l = &life{peer: p, box: &mailbox{next: map[uint32]uint32{}, what: s.name}}
		s.byPeer[p] = l
		s.lives = append(s.lives, l)
	}
	return l
}

func (s *side) all() []*life {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*life(nil), s.lives...)
}

func (s *side) OnConnected(p network.IPeer) {
	l := s.life(p)
	l.mu.Lock()
	l.connected++
	l.mu.Unlock()
	if s.onConn != nil {
		s.onConn(l)
	}
}

func (s *side) OnClosed(p network.IPeer) {
	l := s.life(p)
	l.mu.Lock()
	l.closed++
	if l.connected == 0 {
		l.early++
	}
	l.mu.Unlock()
	if s.onEnd != nil {
		s.onEnd(l)
	}
}

func (s *side) OnPacket(p network.IPeer, o interface{}) {
	l := s.life(p)
	l.mu.Lock()
	if l.connected == 0 {
		l.early++
	}
	if l.closed > 0 {
		l.late++
	}
	l.npackets++
	l.mu.Unlock()
	if s.onPack != nil {
		s.onPack(l, o)
	}
}

func (l *life) state() (connected, closed, packets, early, late int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.connected, l.closed, l.npackets, l.early, l.late
}

var wireUniq int64

func init() {
	c14 := func(w *W) {
		mock := w.p("mock", 0) != 0
		own := w.p("txt", 0) != 0
		if own {
			// Registered before there is any socket.
			network.ExtendSerializer("txt", lineSer{})
		}
		for round := 0; round < w.N && !w.Bad(); round++ {
			uniq := fmt.Sprint("-", atomic.AddInt64(&wireUniq, 1))
			ws := wires(uniq)
			if own {
				ws[0].wrap, ws[0].open = ws[3].wrap, ws[3].open
			}
			wi := ws[w.Intn(len(ws))]
			if own && round < 2 {
				wi = ws[0]
			}
			addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
			if wi.ser != nil {
				network.ExtendSerializer(wi.name, wi.ser)
			}
			clients := 1 + w.Intn(5)
			slow := w.Intn(3) == 0
			maxSize := []int{40, 3000, 12000, 300000}[w.Intn(4)]
			perSender := []int{3, 40, 400}[w.Intn(3)]
			if maxSize > 12000 {
				perSender = min(perSender, 10)
			}
			if w.p("deep", 0) != 0 {
				maxSize, perSender, clients = 10, 30000, 1+w.Intn(2)
			}
			greet := w.Intn(4) * w.Intn(20)
			server := newSide("the accepting side")
			var sides []*side
			var total int64
			keep := strings.HasPrefix(wi.name, "obj") // which keeps what it is given
			onPack := func(l *life, o interface{}) {
				l.box.take(wi.open(o))
				if keep {
					l.box.keep(wi.open(o))
				}
				atomic.AddInt64(&total, 1)
				if slow && l.box.count()%16 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			// Objects from the connection callback, by the sender number 1000.
			hello := func(l *life) {
				r := rand.New(rand.NewSource(int64(round)))
				for i := 0; i < greet; i++ {
					l.peer.Send(wi.wrap(message(1000, uint32(i), r.Intn(maxSize))))
				}
			}
			server.onPack, server.onConn = onPack, hello
			ls := network.NewSocket(addr, wi.name, server)
			ls.Listen()
			to := addr
			seg := -1
			if !mock && w.Intn(3) > 0 {
				seg = []int{1, 2, 7, 1000, 20000}[w.Intn(5)]
				to = w.proxy(addr, seg, 2*time.Millisecond).Addr
			}
			var socks []network.ISocket
			for i := 0; i < clients; i++ {
				c := newSide(fmt.Sprint("dialing side ", i))
				c.onPack, c.onConn = onPack, hello
				s := network.NewSocket(to, wi.name, c)
				s.Dial()
				socks = append(socks, s)
				sides = append(sides, c)
			}
			if !w.Await(func() bool {
				n := 0
				for _, l := range server.all() {
					if c, _, _, _, _ := l.state(); c > 0 {
						n++
					}
				}
				return n >= clients
			}) {
				w.Viol("hang", "%d of %d connections are accepted\n%s", len(server.all()), clients, Dump())
				return
			}
			ends := server.all()
			// Meanwhile others are registered.
			stop := make(chan struct{})
			go func() {
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
						network.ExtendSerializer(fmt.Sprintf("other%s.%d", uniq, i%5), lineSer{})
						time.Sleep(time.Millisecond)
					}
				}
			}()
			// Senders: 0..3 per peer of the server, some to all, some per client.
			var sent int64
			senders := 1 + w.Intn(4)
			sendDone := w.Group(senders*(clients*2+1), func(i int) {
				r := w.R(i + round*1000)
				k, g := i%senders, i/senders
				nap := r.Intn(4) == 0
				for n := 0; n < perSender; n++ {
					size := r.Intn(12)
					if r.Intn(3) == 0 {
						size = r.Intn(maxSize)
					}
					b := wi.wrap(message(uint32(k+1), uint32(n), size))
					switch {
					case g < clients: // from the accepting side
						ends[g].peer.Send(b)
						atomic.AddInt64(&sent, 1)
					case g < 2*clients: // from a dialing one
						if k%2 == 0 {
							socks[g-clients].Send(b)
						} else {
							sides[g-clients].all()[0].peer.Send(b)
						}
						atomic.AddInt64(&sent, 1)
					default: // to all
						ls.Send(wi.wrap(message(uint32(k+500), uint32(n), size)))
						atomic.AddInt64(&sent, int64(clients))
					}
					if nap && n%50 == 0 {
						time.Sleep(time.Millisecond)
					}
				}
			})
			close(stop)
			if !sendDone {
				w.Viol("hang", "Send blocks\n%s", Dump())
				return
			}
			boxes := []*mailbox{}
			for _, l := range ends {
				boxes = append(boxes, l.box)
			}
			for _, s := range sides {
				boxes = append(boxes, s.all()[0].box)
			}
			want := func(i int) int {
				n := senders*perSender + greet
				if i >= clients {
					n += senders * perSender // what is sent to all
				}
				return n
			}
			last, end := int64(-1), w.Ticks()+hangTicks
			lost := false
			for {
				missing := 0
				for i, b := range boxes {
					if b.count() < want(i) {
						missing++
					}
				}
				if missing == 0 {
					break
				}
				if t := atomic.LoadInt64(&total); t != last {
					last, end = t, w.Ticks()+hangTicks
				} else if w.Ticks() > end {
					lost = true
					break
				}
				time.Sleep(time.Millisecond)
			}
			w.Sleep(1)
			desc := fmt.Sprintf("serializer %s, %d connections, %d senders each, cuts %d, up to %d bytes, mock %v", wi.name, clients, senders, seg, maxSize, mock)
			for i, b := range boxes {
				b.mu.Lock()
				if b.bad != "" {
					w.Viol("object", "%s: %s", desc, b.bad)
				} else if b.total != want(i) {
					w.Viol("lost", "%s: %s has received %d objects instead of %d (stuck %v)", desc, b.what, b.total, want(i), lost)
				}
				// They are still what they were when they came.
				for j, k := range b.kept {
					if s := intact(k); s != "" && b.bad == "" {
						w.Viol("changed", "%s: object %d of %d changes after it was delivered: it is %s now", desc, j, len(b.kept), s)
						break
					}
				}
				w.Count("objects judged again at the end", len(b.kept))
				w.Eval(b.total)
				b.mu.Unlock()
			}
			if lost && !w.Bad() {
				w.Viol("lost", "%s", desc)
			}
			for _, s := range socks {
				s.Close()
			}
			ls.Close()
			w.Count("objects delivered", int(atomic.LoadInt64(&total)))
			w.State("%s %d %d seg %d size %d n %d slow %v greet %v mock %v", wi.name[:3], clients, senders, seg, maxSize, perSender, slow, greet > 0, mock)
			w.Sample("%s: %d objects, each once, in order, identical", desc, atomic.LoadInt64(&total))
		}
	}
	scenario("c14", c14)
	scenario("c14mock", func(w *W) {
		network.Mock("tcp")
		c14(w)
	})
	checks["C14"] = func(c *C) {
		c.Rule("1 to 5 connections, 1 to 4 senders per direction and socket-wide ones, with five serializers of which four are registered at run time while sockets are in use, objects from 12 bytes to 300 KB, up to 30000 queued behind each other there and 1.8 million elsewhere, objects of 140 MB, bursts of 40000 objects of 1 to 8 bytes with silence after, socket-wide sends past peers that have failed, slow receivers, objects sent from the connection callback, over TCP, over TCP cut into pieces from 1 byte, and over the mock network; sender, number and checksum in every object, judged when it comes and, for a serializer that keeps the bytes it is given, again at the end. Distinct: serializer x connections x senders x cutting x size x number x network.")
		var jobs []Job
		jobs = append(jobs, Times(c.Pick(5, 12), Job{Scenario: "c14", N: c.Pick(24, 120)})...)
		jobs = append(jobs, Times(c.Pick(3, 8), Job{Scenario: "c14mock", N: c.Pick(24, 120), P: map[string]int64{"mock": 1}})...)
		jobs = append(jobs, Job{Scenario: "c14", N: c.Pick(2, 10), P: map[string]int64{"deep": 1}}, Job{Scenario: "c14mock", N: c.Pick(1, 5), P: map[string]int64{"deep": 1, "mock": 1}})
		jobs = append(jobs, Job{Scenario: "c14", N: c.Pick(4, 20), P: map[string]int64{"txt": 1}}, Job{Scenario: "c14mock", N: c.Pick(4, 20), P: map[string]int64{"txt": 1, "mock": 1}})
		jobs = append(jobs, Job{Scenario: "c14", N: c.Pick(4, 30), Race: true}, Job{Scenario: "c14mock", N: c.Pick(4, 30), Race: true, P: map[string]int64{"mock": 1}})
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c14burst", N: c.Pick(25, 200)})...)
		jobs = append(jobs, Job{Scenario: "c14huge", P: map[string]int64{"mb": int64(c.Pick(0, 600))}}, Job{Scenario: "c14hugemock"})
		jobs = append(jobs, Job{Scenario: "c14queue", N: c.Pick(1800000, 5000000)}, Job{Scenario: "c14queuemock", N: c.Pick(1300000, 5000000)})
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c14some", N: c.Pick(60, 400)})...)
		jobs = append(jobs, Job{Scenario: "c14many", N: c.Pick(200000, 20000000)}, Job{Scenario: "c14many", N: c.Pick(200000, 20000000), P: map[string]int64{"mock": 1}},
			Job{Scenario: "c14many", N: c.Pick(80, 300), P: map[string]int64{"size": 60000000}}, Job{Scenario: "c14many", N: c.Pick(80, 300), P: map[string]int64{"size": 60000000, "mock": 1}})
		jobs = append(jobs, Job{Scenario: "c14peers", N: c.Pick(150, 1500)})
		jobs = append(jobs, Job{Scenario: "c14some", N: c.Pick(10, 60), Race: true}, Job{Scenario: "c14burst", N: c.Pick(3, 20), Race: true})
		c.Run(6, jobs...)
	}
}

// C15

func init() {
	judge := func(w *W, what string, s *side) {
		for _, l := range s.all() {
			c, d, n, early, _ := l.state()
			w.Eval(1)
			w.Count("connections judged", 1)
			if c != 1 || d != 1 || early != 0 {
				w.Viol("callbacks", "%s: %s has had %d OnConnected, %d OnClosed, %d callbacks before OnConnected (%d packets)", what, s.name, c, d, early, n)
				return
			}
		}
	}
	closedAll := func(w *W, what string, ss ...*side) bool {
		if !w.Await(func() bool {
			for _, s := range ss {
				for _, l := range s.all() {
					if _, d, _, _, _ := l.state(); d == 0 {
						return false
					}
				}
			}
			return true
		}) {
			w.Viol("open", "%s: OnClosed is not reported\n%s", what, Dump())
			return false
		}
		return true
	}
	c15 := func(w *W) {
		mock := w.p("mock", 0) != 0
		for round := 0; round < w.N && !w.Bad(); round++ {
			addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
			server := newSide("the accepting side")
			var closeIn, armed, conns int64
			var ls network.ISocket
			closer := w.Intn(8)
			clients := 1 + w.Intn(8)
			traffic := w.Intn(2) == 0
			how := w.Intn(6)
			what := fmt.Sprintf("end %d, closing from callback %d, %d connections, traffic %v, mock %v", how, closer, clients, traffic, mock)
			tokens := map[uint32]*life{}
			var tmu sync.Mutex
			server.onPack = func(l *life, o interface{}) {
				if s, ok := o.(string); ok && strings.HasPrefix(s, "token") {
					var t uint32
					fmt.Sscanf(s, "token %d", &t)
					tmu.Lock()
					tokens[t] = l
					tmu.Unlock()
				}
				if closer == 1 && atomic.LoadInt64(&armed) > 0 && atomic.AddInt64(&closeIn, 1) == 3 {
					ls.Close()
				}
			}
			server.onConn = func(l *life) {
				if n := atomic.AddInt64(&conns, 1); closer == 2 && int(n) == clients {
					ls.Close()
				}
				l.peer.Send("hello\x00")
				if w.p("slowconn", 0) != 0 {
					time.Sleep(time.Millisecond)
				}
			}
			server.onEnd = func(l *life) {
				if closer == 3 && atomic.LoadInt64(&armed) > 0 {
					ls.Close()
				}
				l.peer.Send("too late\x00")
			}
			ls = network.NewSocket(addr, "txt", server)
			ls.Listen()
			to := addr
			var px *Proxy
			if how == 3 || how == 4 {
				if mock {
					how = 0
				} else {
					px = w.proxy(addr, 50, 0)
					to = px.Addr
				}
			}
			var sides []*side
			var socks []network.ISocket
			for i := 0; i < clients; i++ {
				c := newSide(fmt.Sprint("dialing side ", i))
				token := uint32(i + 1)
				c.onConn = func(l *life) {
					l.token = token
					l.peer.Send(fmt.Sprintf("token %d\x00", token))
				}
				s := network.NewSocket(to, "txt", c)
				if closer == 4 {
					var n int64
					c.onPack = func(l *life, o interface{}) {
						if atomic.AddInt64(&n, 1) == 1 {
							s.Close()
						}
					}
				}
				if closer == 2 && i == clients-1 {
					// The listener closes as soon as it accepts this one, so dialing
					// may fail, which ends the process.
					if !w.Await(func() bool { return len(server.all()) == clients-1 }) {
						w.Viol("hang", "%s: connections are not accepted\n%s", what, Dump())
						return
					}
					atomic.StoreInt64(&armed, 1)
					if !mock {
						if c, err := net.Dial("tcp", addr); err == nil {
							defer c.Close()
						}
						break
					}
				}
				s.Dial()
				sides = append(sides, c)
				socks = append(socks, s)
			}
			atomic.StoreInt64(&armed, 1)
			if closer == 1 {
				for i := 0; i < 3; i++ {
					socks[0].Send("close\x00")
				}
			}
			if closer == 0 || closer > 4 {
				if !w.Await(func() bool { tmu.Lock(); defer tmu.Unlock(); return len(tokens) == clients }) {
					w.Viol("hang", "%s: %d of %d connections\n%s", what, len(tokens), clients, Dump())
					return
				}
				for i, c := range sides {
					if len(c.all()) != 1 {
						w.Viol("callbacks", "%s: dialing side %d has seen %d peers", what, i, len(c.all()))
						return
					}
				}
				// Both sides agree on who they are.
				for _, c := range sides {
					l := c.all()[0]
					tmu.Lock()
					o := tokens[l.token]
					tmu.Unlock()
					if !l.peer.IsSelf() || o.peer.IsSelf() {
						w.Viol("self", "IsSelf is %v on the dialing side and %v on the accepting one", l.peer.IsSelf(), o.peer.IsSelf())
					}
					a, b := l.peer.LocalAddr().String(), o.peer.RemoteAddr().String()
					x, y := l.peer.RemoteAddr().String(), o.peer.LocalAddr().String()
					if px == nil && (a != b || x != y) {
						w.Viol("address", "the dialing side is %s and talks to %s, the accepting one is %s and talks to %s", a, x, y, b)
					}
					if px == nil && !strings.HasSuffix(x, addr[strings.LastIndex(addr, ":"):]) {
						w.Viol("address", "the dialing side talks to %s instead of %s", x, addr)
					}
					w.Count("address pairs compared", 1)
				}
			}
			stop := make(chan struct{})
			var wg sync.WaitGroup
			if traffic {
				for i := range socks {
					wg.Add(2)
					go func(i int) {
						defer wg.Done()
						for n := 0; ; n++ {
							select {
							case <-stop:
								return
							default:
								socks[i].Send(fmt.Sprintf("data %d\x00", n))
								if n%20 == 0 {
									time.Sleep(100 * time.Microsecond)
								}
							}
						}
					}(i)
					go func() {
						defer wg.Done()
						for n := 0; ; n++ {
							select {
							case <-stop:
								return
							default:
								ls.Send(fmt.Sprintf("down %d\x00", n))
								time.Sleep(100 * time.Microsecond)
							}
						}
					}()
				}
			}
			w.Sleep(int64(w.Intn(2)))
			switch how {
			case 0: // the dialing sides
				w.Group(len(socks), func(i int) { socks[i].Close() })
			case 1: // the listener
				ls.Close()
			case 2: // both at once, and several times
				w.Group(2*len(socks)+2, func(i int) {
					if i < 2*len(socks) {
						socks[i/2].Close()
					} else {
						ls.Close()
					}
				})
			case 3, 4: // the line
				px.Cut(how == 4)
				px.Close()
			case 5: // one after the other
				for _, s := range socks {
					s.Close()
				}
				ls.Close()
			}
			// A connection ends for both sides.
			if !closedAll(w, what, append(sides, server)...) {
				close(stop)
				return
			}
			ls.Close()
			close(stop)
			wg.Wait()
			for _, s := range socks {
				s.Close()
			}
			w.Sleep(1)
			judge(w, what, server)
			for _, c := range sides {
				judge(w, what, c)
				if len(c.all()) != 1 {
					w.Viol("callbacks", "%s: a dialing side has seen %d peers", what, len(c.all()))
				}
			}
			// The address is free and nothing is reported any more.
			before := len(server.all())
			if !mock {
				c, err := net.Dial("tcp", addr)
				if err == nil {
					c.Close()
				}
			}
			other := newSide("the second accepting side")
			l2 := network.NewSocket(addr, "txt", other)
			l2.Listen() // exits the process if the address is still in use
			d2 := newSide("the second dialing side")
			s2 := network.NewSocket(addr, "txt", d2)
			s2.Dial()
			s2.Send("again\x00")
			if !w.Await(func() bool {
				for _, l := range other.all() {
					if _, _, n, _, _ := l.state(); n > 0 {
						return true
					}
				}
				return false
			}) {
				w.Viol("hang", "%s: the address does not work again\n%s", what, Dump())
			}
			s2.Close()
			l2.Close()
			closedAll(w, "second use", other, d2)
			if len(server.all()) != before {
				w.Viol("callbacks", "%s: a closed socket reports a new connection", what)
			}
			w.State("how %d closer %d clients %d traffic %v mock %v", how, closer, clients, traffic, mock)
			w.Sample("%s: %d+%d connections with one OnConnected and one OnClosed each", what, len(server.all()), len(sides))
		}
	}
	scenario("c15", c15)
	scenario("c15mock", func(w *W) {
		network.Mock("tcp")
		c15(w)
	})

	// Raw peers end in all ways, after whole and partial packets.
	scenario("c15raw", func(w *W) {
		addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
		server := newSide("the accepting side")
		var progress int64
		var mu sync.Mutex
		packs := map[string][]string{} // by remote address
		ended := map[string]int{}
		server.onPack = func(l *life, o interface{}) {
			a := l.peer.RemoteAddr().String()
			s, _ := o.(string)
			if w.p("slow", 0) != 0 {
				time.Sleep(50 * time.Microsecond)
			}
			mu.Lock()
			packs[a] = append(packs[a], s)
			mu.Unlock()
			atomic.AddInt64(&progress, 1)
		}
		server.onEnd = func(l *life) {
			mu.Lock()
			ended[l.peer.RemoteAddr().String()] = len(packs[l.peer.RemoteAddr().String()]) + 1
			mu.Unlock()
		}
		ls := network.NewSocket(addr, "txt", server)
		ls.Listen()
		ok := w.GroupProgress(6, &progress, func(i int) {
			r := w.R(i)
			for n := 0; n < w.N && !w.Bad(); n++ {
				c, err := net.Dial("tcp", addr)
				if err != nil {
					w.Viol("hang", "dial: %v", err)
					return
				}
				a := c.LocalAddr().String()
				k := []int{0, 1, 3, 200, 3000}[r.Intn(5)]
				if w.p("slow", 0) != 0 && k > 200 {
					k = 700
				}
				var buf []byte
				var want []string
				for j := 0; j < k; j++ {
					s := fmt.Sprintf("%d %s\x00", j, strings.Repeat("z", r.Intn(20)))
					want = append(want, s)
					buf = append(buf, s...)
				}
				partial := r.Intn(2) == 0
				if partial {
					buf = append(buf, "rest"...)
				}
				for len(buf) > 0 {
					m := len(buf)
					if r.Intn(2) == 0 {
						m = 1 + r.Intn(m)
					}
					c.Write(buf[:m])
					buf = buf[m:]
				}
				way := r.Intn(4)
				switch way {
				case 0, 3:
					c.Close()
				case 1: // only our direction
					c.(*net.TCPConn).CloseWrite()
				case 2: // reset: what the kernel has not handed over is gone
					c.(*net.TCPConn).SetLinger(0)
					c.Close()
				}
				if !w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return ended[a] > 0 || k == 0 && way == 2 }) {
					w.Viol("open", "peer that ends in way %d after %d packets: OnClosed is not reported\n%s", way, k, Dump())
					return
				}
				mu.Lock()
				got := packs[a]
				atEnd := ended[a] - 1
				mu.Unlock()
				if way != 2 {
					if atEnd != len(want) {
						w.Viol("early", "peer sends %d packets and ends in way %d: %d are delivered before OnClosed, %d in all", k, way, atEnd, len(got))
					}
				}
				for j, s := range got {
					if j >= len(want) || s != want[j] {
						w.Viol("object", "packet %d is %q", j, short(s))
						break
					}
				}
				if way == 1 {
					// Our side sees the end, too.
					c.SetReadDeadline(time.Now().Add(60 * time.Second))
					if _, err := c.Read(make([]byte, 1)); err == nil {
						w.Viol("object", "unexpected data")
					} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
						w.Viol("open", "the connection stays open after the peer has ended its direction")
					}
					c.Close()
				}
				w.Eval(1)
				atomic.AddInt64(&progress, 1)
				w.State("raw %d %d partial %v", way, k, partial)
				mu.Lock()
				delete(packs, a)
				delete(ended, a)
				mu.Unlock()
			}
		})
		if !ok {
			w.Viol("hang", "peers hang\n%s", Dump())
			return
		}
		if !w.Bad() && closedAll(w, "raw peers", server) {
			w.Sleep(1)
			judge(w, "raw peers", server)
		}
		ls.Close()
		if canDial(addr) {
			w.Viol("callbacks", "closed socket still accepts")
		}
	})

	checks["C15"] = func(c *C) {
		c.Rule("1 to 8 connections with and without traffic in both directions end in 6 ways (either side, both at once and repeatedly, line closed or reset) and by Close called from within any callback; raw peers end by close, half-close or reset after 0 to 3000 whole packets and a partial one; every callback of every connection is recorded and judged, the listening address is used again at once, by others too; OnConnected callbacks that take their time while the connection ends; connections idle for more than a minute; TCP and mock. Distinct: way of ending x callback that closes x connections x traffic x network.")
		c.Assume("attempts to connect begin after Close has returned; a reset may discard what was not read")
		var jobs []Job
		jobs = append(jobs, Times(c.Pick(4, 10), Job{Scenario: "c15", N: c.Pick(80, 400)})...)
		jobs = append(jobs, Times(c.Pick(3, 8), Job{Scenario: "c15mock", N: c.Pick(80, 400), P: map[string]int64{"mock": 1}})...)
		jobs = append(jobs, Job{Scenario: "c15raw", N: c.Pick(60, 600)}, Job{Scenario: "c15raw", N: c.Pick(30, 300), P: map[string]int64{"slow": 1}})
		jobs = append(jobs, Job{Scenario: "c15", N: c.Pick(15, 100), Race: true, P: map[string]int64{"slowconn": 1}}, Job{Scenario: "c15mock", N: c.Pick(15, 100), Race: true, P: map[string]int64{"mock": 1}}, Job{Scenario: "c15raw", N: c.Pick(10, 60), Race: true})
		jobs = append([]Job{{Scenario: "c15idle", P: map[string]int64{"ticks": int64(c.Pick(6300, 31000))}, Timeout: 850}, {Scenario: "c15idlemock", P: map[string]int64{"ticks": int64(c.Pick(6300, 31000))}, Timeout: 850}}, jobs...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c15slow", N: c.Pick(150, 1500)})...)
		jobs = append(jobs, Job{Scenario: "c15slow", N: c.Pick(30, 200), Race: true})
		jobs = append(jobs, Job{Scenario: "c15free", N: c.Pick(400, 4000)})
		jobs = append(jobs, Job{Scenario: "c14peers", N: c.Pick(150, 1500)}, Job{Scenario: "c14peers", N: c.Pick(30, 300), Race: true})
		jobs = append(jobs, Job{Scenario: "c15dials", N: c.Pick(100, 1500)}, Job{Scenario: "c15dials", N: c.Pick(100, 1500), P: map[string]int64{"mock": 1}}, Job{Scenario: "c15dials", N: c.Pick(15, 150), Race: true})
		jobs = append(jobs, Job{Scenario: "c15unread", N: c.Pick(400, 3000)}, Job{Scenario: "c15unread", N: c.Pick(20, 150), Race: true})
		c.Run(6, jobs...)
	}
}
