package main

// C14 and C15, continued: bursts, very large objects, very long queues, peers
// that fail during a socket-wide Send, callbacks that take their time, listening
// addresses taken over at once and connections that are idle for long.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry/network"
)

// rawPair makes a connection of which one end is raw and the other one a peer
// of the sink: accepted by ls, or dialed to raw.
type rawPair struct {
	mu  sync.Mutex
	raw net.Listener
}

func newRawPair() *rawPair {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	return &rawPair{raw: l}
}

// accept has a dialing socket connect to us.
func (p *rawPair) accept(ser string, sink network.ISocketSink) (net.Conn, network.ISocket) {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := network.NewSocket(p.raw.Addr().String(), ser, sink)
	s.Dial()
	c, err := p.raw.Accept()
	if err != nil {
		fail("%v", err)
	}
	return c, s
}

func init() {
	// Bursts of very short objects, after which the line is silent: they all
	// arrive, though nothing comes that could make the reader look again.
	scenario("c14burst", func(w *W) {
		uniq := fmt.Sprint("-", atomic.AddInt64(&wireUniq, 1))
		network.ExtendSerializer("burst"+uniq, lineSer{})
		type end struct {
			got  []string
			in   chan bool
			gate chan bool
		}
		var mu sync.Mutex
		ends := map[string]*end{}
		get := func(p network.IPeer) *end {
			mu.Lock()
			defer mu.Unlock()
			a := p.RemoteAddr().String() + p.LocalAddr().String()
			e := ends[a]
			if e == nil {
				e = &end{in: make(chan bool), gate: make(chan bool)}
				ends[a] = e
			}
			return e
		}
		s := newSide("the side that reads")
		s.onPack = func(l *life, o interface{}) {
			e := get(l.peer)
			str, _ := o.(string)
			mu.Lock()
			e.got = append(e.got, str)
			first := len(e.got) == 1
			mu.Unlock()
			if first {
				close(e.in)
				<-e.gate
			}
		}
		addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
		ls := network.NewSocket(addr, "burst"+uniq, s)
		ls.Listen()
		pair := newRawPair()
		var progress int64
		ok := w.GroupProgress(4, &progress, func(k int) {
			r := w.R(k)
			for n := 0; n < w.N && !w.Bad(); n++ {
				var c net.Conn
				var err error
				if r.Intn(2) == 0 {
					c, _ = pair.accept("burst"+uniq, s)
				} else if c, err = net.Dial("tcp", addr); err != nil {
					w.Viol("hang", "no connection: %v", err)
					return
				}
				a := c.LocalAddr().String() + c.RemoteAddr().String()
				most := 1 + r.Intn(8)
				// One read of the code under test takes some thousands of these.
				count := []int{900, 1024, 2500, 5000, 9000, 40000}[r.Intn(6)] + r.Intn(100)
				var buf bytes.Buffer
				want := make([]string, count)
				for j := range want {
					want[j] = strings.Repeat(string(rune('a'+j%26)), r.Intn(most)+1)
					buf.WriteString(want[j] + "\n")
				}
				held := r.Intn(3) > 0
				get2 := func() *end { mu.Lock(); defer mu.Unlock(); return ends[a] }
				if !held {
					mu.Lock()
					e := &end{in: make(chan bool), gate: make(chan bool)}
					close(e.gate)
					ends[a] = e
					mu.Unlock()
				}
				// The first object alone, so that the rest is there at once when
				// the reader comes back.
				head := len(want[0]) + 1
				c.Write(buf.Bytes()[:head])
				if held && !w.Await(func() bool {
					e := get2()
					return e != nil && func() bool { mu.Lock(); defer mu.Unlock(); return len(e.got) > 0 }()
				}) {
					w.Viol("lost", "the first object does not arrive\n%s", Dump())
					return
				}
				done := make(chan struct{})
				go func() { c.Write(buf.Bytes()[head:]); close(done) }()
				if held {
					select {
					case <-done:
					case <-time.After(30 * time.Millisecond): // more than fits
					}
					close(get2().gate)
				}
				if !w.Done(done) {
					w.Viol("hang", "the other side does not read\n%s", Dump())
					return
				}
				if !w.Await(func() bool { e := get2(); mu.Lock(); defer mu.Unlock(); return e != nil && len(e.got) >= count }) {
					mu.Lock()
					w.Viol("lost", "%d objects of up to %d bytes are sent, then nothing: %d arrive", count, most, len(ends[a].got))
					mu.Unlock()
					return
				}
				mu.Lock()
				got := ends[a].got
				delete(ends, a)
				mu.Unlock()
				for j := range want {
					if got[j] != want[j] {
						w.Viol("object", "object %d of %d is %q instead of %q", j, count, short(got[j]), want[j])
						break
					}
				}
				w.Eval(count)
				w.Count("objects in bursts with silence after", count)
				w.State("burst %d most %d held %v", count/100, most, held)
				c.Close()
				atomic.AddInt64(&progress, 1)
			}
		})
		if !ok {
			w.Viol("hang", "\n%s", Dump())
		}
		ls.Close()
		w.Sample("bursts of up to 40000 objects of 1 to 8 bytes, then silence: each arrives")
	})

	// Very large objects, both ways, among small ones.
	c14huge := func(w *W) {
		uniq := fmt.Sprint("-", atomic.AddInt64(&wireUniq, 1))
		network.ExtendSerializer("huge"+uniq, lenSer{4})
		addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
		mb := []int{1, 70, 5, 140, 17}
		if w.p("mb", 0) > 0 {
			mb = append(mb, int(w.p("mb", 0)))
		}
		var progress int64
		mk := func(name string) *side {
			s := newSide(name)
			s.onPack = func(l *life, o interface{}) {
				b, _ := o.([]byte)
				l.mu.Lock()
				want := mb[min(len(l.packets)/2, len(mb)-1)] << 20
				if len(l.packets)%2 == 1 {
					want = 3
				}
				good := len(b) == want
				for i := 0; i < len(b) && good; i += 4093 {
					good = b[i] == byte(i>>8)^byte(i>>16)^7
				}
				if !good && l.token == 0 {
					l.token = 1
					w.Viol("object", "%s: object %d has %d bytes instead of %d, or they are damaged", name, len(l.packets), len(b), want)
				}
				l.packets = append(l.packets, len(b))
				l.mu.Unlock()
				atomic.AddInt64(&progress, 1)
			}
			return s
		}
		server, client := mk("the accepting side"), mk("the dialing side")
		ls := network.NewSocket(addr, "huge"+uniq, server)
		ls.Listen()
		s := network.NewSocket(addr, "huge"+uniq, client)
		s.Dial()
		if !w.Await(func() bool { return len(server.all()) == 1 }) {
			w.Viol("hang", "no connection\n%s", Dump())
			return
		}
		for _, x := range []network.ISocket{ls, s} {
			for _, m := range mb {
				b := make([]byte, m<<20)
				for i := range b {
					b[i] = byte(i>>8) ^ byte(i>>16) ^ 7
				}
				x.Send(b)
				x.Send(b[:3])
			}
		}
		all := func() bool {
			_, _, a, _, _ := server.all()[0].state()
			_, _, b, _, _ := client.all()[0].state()
			return a >= 2*len(mb) && b >= 2*len(mb)
		}
		last := int64(-1)
		for !w.AwaitN(hangTicks*2, all) {
			if p := atomic.LoadInt64(&progress); p != last {
				last = p
				continue
			}
			w.Viol("lost", "objects of %v MB are sent both ways, %d of %d have arrived\n%s", mb, progress, 4*len(mb), Dump())
			break
		}
		for _, m := range mb {
			w.State("huge %d", m)
		}
		w.Eval(4 * len(mb))
		s.Close()
		ls.Close()
	}
	scenario("c14huge", c14huge)
	scenario("c14hugemock", func(w *W) { network.Mock("tcp"); c14huge(w) })

	// Far more objects waiting than any queue that has been sized.
	c14queue := func(w *W) {
		uniq := fmt.Sprint("-", atomic.AddInt64(&wireUniq, 1))
		network.ExtendSerializer("queue"+uniq, lenSer{4})
		addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
		gate := make(chan bool)
		var next, total int64
		server, client := newSide("the accepting side"), newSide("the dialing side")
		server.onPack = func(l *life, o interface{}) {
			b, _ := o.([]byte)
			if len(b) != 8 {
				w.Viol("object", "an object of %d bytes", len(b))
				return
			}
			if n := int64(binary.BigEndian.Uint64(b)); n != next {
				w.Viol("lost", "object %d comes when %d is due", n, next)
				next = n
			}
			if next == 0 {
				<-gate
			}
			next++
			atomic.AddInt64(&total, 1)
		}
		ls := network.NewSocket(addr, "queue"+uniq, server)
		ls.Listen()
		s := network.NewSocket(addr, "queue"+uniq, client)
		s.Dial()
		buf := make([]byte, 8*w.N)
		for i := 0; i < w.N; i++ {
			b := buf[8*i : 8*i+8]
			binary.BigEndian.PutUint64(b, uint64(i))
			s.Send(b)
		}
		close(gate)
		last := int64(-1)
		for !w.AwaitN(200, func() bool { return atomic.LoadInt64(&total) >= int64(w.N) || w.Bad() }) {
			n := atomic.LoadInt64(&total)
			if n == last && !w.Await(func() bool { return atomic.LoadInt64(&total) != n }) {
				w.Viol("lost", "%d objects were waiting to be sent, %d arrive\n%s", w.N, n, Dump())
				break
			}
			last = n
		}
		w.Eval(int(total))
		w.Max("objects waiting at once", w.N)
		w.State("queue %d", w.N)
		s.Close()
		ls.Close()
	}
	scenario("c14queue", c14queue)
	scenario("c14queuemock", func(w *W) { network.Mock("tcp"); c14queue(w) })

	// A socket-wide Send reaches every connected peer, also when others cannot
	// be sent to any more but are not known to be gone yet.
	scenario("c14some", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
			gate := make(chan bool)
			s := newSide("the accepting side")
			s.onPack = func(l *life, o interface{}) {
				if o == interface{}("dies\x00") {
					<-gate
				}
			}
			ls := network.NewSocket(addr, "txt", s)
			ls.Listen()
			n := 2 + w.Intn(5)
			dead := map[int]bool{w.Intn(n): true, w.Intn(n): w.Intn(2) == 0}
			if w.Intn(2) == 0 {
				dead[0] = true
			}
			var cs []net.Conn
			boxes := make([]struct {
				sync.Mutex
				got []byte
			}, n)
			for i := 0; i < n; i++ {
				c, err := net.Dial("tcp", addr)
				if err != nil {
					w.Viol("hang", "no connection: %v", err)
					return
				}
				cs = append(cs, c)
				if !w.Await(func() bool { return len(s.all()) == i+1 }) {
					w.Viol("hang", "a connection is not accepted\n%s", Dump())
					return
				}
				if dead[i] {
					c.Write([]byte("dies\x00more\x00"))
					continue
				}
				go func(i int) {
					b := make([]byte, 4096)
					for {
						k, err := c.Read(b)
						boxes[i].Lock()
						boxes[i].got = append(boxes[i].got, b[:k]...)
						boxes[i].Unlock()
						if err != nil {
							return
						}
					}
				}(i)
			}
			if !w.Await(func() bool {
				for i, l := range s.all() {
					if _, _, k, _, _ := l.state(); dead[i] && k == 0 {
						return false
					}
				}
				return true
			}) {
				w.Viol("lost", "the first object does not arrive\n%s", Dump())
				return
			}
			for i, c := range cs {
				if dead[i] {
					if w.Intn(2) == 0 {
						c.(*net.TCPConn).SetLinger(0)
					}
					c.Close()
				}
			}
			total := 10 + w.Intn(60)
			want := ""
			for k := 0; k < total; k++ {
				ls.Send(fmt.Sprintf("all %d\x00", k))
				want += fmt.Sprintf("all %d\x00", k)
				if w.Intn(3) > 0 {
					time.Sleep(time.Duration(w.Intn(800)) * time.Microsecond)
				}
			}
			for i := range cs {
				if dead[i] {
					continue
				}
				ok := w.Await(func() bool { boxes[i].Lock(); defer boxes[i].Unlock(); return len(boxes[i].got) >= len(want) })
				boxes[i].Lock()
				if got := string(boxes[i].got); got != want {
					w.Viol("lost", "%d objects are sent to all of %d peers, of which some (%v) have closed: peer %d gets %d bytes instead of %d (in time %v), %q", total, n, dead, i, len(got), len(want), ok, short(got))
				}
				boxes[i].Unlock()
				w.Eval(total)
			}
			w.Count("socket-wide sends with peers that fail", total)
			w.State("some %d of %d dead %v", len(dead), n, dead[0])
			close(gate)
			ls.Close()
			for _, c := range cs {
				c.Close()
			}
		}
		w.Sample("socket-wide sends while some peers have closed and are still busy: all others get everything")
	})

	// OnConnected may take its time: neither packets nor the end of the
	// connection are reported before it has returned.
	scenario("c15slow", func(w *W) {
		pair := newRawPair()
		var progress int64
		ok := w.GroupProgress(6, &progress, func(k int) {
			r := w.R(k)
			for n := 0; n < w.N && !w.Bad(); n++ {
				var busy, early, conns, ends, packs int64
				s := &hooks{}
				nap := time.Duration(r.Intn(5)*r.Intn(1000)) * time.Microsecond
				own := r.Intn(5) == 0 // closes from within the callback
				gate := make(chan bool)
				gated := r.Intn(3) == 0
				if !gated {
					close(gate)
				}
				var sock network.ISocket
				s.conn = func(p network.IPeer) {
					atomic.AddInt64(&busy, 1)
					atomic.AddInt64(&conns, 1)
					if own {
						sock.Close()
					}
					<-gate
					time.Sleep(nap)
					atomic.AddInt64(&busy, -1)
				}
				s.end = func(p network.IPeer) {
					if atomic.LoadInt64(&busy) != 0 || atomic.LoadInt64(&conns) == 0 {
						atomic.AddInt64(&early, 1)
					}
					atomic.AddInt64(&ends, 1)
				}
				s.pack = func(p network.IPeer, o interface{}) {
					if atomic.LoadInt64(&busy) != 0 || atomic.LoadInt64(&conns) == 0 {
						atomic.AddInt64(&early, 1)
					}
					atomic.AddInt64(&packs, 1)
				}
				dials := r.Intn(2) == 0
				var c net.Conn
				done := make(chan struct{})
				if dials {
					pair.mu.Lock()
					sock = network.NewSocket(pair.raw.Addr().String(), "txt", s)
					go func() { sock.Dial(); close(done) }()
					c, _ = pair.raw.Accept()
					pair.mu.Unlock()
				} else {
					close(done)
					addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
					sock = network.NewSocket(addr, "txt", s)
					sock.Listen()
					var err error
					if c, err = net.Dial("tcp", addr); err != nil {
						w.Viol("hang", "no connection: %v", err)
						return
					}
				}
				if r.Intn(3) > 0 {
					c.Write([]byte("one\x00two\x00"))
				}
				if r.Intn(3) > 0 {
					w.Await(func() bool { return atomic.LoadInt64(&conns) > 0 })
				}
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
				}
				how := r.Intn(4)
				var closing sync.WaitGroup
				if how != 1 {
					closing.Add(1)
					go func() { defer closing.Done(); sock.Close() }()
				}
				if how == 1 || how == 2 {
					c.Close()
				}
				if gated {
					if r.Intn(2) == 0 {
						time.Sleep(3 * time.Millisecond)
					}
					close(gate)
				}
				closed := make(chan struct{})
				go func() { closing.Wait(); close(closed) }()
				if !w.Done(done) || !w.Done(closed) {
					w.Viol("hang", "Dial or Close does not return\n%s", Dump())
					return
				}
				what := fmt.Sprintf("dials %v, ends in way %d, OnConnected takes %v, waits %v, closes itself %v", dials, how, nap, gated, own)
				if !w.Await(func() bool { return atomic.LoadInt64(&ends) >= atomic.LoadInt64(&conns) }) {
					w.Viol("open", "%s: OnClosed is not reported\n%s", what, Dump())
					return
				}
				sock.Close()
				c.Close()
				if !w.Await(func() bool {
					return atomic.LoadInt64(&ends) >= atomic.LoadInt64(&conns) && atomic.LoadInt64(&busy) == 0
				}) {
					w.Viol("open", "%s: OnClosed is not reported after Close\n%s", what, Dump())
					return
				}
				if atomic.LoadInt64(&early) != 0 {
					w.Viol("early", "%s: %d callbacks while OnConnected was running or before it", what, early)
				}
				if n := atomic.LoadInt64(&conns); n > 1 || atomic.LoadInt64(&ends) > 1 {
					w.Viol("callbacks", "%s: %d OnConnected, %d OnClosed", what, n, atomic.LoadInt64(&ends))
				}
				w.Eval(1)
				w.Count("connections with a slow OnConnected", 1)
				w.State("slow dials %v how %d gated %v own %v packs %d conns %d", dials, how, gated, own, atomic.LoadInt64(&packs), atomic.LoadInt64(&conns))
				atomic.AddInt64(&progress, 1)
			}
		})
		if !ok {
			w.Viol("hang", "\n%s", Dump())
		}
	})

	// When Close has returned, the address can be listened on by others.
	scenario("c15free", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
			s := newSide("the accepting side")
			ls := network.NewSocket(addr, "txt", s)
			ls.Listen()
			n := w.Intn(6)
			var cs []net.Conn
			for i := 0; i < n; i++ {
				if c, err := net.Dial("tcp", addr); err == nil {
					cs = append(cs, c)
				}
			}
			if w.Intn(2) == 0 {
				w.Await(func() bool { return len(s.all()) == n })
			}
			ls.Close()
			l, err := net.Listen("tcp", addr)
			if err != nil {
				w.Viol("address", "the address of a closed socket with %d connections can't be listened on: %v", n, err)
				return
			}
			// Those who connect now do not reach the closed one.
			before := len(s.all())
			c, err := net.Dial("tcp", addr)
			if err == nil {
				c.Close()
			}
			l.Close()
			if len(s.all()) != before && len(s.all()) > n {
				w.Viol("callbacks", "a closed socket reports a connection")
			}
			for _, c := range cs {
				c.Close()
			}
			w.Eval(1)
			w.Count("addresses taken over at once", 1)
			w.State("free %d", n)
		}
	})

	// Connections that are idle for long are still open.
	c15idle := func(w *W) {
		rest := w.p("ticks", 6300)
		network.ExtendSerializer("idle", lineSer{})
		var all []func(n int) string
		check := func(i int) func(n int) string {
			ser := []string{"txt", "idle"}[i%2]
			end := []string{"\x00", ""}[i%2]
			addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
			server, client := newSide("the accepting side"), newSide("the dialing side")
			ls := network.NewSocket(addr, ser, server)
			ls.Listen()
			s := network.NewSocket(addr, ser, client)
			s.Dial()
			if i < 4 && !w.Await(func() bool { return len(server.all()) == 1 }) {
				return nil
			}
			return func(n int) string {
				s.Send(fmt.Sprint("up", n, end))
				ls.Send(fmt.Sprint("down", n, end))
				ok := w.Await(func() bool {
					_, _, a, _, _ := server.all()[0].state()
					_, _, b, _, _ := client.all()[0].state()
					return a >= n && b >= n
				})
				_, x, _, _, _ := server.all()[0].state()
				_, y, _, _, _ := client.all()[0].state()
				if !ok || x+y > 0 {
					return fmt.Sprintf("objects arrive: %v, OnClosed reported: %d, %d", ok, x, y)
				}
				return ""
			}
		}
		for i := 0; i < 4; i++ {
			f := check(i)
			if f == nil {
				w.Viol("hang", "no connection\n%s", Dump())
				return
			}
			all = append(all, f)
		}
		// Two of them have never been used before the rest.
		for n, due := range []int64{1000, rest - 1000, 300} {
			for i, f := range all {
				if n == 0 && i < 2 {
					continue
				}
				k := n + 1
				if i < 2 {
					k = n
				}
				if s := f(k); s != "" {
					w.Viol("idle", "a connection that was idle for a while: %s\n%s", s, Dump())
					return
				}
			}
			w.Sleep(due)
		}
		for i, f := range all {
			k := 4
			if i < 2 {
				k = 3
			}
			if s := f(k); s != "" {
				w.Viol("idle", "a connection that was idle for %d ticks: %s", rest, s)
			}
			w.Eval(1)
		}
		w.Max("ticks a connection was idle", int(rest))
		w.State("idle")
	}
	scenario("c15idle", c15idle)
	scenario("c15idlemock", func(w *W) { network.Mock("tcp"); c15idle(w) })
}

// hooks is a sink of functions.
type hooks struct {
	conn, end func(p network.IPeer)
	pack      func(p network.IPeer, o interface{})
}

func (h *hooks) OnConnected(p network.IPeer)             { h.conn(p) }
func (h *hooks) OnClosed(p network.IPeer)                { h.end(p) }
func (h *hooks) OnPacket(p network.IPeer, o interface{}) { h.pack(p, o) }
