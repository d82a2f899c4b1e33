package main

// C16: hostile peers against a hub or a dock that runs in a process of its own,
// while well-behaved peers are served.

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"
)

// Evil knows what is worth attacking.
type Evil struct {
	w      *W
	addr   string // of the victim
	names  []string
	slots  []string // carried by the victim, if it is a dock
	port   int      // a dock must not listen there
	trap   net.Listener
	caught int64
	sent   int64
	floor  int64 // ids of calls are below
	index  int64 // of a call that waits for somebody else's reply
}

func (w *W) evil(addr string, slots []string) *Evil {
	e := &Evil{w: w, addr: addr, slots: slots, port: w.hubPort(), names: []string{"x.one", "x.two", ""}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	e.trap = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt64(&e.caught, 1)
			c.Close()
		}
	}()
	return e
}

// packet makes a well-formed packet that is out of place or makes no sense.
func (e *Evil) packet(g Gen) []byte {
	names := []string{e.names[g.Intn(len(e.names))]}
	for g.Intn(4) == 0 {
		names = append(names, e.names[g.Intn(len(e.names))])
	}
	slot := func() string {
		if len(e.slots) > 0 && g.Intn(3) > 0 {
			return e.slots[g.Intn(len(e.slots))]
		}
		return "x.none"
	}
	index := func() int64 {
		if i := atomic.LoadInt64(&e.index); i != 0 && g.Intn(2) == 0 {
			return i + int64(g.Intn(3)) - 1
		}
		return g.Int63()
	}
	method := []string{"Mix", "Void", "Blob", "List", "mix", "", "OnDestroy2", "\xff\x00"}[g.Intn(8)]
	switch g.Intn(10) {
	case 0:
		return encPacket(g.Rand, pError, g.str())
	case 1:
		return encPacket(g.Rand, pHeartbeat)
	case 2:
		return encPacket(g.Rand, pReady, append(names, "steady", "later", "feature.caller"))
	case 3:
		return encPacket(g.Rand, pRegReq, names)
	case 4:
		return encPacket(g.Rand, pRegResp, []int{e.port, e.port, 0, -1, 70000, 1 << 40}[g.Intn(6)])
	case 5:
		return encPacket(g.Rand, pQueryReq, []string{"steady", "x.none", "x.one", ""}[g.Intn(4)])
	case 6:
		return encPacket(g.Rand, pQueryResp, []string{e.trap.Addr().String(), "127.0.0.1:1", "no address", "", "[::1"}[g.Intn(5)])
	case 7, 8:
		args := []interface{}{e.floor - int64(g.Intn(1000))}
		for k := g.Intn(4); k > 0; k-- {
			args = append(args, g.value(2))
		}
		return encPacket(g.Rand, pRpcReq, index(), slot(), method, args, g.Intn(2) == 0)
	}
	return encPacket(g.Rand, pRpcResp, index(), slot(), method, []interface{}{g.value(1)}, []string{"", "forged"}[g.Intn(2)])
}

// modest makes a packet which names nothing that others carry in a list: damage
// could turn that into a registration, which is not to be told from a good one.
func (e *Evil) modest(g Gen) []byte {
	for {
		if p := e.packet(g); !bytes.Contains(p, []byte("feature.caller")) {
			return p
		}
	}
}

// bytes makes what is sent over one connection.
func (e *Evil) bytes(g Gen) ([]byte, string) {
	switch k := g.Intn(10); k {
	case 0: // nothing
		return nil, "nothing"
	case 1: // noise
		return randomBytes(g), "noise"
	case 2: // much noise
		b := make([]byte, 1+g.Intn(200000))
		g.Read(b)
		if g.Intn(2) == 0 {
			copy(b, []byte{byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(3)), 0})
		}
		return b, "much noise"
	case 3: // a length and no more than a part of what it promises
		h := []byte{byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(256))}
		b := make([]byte, g.Intn(3000))
		g.Read(b)
		return append(h, b...), "short"
	case 4: // fields of any type and number
		var out []byte
		for n := 1 + g.Intn(4); n > 0; n-- {
			f := make([]interface{}, g.Intn(7))
			for i := range f {
				f[i] = g.value(2)
			}
			out = append(out, encPacket(g.Rand, g.Intn(12), f...)...)
		}
		return out, "fields"
	case 5: // ids of any kind
		body := refEncode(g.Rand, g.value(1))
		return append(frame(body), frame(nil)...), "ids"
	case 6: // a hostile body in a good frame
		id := byte(g.Intn(9))
		var b []byte
		switch g.Intn(5) {
		case 0: // huge container
			b = be([]byte{0xdb, 0xdd, 0xdf}[g.Intn(3)], uint64(g.Uint32()|1<<31), 4)
		case 1: // nesting
			for i := 0; i < 60000; i++ {
				b = append(b, 0xdd, 0, 0, 0, 1)
			}
		case 2: // containers as keys
			b = append(be(0xdf, 1, 4), append(be(0xdd, 0, 4), 0xc0)...)
		case 3:
			b = append(be(0xdd, 1, 4), append(be(0xdf, 2, 4), be(0xdf, 0, 4)...)...)
		case 4:
			b = randomBytes(g)
		}
		head := []byte{0xcc, id}
		if id == pRpcReq || id == pRpcResp {
			head = append(head, be(0xcf, g.Uint64()>>1, 8)...)
			for _, s := range []string{"feature.zero", "Mix"} {
				head = append(head, refEncode(g.Rand, s)...)
			}
		}
		return frame(append(head, b...)), "body"
	case 7: // packets out of place
		var out []byte
		for n := 1 + g.Intn(8); n > 0; n-- {
			out = append(out, e.packet(g)...)
		}
		return out, "packets"
	case 8: // the same, damaged
		var out []byte
		for n := 1 + g.Intn(4); n > 0; n-- {
			p := e.packet(g)
			if g.Intn(2) == 0 {
				out = append(out, frame(mutate(g, e.modest(g)[4:]))...)
			} else {
				out = append(out, p...)
			}
		}
		return out, "damaged"
	default: // damaged frames
		return mutate(g, append(e.modest(g), e.modest(g)...)), "frames"
	}
}

// attack opens a connection, misbehaves and ends it in some way.
func (e *Evil) attack(g Gen, host string) {
	c, err := dialFrom(host, e.addr)
	if err != nil {
		return
	}
	what := ""
	for n := 1 + g.Intn(3); n > 0; n-- {
		var b []byte
		b, what = e.bytes(g)
		c.SetWriteDeadline(time.Now().Add(5 * time.Second)) // it may never read
		for len(b) > 0 {
			m := len(b)
			if g.Intn(3) == 0 {
				m = 1 + g.Intn(m)
			}
			k, err := c.Write(b[:m])
			atomic.AddInt64(&e.sent, int64(k))
			if err != nil {
				n = 1
				break
			}
			b = b[m:]
			if g.Intn(4) == 0 {
				time.Sleep(time.Duration(g.Intn(500)) * time.Microsecond)
			}
		}
	}
	end := g.Intn(4)
	e.end(g, c, end)
	e.w.State("%s %d %s", e.slots, end, what)
	e.w.Eval(1)
}

func (e *Evil) end(g Gen, c net.Conn, how int) {
	t := c.(*net.TCPConn)
	switch how {
	case 0:
		c.Close()
	case 1:
		t.SetLinger(0)
		c.Close()
	case 2: // stays for a while, and half open
		t.CloseWrite()
		go func() { e.w.Sleep(int64(1 + rand.Intn(5))); c.Close() }()
	case 3:
		go func() { e.w.Sleep(int64(1 + rand.Intn(20))); c.Close() }()
	}
}

// deaf asks for much and reads nothing.
func (e *Evil) deaf(g Gen, host string, n int) net.Conn {
	c, err := dialFrom(host, e.addr)
	if err != nil {
		return nil
	}
	go func() {
		for i := 0; i < n; i++ {
			var b []byte
			if len(e.slots) > 0 {
				b = encPacket(g.Rand, pRpcReq, i+1, e.slots[i%len(e.slots)], "Blob", []interface{}{e.floor - int64(i), blob(1, 4000)}, true)
			} else {
				b = encPacket(g.Rand, pQueryReq, "steady")
			}
			if _, err := c.Write(b); err != nil {
				return
			}
		}
	}()
	return c
}

func (e *Evil) judge(n *Node, what string) {
	w := e.w
	if k := atomic.LoadInt64(&e.caught); k > 0 {
		w.Viol("forged", "%s: %d connections made because of a query response that does not come from the hub", what, k)
	}
	if canDial(fmt.Sprintf("127.0.0.1:%d", e.port)) {
		w.Viol("forged", "%s: listens on port %d, which did not come from the hub", what, e.port)
	}
	e.trap.Close()
	if n.Dead() {
		return
	}
	r, ok := n.Do(Cmd{Op: "usage"})
	if !ok {
		w.Viol("hang", "%s does not respond\n%s", what, n.Stacks())
		return
	}
	w.Max("heap of the victim after attacks, MB", int(r.Res.Heap>>20))
	if limit := uint64(300<<20) + 8*uint64(atomic.LoadInt64(&e.sent)); r.Res.Heap > limit {
		w.Viol("memory", "%s holds %d MB after %d MB of attacks", what, r.Res.Heap>>20, e.sent>>20)
	}
	w.Count("bytes sent by hostile peers", int(e.sent))
}

func init() {
	scenario("c16hub", func(w *W) {
		n := w.node(0)
		first := w.block(8)
		addr := n.Hub(first, 8)
		if addr == "" {
			return
		}
		steady := w.dialPeer("127.0.0.1", addr, nil)
		steady.Put(pRegReq, []string{"steady"})
		if !steady.AwaitGot(pRegResp, 1) {
			w.Viol("hang", "registration is not answered\n%s", n.Stacks())
			return
		}
		steadyAddr := fmt.Sprintf("127.0.0.1:%d", first)
		steady.Put(pReady, []string{"steady"})
		asker := w.dialPeer("127.0.0.1", addr, nil)
		asker.Put(pQueryReq, "steady")
		if !asker.AwaitGot(pQueryResp, 1) {
			w.Viol("hang", "query is not answered\n%s", n.Stacks())
			return
		}
		e := w.evil(addr, nil)
		e.floor = -1
		var stop, rounds int64
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				g := Gen{w.R(i)}
				for k := 0; atomic.LoadInt64(&stop) == 0; k++ {
					e.attack(g, fmt.Sprintf("127.0.%d.%d", 2+i, 1+k%50))
				}
			}(i)
		}
		deaf := e.deaf(Gen{w.R(100)}, "127.0.99.1", 100000)
		answered := 1
		for r := 0; r < w.N && !w.Bad() && !n.Dead(); r++ {
			host := fmt.Sprintf("127.1.%d.%d", r/200, 1+r%200)
			name := fmt.Sprintf("good.%d", r)
			p := w.dialPeer(host, addr, nil)
			if p == nil {
				w.Viol("served", "hub does not accept connections\n%s", n.Stacks())
				break
			}
			p.Put(pRegReq, []string{name, "later"})
			if !p.AwaitGot(pRegResp, 1) {
				w.Viol("served", "registration is not answered under attack\n%s", n.Stacks())
				break
			}
			if port := p.Got(pRegResp)[0].Int(0); int(port) != first {
				w.Viol("served", "first registration of host %s gets port %d, not %d", host, port, first)
			}
			asker.Put(pQueryReq, name)
			asker.Put(pQueryReq, "steady")
			w.Sleep(int64(w.Intn(2)))
			answered++
			if !asker.AwaitGot(pQueryResp, answered) {
				w.Viol("served", "query is not answered under attack\n%s", n.Stacks())
				break
			}
			if a := asker.Got(pQueryResp); a[answered-1].Str(0) != steadyAddr || len(a) != answered {
				w.Viol("served", "query for a feature at %s gets %v under attack", steadyAddr, a[answered-1:])
			}
			p.Put(pReady, []string{name, "later"})
			answered++
			if !asker.AwaitGot(pQueryResp, answered) {
				w.Viol("served", "waiting query is not answered under attack\n%s", n.Stacks())
				break
			}
			want := fmt.Sprintf("%s:%d", host, first)
			if a := asker.Got(pQueryResp); a[answered-1].Str(0) != want || len(a) != answered {
				w.Viol("served", "query for a feature at %s gets %v under attack", want, a[answered-1:])
			}
			for _, q := range []*Peer{p, asker, steady} {
				if q.Closed() || q.Bad() != nil {
					w.Viol("served", "a good peer is disconnected (%v) or gets %v", q.Closed(), q.Bad())
				}
				if k := len(q.All()); q == p && k != 1 || q == steady && k != 1 || q == asker && k != answered {
					w.Viol("served", "a good peer gets extra packets: %v", q.All()[k-1])
				}
			}
			p.Close()
			atomic.AddInt64(&rounds, 1)
			w.Eval(3)
		}
		atomic.StoreInt64(&stop, 1)
		wg.Wait()
		if deaf != nil {
			deaf.Close()
		}
		w.Count("rounds of control peers", int(rounds))
		w.Sample("hub: %d rounds of a good registration, a waiting and an immediate query while 6 hostile peers sent %d bytes over and over again", rounds, e.sent)
		e.judge(n, "hub")
	})

	scenario("c16dock", func(w *W) {
		first := w.block(12)
		addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
		w.serve(addr, blackExcept(first, 12)...)
		n := w.node(0)
		feats := []string{"feature.zero", "feature.one"}
		n.Dock(addr, "D", feats...)
		if !n.Started(feats...) {
			return
		}
		victim := fmt.Sprintf("127.0.0.1:%d", first)
		led := newLedger()
		caller := w.newEcho("feature.caller", led)
		if !w.startEchos(addr, "caller", caller) {
			return
		}
		e := w.evil(victim, feats)
		e.floor = -1 << 50
		// The victim is connected to a hostile dock, too, by a call it makes.
		var evilMu sync.Mutex
		var evilPeers []*Peer
		carrier := w.fakeDock("", addr, []string{"x.carrier"}, func(p *Peer, k Packet) {
			if k.ID == pRpcReq {
				evilMu.Lock()
				evilPeers = append(evilPeers, p)
				evilMu.Unlock()
			}
		})
		// And to a good one that does not answer before it is told to.
		var heldMu sync.Mutex
		type heldCall struct {
			p *Peer
			k Packet
		}
		var held []heldCall
		tardy := w.fakeDock("", addr, []string{"feature.tardy"}, func(p *Peer, k Packet) {
			if k.ID == pRpcReq {
				heldMu.Lock()
				held = append(held, heldCall{p, k})
				heldMu.Unlock()
				atomic.StoreInt64(&e.index, k.Int(0))
			}
		})
		if carrier == nil || tardy == nil {
			w.Viol("hang", "fake docks can't join\n%s", Dump())
			return
		}
		carrier.Ready()
		tardy.Ready()
		n.Go(Cmd{Op: "raw", Name: feats[0], Names: []string{"x.carrier", "Mix"}, Base: 1})
		base := int64(6000000000)
		var issued []int64
		var issuedMu sync.Mutex
		note := func(id int64) { issuedMu.Lock(); issued = append(issued, id); issuedMu.Unlock() }

		var stop int64
		var wg sync.WaitGroup
		for i := 0; i < 5; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				g := Gen{w.R(i)}
				for k := 0; atomic.LoadInt64(&stop) == 0; k++ {
					e.attack(g, fmt.Sprintf("127.0.%d.%d", 2+i, 1+k%50))
				}
			}(i)
		}
		wg.Add(1)
		go func() { // the connection the victim has made
			defer wg.Done()
			g := Gen{w.R(50)}
			for atomic.LoadInt64(&stop) == 0 {
				evilMu.Lock()
				ps := append([]*Peer(nil), evilPeers...)
				evilMu.Unlock()
				for _, p := range ps {
					if g.Intn(6) == 0 && len(ps) > 0 {
						b, _ := e.bytes(g)
						p.PutRaw(b)
					} else {
						p.PutRaw(e.packet(g))
					}
					atomic.AddInt64(&e.sent, 100)
					w.Eval(1)
				}
				time.Sleep(time.Millisecond)
			}
		}()
		deaf := e.deaf(Gen{w.R(100)}, "127.0.99.1", 3000)
		for r := 0; r < w.N && !w.Bad() && !n.Dead(); r++ {
			// The victim waits for a reply all the while.
			tardyID := base + int64(r)*1000 + 900
			waiting := n.Go(Cmd{Op: "raw", Name: feats[1], Names: []string{"feature.tardy", "Mix"}, Base: tardyID})
			// Calls to the victim from a good dock, and from a new connection.
			ok := w.Group(4, func(i int) {
				for k := 0; k < 10; k++ {
					id := base + int64(r)*1000 + int64(i)*100 + int64(k)
					note(id)
					if err, wrong := w.callEcho(caller.theSlot(), feats[k%2], id, i, 300); err != nil || wrong != "" {
						w.Viol("served", "call of a good dock under attack: %v %s", err, wrong)
					}
					w.Eval(1)
				}
			})
			if !ok {
				w.Viol("served", "calls of a good dock get no reply under attack\n%s\n%s", Dump(), n.Stacks())
				break
			}
			p := w.dialDock(victim, nil, nil)
			if p == nil || !p.AwaitGot(pReady, 1) {
				w.Viol("served", "a new connection is not served under attack\n%s", n.Stacks())
				break
			}
			id := base + int64(r)*1000 + 800
			note(id)
			p.Put(pRpcReq, 77, feats[r%2], "Mix", []interface{}{id, "s"}, true)
			if !p.AwaitGot(pRpcResp, 1) {
				w.Viol("served", "request over a new connection is not answered under attack\n%s", n.Stacks())
				break
			}
			if k := p.Got(pRpcResp)[0]; k.Int(0) != 77 || k.Str(4) != "" || canon(k.Arr(3), false) != canon([]interface{}{mix(id), "s/" + feats[r%2]}, false) {
				w.Viol("served", "request over a new connection gets %v", k)
			}
			p.Close()
			// Calls of the victim.
			rep, ok := n.Do(Cmd{Op: "calls", Names: feats, Targets: []string{"feature.caller"}, G: 2, N: 10, Size: 200, Base: base*2 + int64(r)*1000000, Seed: int64(r)})
			if !ok {
				if !n.Dead() {
					w.Viol("served", "calls of the attacked dock get no reply\n%s", n.Stacks())
				}
				break
			}
			if len(rep.Failed) > 0 || len(rep.Wrong) > 0 {
				w.Viol("served", "calls of the attacked dock fail: %d, %s, %v", len(rep.Failed), rep.Err, rep.Wrong)
			}
			// The reply it waits for counts, and nobody else's.
			if !w.Await(func() bool { heldMu.Lock(); defer heldMu.Unlock(); return len(held) > 0 }) {
				w.Viol("served", "request of the attacked dock does not arrive\n%s", n.Stacks())
				break
			}
			select {
			case rep := <-waiting:
				w.Viol("forged", "a call returns %q %q before its reply was sent", rep.Wrong, rep.Err)
			default:
			}
			heldMu.Lock()
			h := held
			held = nil
			heldMu.Unlock()
			if len(h) != 1 || h[0].k.Arr(3)[0] != tardyID {
				w.Viol("served", "%d requests of the attacked dock arrive, not one: %v", len(h), h[0].k)
			}
			h[0].p.Put(pRpcResp, h[0].k.Int(0), h[0].k.Str(1), h[0].k.Str(2), []interface{}{mix(tardyID)}, "")
			rep, ok = n.Get(waiting)
			if !ok || rep.Err != "" || len(rep.Wrong) != 1 || rep.Wrong[0] != canon([]interface{}{mix(tardyID)}, false) {
				w.Viol("served", "call of the attacked dock gets %v %v %q instead of its reply", ok, rep.Wrong, rep.Err)
			}
			w.Eval(60)
			w.Count("rounds of control peers", 1)
		}
		atomic.StoreInt64(&stop, 1)
		wg.Wait()
		if deaf != nil {
			deaf.Close()
		}
		if !n.Dead() && !w.Bad() {
			rep, _ := n.Do(Cmd{Op: "ledger"})
			for _, id := range issued {
				if rep.Execs[id] != 1 {
					w.Viol("served", "call %d of a good peer is executed %d times", id, rep.Execs[id])
				}
			}
			rep, _ = n.Do(Cmd{Op: "started", Names: feats})
			for i, v := range rep.Counts {
				if want := int64(1 - i%2); v != want {
					w.Viol("forged", "features started and ended %v times", rep.Counts)
					break
				}
			}
		}
		w.Sample("dock: %d calls of good peers while hostile peers sent %d bytes over connections of their own and one that the dock has made", len(issued), e.sent)
		e.judge(n, "dock")
	})

	// More connections than the process may have open.
	scenario("c16flood", func(w *W) {
		first := w.block(8)
		lim := int(w.p("lim", 64))
		h := w.node(lim)
		addr := h.Hub(first, 8)
		if addr == "" {
			return
		}
		d := w.node(lim)
		d.Dock(addr, "D", "feature.zero")
		if !d.Started("feature.zero") {
			return
		}
		victim := fmt.Sprintf("127.0.0.1:%d", first)
		caller := w.newEcho("feature.caller", newLedger())
		if !w.startEchos(addr, "caller", caller) {
			return
		}
		id := int64(1)
		call := func(what string) bool {
			id++
			done := make(chan struct{})
			go func() {
				defer close(done)
				if err, wrong := w.callEcho(caller.theSlot(), "feature.zero", id, 0, 10); err != nil || wrong != "" {
					w.Viol("served", "call %s: %v %s", what, err, wrong)
				}
			}()
			if !w.Done(done) {
				w.Viol("served", "call %s gets no reply\n%s\n%s", what, Dump(), d.Stacks())
				return false
			}
			w.Eval(1)
			return !w.Bad()
		}
		asker := w.dialPeer("", addr, nil)
		asked := 0
		ask := func(what string) bool {
			asker.Put(pQueryReq, "feature.zero")
			asked++
			if !asker.AwaitGot(pQueryResp, asked) {
				w.Viol("served", "query %s is not answered\n%s", what, h.Stacks())
				return false
			}
			if a := asker.Got(pQueryResp)[asked-1].Str(0); a != victim {
				w.Viol("served", "query %s is answered by %s, not %s", what, a, victim)
			}
			w.Eval(1)
			return !w.Bad()
		}
		if !call("before a flood") || !ask("before a flood") {
			return
		}
		for round := 0; round < w.N && !w.Bad() && !h.Dead() && !d.Dead(); round++ {
			var conns []net.Conn
			g := Gen{w.R(round)}
			e := &Evil{w: w, names: []string{"x.one"}, floor: -1 << 50, port: 1, trap: dummyListener}
			for i := 0; i < 3*lim; i++ {
				for j, a := range []string{addr, victim} {
					c, err := net.DialTimeout("tcp", a, 3*time.Second)
					if err != nil {
						continue // the backlog is full
					}
					conns = append(conns, c)
					if (i+j)%3 == 0 {
						b, _ := e.bytes(g)
						c.SetWriteDeadline(time.Now().Add(time.Second))
						c.Write(b)
					}
				}
				if i%20 == 19 && (!call("in a flood") || !ask("in a flood")) {
					return
				}
			}
			w.Max("connections opened at a time", len(conns))
			if g.Intn(2) == 0 {
				w.Sleep(30)
			}
			for k := 0; k < 5; k++ {
				if !call("in a flood") || !ask("in a flood") {
					return
				}
			}
			for _, c := range conns {
				e.end(g, c, g.Intn(2))
			}
			// Afterwards there is room for new ones.
			p := w.dialPeer(fmt.Sprintf("127.2.0.%d", round+1), addr, nil)
			if p == nil {
				w.Viol("served", "no connection to the hub after a flood\n%s", h.Stacks())
				return
			}
			p.Put(pRegReq, []string{"late"})
			if !p.AwaitGot(pRegResp, 1) {
				w.Viol("served", "registration is not answered after a flood\n%s", h.Stacks())
				return
			}
			p.Close()
			q := w.dialDock(victim, nil, nil)
			if q == nil || !q.AwaitGot(pReady, 1) {
				w.Viol("served", "dock does not serve a new connection after a flood\n%s", d.Stacks())
				return
			}
			q.Close()
			w.State("flood %d %d", lim, round)
			w.Sample("%d connections to a hub and a dock that may open %d files each; calls and queries go on", len(conns), lim)
		}
	})

	checks["C16"] = func(c *C) {
		c.Rule("hostile connections to a live hub and a live dock in processes of their own: noise, truncated and oversized frames, wrong ids, field types and counts, hostile bodies (huge lengths, deep nesting, containers as keys), well-formed packets out of place (also forged hub packets and replies, over accepted connections and one the dock has made), damaged packets; ended by close, reset, half-close or staying; peers that never read, asking for up to 300000 answers or being sent thousands of calls; floods beyond the descriptor limit. Control peers register, query and call all the while and every outcome is judged. Distinct: victim x kind of bytes x way of ending.")
		c.Assume("hostile peers use feature names of their own (a peer that registers a name is taken to carry it), and addresses of their own (ports are counted per host)")
		var jobs []Job
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c16hub", N: c.Pick(150, 800)})...)
		jobs = append(jobs, Times(c.Pick(3, 8), Job{Scenario: "c16dock", N: c.Pick(80, 400)})...)
		jobs = append(jobs, Times(c.Pick(1, 3), Job{Scenario: "c16flood", N: c.Pick(2, 10)})...)
		jobs = append(jobs, Times(c.Pick(1, 3), Job{Scenario: "c16deaf", P: map[string]int64{"asks": int64(c.Pick(300000, 1000000))}})...)
		jobs = append(jobs, Job{Scenario: "c16many", N: c.Pick(2000, 7000)})
		jobs = append(jobs, Job{Scenario: "c16fields", N: c.Pick(400, 5000)}, Job{Scenario: "c16fieldshub", N: c.Pick(300, 2000)}, Job{Scenario: "c16fieldsdock", N: c.Pick(40, 100)})
		jobs = append(jobs, Job{Scenario: "c16hub", N: c.Pick(20, 200), Race: true}, Job{Scenario: "c16dock", N: c.Pick(8, 100), Race: true})
		c.Run(4, jobs...)
	}
}

var dummyListener, _ = net.Listen("tcp", "127.0.0.1:0")
