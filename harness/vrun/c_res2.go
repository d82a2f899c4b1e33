package main

// C21: long names and failing dials, so that what is kept of each shows.

import (
	"fmt"
	"net"
	"strings"
	"sync/atomic"
	"time"
)

func init() {
	scenario("c21lists", func(w *W) {
		switch w.p("what", 0) {
		case 0, 1:
			w.resNames(w.p("what", 0) == 1)
		case 2:
			w.resRefused()
		case 3:
			w.resCarried()
		case 4:
			w.resMethods()
		}
	})
}

// longName is another one each time.
func longName(s string, id int64) string {
	return fmt.Sprintf("%s%d%s", s, id, strings.Repeat("z", 2000))
}

// resNames: peers of the hub that ask for a name, or register it, and go.
func (w *W) resNames(register bool) {
	hub := w.node(0)
	addr := hub.Hub(20001, 48999)
	if addr == "" {
		return
	}
	steady := w.dialPeer("127.0.0.1", addr, nil)
	steady.Put(pRegReq, []string{"steady"})
	if !steady.AwaitGot(pRegResp, 1) {
		w.Viol("hang", "registration is not answered\n%s", hub.Stacks())
		return
	}
	steady.Put(pReady, []string{"steady"})
	what := "queries of peers that leave"
	if register {
		what = "registrations of peers that leave"
	}
	var serial int64
	const peers = 60
	m := &Meter{w: w, n: hub, name: "the hub"}
	w.repeat(what, []*Meter{m}, peers, w.N, func(i int) bool {
		bad := int64(0)
		w.Group(4, func(k int) {
			g := w.R(i*10 + k)
			for j := 0; j < peers/4/2; j++ {
				id := atomic.AddInt64(&serial, 1)
				host := fmt.Sprintf("127.9.%d.%d", w.Slot, 1+id%200)
				// Two, that share some names.
				a, b := w.dialPeer(host, addr, nil), w.dialPeer(host, addr, nil)
				if a == nil || b == nil {
					atomic.AddInt64(&bad, 1)
					return
				}
				names := []string{longName("mine", id), longName("ours", id)}
				if register {
					a.Put(pRegReq, names)
					b.Put(pRegReq, names[1:])
					if !a.AwaitGot(pRegResp, 1) || !b.AwaitGot(pRegResp, 1) {
						atomic.AddInt64(&bad, 1)
						return
					}
					switch g.Intn(3) {
					case 0:
						a.Put(pReady, names)
						b.Put(pReady, names[1:])
					case 1:
						b.Put(pReady, names)
					}
				} else {
					for q := 1 + g.Intn(2); q > 0; q-- {
						a.Put(pQueryReq, names[0])
						a.Put(pQueryReq, names[1])
						b.Put(pQueryReq, names[1])
					}
				}
				// The hub has seen all before once it answers this.
				a.Put(pQueryReq, "steady")
				b.Put(pQueryReq, "steady")
				if !a.AwaitGot(pQueryResp, 1) || !b.AwaitGot(pQueryResp, 1) {
					atomic.AddInt64(&bad, 1)
					return
				}
				if g.Intn(2) == 0 {
					a, b = b, a
				}
				leave(g, a)
				if g.Intn(2) == 0 {
					time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
				}
				leave(g, b)
				w.Count("peers of the hub that left", 2)
				w.State("names/%v", register)
			}
		})
		if bad > 0 && !w.Bad() && !hub.Dead() {
			w.Viol("hang", "the hub does not answer any more\n%s", hub.Stacks())
		}
		return bad == 0
	})
}

// resRefused: a dock is sent to docks that are not there, or not any more.
func (w *W) resRefused() {
	fh := w.fakeHub(8)
	node := w.node(0)
	if !node.toil(fh.Addr, "client", "self") {
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	gone, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	refused := gone.Addr().String()
	gone.Close()
	var come int64
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt64(&come, 1)
			c.Close()
		}
	}()
	conns := fh.Conns()
	if len(conns) != 1 {
		fail("%d connections", len(conns))
	}
	p := conns[0].p
	const dials = 200
	m := &Meter{w: w, n: node, name: "the dock"}
	w.repeat("dials that fail", []*Meter{m}, dials, w.N, func(i int) bool {
		g := w.R(i)
		for k := 0; k < dials; k++ {
			switch a := g.Intn(20); a {
			case 0:
				p.Put(pQueryResp, "no address")
			case 1:
				p.Put(pQueryResp, "127.0.0.1:99999")
			case 2, 3:
				p.Put(pQueryResp, l.Addr().String())
			default:
				p.Put(pQueryResp, refused)
			}
		}
		was := atomic.LoadInt64(&come)
		p.Put(pQueryResp, l.Addr().String())
		if !w.Await(func() bool { return atomic.LoadInt64(&come) > was }) {
			if !node.Dead() {
				w.Viol("hang", "the dock does not dial any more\n%s", node.Stacks())
			}
			return false
		}
		r, ok := node.Do(Cmd{Op: "work", Name: "self", Targets: []string{"self"}, G: 1, N: 10, Size: 100, Seed: int64(i)})
		if !ok || len(r.Wrong) > 0 {
			if !node.Dead() {
				w.Viol("wrong", "%v %v", ok, r.Wrong)
			}
			return false
		}
		w.Count("addresses sent to a dock where nobody serves", dials)
		w.State("refused/%d", i)
		return true
	})
	l.Close()
}

// resCarried: docks that carry what nobody carried before come to a dock.
func (w *W) resCarried() {
	hub, server := w.node(0), w.node(0)
	first := w.block(4)
	addr := hub.Hub(first, 4)
	if addr == "" || !server.toil(addr, "server", "far") {
		return
	}
	to := fmt.Sprintf("127.0.0.1:%d", first)
	var serial int64
	const peers = 60
	m := &Meter{w: w, n: server, name: "the dock"}
	w.repeat("docks that carry something and leave", []*Meter{m}, peers, w.N, func(i int) bool {
		bad := int64(0)
		w.Group(4, func(k int) {
			g := w.R(i*10 + k)
			for j := 0; j < peers/4; j++ {
				p := w.dialDock(to, nil, nil)
				if p == nil {
					atomic.AddInt64(&bad, 1)
					return
				}
				id := atomic.AddInt64(&serial, 1)
				names := []string{longName("one", id), longName("two", id)}
				p.Put(pRegReq, names)
				if g.Intn(2) == 0 {
					p.Put(pReady, names)
				}
				p.Put(pRpcReq, id, "far", "Add", []interface{}{1, 2}, true)
				p.Put(pRpcReq, id+1<<40, longName("none", id), "Add", []interface{}{1, 2}, true)
				if !p.AwaitGot(pRpcResp, 2) {
					atomic.AddInt64(&bad, 1)
					return
				}
				leave(g, p)
				w.Count("peers of the dock that left", 1)
			}
		})
		if bad > 0 && !w.Bad() && !server.Dead() {
			w.Viol("hang", "the dock does not answer any more\n%s", server.Stacks())
		}
		w.State("carried/%d", i)
		return bad == 0
	})
}

// resMethods: requests for methods that are not there.
func (w *W) resMethods() {
	hub, server := w.node(0), w.node(0)
	first := w.block(4)
	addr := hub.Hub(first, 4)
	if addr == "" || !server.toil(addr, "server", "far") {
		return
	}
	to := fmt.Sprintf("127.0.0.1:%d", first)
	p := w.dialDock(to, nil, nil)
	if p == nil {
		fail("can't dial")
	}
	var serial int64
	got := 0
	const calls = 100
	m := &Meter{w: w, n: server, name: "the dock"}
	w.repeat("requests for what is not there", []*Meter{m}, calls, w.N, func(i int) bool {
		g := w.R(i)
		for k := 0; k < calls; k++ {
			serial++
			slot, method, arg := "far", "Blob", longName("arg", serial)
			switch g.Intn(3) {
			case 0:
				slot = longName("slot", serial)
			case 1:
				method = longName("method", serial)
			}
			p.Put(pRpcReq, serial, slot, method, []interface{}{arg}, g.Intn(2) == 0)
		}
		got += calls
		if !p.AwaitGot(pRpcResp, got) {
			if !server.Dead() {
				w.Viol("hang", "the dock does not answer any more\n%s", server.Stacks())
			}
			return false
		}
		w.Count("requests with long names", calls)
		w.State("methods/%d", i)
		return true
	})
}
