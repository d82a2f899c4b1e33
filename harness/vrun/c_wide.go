package main

// C11 and C16: very many features, and very many calls and queries in vain.

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/muguangyi/ferry"
)

func init() {
	// Docks with hundreds of features, called by one that has thousands of calls
	// waiting for a feature that comes last.
	scenario("c11wide", func(w *W) {
		docks, wide, flood := 3, int(w.p("wide", 300)), int(w.p("flood", 2500))
		hub := w.startHub(docks + 4)
		led := newLedger()
		a := w.newEcho("A", led)
		if !w.startEchos(hub, "A", a) {
			return
		}
		issued := map[int64]bool{}
		total := flood
		names := make([][]string, docks)
		for d := range names {
			for i := 0; i < wide; i++ {
				names[d] = append(names[d], fmt.Sprintf("W%d.%d%s", d, i, strings.Repeat("x", w.Intn(4)*w.Intn(80))))
			}
			total += wide
		}
		for i := 0; i < total+docks*wide; i++ {
			issued[int64(i)] = true
		}
		var progress, back int64
		flooded := make(chan bool, 1)
		go func() {
			flooded <- w.GroupProgress(flood, &w.ticks, func(i int) {
				err, wrong := w.callEcho(a.theSlot(), "absent", int64(i), i%5, 20)
				if err != nil || wrong != "" {
					w.Viol("failed", "call %d of %d that wait: %v %s", i, flood, err, wrong)
				}
				atomic.AddInt64(&back, 1)
			})
		}()
		// Half of the docks are there before the calls, half come later.
		es := make([][]*Echo, docks)
		start := func(d int) {
			var slots []ferry.ISlot
			for _, n := range names[d] {
				e := w.newEcho(n, led)
				es[d] = append(es[d], e)
				slots = append(slots, w.carryEcho(e, true))
			}
			w.startDock(hub, fmt.Sprint("wide", d), slots...)
		}
		start(0)
		w.Sleep(20)
		// The remaining calls from A: to each feature one.
		called := make(chan bool, 1)
		go func() {
			called <- w.GroupProgress(docks*wide, &progress, func(i int) {
				name := names[i/wide][i%wide]
				err, wrong := w.callEcho(a.theSlot(), name, int64(flood+i), i%5, 20)
				if err != nil || wrong != "" {
					w.Viol("failed", "call to feature %d of dock %d: %v %s", i%wide, i/wide, err, wrong)
				}
				atomic.AddInt64(&progress, 1)
				w.Eval(1)
			})
		}()
		w.Sleep(int64(w.Intn(10)))
		for d := 1; d < docks; d++ {
			start(d)
		}
		if !<-called {
			w.Viol("hang", "%d of %d calls, one to each feature of docks with %d features each, return; %d others are waiting for another feature\n%s", progress, docks*wide, wide, flood-int(back), Dump())
			return
		}
		// The hub knows each of them.
		q := w.dialPeer("", hub, nil)
		if q == nil {
			w.Viol("hang", "no connection to the hub")
			return
		}
		for d := range names {
			for _, n := range names[d] {
				q.Put(pQueryReq, n)
			}
		}
		if !q.AwaitGot(pQueryResp, docks*wide) {
			w.Viol("hang", "the hub answers %d of %d queries for the features of docks with %d features each, which have all been called\n%s", len(q.Got(pQueryResp)), docks*wide, wide, Dump())
			return
		}
		for i, k := range q.Got(pQueryResp) {
			if f := q.Got(pQueryResp)[i/wide*wide].Str(0); k.Str(0) != f || i >= wide && i%wide == 0 && f == q.Got(pQueryResp)[i-1].Str(0) {
				w.Viol("wrong", "the hub answers query %d (%d features per dock) with %s", i, wide, k.Str(0))
				break
			}
		}
		// From one wide dock to the next.
		if !w.Await(func() bool {
			for _, l := range es {
				for _, e := range l {
					if e.theSlot() == nil {
						return false
					}
				}
			}
			return true
		}) {
			w.Viol("hang", "features of wide docks are not started\n%s", Dump())
			return
		}
		if !w.GroupProgress(docks*wide, &progress, func(i int) {
			d := i / wide
			err, wrong := w.callEcho(es[d][i%wide].theSlot(), names[(d+1)%docks][i%wide], int64(total+i), i%5, 20)
			if err != nil || wrong != "" {
				w.Viol("failed", "call from feature %d of dock %d to that of the next: %v %s", i%wide, d, err, wrong)
			}
			atomic.AddInt64(&progress, 1)
			w.Eval(1)
		}) {
			w.Viol("hang", "calls between docks with %d features each do not return\n%s", wide, Dump())
			return
		}
		if n := atomic.LoadInt64(&back); n != 0 {
			w.Viol("early", "%d calls return although nobody carries their feature", n)
		}
		if !w.startEchos(hub, "last", w.newEcho("absent", led)) {
			return
		}
		if !w.Await(func() bool { return atomic.LoadInt64(&back) == int64(flood) || w.Bad() }) {
			w.Viol("hang", "%d of %d waiting calls return after their feature has come\n%s", back, flood, Dump())
			return
		}
		w.Eval(flood)
		w.exactlyOnce("wide docks", led, issued)
		w.Max("features of one dock", wide)
		w.Max("calls waiting for one feature", flood)
		w.State("wide %d %d", wide, flood)
		w.Sample("%d docks with %d features each, all called by two docks, while %d calls waited for the last one", docks, wide, flood)
	})
}

func init() {
	// Peers that never read: one that asks a hub and a dock for a lot, and a dock
	// that is called a lot. What waits for them holds up nobody else.
	scenario("c16deaf", func(w *W) {
		n := w.node(0)
		first := w.block(8)
		hub := n.Hub(first, 8)
		if hub == "" {
			return
		}
		led := newLedger()
		a, b := w.newEcho("A", led), w.newEcho("B", led)
		if !w.startEchos(hub, "a", a) || !w.startEchos(hub, "b", b) {
			return
		}
		narrow := func(addr string) net.Conn {
			d := net.Dialer{Control: func(network, address string, c syscall.RawConn) error {
				return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 2048) })
			}}
			c, err := d.Dial("tcp", addr)
			if err != nil {
				w.Viol("served", "no connection to %s", addr)
				return nil
			}
			return c
		}
		q := w.dialPeer("", hub, nil)
		if q == nil {
			w.Viol("served", "no connection to the hub")
			return
		}
		q.Put(pQueryReq, "A")
		if !q.AwaitGot(pQueryResp, 1) {
			w.Viol("served", "a query is not answered\n%s", n.Stacks())
			return
		}
		addrA := q.Got(pQueryResp)[0].Str(0)
		// A carrier that stops to read after the handshake.
		gate := make(chan bool)
		var requests int64
		deaf := w.fakeDock("", hub, []string{"deaf"}, func(p *Peer, k Packet) {
			if k.ID == pRpcReq {
				atomic.AddInt64(&requests, 1)
				<-gate
			}
		})
		if deaf == nil {
			w.Viol("served", "a dock can't register\n%s", n.Stacks())
			return
		}
		deaf.Ready()
		toHub, toDock := narrow(hub), narrow(addrA)
		if toHub == nil || toDock == nil {
			return
		}
		asks := int(w.p("asks", 300000))
		r := w.R(1)
		var asked int64
		flood := func(c net.Conn, frame []byte, n int) {
			var buf []byte
			for i := 0; i < 100; i++ {
				buf = append(buf, frame...)
			}
			for i := 0; i < n; i += 100 {
				c.SetWriteDeadline(time.Now().Add(20 * time.Second))
				if _, err := c.Write(buf); err != nil {
					return
				}
				atomic.AddInt64(&asked, 100)
			}
		}
		var floods sync.WaitGroup
		floods.Add(2)
		go func() { defer floods.Done(); flood(toHub, encPacket(r, pQueryReq, "B"), asks) }()
		nobody := encPacket(w.R(2), pRpcReq, 1, "nobody.here", "Mix", []interface{}{}, true)
		go func() { defer floods.Done(); flood(toDock, nobody, asks/3) }()
		calls := int(w.p("calls", 4000))
		var failed, ended int64
		all := make(chan struct{})
		go func() {
			var wg sync.WaitGroup
			for i := 0; i < calls; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					_, err := a.theSlot().CallWithResult("deaf", "Blob", int64(1e9)+int64(i), blob(int64(i), 3000))
					if err != nil {
						atomic.AddInt64(&failed, 1)
					}
					atomic.AddInt64(&ended, 1)
				}(i)
			}
			wg.Wait()
			close(all)
		}()
		answered := 1
		serve := func(id int64) bool {
			done := make(chan struct{})
			go func() {
				defer close(done)
				for i, x := range [][2]string{{"A", "B"}, {"B", "A"}} {
					s := a.theSlot()
					if i == 1 {
						s = b.theSlot()
					}
					if err, wrong := w.callEcho(s, x[1], id*10+int64(i), int(id%5), 200); err != nil || wrong != "" {
						w.Viol("served", "a call from %s to %s, while others are not read by their peers: %v %s", x[0], x[1], err, wrong)
					}
					w.Eval(1)
				}
			}()
			if !w.Done(done) {
				w.Viol("served", "a call is not served while a peer does not read what others sent it (%d requests to the hub and a dock, %d calls to a dock)\n%s", atomic.LoadInt64(&asked), calls, Dump())
				return false
			}
			q.Put(pQueryReq, "A")
			answered++
			if !q.AwaitGot(pQueryResp, answered) {
				w.Viol("served", "a query is not answered while a peer does not read its answers\n%s", n.Stacks())
				return false
			}
			return !w.Bad()
		}
		id := int64(0)
		sent := make(chan struct{})
		go func() { floods.Wait(); close(sent) }()
		for going := true; going; {
			select {
			case <-sent:
				going = false
			default:
			}
			id++
			if !serve(id) {
				return
			}
		}
		for i := 0; i < 20; i++ {
			id++
			if !serve(id) {
				return
			}
		}
		if n := atomic.LoadInt64(&ended); n != 0 {
			w.Viol("early", "%d of %d calls to a dock that does not answer return", n, calls)
		}
		// A new dock is found and called, too.
		c := w.newEcho("C", led)
		if !w.startEchos(hub, "c", c) {
			return
		}
		if !w.Group(1, func(int) {
			if err, wrong := w.callEcho(a.theSlot(), "C", 1e8, 0, 20); err != nil || wrong != "" {
				w.Viol("served", "a call to a new dock: %v %s", err, wrong)
			}
		}) {
			w.Viol("served", "a call to a new dock is not served while a peer does not read\n%s", Dump())
			return
		}
		// They go, and that is the end of what was meant for them.
		toHub.Close()
		toDock.Close()
		deaf.Kill()
		close(gate)
		if !w.Done(all) {
			w.Viol("hang", "%d of %d calls to a dock that has never read them and has gone return\n%s", atomic.LoadInt64(&ended), calls, Dump())
			return
		}
		for i := 0; i < 5; i++ {
			id++
			if !serve(id) {
				return
			}
		}
		w.Count("requests whose answers nobody reads", int(asked))
		w.Count("calls to a dock that does not read", calls)
		w.Count("calls of a deaf dock that failed in the end", int(failed))
		w.State("deaf %d %d", asks, calls)
		w.Sample("%d requests whose answers are not read and %d calls that are not read; %d rounds of calls and queries of others served meanwhile", asked, calls, id)
	})
}
