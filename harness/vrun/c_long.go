package main

// C06: methods that go on long after their calls have timed out.

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
	"github.com/muguangyi/ferry/network"
)

func init() {
	scenario("c06long", func(w *W) {
		hub := w.startHub(60)
		client := w.newEcho("client", newLedger())
		if !w.startEchos(hub, "client", client) {
			return
		}
		timeouts := []float32{0.005, 0.02, 0.05, 0.1, 0.3, 0.7, 0} // 0: not set, a second
		wheres := []string{"chancall", "slot", "remote"}
		n := len(timeouts) * len(wheres) * 2
		w.GroupProgress(n, &w.ticks, func(i int) {
			where := wheres[i%3]
			timeout := timeouts[i/3%len(timeouts)]
			plain := i/(3*len(timeouts)) == 1 // calls without results
			g := w.newGate(fmt.Sprintf("G%d", i))
			var c Caller
			var set func(string, float32)
			if where == "chancall" {
				callee := chancall.NewCallee(g.name, g)
				set = callee.SetTimeout
				c = chancall.NewCaller(callee)
			} else {
				sl := ferry.Carry(g.name, g, i%2 == 0 || where == "remote")
				set = sl.SetTimeout
				w.startDock(hub, g.name, sl)
				if !w.Await(func() bool { return g.theSlot() != nil }) {
					w.Viol("hang", "feature is not started\n%s", Dump())
					return
				}
				c = slotCaller{g.theSlot(), g.name}
				if where == "remote" {
					c = slotCaller{client.theSlot(), g.name}
				}
			}
			set("Quick", 3600)
			if timeout > 0 {
				set("Hold", timeout)
			}
			hold := func(id int64) error {
				if plain {
					return c.Call("Hold", id)
				}
				_, err := c.CallWithResult("Hold", id)
				return err
			}
			// One that runs, and while it does another and some quick ones wait.
			what := fmt.Sprintf("%s, timeout %v s, calls without results: %v", where, timeout, plain)
			if err := hold(1); err == nil {
				w.Viol("timeout", "%s: a call that is held succeeds", what)
				return
			}
			var wg sync.WaitGroup
			second := make(chan error, 1)
			go func() { second <- hold(2) }()
			for k := int64(3); k < 6; k++ {
				wg.Add(1)
				go func(k int64) {
					defer wg.Done()
					res, err := c.CallWithResult("Quick", k)
					if err != nil || len(res) != 1 || canon(res[0], false) != canon(mix(k), false) {
						w.Viol("result", "%s: call %d, which waits, gets %s, %v", what, k, short(canon(res, false)), err)
					}
				}(k)
			}
			for t := 0; t < 25; t++ {
				w.Sleep(10)
				if o := g.order(); len(o) != 1 {
					w.Viol("overlap", "%s: calls %v have started although call 1 has not returned", what, o)
					g.open(1)
					g.open(2)
					return
				}
			}
			g.open(1)
			// The second one starts at some time and has the feature for itself.
			in := func() bool {
				o := g.order()
				for _, x := range o {
					if x == 2 {
						return true
					}
				}
				return false
			}
			if !w.Await(in) {
				w.Viol("hang", "%s: the waiting calls do not run\n%s", what, Dump())
				return
			}
			at := len(g.order())
			select {
			case err := <-second:
				if err == nil {
					w.Viol("timeout", "%s: a call that is held succeeds", what)
				}
			case <-time.After(60 * time.Second):
				w.Viol("hang", "%s: the second call does not time out\n%s", what, Dump())
			}
			w.Sleep(30)
			if o := g.order(); len(o) != at {
				w.Viol("overlap", "%s: calls %v have started while call 2 had not returned", what, o)
			}
			g.open(2)
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			if !w.Done(done) {
				w.Viol("hang", "%s: the waiting calls have no result\n%s", what, Dump())
				return
			}
			w.Eval(5)
			w.State("long %s", what)
			w.Count("methods held long after their timeout", 2)
			if i%7 == 0 {
				w.Sample("%s: nothing else ran while the method was held for 2.5 s more; order %v", what, g.order())
			}
		})
	})
}

// Hop is a feature that goes on to the next one of a path, with or without
// asking for results.
type Hop struct {
	Base
	wrong func(format string, a ...interface{})
}

func (h *Hop) Go(id int64, path []string, plain []bool, naps []int64) (int64, string) {
	h.enter()
	defer h.leave()
	h.led.Add(id)
	time.Sleep(time.Duration(naps[0]) * time.Microsecond)
	if len(path) == 0 {
		return mix(id), h.name
	}
	if plain[0] {
		if err := h.theSlot().Call(path[0], "Go", id+1, path[1:], plain[1:], naps[1:]); err != nil {
			h.wrong("%s calls %s without results: %v", h.name, path[0], err)
		}
		return mix(id), h.name
	}
	res, err := h.theSlot().CallWithResult(path[0], "Go", id+1, path[1:], plain[1:], naps[1:])
	if err != nil || len(res) != 2 || canon(res[0], false) != canon(mix(id+1), false) {
		h.wrong("%s calls %s: %s, %v", h.name, path[0], short(canon(res, false)), err)
	}
	return mix(id), h.name
}

func init() {
	// Calls of all kinds go to and fro over the same connections, which are made
	// while they wait, and while other calls over them do not return.
	scenario("c10web", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			docks := 2 + w.Intn(3)
			walkers := 1 + w.Intn(6)
			each := 1 + w.Intn(3)
			hub := w.startHub(docks)
			led := newLedger()
			hops := make([][]string, walkers)
			where := map[string]int{}
			var all []*Hop
			var gates []*Gate
			for d := 0; d < docks; d++ {
				var slots []ferry.ISlot
				for k := 0; k < walkers; k++ {
					for j := 0; j < each; j++ {
						h := &Hop{wrong: func(f string, a ...interface{}) { w.Viol("result", f, a...) }}
						h.name, h.led = fmt.Sprintf("H%d.%d.%d.%d", round, d, k, j), led
						h.overlap = func(n string) { w.Viol("overlap", "two calls of feature %s run at the same time\n%s", n, Dump()) }
						all = append(all, h)
						hops[k] = append(hops[k], h.name)
						where[h.name] = d
						slots = append(slots, carryLong(h.name, h, true, "Go"))
					}
				}
				g := w.newGate(fmt.Sprintf("G%d.%d", round, d))
				gates = append(gates, g)
				slots = append(slots, carryLong(g.name, g, true, "Hold"))
				w.startDock(hub, fmt.Sprint("dock", d), slots...)
			}
			if !w.Await(func() bool {
				for _, h := range all {
					if h.theSlot() == nil {
						return false
					}
				}
				for _, g := range gates {
					if g.theSlot() == nil {
						return false
					}
				}
				return true
			}) {
				w.Viol("hang", "features are not started\n%s", Dump())
				return
			}
			issued := map[int64]bool{}
			// Calls that are held in each direction, of both kinds.
			var wg sync.WaitGroup
			gated := w.Intn(3) > 0
			if gated {
				for d := range gates {
					to := (d + 1 + w.Intn(docks-1)) % docks
					plain := w.Intn(3) > 0
					wg.Add(1)
					go func(d int) {
						defer wg.Done()
						var err error
						if plain {
							err = gates[d].theSlot().Call(gates[to].name, "Hold", int64(d))
						} else {
							_, err = gates[d].theSlot().CallWithResult(gates[to].name, "Hold", int64(d))
						}
						if err != nil {
							w.Viol("result", "a call that was held: %v", err)
						}
					}(d)
				}
				if w.Intn(2) == 0 {
					w.Await(func() bool {
						n := 0
						for _, g := range gates {
							n += len(g.order())
						}
						return n > 0
					})
				}
			}
			var mu sync.Mutex
			var progress int64
			ok := w.GroupProgress(walkers, &progress, func(k int) {
				r := w.R(k + round*100)
				for n := 0; n < 12 && !w.Bad(); n++ {
					perm := r.Perm(len(hops[k]))
					perm = perm[:2+r.Intn(len(perm)-1)]
					var path []string
					plain := make([]bool, len(perm)+1)
					naps := make([]int64, len(perm)+1)
					mode := r.Intn(3)
					id := int64(round+1)*100000000 + int64(k)*1000000 + int64(n)*100
					back := 0
					mu.Lock()
					for i, p := range perm {
						path = append(path, hops[k][p])
						plain[i] = mode == 0 || mode == 1 && r.Intn(2) == 0
						if r.Intn(4) == 0 {
							naps[i] = r.Int63n(1500)
						}
						issued[id+int64(i)] = true
						for j := 0; j < i-1; j++ {
							if where[path[j]] == where[path[i]] {
								back++
								break
							}
						}
					}
					mu.Unlock()
					// Gate features are used by nobody but for their slots.
					s := gates[r.Intn(docks)].theSlot()
					if plain[0] {
						if err := s.Call(path[0], "Go", id, path[1:], plain[1:], naps); err != nil {
							w.Viol("result", "walk along %v: %v", path, err)
						}
					} else if res, err := s.CallWithResult(path[0], "Go", id, path[1:], plain[1:], naps); err != nil || canon(res, false) != canon([]interface{}{mix(id), path[0]}, false) {
						w.Viol("result", "walk along %v: %s, %v", path, short(canon(res, false)), err)
					}
					w.Eval(len(path))
					w.Count("hops", len(path))
					w.Count("hops back to a dock that waits", back)
					w.State("walk mode %d docks %d length %d back %d gated %v", mode, docks, len(path), back, gated)
					atomic.AddInt64(&progress, 1)
				}
			})
			if !ok {
				w.Viol("hang", "calls that go to and fro are not answered (%d docks, %d walkers, others held: %v)\n%s", docks, walkers, gated, Dump())
				return
			}
			w.exactlyOnce("walks", led, issued)
			for _, g := range gates {
				for d := range gates {
					g.open(int64(d))
				}
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			if !w.Done(done) {
				w.Viol("hang", "calls that were held do not return\n%s", Dump())
			}
			w.Sample("%d docks, %d walkers at once along up to %d features of the same docks, with and without results; other calls held meanwhile: %v", docks, walkers, len(hops[0]), gated)
		}
	})
}

func init() {
	// A peer sends and closes. What it has sent arrives all the same, although
	// the receiving side is slow and what it sends itself can't be delivered.
	scenario("c15unread", func(w *W) {
		var mu sync.Mutex
		addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
		type end struct {
			packs  []string
			closed int
			in     chan bool
			gate   chan bool
			peer   network.IPeer
			after  int
		}
		ends := map[string]*end{} // by remote address
		var s *side
		get := func(p network.IPeer) *end {
			mu.Lock()
			defer mu.Unlock()
			a := p.RemoteAddr().String() + p.LocalAddr().String()
			e := ends[a]
			if e == nil {
				e = &end{in: make(chan bool), gate: make(chan bool), peer: p}
				ends[a] = e
			}
			return e
		}
		s = newSide("the side that reads")
		s.onPack = func(l *life, o interface{}) {
			e := get(l.peer)
			str, _ := o.(string)
			mu.Lock()
			e.packs = append(e.packs, str)
			if e.closed > 0 {
				e.after++
			}
			first := len(e.packs) == 1
			mu.Unlock()
			if first {
				close(e.in)
				<-e.gate
			}
		}
		s.onEnd = func(l *life) { e := get(l.peer); mu.Lock(); e.closed++; mu.Unlock() }
		ls := network.NewSocket(addr, "txt", s)
		ls.Listen()
		raw, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			fail("%v", err)
		}
		var dial sync.Mutex
		var progress int64
		ok := w.GroupProgress(8, &progress, func(k int) {
			r := w.R(k)
			for n := 0; n < w.N && !w.Bad(); n++ {
				var c net.Conn
				var err error
				dials := r.Intn(2) == 0
				if dials {
					dial.Lock()
					network.NewSocket(raw.Addr().String(), "txt", s).Dial()
					c, err = raw.Accept()
					dial.Unlock()
				} else {
					c, err = net.Dial("tcp", addr)
				}
				if err != nil {
					w.Viol("hang", "no connection: %v", err)
					return
				}
				a := c.LocalAddr().String() + c.RemoteAddr().String()
				count := 1 + r.Intn(400)
				var buf []byte
				var want []string
				for j := 0; j < count && len(buf) < 24000; j++ {
					p := fmt.Sprintf("%d.%d.%d %s\x00", k, n, j, strings.Repeat("u", r.Intn(80)))
					want = append(want, p)
					buf = append(buf, p...)
				}
				c.Write(buf)
				var e *end
				if !w.Await(func() bool { mu.Lock(); defer mu.Unlock(); e = ends[a]; return e != nil && len(e.packs) > 0 }) {
					w.Viol("lost", "no packet arrives\n%s", Dump())
					return
				}
				halfOnly := r.Intn(4) == 0
				if halfOnly {
					c.(*net.TCPConn).CloseWrite()
				} else {
					c.Close()
				}
				// All of these are in vain.
				sends := r.Intn(6)
				for j := 0; j < sends; j++ {
					e.peer.Send("in vain\x00")
					time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
				}
				if r.Intn(3) == 0 {
					w.Sleep(1)
				}
				close(e.gate)
				if !w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return e.closed > 0 }) {
					w.Viol("open", "OnClosed is not reported after the peer has closed\n%s", Dump())
					return
				}
				if halfOnly {
					c.Close()
				}
				mu.Lock()
				if fmt.Sprint(e.packs) != fmt.Sprint(want) || e.after > 0 {
					w.Viol("lost", "peer sends %d packets and closes (half only: %v), the other side reads slowly and sends %d in vain (it has dialed: %v): %d packets arrive, %d after OnClosed", len(want), halfOnly, sends, dials, len(e.packs), e.after)
				}
				if e.closed != 1 {
					w.Viol("callbacks", "%d OnClosed", e.closed)
				}
				delete(ends, a)
				mu.Unlock()
				w.Eval(1)
				w.Count("packets read after the peer had closed", len(want)-1)
				w.State("unread %d sends %d half %v dials %v", min(len(want), 64), sends, halfOnly, dials)
				atomic.AddInt64(&progress, 1)
			}
		})
		if !ok {
			w.Viol("hang", "\n%s", Dump())
		}
		ls.Close()
		w.Sample("peers that send up to 400 packets and close: all arrive before OnClosed, although nothing can be sent back")
	})
}
