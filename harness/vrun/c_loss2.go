package main

// C20: calls that go over connections which the other dock has made.

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	scenario("c20inbound", func(w *W) {
		hub := w.startHub(10 + w.N*3)
		led := newLedger()
		es := []*Echo{w.newEcho("caller0", led), w.newEcho("caller1", led)}
		for i, e := range es {
			if !w.startEchos(hub, fmt.Sprint("dock", i), e) {
				return
			}
		}
		var addrs []string
		q := w.dialPeer("", hub, nil)
		if q == nil {
			w.Viol("hang", "no connection to the hub")
			return
		}
		for i, e := range es {
			q.Put(pQueryReq, e.name)
			if !q.AwaitGot(pQueryResp, i+1) {
				w.Viol("hang", "a query is not answered\n%s", Dump())
				return
			}
			addrs = append(addrs, q.Got(pQueryResp)[i].Str(0))
		}
		for round := 0; round < w.N && !w.Bad(); round++ {
			feature := fmt.Sprint("in", round)
			early := w.Intn(2) == 0 // calls are made before the carrier connects
			answered := w.Intn(4)
			calls := answered + 1 + w.Intn(6)
			how := w.Intn(4)
			var mu sync.Mutex
			got := map[int64]int{}
			ok := map[int64]bool{}
			var lines []*Peer
			var dead int64
			readied, cut := false, false
			var partial []byte
			on := func(p *Peer, k Packet) {
				// This side is ready once the dock has registered. (A call may come
				// before.)
				if k.ID == pRegReq {
					readied = true
				}
				if k.ID == pRpcReq && len(k.Arr(3)) > 0 {
					id, _ := asInt(k.Arr(3)[0])
					mu.Lock()
					got[id]++
					reply := len(ok) < answered && atomic.LoadInt64(&dead) == 0
					if reply {
						ok[id] = true
					}
					mu.Unlock()
					if reply {
						p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{mix(id), "s/in"}, "")
					} else if partial == nil {
						b := encPacket(rand.New(rand.NewSource(1)), pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{mix(id), "s/in"}, "")
						partial = b[:len(b)-1]
					}
				}
				if how == 3 && readied && partial != nil && !cut {
					// The last packet never arrives completely.
					cut = true
					p.PutRaw(partial)
				}
			}
			c := w.Intn(2)
			dial := func() *Peer {
				p := w.dialDock(addrs[c], []string{feature}, on)
				if p == nil {
					w.Viol("hang", "no connection to a dock")
				}
				return p
			}
			known := func(p *Peer) bool { return p.AwaitGot(pReady, 1) }
			type outcome struct {
				id  int64
				res []interface{}
				err error
			}
			outs := make(chan outcome, calls+2)
			call := func(i int) {
				id := int64(round)*1000 + int64(i)
				if i%3 == 2 {
					outs <- outcome{id, nil, es[c].theSlot().Call(feature, "Mix", id, "s")}
				} else {
					res, err := es[c].theSlot().CallWithResult(feature, "Mix", id, "s")
					outs <- outcome{id, res, err}
				}
			}
			if early {
				for i := 0; i < calls; i++ {
					go call(i)
				}
				w.Sleep(int64(w.Intn(3)))
			}
			p := dial()
			if p == nil {
				return
			}
			lines = append(lines, p)
			if !known(p) {
				w.Viol("hang", "a dock that connects is not answered\n%s", Dump())
				return
			}
			if !early {
				for i := 0; i < calls; i++ {
					go call(i)
				}
			}
			// All are there, as many as were answered have returned.
			if !w.Await(func() bool {
				mu.Lock()
				defer mu.Unlock()
				return len(got) == calls && len(outs) >= answered
			}) {
				w.Viol("hang", "%d of %d calls reach the dock that has connected, %d of %d answers are returned\n%s", len(got), calls, len(outs), answered, Dump())
				return
			}
			mu.Lock()
			if len(ok) < answered || len(outs) > answered && how != 3 {
				w.Viol("early", "%d calls return, %d have been answered", len(outs), len(ok))
			}
			mu.Unlock()
			// Others are at work while the line is lost.
			stop := make(chan bool)
			var side sync.WaitGroup
			side.Add(1)
			go func() {
				defer side.Done()
				for i := int64(0); ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					if err, wrong := w.callEcho(es[c].theSlot(), es[1-c].name, 1e9+int64(round)*10000+i, int(i%4), 40); err != nil || wrong != "" {
						w.Viol("collateral", "a call to another dock gives %v %s", err, wrong)
						return
					}
				}
			}()
			atomic.StoreInt64(&dead, 1)
			t := p.Conn.(*net.TCPConn)
			switch how {
			case 0:
				t.SetLinger(0)
			case 1:
				t.CloseWrite()
				time.Sleep(time.Millisecond)
			}
			p.Close()
			for i := 0; i < calls; i++ {
				select {
				case o := <-outs:
					mu.Lock()
					good := ok[o.id]
					sent := got[o.id]
					mu.Unlock()
					w.Eval(1)
					switch {
					case good && o.err != nil:
						w.Viol("failed", "call %d was answered, but fails: %v", o.id, o.err)
					case good && o.res != nil && canon(o.res[0], false) != canon(mix(o.id), false):
						w.Viol("wrong", "call %d gets %v", o.id, o.res)
					case !good && o.err == nil:
						w.Viol("invented", "call %d was not answered (sent %d times), but gets %v", o.id, sent, o.res)
					}
				case <-w.after(hangTicks):
					w.Viol("hang", "%d of %d calls over a connection that the other dock has made are still waiting after it is lost (way %d)\n%s", calls-i, calls, how, Dump())
					return
				}
			}
			// Calls from now on reach another carrier, if there is one.
			later := w.Intn(2) == 0
			carrier := w.newEcho(feature, led)
			last := make(chan struct{})
			var e2 error
			var wrong string
			go func() {
				e2, wrong = w.callEcho(es[c].theSlot(), feature, 1e8+int64(round), round%4, 40)
				close(last)
			}()
			if later {
				w.Sleep(int64(w.Intn(30)))
				select {
				case <-last:
					w.Viol("early", "a call to %s, which nobody carries any more, returns: %v", feature, e2)
				default:
				}
			}
			if !w.startEchos(hub, "next", carrier) {
				return
			}
			if !w.Done(last) {
				w.Viol("hang", "a call to %s does not reach the carrier that has joined\n%s", feature, Dump())
				return
			}
			if e2 != nil || wrong != "" || led.Count(1e8+int64(round)) != 1 {
				w.Viol("failed", "a call to %s after the loss: %v %s, has run %d times", feature, e2, wrong, led.Count(1e8+int64(round)))
			}
			close(stop)
			side.Wait()
			mu.Lock()
			for id, n := range got {
				if n != 1 {
					w.Viol("twice", "call %d is sent %d times", id, n)
				}
			}
			mu.Unlock()
			w.Count("connections from other docks lost with calls on them", 1)
			w.State("inbound how %d early %v answered %d calls %d later %v", how, early, answered, calls, later)
			w.Sample("%d calls over a connection made by the other dock, %d answered, the others fail when it is lost (way %d); the next call reaches a new carrier", calls, answered, how)
		}
	})
}

// after is a channel that is closed after n ticks.
func (w *W) after(n int64) <-chan struct{} {
	c := make(chan struct{})
	go func() { w.Sleep(n); close(c) }()
	return c
}
