package main

// Calls, queries and connections that have to wait for more than a minute, and
// timeouts compared with timers that are due shortly after.

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
)

func init() {
	// A timeout must be there before a timer that is started along with it and
	// due a little later, at least once in many attempts.
	scenario("c07prompt", func(w *W) {
		where := []string{"chancall", "slot", "remote"}[w.p("where", 0)]
		type pair struct{ due, ref time.Duration }
		slack := 6 * time.Millisecond
		if where == "remote" {
			slack = 12 * time.Millisecond
		}
		var pairs []pair
		for _, us := range []int{500, 1000, 2000, 5000, 9000, 20000, 50000, 100000, 250000, 500000, 990000, 0, 1500000} {
			d := time.Duration(us) * time.Microsecond
			if us == 0 {
				d = time.Second
			}
			p := pair{d, d + slack + d/100}
			pairs = append(pairs, p)
		}
		attempts := int(w.p("attempts", 60))
		var hub string
		var client *Echo
		if where != "chancall" {
			hub = w.startHub(len(pairs) + 2)
			client = w.newEcho("client", newLedger())
			if !w.startEchos(hub, "client", client) {
				return
			}
		}
		w.GroupProgress(len(pairs), &w.ticks, func(i int) {
			x := pairs[i]
			methods := []string{"A", "B"}
			s := w.newSlow(fmt.Sprintf("P%d", i))
			var set func(string, float32)
			var c Caller
			if where == "chancall" {
				callee := chancall.NewCallee(s.name, s)
				set = callee.SetTimeout
				c = chancall.NewCaller(callee)
			} else {
				sl := ferry.Carry(s.name, s, true)
				set = sl.SetTimeout
				w.startDock(hub, s.name, sl)
				if !w.Await(func() bool { return s.theSlot() != nil }) {
					w.Viol("hang", "feature is not started\n%s", Dump())
					return
				}
				c = slotCaller{s.theSlot(), s.name}
				if where == "remote" {
					c = slotCaller{client.theSlot(), s.name}
				}
			}
			set("Other", 3600)
			for _, m := range methods {
				if x.due != time.Second {
					set(m, float32(x.due.Seconds()))
				}
			}
			var took time.Duration
			for a := 0; a < attempts && !w.Bad(); a++ {
				if _, err := c.CallWithResult("Other", int64(1)); err != nil {
					w.Viol("result", "a call that returns at once: %v", err)
					return
				}
				var fired int64
				plain := a%2 == 1
				start := time.Now()
				t := time.AfterFunc(x.ref, func() { atomic.StoreInt64(&fired, 1) })
				var err error
				if plain {
					err = c.Call(methods[a/2%2], int64(2+a))
				} else {
					_, err = c.CallWithResult(methods[a/2%2], int64(2+a))
				}
				late := atomic.LoadInt64(&fired) != 0
				took = time.Since(start)
				t.Stop()
				select {
				case s.gate <- struct{}{}: // lets that one go
				case <-time.After(60 * time.Second):
					w.Viol("count", "%s: the method of a call that has failed with %v after %v does not run\n%s", where, err, took, Dump())
					return
				}
				w.Eval(1)
				if err == nil {
					w.Viol("missing", "%s: a call of a method that does not return succeeds", where)
				} else if took < x.due-x.due/1000-time.Microsecond {
					w.Viol("early", "%s: timeout is %v, but the call fails after %v: %v", where, x.due, took, err)
				}
				if !late {
					w.State("prompt %s %v %v", where, x.due, plain)
					w.Max("attempts until a timeout beat the timer behind it", a+1)
					return
				}
				if x.due > 200*time.Millisecond {
					a += 2
				}
			}
			w.Viol("late", "%s: a timeout of %v never fails a call before a timer of %v started along with it, last after %v", where, x.due, x.ref, took)
		})
	})

	// Methods that run for more than a minute, within their timeouts and beyond.
	scenario("c07hold", func(w *W) {
		hub := w.startHub(40)
		client := w.newEcho("client", newLedger())
		if !w.startEchos(hub, "client", client) {
			return
		}
		rest := w.p("ticks", 6200)
		type tc struct {
			timeout float32
			where   int
			fails   bool
		}
		var cases []tc
		for i, t := range []float32{60.5, 100, 121, 601, 3600, 3601, 86400, 1e7} {
			for where := 0; where < 3; where++ {
				cases = append(cases, tc{t, where, i == 0})
			}
		}
		gate := make(chan bool)
		var late int64
		done := make(chan bool)
		go func() {
			w.Sleep(rest)
			close(done)
		}()
		var open int64 = int64(len(cases))
		go func() {
			// Those that time out come first.
			<-done
			w.Await(func() bool { return atomic.LoadInt64(&late) >= 3 || w.Bad() })
			close(gate)
		}()
		w.GroupProgress(len(cases), &w.ticks, func(i int) {
			defer atomic.AddInt64(&open, -1)
			x := cases[i]
			s := w.newSlow(fmt.Sprintf("H%d", i))
			where := []string{"chancall", "slot", "remote"}[x.where]
			var c Caller
			if x.where == 0 {
				callee := chancall.NewCallee(s.name, s)
				callee.SetTimeout("A", x.timeout)
				c = chancall.NewCaller(callee)
			} else {
				sl := ferry.Carry(s.name, s, true)
				sl.SetTimeout("A", x.timeout)
				w.startDock(hub, s.name, sl)
				if !w.Await(func() bool { return s.theSlot() != nil }) {
					w.Viol("hang", "feature is not started\n%s", Dump())
					return
				}
				c = slotCaller{s.theSlot(), s.name}
				if x.where == 2 {
					c = slotCaller{client.theSlot(), s.name}
				}
			}
			go func() { <-gate; close(s.gate) }()
			start := time.Now()
			var err error
			var res []interface{}
			plain := x.timeout == 121 || x.timeout == 3601
			if plain {
				err = c.Call("A", int64(i))
			} else {
				res, err = c.CallWithResult("A", int64(i))
			}
			took := time.Since(start)
			w.Eval(1)
			w.State("hold %s %v", where, x.timeout)
			if x.fails {
				atomic.AddInt64(&late, 1)
			}
			if err != nil && took >= time.Duration(float64(x.timeout)*float64(time.Second))-5*time.Millisecond {
				return // due
			}
			if x.fails && err == nil {
				w.Viol("missing", "%s: a method is held for long, but the call (timeout %v s) succeeds", where, x.timeout)
			} else if err != nil || !plain && (len(res) != 1 || canon(res[0], false) != canon(mix(int64(i)), false)) {
				w.Viol("early", "%s: timeout is %v s, but after %v the call of the method that is held ends with %v, %v", where, x.timeout, took, res, err)
			} else {
				w.Max("seconds a call was waiting for its method", int(took.Seconds()))
			}
		})
	})

	// Calls held for more than a minute in another dock, calls over connections
	// that were idle meanwhile, calls that wait for a carrier for that long.
	scenario("c10hold", func(w *W) {
		hub := w.startHub(20)
		led := newLedger()
		rest := w.p("ticks", 6200)
		what := w.p("what", 0) // 0: held and idle, 1: waiting for a carrier, 2: for another one
		a, b, c := w.newEcho("A", led), w.newEcho("B", led), w.newEcho("C", led)
		if !w.startEchos(hub, "a", a) || !w.startEchos(hub, "b", b) || !w.startEchos(hub, "c", c) {
			return
		}
		var ids int64
		issued := map[int64]bool{}
		var mu sync.Mutex
		id := func() int64 {
			n := atomic.AddInt64(&ids, 1)
			mu.Lock()
			issued[n] = true
			mu.Unlock()
			return n
		}
		echo := func(from *Echo, to string) {
			err, wrong := w.callEcho(from.theSlot(), to, id(), int(ids%4), 50)
			if err != nil || wrong != "" {
				w.Viol("failed", "call of %s from %s: %v %s", to, from.name, err, wrong)
			}
			w.Eval(1)
		}
		held := func(from *Echo, to, method string, plain bool) func() {
			n := id()
			return func() {
				if method == "Mix" && what == 0 && !w.Await(func() bool { return atomic.LoadInt64(&b.held) > 0 }) {
					w.Viol("hang", "a call does not start\n%s", Dump())
				}
				start := time.Now()
				var err error
				var res []interface{}
				var args []interface{}
				if args = []interface{}{n}; method != "Hold" {
					args = append(args, "x")
				}
				if plain {
					err = from.theSlot().Call(to, method, args...)
				} else {
					res, err = from.theSlot().CallWithResult(to, method, args...)
				}
				if err != nil || !plain && canon(res[0], false) != canon(mix(n), false) {
					w.Viol("failed", "%s.%s called by %s (without results: %v) ends after %v with %v, %v", to, method, from.name, plain, time.Since(start), res, err)
				}
				w.Max("seconds a call was waiting", int(time.Since(start).Seconds()))
				w.Eval(1)
			}
		}
		var fs []func()
		var final func() bool
		if what == 0 {
			// A connection of every direction exists; that of A and C is idle from
			// now on, that of A and B carries the held calls only.
			echo(a, "C")
			echo(c, "A")
			fs = append(fs, held(a, "B", "Hold", false), held(a, "B", "Hold", true), held(b, "A", "Hold", true), held(b, "A", "Hold", false), held(a, "A", "Hold", false),
				held(a, "B", "Mix", false), held(c, "B", "Mix", true)) // which wait in line
			final = func() bool {
				close(a.gate)
				close(b.gate)
				return true
			}
		} else {
			if what == 2 {
				// There was a carrier, which was called, and is gone.
				if w.anchor(hub) == "" {
					return
				}
				d := w.fakeDock("", hub, []string{"L1", "L2"}, func(p *Peer, k Packet) {
					if k.ID == pRpcReq {
						p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{}, "")
					}
				})
				if d == nil {
					w.Viol("hang", "a dock can't join\n%s", Dump())
					return
				}
				d.Ready()
				for _, e := range []*Echo{a, b} {
					if err := e.theSlot().Call("L1", "Mix", int64(0), ""); err != nil {
						w.Viol("failed", "call to the dock that will go: %v", err)
					}
				}
				d.Kill()
				for _, l := range d.Slots {
					if !w.Await(func() bool { return w.gone(hub, l) }) {
						w.Viol("hang", "the hub does not notice that a dock has gone\n%s", Dump())
						return
					}
				}
				w.Sleep(20)
			}
			for _, e := range []*Echo{a, b, c} {
				for _, name := range []string{"L1", "L2"} {
					fs = append(fs, held(e, name, "Mix", false), held(e, name, "Mix", true), held(e, name, "Mix", false))
				}
			}
			final = func() bool {
				return w.startEchos(hub, "late1", w.newEcho("L1", led)) && w.startEchos(hub, "late2", w.newEcho("L2", led))
			}
		}
		var open = int64(len(fs))
		ok := make(chan bool, 1)
		go func() {
			ok <- w.GroupProgress(len(fs), &w.ticks, func(i int) { fs[i](); atomic.AddInt64(&open, -1) })
		}()
		w.Sleep(rest)
		if n := atomic.LoadInt64(&open); n != int64(len(fs)) && !w.Bad() {
			w.Viol("early", "%d of %d calls have returned before they could have", int64(len(fs))-n, len(fs))
		}
		if !final() {
			return
		}
		if !w.Await(func() bool { return atomic.LoadInt64(&open) == 0 }) {
			w.Viol("hang", "%d of %d calls do not return after they have waited for %d ticks\n%s", open, len(fs), rest, Dump())
			return
		}
		<-ok
		for _, x := range []*Echo{a, b, c} {
			for _, y := range []*Echo{a, b, c} {
				x, y := x, y
				if !w.Group(1, func(int) { echo(x, y.name) }) {
					w.Viol("hang", "a call over a connection that was idle does not return\n%s", Dump())
					return
				}
			}
		}
		w.exactlyOnce("calls that wait for long", led, issued)
		w.State("hold %d", what)
		w.Sample("%d calls waited for more than %d ticks and were served once, and others after them", len(fs), rest)
	})

	// Docks that have been silent for long are still there for the hub, and
	// queries that have waited for long are answered.
	scenario("c13hold", func(w *W) {
		hub := w.startHub(20)
		d := w.fakeDock("", hub, []string{"quiet"}, nil)
		e := w.fakeDock("", hub, []string{"quiet", "slow"}, nil)
		if d == nil || e == nil {
			w.Viol("hang", "docks can't register\n%s", Dump())
			return
		}
		d.Ready()
		var qs []*Peer
		for i := 0; i < 3; i++ {
			q := w.dialPeer("", hub, nil)
			if q == nil {
				w.Viol("hang", "no connection")
				return
			}
			q.Put(pQueryReq, "slow")
			qs = append(qs, q)
		}
		idle := w.dialPeer("", hub, nil)
		w.Sleep(w.p("ticks", 6200))
		for i, p := range append(qs, idle, d.Hub, e.Hub) {
			if p.Closed() {
				w.Viol("idle", "the hub has closed connection %d, which was silent", i)
				return
			}
		}
		idle.Put(pQueryReq, "quiet")
		if !idle.AwaitGot(pQueryResp, 1) || idle.Got(pQueryResp)[0].Str(0) != d.Addr {
			w.Viol("lost", "a dock that was silent for long is not handed out: %v", idle.All())
			return
		}
		e.Hub.Put(pReady, []string{"slow"})
		for i, q := range qs {
			if !q.AwaitGot(pQueryResp, 1) || q.Got(pQueryResp)[0].Str(0) != e.Addr || len(q.All()) != 1 {
				w.Viol("lost", "query %d that has waited for long is answered with %v", i, q.All())
			}
			w.Eval(1)
		}
		// Another registration of the same host gets a port of its own.
		f := w.fakeDock("", hub, []string{"quiet"}, nil)
		if f == nil || f.Addr == d.Addr || f.Addr == e.Addr {
			w.Viol("port", "a dock that registers later gets %v", f)
			return
		}
		w.State("hold")
		w.Count("queries that waited for more than a minute", len(qs))
	})
}
