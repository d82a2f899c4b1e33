package main

// C18: the life of features, Startup, Serve, Close and Carry.

import (
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/network"
)

// Liver is a feature whose life is recorded.
type Liver struct {
	hidden bool // not discoverable
	*Echo
	dock int
	gate chan struct{} // OnStart waits for it
}

// lives is the record of a round.
type lives struct {
	mu     sync.Mutex
	events []string
	ended  []int // docks in the order of OnDestroy
}

func (l *lives) note(f string, a ...interface{}) {
	l.mu.Lock()
	l.events = append(l.events, fmt.Sprintf(f, a...))
	l.mu.Unlock()
}

func (l *lives) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	e := l.events
	if len(e) > 60 {
		e = e[len(e)-60:]
	}
	return strings.Join(e, ", ")
}

// gateHub is a fake hub that answers registrations when it is told to.
func (w *W) gateHub(n int) (h *FakeHub, accepted *int64) {
	h = w.fakeHub(n)
	accepted = new(int64)
	h.Delay = func() {
		for atomic.LoadInt64(accepted) == 0 {
			time.Sleep(200 * time.Microsecond)
		}
	}
	return h, accepted
}

// released checks that nothing listens on the ports.
func (w *W) released(what string, before map[int]bool, log fmt.Stringer) {
	for p := range listening() {
		if !before[p] {
			w.Viol("port", "%s: port %d is still listened on after Close\n%s", what, p, log)
		}
	}
}

func init() {
	c18life := func(w *W) {
		mock := w.p("mock", 0) != 0
		for round := 0; round < w.N && !w.Bad(); round++ {
			docks := 1 + w.Intn(4)
			real := mock || w.Intn(2) == 0
			before := listening()
			var hub string
			var fh *FakeHub
			accepted := new(int64)
			first := 0
			again := w.Intn(2) == 0
			if real {
				first = w.block(docks)
				hub = fmt.Sprintf("127.0.0.1:%d", w.hubPort())
				*accepted = 1
				if mock {
					go ferry.Serve(hub, blackExcept(first, docks)...)
					w.Sleep(2)
				} else {
					w.serve(hub, blackExcept(first, docks)...)
				}
			} else {
				fh, accepted = w.gateHub(docks)
				hub, first = fh.Addr, fh.first
				before = listening()
			}
			rec := &lives{}
			led := newLedger()
			var all []*Liver
			kind := w.Intn(5) // how Close is called
			closeNow, closeDone := make(chan struct{}), make(chan struct{})
			var calls, closing int64
			for d := 0; d < docks; d++ {
				var slots []ferry.ISlot
				n := w.Intn(5)
				if d == 0 {
					n++
				}
				for i := 0; i < n; i++ {
					l := &Liver{Echo: w.newEcho(fmt.Sprintf("L%d.%d.%d", round, d, i), led), dock: d}
					l.hidden = w.Intn(4) == 0
					if i > 0 && w.Intn(3) == 0 {
						l.gate = make(chan struct{})
					}
					nap := time.Duration(w.Intn(3)*w.Intn(20)) * time.Millisecond
					busy := w.Intn(3) == 0
					earlier := append([]*Liver(nil), all...)
					r := w.R(round*100 + len(all))
					id := int64(round*1000+len(all)) * 1000
					var sameDock []*Liver
					closesInStart := kind == 2 && len(all) == 0
					l.onStart = func(s ferry.ISlot) {
						if atomic.LoadInt64(accepted) == 0 {
							w.Viol("start", "OnStart before the hub has accepted the registration\n%s", rec)
						}
						if atomic.LoadInt64(&l.started) > 1 {
							w.Viol("start", "OnStart of %s is called again\n%s", l.name, rec)
						}
						rec.note("start %s", l.name)
						if s == nil {
							w.Viol("start", "OnStart without a slot")
							return
						}
						time.Sleep(nap)
						if busy {
							s.SetTimeout("Mix", 100)
							targets := append([]*Liver{l}, append(earlier, sameDock...)...)
							for k := 0; k < 3; k++ {
								t := targets[r.Intn(len(targets))]
								if t.hidden && t.dock != l.dock {
									continue
								}
								err, wrong := w.callEcho(s, t.name, id+int64(k), r.Intn(5), 30)
								atomic.AddInt64(&calls, 1)
								if (err != nil || wrong != "") && atomic.LoadInt64(&closing) == 0 {
									w.Viol("start", "call of %s in OnStart of %s: %v %s\n%s", t.name, l.name, err, wrong, rec)
								}
							}
						}
						if l.gate != nil {
							<-l.gate
						}
						if closesInStart {
							<-closeNow
							ferry.Close()
							close(closeDone)
						}
					}
					l.onEnd = func(s ferry.ISlot) {
						rec.note("end %s", l.name)
						rec.mu.Lock()
						rec.ended = append(rec.ended, l.dock)
						rec.mu.Unlock()
						if atomic.LoadInt64(&l.ended) > 1 {
							w.Viol("end", "OnDestroy of %s is called again\n%s", l.name, rec)
						}
						if !mock {
							// Newer docks are closed already, the hub is older.
							// (Which dock has which port is up to the hub.)
							up := listening()
							left := 0
							for k := 0; k < docks; k++ {
								if up[first+k] {
									left++
								}
							}
							if left > l.dock+1 {
								w.Viol("order", "dock %d is destroyed while %d docks listen, so a newer one does\n%s", l.dock, left, rec)
							}
							if real && !up[portNumber(hub)] {
								w.Viol("order", "dock %d is destroyed after the older hub is closed\n%s", l.dock, rec)
							}
						}
						if kind == 3 {
							ferry.Close()
						}
					}
					all = append(all, l)
					slots = append(slots, w.carryEcho2(l))
				}
				seen := len(all)
				go ferry.Startup(hub, fmt.Sprint("dock", d), slots...)
				// The next instance is newer if this one is known to the hub.
				if fh != nil {
					if !w.Await(func() bool { return len(fh.Conns()) == d+1 }) {
						w.Viol("hang", "dock does not connect to the hub\n%s", Dump())
						return
					}
					if d == docks-1 || w.Intn(3) == 0 && *accepted == 0 {
						w.Sleep(int64(1 + w.Intn(4)))
						atomic.StoreInt64(accepted, 1)
					}
				}
				if atomic.LoadInt64(accepted) == 1 {
					if !w.Await(func() bool {
						for _, l := range all[:seen] {
							if atomic.LoadInt64(&l.started) == 0 {
								return false
							}
						}
						return mock || listening()[first+d]
					}) {
						w.Viol("start", "features are not started though the hub has accepted them, and none but %v waits in OnStart\n%s\n%s", waiters(all), rec, Dump())
						return
					}
				}
			}
			// All serve calls, even next to one that is stuck in OnStart.
			if s := all[0].theSlot(); s != nil {
				ok := w.Group(2, func(g int) {
					for i, l := range all {
						if l.hidden && l.dock != all[0].dock {
							continue
						}
						err, wrong := w.callEcho(s, l.name, int64(round*1000+500+i)*1000+int64(g), g, 20)
						atomic.AddInt64(&calls, 1)
						if err != nil || wrong != "" {
							w.Viol("call", "call of %s: %v %s\n%s", l.name, err, wrong, rec)
						}
					}
				})
				if !ok {
					w.Viol("call", "calls hang while %v are stuck in OnStart\n%s", waiters(all), Dump())
					return
				}
			}
			w.Sleep(int64(w.Intn(3)))
			for _, l := range all {
				if n := atomic.LoadInt64(&l.started); n != 1 {
					w.Viol("start", "OnStart of %s is called %d times\n%s", l.name, n, rec)
				}
				if n := atomic.LoadInt64(&l.ended); n != 0 {
					w.Viol("end", "OnDestroy of %s without Close\n%s", l.name, rec)
				}
			}
			released := func() {
				for _, l := range all {
					if l.gate != nil {
						close(l.gate)
					}
				}
			}
			if w.Intn(2) == 0 {
				released()
				released = func() {}
			}
			rec.note("close")
			atomic.StoreInt64(&closing, 1)
			closers := 1
			if kind == 1 {
				closers = 3
			}
			if kind == 2 {
				close(closeNow)
				if !w.Done(closeDone) {
					w.Viol("hang", "Close does not return from within OnStart\n%s", Dump())
					return
				}
				closers = 0
			}
			if !w.Group(closers, func(int) { ferry.Close() }) {
				w.Viol("hang", "Close does not return\n%s", Dump())
				return
			}
			if closers > 1 {
				// The first one may still be at it.
				w.Await(func() bool {
					for _, l := range all {
						if atomic.LoadInt64(&l.ended) == 0 {
							return false
						}
					}
					return true
				})
				w.Sleep(2)
			}
			judge := func(when string) {
				for _, l := range all {
					if n := atomic.LoadInt64(&l.ended); n != 1 {
						w.Viol("end", "%s: OnDestroy of %s is called %d times\n%s", when, l.name, n, rec)
					}
					if n := atomic.LoadInt64(&l.started); n != 1 {
						w.Viol("start", "%s: OnStart of %s is called %d times\n%s", when, l.name, n, rec)
					}
				}
			}
			judge("after Close")
			rec.mu.Lock()
			for i := 1; i < len(rec.ended); i++ {
				if rec.ended[i] > rec.ended[i-1] {
					w.Viol("order", "docks are destroyed in the order %v, not newest first", rec.ended)
					break
				}
			}
			rec.mu.Unlock()
			if !mock {
				w.released("dock", before, rec)
				for p := range portSet(first, docks) {
					if canDial(fmt.Sprintf("127.0.0.1:%d", p)) {
						w.Viol("port", "port %d still accepts connections after Close\n%s", p, rec)
					}
				}
			}
			if fh != nil {
				if !w.Await(func() bool {
					for _, c := range fh.Conns() {
						if !c.p.Closed() {
							return false
						}
					}
					return true
				}) {
					w.Viol("port", "connections to the hub stay open after Close\n%s", Dump())
				}
			}
			ferry.Close()
			released()
			w.Sleep(1)
			judge("after a second Close")
			w.Eval(len(all) * 4)
			w.Count("features", len(all))
			w.Count("calls in and after OnStart", int(atomic.LoadInt64(&calls)))
			w.State("docks %d features %d kind %d real %v stuck %d", docks, len(all), kind, real, len(waiters(all)))
			w.Sample("%d docks, %d features, %d stuck in OnStart, hub real %v: %s", docks, len(all), len(waiters(all)), real, rec)

			// The ports can be used again at once.
			if again && real && !mock && !w.Bad() {
				w.serve(hub, blackExcept(first, docks)...)
				e := w.newEcho("again", led)
				w.startDock(hub, "again", w.carryEcho(e, true))
				if !w.Await(func() bool { return e.theSlot() != nil }) {
					w.Viol("port", "nothing starts on the same ports after Close\n%s", Dump())
					return
				}
				if !listening()[first] {
					w.Viol("port", "dock does not listen on port %d again", first)
				}
				ferry.Close()
				w.released("again", before, rec)
				if e.ended != 1 {
					w.Viol("end", "OnDestroy is called %d times", e.ended)
				}
				w.Eval(1)
			}
		}
	}
	scenario("c18life", c18life)
	scenario("c18mock", func(w *W) {
		network.Mock("tcp")
		c18life(w)
	})

	// Startup in many goroutines, Close at any time.
	// A hub that is closed while it starts doesn't listen in the end.
	scenario("c18serve", func(w *W) {
		port := w.hubPort()
		var addrs []string
		settle := func(addr string) bool {
			if !canDial(addr) {
				return true
			}
			// It is up, so Close has to end it.
			ferry.Close()
			if w.Await(func() bool { return !canDial(addr) }) {
				return true
			}
			w.Viol("port", "a hub that was closed while it started listens, and goes on to after Close\n%s", Dump())
			return false
		}
		early := 0
		for round := 0; round < w.N; round++ {
			var now []string
			for i := 1 + w.Intn(2); i > 0; i-- {
				now = append(now, fmt.Sprintf("127.%d.%d.%d:%d", 3+len(addrs)/50000, len(addrs)/250%200, 1+len(addrs)%250, port))
				addrs = append(addrs, now[len(now)-1])
			}
			gone := make(chan struct{}, len(now))
			for _, a := range now {
				go func(a string) {
					gone <- struct{}{}
					ferry.Serve(a)
				}(a)
			}
			<-gone
			pause := time.Duration(w.Intn(150)) * time.Microsecond
			for start := time.Now(); time.Since(start) < pause; {
			}
			if !w.Group(1, func(int) { ferry.Close() }) {
				w.Viol("hang", "Close does not return while a hub starts\n%s", Dump())
				return
			}
			time.Sleep(time.Millisecond)
			for _, a := range now {
				if !canDial(a) {
					early++
				} else if !settle(a) {
					return
				}
			}
			w.Eval(len(now))
		}
		w.Sleep(5)
		for _, a := range addrs {
			if !settle(a) {
				return
			}
		}
		w.State("serve %v", early > 0)
		w.Count("hubs closed while they start", len(addrs))
		w.Count("of them ended by that", early)
		w.Sample("%d of %d hubs closed within 150 microseconds of their start, the others at the next Close", early, len(addrs))
	})

	scenario("c18race", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			docks := 1 + w.Intn(6)
			h := w.fakeHub(docks)
			before := listening()
			var es []*Echo
			rec := &lives{}
			var running sync.WaitGroup
			for d := 0; d < docks; d++ {
				var slots []ferry.ISlot
				for i := w.Intn(3); i >= 0; i-- {
					e := w.newEcho(fmt.Sprintf("R%d.%d.%d", round, d, i), newLedger())
					nap := time.Duration(w.Intn(3)) * time.Millisecond
					e.onStart = func(s ferry.ISlot) { rec.note("start %s", e.name); time.Sleep(nap) }
					e.onEnd = func(s ferry.ISlot) { rec.note("end %s", e.name) }
					es = append(es, e)
					slots = append(slots, w.carryEcho(e, w.Intn(4) > 0))
				}
				running.Add(1)
				pause := time.Duration(w.Intn(4)*w.Intn(1000)) * time.Microsecond
				go func() {
					time.Sleep(pause)
					running.Done()
					ferry.Startup(h.Addr, "racer", slots...)
				}()
			}
			for i := 1 + w.Intn(3); i > 0; i-- {
				time.Sleep(time.Duration(w.Intn(2000)) * time.Microsecond)
				rec.note("close")
				ferry.Close()
			}
			running.Wait()
			// What has started after that is closed by one more.
			if !w.Await(func() bool {
				ferry.Close()
				for _, e := range es {
					if atomic.LoadInt64(&e.ended) == 0 {
						return false
					}
				}
				return true
			}) {
				w.Viol("end", "features get no OnDestroy though Close is called over and over\n%s\n%s", rec, Dump())
				return
			}
			w.Sleep(2)
			for _, e := range es {
				if n := atomic.LoadInt64(&e.ended); n != 1 {
					w.Viol("end", "OnDestroy of %s is called %d times\n%s", e.name, n, rec)
				}
				if n := atomic.LoadInt64(&e.started); n > 1 {
					w.Viol("start", "OnStart of %s is called %d times\n%s", e.name, n, rec)
				}
			}
			if !w.Await(func() bool {
				for p := range listening() {
					if !before[p] {
						return false
					}
				}
				for _, c := range h.Conns() {
					if c.p != nil && !c.p.Closed() {
						return false
					}
				}
				return true
			}) {
				w.Viol("port", "ports or connections stay open after Close during start\n%s\n%s", rec, Dump())
			}
			w.Eval(len(es))
			w.State("race %d %d", docks, len(es))
			w.Count("features closed while they start", len(es))
			w.Sample("close while starting: %s", rec)
			h.l.Close()
		}
	})

	// Only an interrupt makes Startup and Serve return.
	scenario("c18signal", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			n := w.node(0)
			docks := w.Intn(4)
			first := w.block(docks + 1)
			withHub := docks == 0 || w.Intn(2) == 0
			var hub string
			want := docks
			if withHub {
				hub = n.Hub(first, docks+1)
				want++
			} else {
				hub = w.fakeHub(docks + 1).Addr
			}
			if hub == "" {
				return
			}
			var feats []string
			for d := 0; d < docks; d++ {
				f := []string{fmt.Sprintf("S%d.a", d), fmt.Sprintf("S%d.b", d)}
				feats = append(feats, f...)
				n.Dock(hub, fmt.Sprint("dock", d), f...)
			}
			if docks > 0 && !n.Started(feats...) {
				return
			}
			returned := func() int { r, _ := n.Do(Cmd{Op: "returned"}); return r.N }
			ended := func() string {
				r, _ := n.Do(Cmd{Op: "started", Names: feats})
				s := ""
				for i, c := range r.Counts {
					if i%2 == 1 {
						s += fmt.Sprint(c)
					} else if c != 1 {
						w.Viol("start", "OnStart is called %d times", c)
					}
				}
				return s
			}
			zeros, ones := strings.Repeat("0", len(feats)), strings.Repeat("1", len(feats))
			closeFirst := w.Intn(2) == 0
			harmless := []syscall.Signal{syscall.SIGWINCH, syscall.SIGCHLD, syscall.SIGURG, syscall.SIGCONT}
			for k := w.Intn(4); k > 0; k-- {
				n.cmd.Process.Signal(harmless[w.Intn(len(harmless))])
			}
			w.Sleep(5)
			if r := returned(); r != 0 {
				w.Viol("return", "%d of %d Startup and Serve return without an interrupt", r, want)
			}
			if closeFirst {
				n.Do(Cmd{Op: "close"})
				w.Sleep(10)
				if r := returned(); r != 0 {
					w.Viol("return", "%d of %d Startup and Serve return because of Close", r, want)
				}
				if e := ended(); e != ones {
					w.Viol("end", "OnDestroy counts after Close are %s", e)
				}
			}
			n.cmd.Process.Signal(os.Interrupt)
			if !w.Await(func() bool { return returned() == want || n.Dead() }) {
				w.Viol("return", "%d of %d Startup and Serve have returned after an interrupt\n%s", returned(), want, n.Stacks())
				return
			}
			if n.Dead() {
				return
			}
			if !closeFirst {
				if e := ended(); e != zeros {
					w.Viol("end", "OnDestroy counts before Close are %s", e)
				}
				n.Do(Cmd{Op: "close"})
				if e := ended(); e != ones {
					w.Viol("end", "OnDestroy counts after an interrupt and Close are %s", e)
				}
			}
			n.Do(Cmd{Op: "close"})
			if e := ended(); e != ones {
				w.Viol("end", "OnDestroy counts after a second Close are %s", e)
			}
			for p := range portSet(first, docks+1) {
				if canDial(fmt.Sprintf("127.0.0.1:%d", p)) {
					w.Viol("port", "port %d is open after Close", p)
				}
			}
			if withHub && canDial(hub) {
				w.Viol("port", "hub is reachable after Close")
			}
			w.Eval(6)
			w.State("signal %d %v %v", docks, withHub, closeFirst)
			w.Sample("%d docks, hub %v: no return before the interrupt (Close first: %v), %d returns after it", docks, withHub, closeFirst, want)
			n.Kill()
		}
	})

	scenario("c18carry", func(w *W) {
		no := map[string]interface{}{
			"nil": nil, "empty": &struct{}{}, "number": 5, "text": "feature", "value": structVal{1}, "only start": &onlyStart{}, "only destroy": &onlyEnd{},
			"other signature": &otherSig{}, "value with pointer methods": ferry.Feature{}, "func": func() {}, "map": map[string]int{}, "pointer to pointer": new(*ferry.Feature),
		}
		for name, f := range no {
			for _, d := range []bool{true, false} {
				_, p := try(func() error { ferry.Carry("x", f, d); return nil })
				if p == nil {
					w.Viol("carry", "Carry accepts what is no feature: %s", name)
				}
				w.Eval(1)
				w.State("no %s", name)
			}
		}
		yes := map[string]interface{}{
			"plain": &ferry.Feature{}, "embedding": &struct{ ferry.Feature }{}, "embedding pointer": struct{ *ferry.Feature }{&ferry.Feature{}},
			"own": &ownFeature{}, "value": valFeature{}, "echo": w.newEcho("e", newLedger()),
		}
		for name, f := range yes {
			for _, d := range []bool{true, false} {
				var s ferry.ISlot
				_, p := try(func() error { s = ferry.Carry("x", f, d); return nil })
				if p != nil || s == nil {
					w.Viol("carry", "Carry refuses the feature %s: %v", name, p)
				}
				w.Eval(1)
				w.State("yes %s", name)
			}
		}
	})

	checks["C18"] = func(c *C) {
		c.Rule("1 to 4 docks with 0 to 5 features each under a fake hub that accepts when told to, a real hub in the same process, or the mock network; OnStart that naps, calls features of its own and of other docks, or never returns; Close by one or three goroutines, from within OnStart or OnDestroy, while docks start or wait for a hub that does not answer yet; second Close; same ports used again. Every OnStart and OnDestroy is recorded and judged, listening sockets are read from the kernel. Processes that get harmless signals and interrupts. Carry with 12 kinds of no feature and 6 of features. Distinct: docks x features x way of closing x hub x stuck features; signal cases; carried types.")
		c.Assume("OnDestroy returns; what is closed before the hub has accepted it may or may not be started")
		var jobs []Job
		jobs = append(jobs, Times(c.Pick(4, 10), Job{Scenario: "c18life", N: c.Pick(25, 120)})...)
		jobs = append(jobs, Times(c.Pick(1, 3), Job{Scenario: "c18mock", N: c.Pick(20, 120), P: map[string]int64{"mock": 1}})...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c18race", N: c.Pick(60, 150)})...)
		jobs = append(jobs, Job{Scenario: "c18serve", N: c.Pick(1500, 10000)}, Job{Scenario: "c18serve", N: c.Pick(300, 2000), Race: true})
		jobs = append(jobs, Times(c.Pick(2, 4), Job{Scenario: "c18signal", N: c.Pick(6, 40)})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c18connect", N: c.Pick(3, 20)})...)
		jobs = append(jobs, Job{Scenario: "c18many", N: c.Pick(20, 28)}, Job{Scenario: "c18many", N: c.Pick(2, 10), Race: true})
		jobs = append(jobs, Job{Scenario: "c18carry"}, Job{Scenario: "c18life", N: c.Pick(8, 60), Race: true}, Job{Scenario: "c18race", N: c.Pick(15, 100), Race: true})
		c.Run(5, jobs...)
	}
}

type onlyStart struct{}

func (*onlyStart) OnStart(s ferry.ISlot) {}

type onlyEnd struct{}

func (*onlyEnd) OnDestroy(s ferry.ISlot) {}

type otherSig struct{}

func (*otherSig) OnStart()   {}
func (*otherSig) OnDestroy() {}

type ownFeature struct{}

func (*ownFeature) OnStart(s ferry.ISlot)   {}
func (*ownFeature) OnDestroy(s ferry.ISlot) {}

type valFeature struct{}

func (valFeature) OnStart(s ferry.ISlot)   {}
func (valFeature) OnDestroy(s ferry.ISlot) {}

func (w *W) carryEcho2(l *Liver) ferry.ISlot { return w.carryEcho(l.Echo, !l.hidden) }

func waiters(all []*Liver) []string {
	var out []string
	for _, l := range all {
		if l.gate != nil {
			out = append(out, l.name)
		}
	}
	return out
}

func portSet(first, n int) map[int]bool {
	out := map[int]bool{}
	for p := first; p < first+n; p++ {
		out[p] = true
	}
	return out
}

func portNumber(addr string) int {
	_, p, _ := net.SplitHostPort(addr)
	n := 0
	fmt.Sscan(p, &n)
	return n
}
