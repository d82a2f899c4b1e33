package main

// C21: what is left of finished work.

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/network"
)

// Toil is a feature for work that ends in all ways.
type Toil struct {
	Base
	last string
}

func (t *Toil) Add(a, b int64) int64       { return a + b }
func (t *Toil) Keep(s string)              { t.last = s }
func (t *Toil) Blob(s string) string       { return s }
func (t *Toil) Boom(s string) int64        { panic(s) }
func (t *Toil) Chan() chan int             { return make(chan int) }
func (t *Toil) Err() error                 { return errors.New("an error value") }
func (t *Toil) Slow(ms int64) int64        { time.Sleep(time.Duration(ms) * time.Millisecond); return ms }
func (t *Toil) List(n int64) []interface{} { return make([]interface{}, n) }

func carryToil(t *Toil) ferry.ISlot {
	s := ferry.Carry(t.name, t, true)
	for _, m := range []string{"Add", "Keep", "Blob", "Boom", "Chan", "Err", "List"} {
		s.SetTimeout(m, 100000)
	}
	s.SetTimeout("Slow", 0.01)
	return s
}

// work makes c.N calls from each of c.G goroutines to the targets. Every
// repetition is the same work.
func (t *Toil) work(c Cmd) (wrong []string, counts []int64) {
	var mu sync.Mutex
	counts = make([]int64, 3) // good, failed, timed out
	t.smu.Lock()
	slot := t.slot
	t.smu.Unlock()
	var wg sync.WaitGroup
	for k := 0; k < c.G; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			g := rand.New(rand.NewSource(c.Seed + int64(k)))
			for i := 0; i < c.N; i++ {
				target := c.Targets[g.Intn(len(c.Targets))]
				bad, kind := toilCall(slot, target, g, c.Size)
				mu.Lock()
				if bad != "" && len(wrong) < 4 {
					wrong = append(wrong, bad)
				}
				counts[kind]++
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()
	return
}

func toilCall(s ferry.ISlot, target string, g *rand.Rand, size int) (wrong string, kind int) {
	var err error
	var res []interface{}
	fails := false
	k := g.Intn(100)
	what := ""
	switch {
	case k < 40:
		a, b := int64(g.Intn(1000)), int64(g.Intn(1000))
		what = "Add"
		res, err = s.CallWithResult(target, "Add", a, b)
		if err == nil {
			if v, ok := asInt(res[0]); !ok || v != a+b {
				return fmt.Sprintf("Add(%d,%d) is %v", a, b, res), 0
			}
		}
	case k < 50:
		what = "Keep"
		err = s.Call(target, "Keep", strings.Repeat("k", g.Intn(size+1)))
	case k < 60:
		what = "Blob"
		b := strings.Repeat("b", g.Intn(size+1))
		res, err = s.CallWithResult(target, "Blob", b)
		if err == nil && res[0] != b {
			return "Blob is another one", 0
		}
	case k < 65:
		what = "List"
		res, err = s.CallWithResult(target, "List", int64(g.Intn(1+size/20)))
	case k < 71:
		what, fails = "Nothing", true
		_, err = s.CallWithResult(target, "Nothing", strings.Repeat("n", g.Intn(size+1)))
	case k < 77:
		what, fails = "Add with one argument", true
		err = s.Call(target, "Add", 1)
	case k < 83:
		what, fails = "Add of a text", true
		_, err = s.CallWithResult(target, "Add", strings.Repeat("n", g.Intn(size+1)), 1)
	case k < 88:
		what, fails = "Add of a map", true
		_, err = s.CallWithResult(target, "Add", map[string]int{"x": 1}, 1)
	case k < 93:
		what, fails = "Boom", true
		_, err = s.CallWithResult(target, "Boom", strings.Repeat("n", g.Intn(size+1)))
	case k < 97:
		what = "Chan"
		_, err = s.CallWithResult(target, "Chan")
		if err != nil {
			return "", 1
		}
	default:
		what = "Slow"
		_, err = s.CallWithResult(target, "Slow", int64(30))
		if err == nil {
			// C07 decides timeouts. The timer may be as late as the machine is busy.
			return "", 0
		}
		return "", 2
	}
	if fails != (err != nil) {
		return fmt.Sprintf("%s of %s: error %v", what, target, err), 0
	}
	if err != nil {
		return "", 1
	}
	return "", 0
}

// goroutinesIn counts the goroutines that have the text in their stacks.
func goroutinesIn(text string) int {
	n := 0
	for _, g := range strings.Split(DumpAll(), "\n\n") {
		if strings.Contains(g, text) {
			n++
		}
	}
	return n
}

// Meter compares what a process holds with what it has held.
type Meter struct {
	w    *W
	n    *Node // nil for this very process
	name string
	base Usage
	peak int
	// work is how many goroutines may be added by a round.
	allow int
}

func (m *Meter) usage(gc bool) (Usage, bool) {
	op := "count"
	if gc {
		op = "usage"
	}
	r, ok := m.n.Do(Cmd{Op: op})
	return r.Res, ok
}

// settle takes the base, once nothing changes any more.
func (m *Meter) settle() bool {
	same, last := 0, Usage{}
	return m.w.Await(func() bool {
		u, ok := m.usage(false)
		if !ok {
			return true
		}
		if u.Goroutines == last.Goroutines && u.Fds == last.Fds {
			same++
		} else {
			same = 0
		}
		last = u
		m.w.Sleep(2)
		if same >= 5 {
			m.base, _ = m.usage(true)
			m.base.Goroutines, m.base.Fds = u.Goroutines, u.Fds
			return true
		}
		return false
	})
}

// back judges that the process holds no more than before.
func (m *Meter) back(what string) bool {
	var u Usage
	ok := m.w.Await(func() bool {
		var ok bool
		u, ok = m.usage(false)
		return !ok || u.Goroutines <= m.base.Goroutines && u.Fds <= m.base.Fds
	})
	if m.n.Dead() {
		return false
	}
	if !ok {
		m.w.Viol("leak", "%s holds %d goroutines and %d sockets after %s, and held %d and %d before\n%s", m.name, u.Goroutines, u.Fds, what, m.base.Goroutines, m.base.Fds, m.n.Stacks())
		return false
	}
	m.w.Eval(1)
	m.w.Count("times a process was back to its goroutines and sockets", 1)
	return true
}

func (m *Meter) heap() uint64 {
	min := uint64(1 << 62)
	for i := 0; i < 3; i++ {
		u, _ := m.usage(true)
		if u.Heap < min {
			min = u.Heap
		}
		m.w.Sleep(1)
	}
	return min
}

// heapSlack is what the heap may grow by from a batch of rounds to the next:
// pools, stacks and fragments come and go.
const heapSlack = 192 << 10

// repeat runs the same round again and again, and compares.
func (w *W) repeat(what string, ms []*Meter, ops, batch int, round func(i int) bool) {
	i := 0
	run := func(n int) bool {
		for end := i + n; i < end; i++ {
			if !round(i) || w.Bad() {
				return false
			}
			for _, m := range ms {
				if !m.back(fmt.Sprintf("round %d of %s", i, what)) {
					return false
				}
			}
		}
		return true
	}
	// The first round makes connections that stay.
	if !round(i) {
		return
	}
	i++
	for _, m := range ms {
		if !m.settle() {
			w.Viol("leak", "%s does not come to rest after %s\n%s", m.name, what, m.n.Stacks())
			return
		}
	}
	// Maps and pools get their size.
	if !run(1 + batch/3) {
		return
	}
	var before, after []uint64
	for _, m := range ms {
		before = append(before, m.heap())
	}
	grown := make([]int, len(ms))
	for b := 0; b < 4; b++ {
		if !run(batch) {
			return
		}
		more := false
		after = nil
		for k, m := range ms {
			h := m.heap()
			after = append(after, h)
			w.Max("live heap of a process, KB", int(h>>10))
			if h > before[k]+heapSlack {
				grown[k]++
				more = true
				w.Count("batches after which a heap was larger", 1)
			} else {
				grown[k] = 0
			}
		}
		w.Eval(len(ms))
		w.Count("batches of repeated work whose heap was compared", 1)
		w.State("%s/%d/%d", what, b, w.Job.Seed)
		if !more {
			return
		}
		for k, m := range ms {
			// Growth that goes on is no accident.
			if grown[k] >= 3 {
				w.Viol("memory", "the live heap of %s grows with every %d operations of %s, the last time from %d to %d bytes", m.name, ops*batch, what, before[k], after[k])
				return
			}
		}
		before = after
	}
}

// toil starts a dock with work features in a node.
func (n *Node) toil(hub, name string, feats ...string) bool {
	n.Do(Cmd{Op: "toil", Addr: hub, Name: name, Names: feats})
	ok := n.w.Await(func() bool {
		r, ok := n.Do(Cmd{Op: "toiling", Names: feats})
		return !ok || r.N == len(feats)
	})
	if !ok {
		n.w.Viol("hang", "features %v are not started\n%s", feats, n.Stacks())
	}
	return ok && !n.Dead()
}

func init() {
	scenario("c21calls", func(w *W) { w.resCalls() })
	scenario("c21hub", func(w *W) { w.resHub() })
	scenario("c21dock", func(w *W) { w.resDock() })
	scenario("c21carriers", func(w *W) { w.resCarriers() })
	scenario("c21close", func(w *W) { w.resClose() })
	scenario("c21lost", func(w *W) { w.resLost() })
	scenario("c21wait", func(w *W) { w.resWait() })
	scenario("c21sock", func(w *W) {
		if w.p("mock", 0) != 0 {
			network.Mock("tcp")
		}
		w.resSock()
	})
	checks["C21"] = func(c *C) {
		c.Rule("a case is a round of work after which a process is compared with what it held before: goroutines and sockets exactly, live heap over batches of rounds. Work is calls of all outcomes inside and across docks, peers that come and go at all points of the protocol, carriers that come and go, long names that are asked for, registered, carried or called once, dials that fail, closed docks, waiting queries and calls (processor time), carriers that can't be reached (processor time), calls that fail since the hub is gone, sockets over TCP and the mock network")
		c.Assume("the goroutine that serves a feature stays after its dock is closed")
		var jobs []Job
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c21calls", N: c.Pick(14, 40), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c21hub", N: c.Pick(12, 30), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c21dock", N: c.Pick(12, 30), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c21carriers", N: c.Pick(8, 20), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c21close", N: c.Pick(12, 20), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c21wait", N: c.Pick(1, 4), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c21lost", N: c.Pick(6, 20), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c21sock", N: c.Pick(24, 60), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c21sock", N: c.Pick(24, 60), P: map[string]int64{"mock": 1}, Timeout: 850})...)
		for what := int64(0); what < 5; what++ {
			jobs = append(jobs, Times(c.Pick(1, 3), Job{Scenario: "c21lists", N: c.Pick(20, 60), P: map[string]int64{"what": what}, Timeout: 850})...)
		}
		c.Run(8, jobs...)
	}
}

// resCalls: calls of all outcomes, inside a dock and across.
func (w *W) resCalls() {
	hub, server, client := w.node(0), w.node(0), w.node(0)
	first := w.block(6)
	addr := hub.Hub(first, 6)
	if addr == "" || !server.toil(addr, "server", "far", "farther") || !client.toil(addr, "client", "near", "self") {
		return
	}
	g, n := 4+w.Intn(12), 60
	size := []int{200, 3000, 60000}[w.Intn(3)]
	both := w.Intn(2) == 0
	seed := w.Int63()
	ms := []*Meter{{w: w, n: hub, name: "the hub"}, {w: w, n: server, name: "the called dock"}, {w: w, n: client, name: "the calling dock"}}
	w.repeat("calls", ms, g*n, w.N, func(i int) bool {
		cs := []chan Reply{client.Go(Cmd{Op: "work", Name: "self", Targets: []string{"far", "near", "farther"}, G: g, N: n, Size: size, Seed: seed})}
		ns := []*Node{client}
		if both {
			cs = append(cs, server.Go(Cmd{Op: "work", Name: "far", Targets: []string{"near", "farther"}, G: g, N: n / 2, Size: size, Seed: seed}))
			ns = append(ns, server)
		}
		for k, c := range cs {
			r, ok := ns[k].Get(c)
			if !ok {
				if !ns[k].Dead() {
					w.Viol("hang", "calls don't return\n%s", ns[k].Stacks())
				}
				return false
			}
			if len(r.Wrong) > 0 {
				w.Viol("wrong", "%v", r.Wrong)
				return false
			}
			for j, s := range []string{"calls completed", "calls failed", "calls timed out"} {
				w.Count(s, int(r.Counts[j]))
			}
		}
		return true
	})
}

// leave ends a connection in one of the ways peers do.
func leave(g *rand.Rand, p *Peer) {
	t, ok := p.Conn.(*net.TCPConn)
	if !ok {
		p.Close()
		return
	}
	switch g.Intn(4) {
	case 0:
		t.SetLinger(0)
		t.Close()
	case 1:
		t.CloseWrite()
		go func() {
			time.Sleep(time.Duration(g.Intn(3)) * time.Millisecond)
			t.Close()
		}()
	default:
		t.Close()
	}
}

// resHub: peers that come and go.
func (w *W) resHub() {
	hub := w.node(0)
	addr := hub.Hub(20001, 28999)
	if addr == "" {
		return
	}
	steady := w.dialPeer("127.0.0.1", addr, nil)
	steady.Put(pRegReq, []string{"steady"})
	if !steady.AwaitGot(pRegResp, 1) {
		w.Viol("hang", "registration is not answered\n%s", hub.Stacks())
		return
	}
	steady.Put(pReady, []string{"steady"})
	// The fresh names of a peer are as long as they like, and differ each time.
	var serial int64
	const peers = 150
	m := &Meter{w: w, n: hub, name: "the hub"}
	w.repeat("peers that come and go", []*Meter{m}, peers, w.N, func(i int) bool {
		bad := int64(0)
		w.Group(6, func(k int) {
			g := w.R(i*10 + k)
			for j := 0; j < peers/6; j++ {
				p := w.dialPeer("127.0.0.1", addr, nil)
				if p == nil {
					atomic.AddInt64(&bad, 1)
					return
				}
				id := atomic.AddInt64(&serial, 1)
				fresh := func(s string) string { return fmt.Sprintf("%s%d%s", s, id, strings.Repeat("x", g.Intn(600))) }
				own := []string{fresh("own"), "shared"}
				kind := g.Intn(10)
				wait := g.Intn(2) == 0
				switch kind {
				case 0: // nothing
				case 1: // half a frame
					b := encPacket(g, pRegReq, own)
					p.PutRaw(b[:g.Intn(len(b))])
				case 2: // garbage
					b := make([]byte, g.Intn(20000))
					g.Read(b)
					p.PutRaw(b)
				case 3: // registered, never ready
					p.Put(pRegReq, own)
				case 4, 5: // ready
					p.Put(pRegReq, own)
					if wait && !p.AwaitGot(pRegResp, 1) {
						atomic.AddInt64(&bad, 1)
						return
					}
					p.Put(pReady, own)
				case 6: // waits for what is not there
					for q := 1 + g.Intn(4); q > 0; q-- {
						p.Put(pQueryReq, fresh("absent"))
						p.Put(pQueryReq, "absent")
					}
				case 7: // asks for what is there
					p.Put(pQueryReq, "steady")
					if wait && !p.AwaitGot(pQueryResp, 1) {
						atomic.AddInt64(&bad, 1)
						return
					}
				case 8: // all
					p.Put(pRegReq, own)
					p.Put(pQueryReq, fresh("absent"))
					p.Put(pReady, own)
					p.Put(pQueryReq, own[0])
					p.Put(pQueryReq, "steady")
				case 9: // never reads
					for q := 0; q < 200; q++ {
						p.Put(pQueryReq, "steady")
					}
				}
				if g.Intn(3) == 0 {
					time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
				}
				leave(g, p)
				w.Count("peers of the hub that left", 1)
				w.State("hub/%d/%v", kind, wait)
			}
		})
		if bad > 0 && !w.Bad() && !hub.Dead() {
			w.Viol("hang", "the hub does not answer any more\n%s", hub.Stacks())
		}
		return bad == 0
	})
}

// resDock: docks that come and go at a dock that serves.
func (w *W) resDock() {
	hub, server := w.node(0), w.node(0)
	first := w.block(4)
	addr := hub.Hub(first, 4)
	if addr == "" || !server.toil(addr, "server", "far") {
		return
	}
	to := fmt.Sprintf("127.0.0.1:%d", first)
	var serial int64
	const peers = 120
	ms := []*Meter{{w: w, n: server, name: "the dock"}, {w: w, n: hub, name: "the hub"}}
	w.repeat("docks that come and go", ms, peers, w.N, func(i int) bool {
		bad := int64(0)
		w.Group(6, func(k int) {
			g := w.R(i*10 + k)
			for j := 0; j < peers/6; j++ {
				p := w.dialDock(to, nil, nil)
				if p == nil {
					atomic.AddInt64(&bad, 1)
					return
				}
				id := atomic.AddInt64(&serial, 1)
				fresh := fmt.Sprintf("own%d%s", id, strings.Repeat("y", g.Intn(600)))
				kind := g.Intn(8)
				wait := g.Intn(2) == 0
				switch kind {
				case 0:
				case 1:
					b := encPacket(g, pRpcReq, id, "far", "Add", []interface{}{1, 2}, true)
					p.PutRaw(b[:g.Intn(len(b))])
				case 2:
					b := make([]byte, g.Intn(20000))
					g.Read(b)
					p.PutRaw(b)
				case 3: // carries something
					p.Put(pRegReq, []string{fresh, "shared"})
					p.Put(pReady, []string{fresh, "shared"})
				case 4: // calls
					n := 1 + g.Intn(20)
					for q := 0; q < n; q++ {
						p.Put(pRpcReq, id*100+int64(q), "far", []string{"Add", "Blob", "Boom", "Nothing"}[g.Intn(4)], []interface{}{1, 2}, true)
					}
					if wait && !p.AwaitGot(pRpcResp, n) {
						atomic.AddInt64(&bad, 1)
						return
					}
				case 5: // leaves before its call is done
					p.Put(pRpcReq, id*100, "far", "Slow", []interface{}{int64(g.Intn(8))}, true)
				case 6: // asks for much, and never reads
					for q := 0; q < 20; q++ {
						p.Put(pRpcReq, id*100+int64(q), "far", "Blob", []interface{}{blob(1, 20000)}, true)
					}
				case 7: // replies nobody waits for
					for q := 0; q < 10; q++ {
						p.Put(pRpcResp, id*100+int64(q), "far", "Blob", []interface{}{blob(1, 2000)}, "")
						p.Put(pRpcReq, id*100, fresh, "Blob", []interface{}{1}, true)
					}
				}
				if g.Intn(3) == 0 {
					time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
				}
				leave(g, p)
				w.Count("peers of the dock that left", 1)
				w.State("dock/%d/%v", kind, wait)
			}
		})
		if bad > 0 && !w.Bad() && !server.Dead() {
			w.Viol("hang", "the dock does not answer any more\n%s", server.Stacks())
		}
		return bad == 0
	})
}

// resCarriers: a dock calls features whose carriers come and go.
func (w *W) resCarriers() {
	hub, client := w.node(0), w.node(0)
	first := w.block(300)
	addr := hub.Hub(first, 300)
	if addr == "" || !client.toil(addr, "client", "self") {
		return
	}
	ms := []*Meter{{w: w, n: client, name: "the calling dock"}, {w: w, n: hub, name: "the hub"}}
	serial := 0
	const carriers = 30
	w.repeat("carriers that come and go", ms, carriers, w.N, func(i int) bool {
		for k := 0; k < carriers; k++ {
			g := w.R(i*100 + k)
			serial++
			feature := fmt.Sprintf("passing%d", serial)
			var d *FakeDock
			kind := g.Intn(4)
			// Whoever answers is ready by the time of the answer or later.
			ch := client.Go(Cmd{Op: "raw2", Name: "self", Names: []string{feature, "Add"}, Base: 7})
			if g.Intn(2) == 0 {
				time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
			}
			answered := make(chan struct{}, 64)
			d = w.passing(addr, feature, serial, func(p *Peer, k Packet) {
				if k.ID != pRpcReq {
					return
				}
				switch kind {
				case 0, 1: // answers
					p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{8}, "")
				case 2: // answers and goes
					p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{8}, "")
				case 3: // goes
				}
				answered <- struct{}{}
			})
			if d == nil {
				w.Viol("hang", "a carrier can't join\n%s", hub.Stacks())
				return false
			}
			select {
			case <-answered:
			case <-w.ticker(hangTicks):
				w.Viol("hang", "a carrier is not called\n%s", client.Stacks())
				return false
			}
			if kind < 2 {
				if r, ok := client.Get(ch); !ok || r.Err != "" {
					if !client.Dead() {
						w.Viol("wrong", "call fails: %v %v", ok, r.Err)
					}
					return false
				}
			}
			if g.Intn(2) == 0 {
				d.Kill()
			} else {
				d.End()
				for _, c := range d.Conns() {
					leave(g, c)
				}
				leave(g, d.Hub)
			}
			if kind >= 2 {
				if _, ok := client.Get(ch); !ok {
					if !client.Dead() {
						w.Viol("hang", "call does not return although its carrier has gone\n%s", client.Stacks())
					}
					return false
				}
			}
			w.Count("carriers that left", 1)
			w.State("carrier/%d", kind)
		}
		return true
	})
}

// passing joins with a dock of a host that has ports left.
func (w *W) passing(hub, feature string, serial int, on func(p *Peer, k Packet)) *FakeDock {
	for i := 0; i < 10; i++ {
		host := fmt.Sprintf("127.8.%d.%d", w.Slot, 1+serial/250)
		d := &FakeDock{w: w, host: host, Slots: []string{feature}, On: on}
		if d.Hub = w.dialPeer(host, hub, nil); d.Hub == nil {
			return nil
		}
		d.Hub.Put(pRegReq, d.Slots)
		if !d.Hub.AwaitGot(pRegResp, 1) {
			return nil
		}
		d.Port = int(d.Hub.Got(pRegResp)[0].Int(0))
		d.Addr = fmt.Sprintf("%s:%d", host, d.Port)
		if d.Listen() {
			d.Ready()
			return d
		}
		d.Hub.Close()
	}
	return nil
}

// ticker is closed after n ticks.
func (w *W) ticker(n int64) chan struct{} {
	c := make(chan struct{})
	go func() { w.Sleep(n); close(c) }()
	return c
}

// resClose: docks that are closed leave no sockets and no connections behind.
func (w *W) resClose() {
	hub, node := w.node(0), w.node(0)
	first := w.block(500)
	addr := hub.Hub(first, 500)
	if addr == "" {
		return
	}
	h := &Meter{w: w, n: hub, name: "the hub"}
	base, _ := node.Do(Cmd{Op: "count"})
	w.repeat("docks that close", []*Meter{h}, 4, w.N, func(i int) bool {
		g := w.R(i)
		docks := 1 + g.Intn(4)
		var feats []string
		for k := 0; k < docks; k++ {
			f := fmt.Sprintf("brief%d", k)
			if !node.toil(addr, fmt.Sprint("dock", k), f) {
				return false
			}
			feats = append(feats, f)
		}
		if g.Intn(3) > 0 {
			r, ok := node.Do(Cmd{Op: "work", Name: feats[0], Targets: feats, G: 4, N: 10, Size: 100, Seed: int64(i)})
			if !ok || len(r.Wrong) > 0 {
				if !node.Dead() {
					w.Viol("wrong", "%v %v", ok, r.Wrong)
				}
				return false
			}
		}
		node.Do(Cmd{Op: "close"})
		var u Reply
		nets := 0
		if !w.Await(func() bool {
			u, _ = node.Do(Cmd{Op: "count"})
			r, ok := node.Do(Cmd{Op: "stacks", Name: "ferry/network."})
			nets = r.N
			return !ok || nets == 0 && u.Res.Fds <= base.Res.Fds
		}) {
			w.Viol("leak", "after its docks are closed, a process holds %d goroutines of connections and %d sockets, and %d before there were docks\n%s", nets, u.Res.Fds, base.Res.Fds, node.Stacks())
			return false
		}
		w.Count("docks closed", docks)
		w.State("close/%d", docks)
		w.Eval(1)
		return !node.Dead()
	})
}

// resLost: calls that fail since the hub is gone leave nothing behind, and the
// docks that know each other go on.
func (w *W) resLost() {
	hub, server, client := w.node(0), w.node(0), w.node(0)
	first := w.block(6)
	addr := hub.Hub(first, 6)
	if addr == "" || !server.toil(addr, "server", "far") || !client.toil(addr, "client", "self") {
		return
	}
	both := func(f func(c chan Reply, n *Node) bool, cs ...chan Reply) bool {
		for i, c := range cs {
			if !f(c, []*Node{client, server}[i]) {
				return false
			}
		}
		return true
	}
	served := func(c chan Reply, n *Node) bool {
		r, ok := n.Get(c)
		if !ok || len(r.Wrong) > 0 {
			if !n.Dead() {
				w.Viol("wrong", "calls to connected docks: %v %v", ok, r.Wrong)
			}
			return false
		}
		return true
	}
	work := func(seed int64) bool {
		return both(served, client.Go(Cmd{Op: "work", Name: "self", Targets: []string{"far", "self"}, G: 4, N: 20, Size: 200, Seed: seed}),
			server.Go(Cmd{Op: "work", Name: "far", Targets: []string{"self", "far"}, G: 4, N: 20, Size: 200, Seed: seed}))
	}
	if !work(1) {
		return
	}
	hub.Kill()
	const g, n = 8, 150
	fail := Cmd{Op: "fails", G: g, N: n, Targets: []string{"absent", "missing", "nowhere"}}
	ms := []*Meter{{w: w, n: client, name: "a dock without hub"}, {w: w, n: server, name: "another dock without hub"}}
	w.repeat("calls that fail without a hub", ms, g*n, w.N, func(i int) bool {
		a, b := fail, fail
		a.Name, b.Name = "self", "far"
		if !both(func(c chan Reply, node *Node) bool {
			r, ok := node.Get(c)
			if !ok {
				if !node.Dead() {
					w.Viol("hang", "calls don't return\n%s", node.Stacks())
				}
				return false
			}
			if r.N != g*n {
				w.Viol("wrong", "%d of %d calls of features nobody carries succeed", g*n-r.N, g*n)
				return false
			}
			w.Count("calls that failed without a hub", r.N)
			return true
		}, client.Go(a), server.Go(b)) {
			return false
		}
		w.State("lost/%d", i)
		return work(int64(i))
	})
}

// resWait: waiting takes no processor time.
func (w *W) resWait() {
	hub, client := w.node(0), w.node(0)
	first := w.block(8 + 3*w.N)
	addr := hub.Hub(first, 8+3*w.N)
	if addr == "" || !client.toil(addr, "client", "self") {
		return
	}
	// share is the processor time per time of the processes.
	window := func() (shares [2]float64) {
		t := time.Now()
		a, _ := hub.Do(Cmd{Op: "count"})
		b, _ := client.Do(Cmd{Op: "count"})
		w.Sleep(50)
		c, _ := hub.Do(Cmd{Op: "count"})
		d, _ := client.Do(Cmd{Op: "count"})
		e := float64(time.Since(t))
		return [2]float64{float64(c.Res.CPU-a.Res.CPU) / e, float64(d.Res.CPU-b.Res.CPU) / e}
	}
	least := func(ok func(s [2]float64) bool) (m [2]float64) {
		m = [2]float64{100, 100}
		for i := 0; i < 12 && (i < 2 || !ok(m)); i++ {
			s := window()
			for k := range m {
				if s[k] < m[k] {
					m[k] = s[k]
				}
			}
		}
		return
	}
	for round := 0; round < w.N && !w.Bad(); round++ {
		idle := least(func(s [2]float64) bool { return s[0] < 0.02 && s[1] < 0.02 })
		var ps []*Peer
		for i := 0; i < 40; i++ {
			p := w.dialPeer("127.0.0.1", addr, nil)
			if p == nil {
				w.Viol("hang", "the hub can't be reached\n%s", hub.Stacks())
				return
			}
			ps = append(ps, p)
			for k := 0; k < 50; k++ {
				p.Put(pQueryReq, fmt.Sprintf("absent%d", k%(1+i)))
			}
		}
		const waiting = 300
		client.Do(Cmd{Op: "wait", Name: "self", Names: []string{"absent", "missing"}, N: waiting})
		w.Sleep(20)
		limit := func(k int) float64 { return 0.03 + 2*idle[k] }
		busy := least(func(s [2]float64) bool { return s[0] < limit(0) && s[1] < limit(1) })
		for k, n := range []*Node{hub, client} {
			if busy[k] > limit(k) && !n.Dead() {
				w.Viol("busy", "%s takes %.1f%% of a processor while 2000 queries and %d calls are waiting, and %.1f%% before\n%s", []string{"the hub", "a dock"}[k], 100*busy[k], waiting, 100*idle[k], n.Stacks())
				return
			}
		}
		w.Max("processor time of a hub with waiting queries, per mille", int(1000*busy[0]))
		w.Max("processor time of a dock with waiting calls, per mille", int(1000*busy[1]))
		w.Count("windows of waiting", 2)
		w.Eval(2)
		w.State("wait/%d/%d", round, w.Job.Seed)
		// Calls whose carrier can't be reached are tried again now and then.
		var deaf []string
		for k := 0; k < 3; k++ {
			out := w.dialPeer("127.0.0.1", addr, nil)
			if out == nil {
				w.Viol("hang", "the hub can't be reached\n%s", hub.Stacks())
				return
			}
			ps = append(ps, out)
			name := fmt.Sprintf("deaf%d.%d", round, k)
			deaf = append(deaf, name)
			out.Put(pRegReq, []string{name})
			if !out.AwaitGot(pRegResp, 1) {
				w.Viol("hang", "registration is not answered\n%s", hub.Stacks())
				return
			}
			out.Put(pReady, []string{name})
		}
		client.Do(Cmd{Op: "wait", Name: "self", Names: deaf, N: 30})
		w.Sleep(40)
		limit = func(k int) float64 { return 0.25 + 2*idle[k] }
		busy = least(func(s [2]float64) bool { return s[0] < limit(0) && s[1] < limit(1) })
		for k, n := range []*Node{hub, client} {
			if busy[k] > limit(k) && !n.Dead() {
				w.Viol("busy", "%s takes %.1f%% of a processor while calls wait for a carrier that does not listen\n%s", []string{"the hub", "a dock"}[k], 100*busy[k], n.Stacks())
				return
			}
		}
		w.Max("processor time of a hub asked again and again for a deaf carrier, per mille", int(1000*busy[0]))
		w.Max("processor time of a dock that can't reach a carrier, per mille", int(1000*busy[1]))
		for _, p := range ps {
			p.Close()
		}
	}
}

// resSock: sockets that come and go.
func (w *W) resSock() {
	mock := w.p("mock", 0) != 0
	base := countFds()
	check := func(what string) bool {
		n, f := 0, 0
		if !w.Await(func() bool {
			n, f = goroutinesIn("ferry/network."), countFds()
			return n == 0 && f <= base
		}) {
			w.Viol("leak", "%d goroutines of the network and %d sockets are left after %s; before there were %d sockets\n%s", n, f, what, base, Dump())
			return false
		}
		w.Eval(1)
		return true
	}
	round := func(i int) bool {
		g := w.R(i)
		addr := fmt.Sprintf("127.0.0.1:%d", w.somePort())
		server := &countSink{}
		if g.Intn(3) == 0 {
			server.echo = true
		}
		ls := network.NewSocket(addr, "txt", server)
		ls.Listen()
		n := 1 + g.Intn(6)
		var socks []network.ISocket
		var sinks []*countSink
		for k := 0; k < n; k++ {
			c := &countSink{}
			s := network.NewSocket(addr, "txt", c)
			s.Dial()
			socks = append(socks, s)
			sinks = append(sinks, c)
		}
		// Somebody who does not read.
		var raw net.Conn
		if !mock && g.Intn(2) == 0 {
			raw, _ = net.Dial("tcp", addr)
		}
		for k := 0; k < n; k++ {
			for j := g.Intn(20); j > 0; j-- {
				socks[k].Send(strings.Repeat("m", g.Intn(3000)) + "\x00")
			}
		}
		for j := g.Intn(40); j > 0; j-- {
			ls.Send(strings.Repeat("n", g.Intn(60000)) + "\x00")
		}
		if g.Intn(2) == 0 {
			w.Await(func() bool {
				for _, c := range sinks {
					if atomic.LoadInt64(&c.conns) == 0 {
						return false
					}
				}
				return true
			})
		}
		how := g.Intn(4)
		switch how {
		case 0:
			ls.Close()
		case 1:
			for _, s := range socks {
				s.Close()
			}
		case 2:
			w.Group(n+1, func(k int) {
				if k == n {
					ls.Close()
				} else {
					socks[k].Close()
				}
			})
		case 3:
			for _, s := range socks {
				go s.Close()
				s.Close()
			}
		}
		if how == 0 && g.Intn(2) == 0 {
			// The others have ended by themselves.
			if !w.Await(func() bool {
				for _, c := range sinks {
					if atomic.LoadInt64(&c.ends) == 0 {
						return false
					}
				}
				return true
			}) {
				w.Viol("hang", "connections do not end with the listener\n%s", Dump())
				return false
			}
			if raw == nil && !check(fmt.Sprintf("closing the listener of %d connections (mock %v)", n, mock)) {
				return false
			}
		}
		ls.Close()
		for _, s := range socks {
			s.Close()
		}
		if raw != nil {
			raw.Close()
		}
		w.Count("sockets closed", n+1)
		w.State("sock/%d/%d/%v", how, n, raw != nil)
		return check(fmt.Sprintf("closing %d sockets in way %d (mock %v)", n+1, how, mock))
	}
	heap := func() uint64 {
		min := uint64(1 << 62)
		for i := 0; i < 3; i++ {
			if h := usage().Heap; h < min {
				min = h
			}
		}
		return min
	}
	const batch = 25
	i, grown := 0, 0
	last := uint64(0)
	for b := 0; b < w.N || grown > 0 && b < w.N+4; b++ {
		for k := 0; k < batch; k++ {
			if !round(i) {
				return
			}
			i++
		}
		h := heap()
		if b < 2 {
			last = h
			continue
		}
		if h > last+96<<10 {
			grown++
		} else {
			grown = 0
		}
		if grown >= 3 {
			w.Viol("memory", "the live heap grows with every %d rounds of sockets, now from %d to %d bytes", batch, last, h)
			return
		}
		last = h
		w.Max("live heap, KB", int(h>>10))
	}
}

// somePort goes around the ports of this worker, all of which are free again.
func (w *W) somePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		nextHub = (nextHub + 1) % hubSpan
		p := hubBase + w.Slot*hubSpan + nextHub
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		return p
	}
}

type countSink struct {
	conns, ends, packs int64
	echo               bool
}

func (c *countSink) OnConnected(p network.IPeer) { atomic.AddInt64(&c.conns, 1) }
func (c *countSink) OnClosed(p network.IPeer)    { atomic.AddInt64(&c.ends, 1) }
func (c *countSink) OnPacket(p network.IPeer, o interface{}) {
	atomic.AddInt64(&c.packs, 1)
	if c.echo {
		p.Send(o)
	}
}
