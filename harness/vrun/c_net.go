package main

// C10 and C11: calls between docks and how they find each other.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/network"
)

// Relay is a feature that calls on along a path of features.
type Relay struct {
	Base
}

func (r *Relay) Go(id int64, path []string) (int64, string) {
	r.enter()
	defer r.leave()
	r.led.Add(id)
	if len(path) == 0 {
		return mix(id), r.name
	}
	rest := make([]string, len(path)-1)
	copy(rest, path[1:])
	res, err := r.theSlot().CallWithResult(path[0], "Go", id+1, rest)
	if err != nil || len(res) != 2 {
		return 0, fmt.Sprintf("%s: %v %v", r.name, res, err)
	}
	n, ok := asInt(res[0])
	if s, ok2 := res[1].(string); ok && ok2 && n == mix(id+1) {
		return mix(id), r.name + ">" + s
	}
	return 0, fmt.Sprintf("%s: %v", r.name, res)
}

func (w *W) newRelay(name string, led *Ledger) *Relay {
	r := &Relay{}
	r.name, r.led = name, led
	r.overlap = func(n string) { w.Viol("overlap", "two calls of feature %s run at the same time\n%s", n, Dump()) }
	return r
}

// exactlyOnce judges a ledger: issued maps ids to the number of executions.
func (w *W) exactlyOnce(what string, led *Ledger, issued map[int64]bool) {
	led.mu.Lock()
	defer led.mu.Unlock()
	for id := range issued {
		if led.execs[id] != 1 {
			w.Viol("count", "%s: call %d has run %d times", what, id, led.execs[id])
			return
		}
	}
	for id := range led.execs {
		if !issued[id] {
			w.Viol("count", "%s: execution of call %d, which nobody issued", what, id)
			return
		}
	}
	w.State("interleaving %x", led.trace)
}

func init() {
	// A mesh of real docks in this process, behind proxies that cut and delay.
	scenario("c10mesh", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			docks := 2 + w.Intn(3)
			seg := []int{0, 1, 3, 20, 500}[w.Intn(5)]
			delay := []time.Duration{0, 0, time.Millisecond, 5 * time.Millisecond}[w.Intn(4)]
			var hubAddr string
			if w.p("proxy", 1) != 0 {
				h := w.fakeHub(docks)
				pn := w.proxyNet(seg, delay)
				h.Route = pn.Route
				hubAddr = h.Addr
			} else {
				seg, delay = -1, 0
				hubAddr = w.startHub(docks)
			}
			led := newLedger()
			var es []*Echo
			var rs []*Relay
			var mu sync.Mutex
			for d := 0; d < docks; d++ {
				var slots []ferry.ISlot
				for i := 1 + w.Intn(2); i > 0; i-- {
					e := w.newEcho(fmt.Sprintf("E%d.%d.%d", round, d, i), led)
					es = append(es, e)
					slots = append(slots, w.carryEcho(e, true))
				}
				r := w.newRelay(fmt.Sprintf("R%d.%d", round, d), led)
				rs = append(rs, r)
				slots = append(slots, carryLong(r.name, r, true, "Go"))
				w.startDock(hubAddr, fmt.Sprint("dock", d), slots...)
			}
			if !w.Await(func() bool {
				for _, e := range es {
					if e.theSlot() == nil {
						return false
					}
				}
				for _, r := range rs {
					if r.theSlot() == nil {
						return false
					}
				}
				return true
			}) {
				w.Viol("hang", "features are not started\n%s", Dump())
				return
			}
			issued := map[int64]bool{}
			var progress, bytes int64
			g := []int{2, 8, 30, 100}[w.Intn(4)]
			per := int(w.p("calls", 600))/g + 2
			maxSize := []int{200, 20000, 200000}[w.Intn(3)]
			ok := w.GroupProgress(g, &progress, func(k int) {
				r := w.R(k + round*1000)
				self := es[r.Intn(len(es))]
				for i := 0; i < per && !w.Bad(); i++ {
					id := int64(round+1)*1000000000 + int64(k)*1000000 + int64(i)*100
					if r.Intn(12) == 0 {
						// Along all relays in random order, but each only once:
						// a feature must not wait for itself.
						if k != 0 {
							continue // and relays must not wait for each other
						}
						path := r.Perm(len(rs))
						names := []string{}
						want := ""
						mu.Lock()
						for j, p := range path {
							names = append(names, rs[p].name)
							issued[id+int64(j)] = true
						}
						mu.Unlock()
						want = strings.Join(names, ">")
						res, err := self.theSlot().CallWithResult(names[0], "Go", id, names[1:])
						if err != nil || canon(res, false) != canon([]interface{}{mix(id), want}, false) {
							w.Viol("result", "relayed call %d along %v gives %v, %v", id, names, res, err)
						}
						w.Count("relayed calls", 1)
					} else {
						size := r.Intn(60)
						if r.Intn(6) == 0 {
							size = r.Intn(maxSize)
						}
						mu.Lock()
						issued[id] = true
						mu.Unlock()
						atomic.AddInt64(&bytes, int64(size))
						target := es[r.Intn(len(es))]
						err, wrong := w.callEcho(self.theSlot(), target.name, id, r.Intn(5), size)
						if err != nil || wrong != "" {
							w.Viol("result", "call %d of %s to %s with %d bytes: %v %s", id, self.name, target.name, size, err, wrong)
						}
					}
					w.Eval(1)
					atomic.AddInt64(&progress, 1)
				}
			})
			if !ok {
				w.Viol("hang", "calls are not answered (%d docks, %d callers, cuts %d)\n%s", docks, g, seg, Dump())
				return
			}
			w.exactlyOnce(fmt.Sprintf("%d docks, %d callers, cuts %d", docks, g, seg), led, issued)
			w.State("mesh %d docks %d callers seg %d delay %v", docks, g, seg, delay)
			w.Count("calls", len(issued))
			w.Sample("%d docks, %d callers, stream cut at most every %d bytes, delays up to %v: %d executions, each once", docks, g, seg, delay, len(issued))
		}
	})

	// Fake docks hold the requests of a real one and answer in any order.
	scenario("c10ids", func(w *W) {
		h := w.fakeHub(8)
		e := w.newEcho("self", newLedger())
		w.startDock(h.Addr, "A", w.carryEcho(e, true))
		if !w.Await(func() bool { return e.theSlot() != nil }) {
			w.Viol("hang", "dock does not start\n%s", Dump())
			return
		}
		type held struct {
			p  *Peer
			k  Packet
			id int64
		}
		var mu sync.Mutex
		open := map[int64]held{} // by index
		hold := true
		answer := func(x held) {
			x.p.Put(pRpcResp, x.k.Int(0), x.k.Str(1), x.k.Str(2), []interface{}{mix(x.id), x.k.Str(1)}, "")
		}
		on := func(p *Peer, k Packet) {
			if k.ID != pRpcReq {
				return
			}
			id, _ := k.Arr(3)[0].(int64)
			x := held{p, k, id}
			mu.Lock()
			index := k.Int(0)
			if y, dup := open[index]; dup {
				w.Viol("ids", "calls %d and %d are in flight with the same identifier %d", y.id, id, index)
			}
			quick := k.Str(2) == "quick" || !hold
			if !quick {
				open[index] = x
			}
			mu.Unlock()
			if quick {
				answer(x)
			}
		}
		names := []string{"fake0", "fake1", "fake2"}
		var fds []*FakeDock
		for _, n := range names {
			fd := w.fakeDock("", h.Addr, []string{n}, on)
			if fd == nil {
				w.Viol("hang", "fake dock can't join")
				return
			}
			fd.Ready()
			fds = append(fds, fd)
		}
		call := func(i int, id int64, method string) {
			name := names[i%3]
			res, err := e.theSlot().CallWithResult(name, method, id)
			if err != nil || canon(res, false) != canon([]interface{}{mix(id), name}, false) {
				w.Viol("result", "call %d to %s gets %v, %v", id, name, short(canon(res, false)), err)
			}
			w.Eval(1)
		}
		for round := 0; round < w.N && !w.Bad(); round++ {
			base := int64(round+1) * 10000000
			n := []int{1, 5, 60, 400}[w.Intn(4)]
			mu.Lock()
			hold = true
			open = map[int64]held{}
			mu.Unlock()
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func(i int) { defer wg.Done(); call(i, base+int64(i), "held") }(i)
			}
			if !w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(open) == n }) {
				mu.Lock()
				w.Viol("hang", "%d of %d requests have arrived\n%s", len(open), n, Dump())
				mu.Unlock()
				return
			}
			// Others come and go meanwhile.
			var progress int64
			q := int(w.p("quick", 300))
			if !w.GroupProgress(30, &progress, func(k int) {
				for i := 0; i < q && !w.Bad(); i++ {
					call(k+i, base+1000000+int64(k)*100000+int64(i), "quick")
					atomic.AddInt64(&progress, 1)
				}
			}) {
				w.Viol("hang", "quick calls are not answered while %d others wait\n%s", n, Dump())
				return
			}
			mu.Lock()
			all := make([]held, 0, n)
			for _, x := range open {
				all = append(all, x)
			}
			open = map[int64]held{}
			mu.Unlock()
			sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
			w.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			for _, x := range all {
				answer(x)
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			if !w.Done(done) {
				w.Viol("hang", "answered calls do not return\n%s", Dump())
				return
			}
			w.State("held %d quick %d", n, q)
			w.Count("calls held", n)
			w.Count("calls while others are held", 30*q)
			w.Sample("%d calls held by 3 docks, %d others answered meanwhile, identifiers distinct, then answered in random order", n, 30*q)
		}
	})

	// Requests of several peers to one real dock at once, in bulk, and payloads
	// of many megabytes.
	scenario("c10bulk", func(w *W) {
		h := w.fakeHub(6)
		led := newLedger()
		es := []*Echo{w.newEcho("E0", led), w.newEcho("E1", led)}
		if !w.startEchos(h.Addr, "A", es...) {
			return
		}
		addr := fmt.Sprintf("127.0.0.1:%d", h.Conns()[0].port)
		issued := map[int64]bool{}
		for round := 0; round < w.N && !w.Bad(); round++ {
			np := 1 + w.Intn(6)
			n := []int{10, 300, 3000}[w.Intn(3)]
			var all []int64
			var peers []*Peer
			for i := 0; i < np; i++ {
				p := w.dialDock(addr, []string{fmt.Sprint("x", i)}, nil)
				if p == nil {
					w.Viol("hang", "dock is not reachable")
					return
				}
				peers = append(peers, p)
			}
			ids := make([]map[int64]int64, np)
			for i := range peers {
				ids[i] = map[int64]int64{}
				for j := 0; j < n; j++ {
					id := int64(round+1)*1000000 + int64(i)*100000 + int64(j)
					all = append(all, id)
					issued[id] = true
					// The same identifiers come from different peers.
					ids[i][int64(j)] = id
				}
			}
			ok := w.Group(np, func(i int) {
				r := w.R(i + round)
				var buf []byte
				for j := 0; j < n; j++ {
					buf = append(buf, encPacket(r, pRpcReq, int64(j), es[j%2].name, "Mix", []interface{}{ids[i][int64(j)], "v"}, true)...)
				}
				// In one go or in pieces.
				for len(buf) > 0 {
					m := len(buf)
					if r.Intn(2) == 0 {
						m = 1 + r.Intn(m)
					}
					peers[i].PutRaw(buf[:m])
					buf = buf[m:]
				}
			})
			if !ok {
				w.Viol("hang", "dock does not read\n%s", Dump())
				return
			}
			for i, p := range peers {
				last, end := -1, w.Ticks()+hangTicks
				for {
					got := len(p.Got(pRpcResp))
					if got >= n {
						break
					}
					if got != last {
						last, end = got, w.Ticks()+hangTicks
					} else if w.Ticks() > end {
						w.Viol("lost", "%d of %d requests are answered\n%s", got, n, Dump())
						return
					}
					time.Sleep(time.Millisecond)
				}
				seen := map[int64]bool{}
				for _, k := range p.Got(pRpcResp) {
					index := k.Int(0)
					id, ok := ids[i][index]
					if !ok || seen[index] {
						w.Viol("reply", "peer %d of %d gets a reply it has not asked for, or a second one: %v", i, np, k)
						return
					}
					seen[index] = true
					w.Eval(1)
					if k.Str(4) != "" || canon(k.Arr(3), false) != canon([]interface{}{mix(id), "v/" + es[index%2].name}, false) {
						w.Viol("reply", "request %d of peer %d is answered %v", index, i, k)
						return
					}
				}
			}
			w.exactlyOnce("bulk", led, issued)
			w.State("bulk %d %d", np, n)
			w.Sample("%d peers send %d requests each in one go: all answered once with their own results", np, n)
			for _, p := range peers {
				p.Close()
			}
		}
		// Big ones.
		b := w.newEcho("B0", led)
		if !w.startEchos(h.Addr, "B", b) {
			return
		}
		for i, size := range []int{1 << 16, 1<<16 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 100, 10 * 1024, 10*1024 - 1, 50 << 20} {
			if size > int(w.p("big", 1<<25)) || w.Bad() {
				continue
			}
			for k := -3; k < 3; k++ {
				if size > 1<<20 && k != 0 {
					continue
				}
				id := int64(900000000) + int64(i)*100 + int64(k) + 50
				done := make(chan struct{})
				go func() {
					defer close(done)
					// The whole frame gets around the size, too.
					if err, wrong := w.callEcho(b.theSlot(), "E0", id, 2, size+k*23); err != nil || wrong != "" {
						w.Viol("result", "call with %d bytes: %v %s", size, err, wrong)
					}
				}()
				if !w.Done(done) {
					w.Viol("hang", "call with %d bytes is not answered\n%s", size, Dump())
					return
				}
				w.Eval(1)
				w.State("size %d", size+k*23)
				w.Max("payload bytes", size)
			}
		}
	})

	// Docks and the hub in processes of their own.
	scenario("c10procs", func(w *W) {
		nd := 3
		hn := w.node(0)
		addr := hn.Hub(w.block(nd+1), nd+1)
		if addr == "" {
			return
		}
		var nodes []*Node
		var feats []string
		per := make([][]string, nd)
		for i := 0; i < nd; i++ {
			n := w.node(0)
			nodes = append(nodes, n)
			per[i] = []string{fmt.Sprintf("N%d.0", i), fmt.Sprintf("N%d.1", i)}
			feats = append(feats, per[i]...)
			n.Dock(addr, fmt.Sprint("dock", i), per[i]...)
		}
		for i, n := range nodes {
			if !n.Started(per[i]...) {
				return
			}
		}
		for round := 0; round < w.N && !w.Bad(); round++ {
			var chs []chan Reply
			g := 1 + w.Intn(20)
			for i, n := range nodes {
				chs = append(chs, n.Go(Cmd{Op: "calls", Names: per[i], Targets: feats, N: 60, G: g, Size: 100000, Base: int64(round)*1000000000 + int64(i)*10000000, Seed: w.Job.Seed*10 + int64(i) + int64(round)*7}))
			}
			for i, ch := range chs {
				r, ok := nodes[i].Get(ch)
				if !ok {
					if !nodes[i].Dead() {
						w.Viol("hang", "calls of process %d do not return\n%s", i, nodes[i].Stacks())
					}
					return
				}
				if r.Err != "" || len(r.Wrong) > 0 {
					w.Viol("result", "process %d: %s %v", i, r.Err, r.Wrong)
				}
				w.Eval(r.N)
				w.Count("calls between processes", r.N)
			}
			w.State("procs %d", g)
		}
		issued := map[int64]bool{}
		_ = issued
		execs := map[int64]int{}
		total := 0
		for _, n := range nodes {
			r, ok := n.Do(Cmd{Op: "ledger"})
			if !ok {
				return
			}
			for id, c := range r.Execs {
				execs[id] += c
				total++
			}
		}
		for id, c := range execs {
			if c != 1 {
				w.Viol("count", "call %d has run %d times", id, c)
			}
		}
		w.mu.Lock()
		calls := int(w.counts["calls between processes"])
		w.mu.Unlock()
		if !w.Bad() && len(execs) != calls {
			w.Viol("count", "%d calls, but %d executions", calls, len(execs))
		}
		for _, n := range append(nodes, hn) {
			if b, _ := os.ReadFile(n.errs); strings.Contains(string(b), "OVERLAP") {
				w.Viol("overlap", "calls of a feature overlap in %s", n.name)
			}
		}
	})

	checks["C10"] = func(c *C) {
		c.Rule("2 to 4 docks call each other with up to 100 callers, payloads from 0 to 16 MB, nested calls, through proxies that cut the stream into pieces from 1 byte and delay them; the same with the hub and docks in processes of their own; fake docks hold up to 400 calls of a real dock while tens of thousands of others pass, check that identifiers are distinct and answer in random order; fake docks send thousands of requests in one write; up to 6 walks at once go to and fro between docks, with and without results, over connections made meanwhile and used by calls that are held. Every id must be executed exactly once and every result be derived from its own call. Distinct: topology x callers x cutting x delay, interleavings of executions, payload sizes.")
		var jobs []Job
		jobs = append(jobs, Times(c.Pick(3, 8), Job{Scenario: "c10mesh", N: c.Pick(16, 80), P: map[string]int64{"proxy": 1}})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c10mesh", N: c.Pick(16, 80), P: map[string]int64{"proxy": 0}})...)
		jobs = append(jobs, Job{Scenario: "c10ids", N: c.Pick(3, 10), P: map[string]int64{"quick": int64(c.Pick(300, 1000))}})
		jobs = append(jobs, Job{Scenario: "c10ids", N: 1, P: map[string]int64{"quick": int64(c.Pick(2400, 20000))}})
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c10bulk", N: c.Pick(10, 40), P: map[string]int64{"big": int64(c.Pick(1<<24+200, 1<<26))}})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c10procs", N: c.Pick(6, 30)})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "same", N: c.Pick(150, 800), P: map[string]int64{"where": 2}})...)
		p := map[string]int64{"where": 2, "rounds": int64(c.Pick(2, 10))}
		jobs = append(jobs, Job{Scenario: "wide", N: c.Pick(200, 5000), P: p}, Job{Scenario: "crowd", N: c.Pick(4000, 20000), P: p}, Job{Scenario: "wide", N: c.Pick(30, 500), P: p, Race: true}, Job{Scenario: "crowd", N: c.Pick(400, 2000), P: p, Race: true})
		jobs = append(jobs, Times(c.Pick(2, 4), Job{Scenario: "c10web", N: c.Pick(120, 180)})...)
		jobs = append(jobs, Job{Scenario: "c10web", N: c.Pick(20, 80), Race: true})
		jobs = append(jobs, Job{Scenario: "c10mesh", N: c.Pick(2, 12), Race: true, P: map[string]int64{"calls": 200}})
		jobs = append(jobs, Job{Scenario: "c10ids", N: c.Pick(2, 10), Race: true, P: map[string]int64{"quick": 20}})
		jobs = append([]Job{{Scenario: "c10hold", P: map[string]int64{"ticks": int64(c.Pick(6200, 31000))}, Timeout: 850}}, jobs...)
		c.Run(5, jobs...)
	}
}

// C11

func init() {
	// Docks start in any order while calls are waiting already.
	scenario("c11order", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			docks := 2 + w.Intn(4)
			kind := w.Intn(4)
			var hubAddr string
			switch {
			case w.p("mock", 0) != 0:
				hubAddr = fmt.Sprintf("127.0.0.1:%d", w.hubPort())
				go ferry.Serve(hubAddr, blackExcept(w.block(docks), docks)...)
			case w.p("ip6", 0) != 0:
				hubAddr = fmt.Sprintf("[::1]:%d", w.hubPort())
				w.serve(hubAddr, blackExcept(w.block(docks), docks)...)
			case kind == 0:
				h := w.fakeHub(docks)
				pn := w.proxyNet(200, 10*time.Millisecond)
				h.Route = pn.Route
				r := rand.New(rand.NewSource(w.Job.Seed))
				var rmu sync.Mutex
				h.Delay = func() {
					rmu.Lock()
					d := r.Int63n(int64(5 * time.Millisecond))
					rmu.Unlock()
					time.Sleep(time.Duration(d))
				}
				hubAddr = h.Addr
			case kind == 1:
				// All docks reach the real hub through a slow line.
				real := w.startHub(docks)
				hubAddr = w.proxy(real, 20, 5*time.Millisecond).Addr
			default:
				hubAddr = w.startHub(docks)
			}
			led := newLedger()
			var es [][]*Echo
			var names []string
			for d := 0; d < docks; d++ {
				var l []*Echo
				for i := 1 + w.Intn(3); i > 0; i-- {
					e := w.newEcho(fmt.Sprintf("F%d.%d.%d", round, d, i), led)
					l = append(l, e)
					names = append(names, e.name)
				}
				// One feature that several docks carry.
				if w.Intn(2) == 0 || d == docks-1 {
					e := w.newEcho(fmt.Sprintf("shared%d", round), led)
					l = append(l, e)
				}
				es = append(es, l)
			}
			names = append(names, fmt.Sprintf("shared%d", round))
			var mu sync.Mutex
			issued := map[int64]bool{}
			var next, open, begun int64
			var slots [][]ferry.ISlot
			for d := range es {
				var l []ferry.ISlot
				for i, e := range es[d] {
					r := w.R(round*100 + d*10 + i)
					n := []int{0, 1, 5, 40}[r.Intn(4)]
					type todo struct {
						id     int64
						target string
						k      int
					}
					var todos []todo
					for j := 0; j < n; j++ {
						t := todo{int64(round+1)*1000000 + next, names[r.Intn(len(names))], r.Intn(5)}
						next++
						todos = append(todos, t)
						mu.Lock()
						issued[t.id] = true
						mu.Unlock()
					}
					open += int64(len(todos))
					e.onStart = func(s ferry.ISlot) {
						for _, t := range todos {
							go func(t todo) {
								atomic.AddInt64(&begun, 1)
								err, wrong := w.callEcho(s, t.target, t.id, t.k, 50)
								if err != nil || wrong != "" {
									w.Viol("failed", "call %d to %s, issued in OnStart: %v %s", t.id, t.target, err, wrong)
								}
								w.Eval(1)
								atomic.AddInt64(&open, -1)
							}(t)
						}
					}
					l = append(l, w.carryEcho(e, true))
				}
				slots = append(slots, l)
			}
			calls := open
			order := w.Perm(docks)
			waitMax := int64(0)
			for i, d := range order {
				w.startDock(hubAddr, fmt.Sprint("dock", d), slots[d]...)
				if i < docks-1 && w.Intn(3) > 0 {
					// Let calls wait for a while, for those that come later.
					w.Sleep(int64(w.Intn(8)))
				}
				if n := atomic.LoadInt64(&open); n > waitMax {
					waitMax = n
				}
			}
			if !w.Await(func() bool { return atomic.LoadInt64(&open) == 0 || w.Bad() }) {
				w.Viol("hang", "%d of %d calls to discoverable features are still waiting (%d issued), order %v\n%s", atomic.LoadInt64(&open), calls, atomic.LoadInt64(&begun), order, Dump())
				return
			}
			if w.Bad() {
				return
			}
			w.exactlyOnce("discovery", led, issued)
			w.State("order %v kind %d", order, kind)
			w.Count("calls issued in OnStart", int(calls))
			w.Max("calls waiting when all docks were told to start", int(waitMax))
			w.Sample("%d docks started in order %v, %d calls issued meanwhile, all completed once", docks, order, calls)
		}
	})
	// Thousands wait for one feature.
	scenario("c11wait", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			hub := w.startHub(4)
			led := newLedger()
			a, b := w.newEcho("A", led), w.newEcho("B", led)
			if !w.startEchos(hub, "A", a) || !w.startEchos(hub, "B", b) {
				return
			}
			n := []int{1, 10, 200, 1500}[w.Intn(4)]
			issued := map[int64]bool{}
			var progress, back int64
			name := fmt.Sprint("late", round)
			done := make(chan bool, 1)
			for i := 0; i < n; i++ {
				issued[int64(i)] = true
			}
			go func() {
				done <- w.GroupProgress(n, &progress, func(i int) {
					s := a.theSlot()
					if i%3 == 0 {
						s = b.theSlot()
					}
					err, wrong := w.callEcho(s, name, int64(i), i%5, 30)
					if err != nil || wrong != "" {
						w.Viol("failed", "call %d, waiting for %s: %v %s", i, name, err, wrong)
					}
					atomic.AddInt64(&progress, 1)
					atomic.AddInt64(&back, 1)
					w.Eval(1)
				})
			}()
			w.Sleep(int64(w.Intn(10)))
			if c := atomic.LoadInt64(&back); c != 0 {
				w.Viol("early", "%d calls return although nobody carries %s", c, name)
			}
			// A dock that carries another feature does not matter.
			other := w.newEcho(fmt.Sprint("other", round), led)
			if !w.startEchos(hub, "other", other) {
				return
			}
			l := w.newEcho(name, led)
			if !w.startEchos(hub, "late", l) {
				return
			}
			if !<-done {
				w.Viol("hang", "%d of %d calls return after %s has joined\n%s", atomic.LoadInt64(&back), n, name, Dump())
				return
			}
			w.exactlyOnce("waiting calls", led, issued)
			w.State("waiting %d", n)
			w.Max("calls waiting for one feature", n)
		}
	})
	// What is carried here is served here, and what is hidden stays hidden.
	scenario("c11local", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			h := w.fakeHub(6)
			led, other := newLedger(), newLedger()
			var es []*Echo
			var slots []ferry.ISlot
			hidden := map[string]bool{}
			n := 2 + w.Intn(4)
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("L%d", i)
				e := w.newEcho(name, led)
				es = append(es, e)
				if w.Intn(2) == 0 {
					hidden[name] = true
				}
				slots = append(slots, w.carryEcho(e, !hidden[name]))
			}
			// Other docks, real and not, carry features of the same names.
			twin := w.newEcho("L0", other)
			if !w.startEchos(h.Addr, "twin", twin, w.newEcho("far", other)) {
				return
			}
			fd := w.fakeDock("", h.Addr, []string{"L1", "far2"}, func(p *Peer, k Packet) {
				if k.ID == pRpcReq {
					if k.Str(1) != "far2" {
						w.Viol("left", "call to %s, which the dock carries itself, leaves the dock: %v", k.Str(1), k)
					}
					p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{}, "")
				}
			})
			if fd == nil {
				w.Viol("hang", "fake dock can't join")
				return
			}
			fd.Ready()
			var mu sync.Mutex
			issued := map[int64]bool{}
			var id int64
			for i := range es {
				e := es[i]
				r := w.R(i + round*10)
				e.onStart = func(s ferry.ISlot) {
					// From the very start.
					for j := 0; j < 3; j++ {
						mu.Lock()
						id++
						k := id
						issued[k] = true
						mu.Unlock()
						t := es[r.Intn(n)].name
						if err, wrong := w.callEcho(s, t, k, 0, 10); err != nil || wrong != "" {
							w.Viol("failed", "local call to %s in OnStart: %v %s", t, err, wrong)
						}
					}
				}
			}
			w.startDock(h.Addr, "A", slots...)
			if !w.Await(func() bool {
				for _, e := range es {
					if e.theSlot() == nil {
						return false
					}
				}
				return true
			}) {
				w.Viol("hang", "features are not started\n%s", Dump())
				return
			}
			// Being connected to docks with the same features makes no difference.
			s := es[0].theSlot()
			if err, wrong := w.callEcho(s, "far", 900000, 0, 5); err != nil || wrong != "" {
				w.Viol("failed", "call to far: %v %s", err, wrong)
			}
			if err := s.Call("far2", "Void", int64(5)); err != nil {
				w.Viol("failed", "call to far2: %v", err)
			}
			mine := h.Conns()[2].p
			before := len(mine.Got(pQueryReq))
			var progress int64
			if !w.GroupProgress(8, &progress, func(k int) {
				r := w.R(k + round*100)
				for j := 0; j < 40; j++ {
					mu.Lock()
					id++
					c := id
					issued[c] = true
					mu.Unlock()
					t := es[r.Intn(n)].name
					if err, wrong := w.callEcho(es[r.Intn(n)].theSlot(), t, c, r.Intn(5), 20); err != nil || wrong != "" {
						w.Viol("failed", "local call to %s: %v %s", t, err, wrong)
					}
					w.Eval(1)
					atomic.AddInt64(&progress, 1)
				}
			}) {
				w.Viol("hang", "local calls hang\n%s", Dump())
				return
			}
			if !w.Await(func() bool { mu.Lock(); defer mu.Unlock(); return led.Len() == len(issued) }) {
				w.Viol("count", "%d local calls, but %d executions\n%s", len(issued), led.Len(), Dump())
			}
			w.exactlyOnce("local calls", led, issued)
			if other.Len() != 1 {
				w.Viol("left", "%d calls were executed by another dock instead of 1", other.Len())
			}
			if after := len(mine.Got(pQueryReq)); after != before {
				w.Viol("left", "hub is queried for local features: %v", mine.Got(pQueryReq))
			}
			// What was said to hub, and to docks.
			probe := w.dialDock(fmt.Sprintf("127.0.0.1:%d", h.Conns()[2].port), []string{"probe"}, nil)
			if probe == nil || !probe.AwaitGot(pReady, 1) || !probe.AwaitGot(pRegReq, 1) {
				w.Viol("hang", "dock does not answer a peer")
				return
			}
			want := 0
			for i := 0; i < n; i++ {
				if !hidden[es[i].name] {
					want++
				}
			}
			for _, p := range append(fd.Conns(), mine, probe) {
				for _, k := range p.All() {
					if k.ID == pRegReq || k.ID == pReady {
						l := k.Strs(0)
						for _, s := range l {
							if hidden[s] {
								w.Viol("hidden", "feature %s is not discoverable, but announced: %v", s, k)
							}
						}
						if p == mine && len(l) != want {
							w.Viol("hidden", "%d features are discoverable, but announced is %v", want, k)
						}
					}
					if k.ID == pQueryReq && strings.HasPrefix(k.Str(0), "L") {
						w.Viol("left", "query for a feature of its own: %v", k)
					}
				}
			}
			w.State("local %d hidden %d", n, len(hidden))
			w.Count("local calls", len(issued))
		}
	})
	scenario("c11hidden", func(w *W) {
		// Nobody finds a hidden feature through a real hub.
		hub := w.startHub(8)
		led := newLedger()
		a := w.newEcho("hidden", led)
		b := w.newEcho("open", led)
		w.startDock(hub, "A", w.carryEcho(a, false), w.carryEcho(b, true))
		if !w.Await(func() bool { return a.theSlot() != nil && b.theSlot() != nil }) {
			w.Viol("hang", "features are not started\n%s", Dump())
			return
		}
		q := w.dialPeer("", hub, nil)
		q.Put(pQueryReq, "hidden")
		q.Put(pQueryReq, "open")
		if !q.AwaitGot(pQueryResp, 1) {
			w.Viol("hang", "query for an open feature is not answered")
			return
		}
		w.Sleep(30)
		if k := q.Got(pQueryResp); len(k) != 1 {
			w.Viol("hidden", "queries for an open and a hidden feature give %v", k)
		}
		// When someone else carries it openly, that one is used.
		c := w.newEcho("hidden", newLedger())
		if !w.startEchos(hub, "B", c) {
			return
		}
		d := w.newEcho("D", led)
		if !w.startEchos(hub, "D", d) {
			return
		}
		for i := int64(0); i < 20; i++ {
			if err, wrong := w.callEcho(d.theSlot(), "hidden", i, 0, 10); err != nil || wrong != "" {
				w.Viol("failed", "call: %v %s", err, wrong)
			}
			w.callEcho(d.theSlot(), "open", 1000+i, 0, 10)
		}
		if led.Count(3) != 0 || c.led.Count(3) != 1 {
			w.Viol("hidden", "a hidden feature is called from another dock")
		}
		w.Eval(40)
		w.State("hidden")
	})
	_ = json.Marshal
	_ = network.Mock
	scenario("c11mock", func(w *W) {
		network.Mock("tcp")
		scenarios["c11order"](w)
	})
	checks["C11"] = func(c *C) {
		c.Rule("2 to 5 docks with random features, some carried by several, are started in random order with pauses while up to 40 calls per feature are issued from OnStart to features that have not joined; names of all kinds (empty, odd, 64 KB, different in case or spaces only); up to 1600 calls wait for one feature while docks with 200 features each are called; calls wait for more than a minute; slow lines to the hub and between docks; IPv4, IPv6 and the mock network. All must complete once. Own features are called while fake and real docks carry the same names and every frame to hub and peers is recorded: no query and no request for them, no hidden name in any announcement. Distinct: start order x kind of network, number of calls waiting.")
		var jobs []Job
		jobs = append(jobs, Times(c.Pick(3, 8), Job{Scenario: "c11order", N: c.Pick(40, 150)})...)
		jobs = append(jobs, Job{Scenario: "c11order", N: c.Pick(5, 40), P: map[string]int64{"ip6": 1}})
		jobs = append(jobs, Times(c.Pick(1, 3), Job{Scenario: "c11mock", N: c.Pick(30, 120), P: map[string]int64{"mock": 1}})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c11wait", N: c.Pick(12, 40)})...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c11local", N: c.Pick(40, 150)})...)
		jobs = append(jobs, Job{Scenario: "c11hidden"})
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c11names", N: c.Pick(25, 60)})...)
		jobs = append(jobs, Job{Scenario: "c11names", N: c.Pick(3, 20), Race: true})
		jobs = append(jobs, Job{Scenario: "c11order", N: c.Pick(4, 30), Race: true}, Job{Scenario: "c11mock", N: c.Pick(3, 20), Race: true, P: map[string]int64{"mock": 1}}, Job{Scenario: "c11wait", N: c.Pick(2, 6), Race: true})
		jobs = append(jobs, Job{Scenario: "c11wide", P: map[string]int64{"wide": int64(c.Pick(200, 600)), "flood": int64(c.Pick(1600, 6000))}})
		jobs = append(jobs, Job{Scenario: "hubs", N: c.Pick(15, 40)}, Job{Scenario: "hubs", N: c.Pick(3, 20), Race: true})
		jobs = append(jobs, Job{Scenario: "c11docks", N: c.Pick(40, 90)}, Job{Scenario: "c11docks", N: c.Pick(12, 40), Race: true})
		jobs = append([]Job{{Scenario: "c10hold", P: map[string]int64{"what": 1, "ticks": int64(c.Pick(6200, 31000))}, Timeout: 850}}, jobs...)
		c.Run(6, jobs...)
	}
}
