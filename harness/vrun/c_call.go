package main

// C05-C08: calls, judged by a ledger of executions.

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
)

// Caller is what both kinds of callers have in common, bound to a target.
type Caller interface {
	Call(method string, args ...interface{}) error
	CallWithResult(method string, args ...interface{}) ([]interface{}, error)
}

type slotCaller struct {
	s      ferry.ISlot
	target string
}

func (c slotCaller) Call(m string, a ...interface{}) error { return c.s.Call(c.target, m, a...) }
func (c slotCaller) CallWithResult(m string, a ...interface{}) ([]interface{}, error) {
	return c.s.CallWithResult(c.target, m, a...)
}

// Work is the target of the in-process call workloads.
type Work struct {
	Base
	mu   sync.Mutex
	args map[int64]string
	seqs map[int64]int64 // caller -> last sequence number run
	note func(kind, format string, a ...interface{})
	log  int64
}

func (w *W) newWork(name string) *Work {
	f := &Work{args: map[int64]string{}, seqs: map[int64]int64{}}
	f.name, f.led = name, newLedger()
	f.note = w.Viol
	f.overlap = func(n string) { w.Viol("overlap", "two calls of %s run at the same time\n%s", n, Dump()) }
	return f
}

var workMethods = []string{"None", "One", "Many", "Any", "Var", "Nap", "Seq", "Fail", "Hold"}

func (f *Work) in(id int64) { f.enter(); f.led.Add(id) }

func (f *Work) None(id int64)      { f.in(id); f.leave() }
func (f *Work) One(id int64) int64 { f.in(id); defer f.leave(); return mix(id) }
func (f *Work) Many(id int64, a string, b float64, c bool) (int64, string, float64, bool, []string) {
	f.in(id)
	defer f.leave()
	runtime.Gosched()
	return mix(id), a + "!", b * 2, !c, []string{a, a}
}
func (f *Work) Any(id int64, v interface{}) (interface{}, int64) {
	f.in(id)
	defer f.leave()
	return v, mix(id)
}
func (f *Work) Var(id int64, rest ...int64) (int64, int64) {
	f.in(id)
	defer f.leave()
	s := int64(0)
	for _, r := range rest {
		s += r
	}
	return mix(id), s
}

// Nap takes about as long as its timeout.
func (f *Work) Nap(id int64, d int64) int64 {
	f.in(id)
	defer f.leave()
	time.Sleep(time.Duration(d))
	return mix(id)
}

// Seq checks that the calls of one caller run in the order they were issued.
func (f *Work) Seq(id int64, caller int64, seq int64, d int64) int64 {
	f.in(id)
	defer f.leave()
	f.mu.Lock()
	last := f.seqs[caller]
	f.seqs[caller] = seq
	f.mu.Unlock()
	if seq <= last {
		f.note("order", "call %d of caller %d to %s runs after its call %d", seq, caller, f.name, last)
	}
	if d > 0 {
		time.Sleep(time.Duration(d))
	} else {
		runtime.Gosched()
	}
	return mix(id)
}

func (f *Work) Fail(id int64) int64 { f.in(id); defer f.leave(); panic("failed on purpose") }

// oneCall issues a call of a random method and judges the outcome.
func (w *W) workCall(c Caller, r *rand.Rand, id int64) (err error, wrong string) {
	var res []interface{}
	var want []interface{}
	g := Gen{r}
	m := ""
	switch k := r.Intn(8); k {
	case 0:
		m, err = "None", c.Call("None", id)
	case 1, 2:
		m = "One"
		res, err = c.CallWithResult(m, id)
		want = []interface{}{mix(id)}
	case 3:
		m = "Many"
		s, b := g.str(), g.Intn(2) == 0
		f := float64(g.Intn(1000)) / 8
		res, err = c.CallWithResult(m, id, s, f, b)
		want = []interface{}{mix(id), s + "!", f * 2, !b, []string{s, s}}
	case 4:
		m = "Any"
		v := g.value(2)
		res, err = c.CallWithResult(m, id, v)
		want = []interface{}{v, mix(id)}
	case 5:
		m = "Var"
		n := r.Intn(5)
		a := []interface{}{id}
		s := int64(0)
		for i := 0; i < n; i++ {
			x := int64(r.Intn(1000))
			a = append(a, x)
			s += x
		}
		res, err = c.CallWithResult(m, a...)
		want = []interface{}{mix(id), s}
	case 6:
		m, err = "One", c.Call("One", id)
	case 7:
		m = "None"
		res, err = c.CallWithResult(m, id)
		want = []interface{}{}
	}
	if err != nil {
		return fmt.Errorf("%s: %v", m, err), ""
	}
	if want != nil {
		if len(res) != len(want) {
			return nil, fmt.Sprintf("%s gives %d results, not %d: %s", m, len(res), len(want), short(canon(res, false)))
		}
		for i := range want {
			if canon(res[i], false) != canon(want[i], false) {
				return nil, fmt.Sprintf("%s: result %d is %s, not %s", m, i, short(canon(res[i], false)), short(canon(want[i], false)))
			}
		}
	}
	return nil, ""
}

// judgeLedger: every call issued has run exactly once, and nothing else has.
func (w *W) judgeLedger(led *Ledger, issued map[int64]bool, what string) {
	led.mu.Lock()
	defer led.mu.Unlock()
	for id := range issued {
		if n := led.execs[id]; n != 1 {
			w.Viol("count", "%s: call %d has run %d times", what, id, n)
			return
		}
	}
	w.State("%s: interleaving %x", what, led.trace)
	for id := range led.execs {
		if !issued[id] {
			w.Viol("count", "%s: execution of call %d, which nobody issued", what, id)
			return
		}
	}
}

// hammer runs n calls in g goroutines, through shared or separate callers.
func (w *W) hammer(what string, led *Ledger, g, n int, caller func(k int) Caller, base int64) {
	issued := make([]map[int64]bool, g)
	var progress int64
	ok := w.GroupProgress(g, &progress, func(k int) {
		issued[k] = map[int64]bool{}
		r := w.R(k + int(base%1000))
		c := caller(k)
		for i := 0; i < n && !w.Bad(); i++ {
			id := base + int64(k)*1000000 + int64(i)
			issued[k][id] = true
			err, wrong := w.workCall(c, r, id)
			if err != nil {
				w.Viol("failed", "%s, %d goroutines: call %d: %v", what, g, id, err)
			}
			if wrong != "" {
				w.Viol("result", "%s, %d goroutines: call %d: %s", what, g, id, wrong)
			}
			w.Eval(1)
			atomic.AddInt64(&progress, 1)
		}
	})
	if !ok {
		w.Viol("hang", "%s: calls do not return\n%s", what, Dump())
		return
	}
	all := map[int64]bool{}
	for _, m := range issued {
		for id := range m {
			all[id] = true
		}
	}
	if !w.Bad() {
		w.judgeLedger(led, all, what)
	}
	w.State("%s %d", what, g)
	w.Count("calls", len(all))
}

func init() {
	scenario("c05chan", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			f := w.newWork("target")
			callee := chancall.NewCallee("target", f)
			for _, m := range workMethods {
				callee.SetTimeout(m, 3600)
			}
			g := []int{1, 2, 3, 8, 32, 100}[w.Intn(6)]
			shared := chancall.NewCaller(callee)
			mode := w.Intn(3)
			w.hammer(fmt.Sprintf("callers mode %d", mode), f.led, g, 2000/g+3, func(k int) Caller {
				if mode == 0 || mode == 2 && k%2 == 0 {
					return shared
				}
				return chancall.NewCaller(callee)
			}, int64(round)*100000000)
			w.State("chan %d %d", g, mode)
			w.Sample("%d goroutines, %s caller: %d calls, each run once, results their own", g, []string{"one shared", "separate", "mixed"}[mode], f.led.Len())
		}
	})

	// Calls that time out and fail in between must not disturb the others.
	scenario("c05mixed", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			f := w.newWork("target")
			callee := chancall.NewCallee("target", f)
			for _, m := range workMethods {
				callee.SetTimeout(m, 3600)
			}
			callee.SetTimeout("Nap", 0.002)
			shared := chancall.NewCaller(callee)
			g := 2 + w.Intn(12)
			var progress int64
			issued := make([]map[int64]bool, g)
			var timeouts, naps int64
			ok := w.GroupProgress(g, &progress, func(k int) {
				r := w.R(k + round*100)
				issued[k] = map[int64]bool{}
				for i := 0; i < 60 && !w.Bad(); i++ {
					id := int64(round)*10000000 + int64(k)*100000 + int64(i)
					atomic.AddInt64(&progress, 1)
					w.Eval(1)
					switch r.Intn(6) {
					case 0, 1:
						issued[k][id] = true
						atomic.AddInt64(&naps, 1)
						d := 1000000 + r.Int63n(2000000)
						res, err := shared.CallWithResult("Nap", id, d)
						if err != nil {
							atomic.AddInt64(&timeouts, 1)
						} else if len(res) != 1 || res[0] != mix(id) {
							w.Viol("result", "Nap call %d gets %v, which is not its result", id, short(canon(res, false)))
						}
					case 2:
						issued[k][id] = true
						if _, err := shared.CallWithResult("Fail", id); err == nil {
							w.Viol("result", "call of a panicking method succeeds")
						}
					case 3:
						if _, err := shared.CallWithResult("Nothing", id); err == nil {
							w.Viol("result", "call of an unknown method succeeds")
						}
					default:
						issued[k][id] = true
						err, wrong := w.workCall(shared, r, id)
						if err != nil || wrong != "" {
							w.Viol("result", "call %d amid timeouts and failures: %v %s", id, err, wrong)
						}
					}
				}
			})
			if !ok {
				w.Viol("hang", "calls do not return\n%s", Dump())
				return
			}
			// The last call may still be running although it has timed out.
			if err := shared.Call("None", int64(-1)); err != nil {
				w.Viol("failed", "last call: %v", err)
			}
			all := map[int64]bool{-1: true}
			for _, m := range issued {
				for id := range m {
					all[id] = true
				}
			}
			if !w.Bad() {
				w.judgeLedger(f.led, all, "amid timeouts and failures")
			}
			w.Count("timed out calls", int(timeouts))
			w.Count("napping calls", int(naps))
			w.State("mixed %d %d", g, timeouts)
		}
	})

	scenario("c05slot", func(w *W) {
		hub := w.startHub(20)
		for round := 0; round < w.N && !w.Bad(); round++ {
			const nf = 4
			var fs [nf]*Work
			var slots []ferry.ISlot
			for i := range fs {
				fs[i] = w.newWork(fmt.Sprintf("F%d.%d", round, i))
				slots = append(slots, carryLong(fs[i].name, fs[i], i%2 == 0, workMethods...))
			}
			w.startDock(hub, "dock", slots...)
			if !w.Await(func() bool {
				for _, f := range fs {
					if f.theSlot() == nil {
						return false
					}
				}
				return true
			}) {
				w.Viol("hang", "features are not started\n%s", Dump())
				return
			}
			w.Group(nf, func(i int) {
				g := 1 + w.R(i+round).Intn(12)
				w.hammer("slots of one dock", fs[i].led, g, 400/g+2, func(k int) Caller {
					return slotCaller{fs[(i+k)%nf].theSlot(), fs[i].name}
				}, int64(round)*1000000000+int64(i)*100000000)
			})
			w.State("slot round %d", round)
		}
	})

	checks["C05"] = func(c *C) {
		c.Rule("1 to 100 goroutines call a recording target through shared, separate and mixed callers and through the slots of one dock; ids and derived results in every call; results and arguments of all kinds, nil or not, pointers, functions and channels among them; also with methods that time out, panic or do not exist in between, and with calls that are all alike, each of which must count. Every issued id must have run exactly once and no other. Distinct: workload kind x goroutines x caller mode x number of timeouts.")
		race := true
		jobs := Times(c.Pick(4, 8), Job{Scenario: "c05chan", N: c.Pick(30, 200)})
		jobs = append(jobs, Times(c.Pick(3, 8), Job{Scenario: "c05mixed", N: c.Pick(20, 100)})...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c05slot", N: c.Pick(4, 16)})...)
		for where := int64(0); where < 2; where++ {
			p := map[string]int64{"where": where, "rounds": int64(c.Pick(2, 10))}
			jobs = append(jobs, Job{Scenario: "wide", N: c.Pick(400, 10000), P: p}, Job{Scenario: "crowd", N: c.Pick(4000, 20000), P: p})
		}
		jobs = append(jobs, Job{Scenario: "c05kinds", N: c.Pick(1500, 20000)}, Job{Scenario: "c05kinds", N: c.Pick(1500, 20000), P: map[string]int64{"where": 1}}, Job{Scenario: "wide", N: c.Pick(60, 1000), Race: true}, Job{Scenario: "crowd", N: c.Pick(400, 2000), Race: true})
		jobs = append(jobs, Job{Scenario: "same", N: c.Pick(60, 600)}, Job{Scenario: "same", N: c.Pick(60, 600), P: map[string]int64{"where": 1}}, Job{Scenario: "same", N: c.Pick(8, 60), Race: race})
		jobs = append(jobs, Job{Scenario: "c05chan", N: c.Pick(4, 60), Race: race}, Job{Scenario: "c05mixed", N: c.Pick(3, 40), Race: race}, Job{Scenario: "c05slot", N: c.Pick(2, 12), Race: race}, Job{Scenario: "c05chan", N: c.Pick(10, 60), Procs: 1})
		c.Run(6, jobs...)
	}
}

// C06

// blockedIn counts goroutines that are inside a function of the given name and
// blocked there.
func blockedIn(fn string) int {
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	n := 0
	for _, g := range strings.Split(string(b), "\n\n") {
		if !strings.Contains(g, fn) {
			continue
		}
		head := g[:strings.Index(g, "\n")]
		if strings.Contains(head, "[running") || strings.Contains(head, "[runnable") {
			continue
		}
		n++
	}
	return n
}

//go:noinline
func c06QueuedCall(c Caller, f func(c Caller)) { f(c) }

type Gate struct {
	Base
	mu    sync.Mutex
	gates map[int64]chan struct{}
	ran   []int64
	in_   int64
}

func (w *W) newGate(name string) *Gate {
	g := &Gate{gates: map[int64]chan struct{}{}}
	g.name, g.led = name, newLedger()
	g.overlap = func(n string) { w.Viol("overlap", "two calls of %s run at the same time\n%s", n, Dump()) }
	return g
}

func (g *Gate) gate(id int64) chan struct{} {
	g.mu.Lock()
	defer g.mu.Unlock()
	c := g.gates[id]
	if c == nil {
		c = make(chan struct{})
		g.gates[id] = c
	}
	return c
}

// Open lets the held call go on.
func (g *Gate) open(id int64) { close(g.gate(id)) }

func (g *Gate) begin(id int64) {
	g.enter()
	g.led.Add(id)
	g.mu.Lock()
	g.ran = append(g.ran, id)
	g.mu.Unlock()
	atomic.AddInt64(&g.in_, 1)
}

func (g *Gate) order() []int64 {
	g.mu.Lock()
	defer g.mu.Unlock()
	return append([]int64(nil), g.ran...)
}

func (g *Gate) Hold(id int64) int64 { g.begin(id); defer g.leave(); <-g.gate(id); return mix(id) }
func (g *Gate) Quick(id int64) int64 {
	g.begin(id)
	defer g.leave()
	return mix(id)
}
func (g *Gate) Hold2(id int64) int64 { return g.Hold(id) }
func (g *Gate) Hold3(id int64) int64 { return g.Hold(id) }

func init() {
	// Many callers, local and remote, with calls that time out while running.
	scenario("c06stress", func(w *W) {
		hub := w.startHub(40)
		for round := 0; round < w.N && !w.Bad(); round++ {
			var fs []*Work
			docks := 1 + w.Intn(3)
			per := 1 + w.Intn(3)
			for d := 0; d < docks; d++ {
				var slots []ferry.ISlot
				for i := 0; i < per; i++ {
					f := w.newWork(fmt.Sprintf("F%d.%d.%d", round, d, i))
					s := carryLong(f.name, f, true, workMethods...)
					s.SetTimeout("Nap", 0.003)
					fs = append(fs, f)
					slots = append(slots, s)
				}
				w.startDock(hub, fmt.Sprint("dock", d), slots...)
			}
			if !w.Await(func() bool {
				for _, f := range fs {
					if f.theSlot() == nil {
						return false
					}
				}
				return true
			}) {
				w.Viol("hang", "features are not started\n%s", Dump())
				return
			}
			g := 4 + w.Intn(20)
			var progress, late int64
			ok := w.GroupProgress(g, &progress, func(k int) {
				r := w.R(k + round*1000)
				self := fs[r.Intn(len(fs))].theSlot()
				seq := make([]int64, len(fs))
				for i := 0; i < 50 && !w.Bad(); i++ {
					t := r.Intn(len(fs))
					id := int64(round)*10000000 + int64(k)*10000 + int64(i)
					seq[t]++
					w.Eval(1)
					atomic.AddInt64(&progress, 1)
					var err error
					var res []interface{}
					if r.Intn(4) == 0 {
						res, err = self.CallWithResult(fs[t].name, "Nap", id, 2000000+r.Int63n(4000000))
						if err != nil {
							atomic.AddInt64(&late, 1)
							continue
						}
					} else {
						res, err = self.CallWithResult(fs[t].name, "Seq", id, int64(k), seq[t], r.Int63n(2)*r.Int63n(100000))
						if err != nil {
							w.Viol("failed", "call %d: %v", id, err)
							continue
						}
					}
					if len(res) != 1 || canon(res[0], false) != canon(mix(id), false) {
						w.Viol("result", "call %d gets %v", id, short(canon(res, false)))
					}
				}
			})
			if !ok {
				w.Viol("hang", "calls do not return\n%s", Dump())
				return
			}
			w.Count("calls timed out while running", int(late))
			for _, f := range fs {
				f.led.mu.Lock()
				w.State("interleaving %x", f.led.trace)
				f.led.mu.Unlock()
			}
			w.State("stress %d docks %d features %d callers %d late", docks, per, g, late)
			w.Sample("%d docks with %d features each, %d callers: no overlap, callers' order kept, %d calls timed out while running", docks, per, g, late)
		}
	})

	// A method that has timed out keeps its feature busy, and only that one.
	scenario("c06gate", func(w *W) {
		hub := w.startHub(40)
		for round := 0; round < w.N && !w.Bad(); round++ {
			remote := round%2 == 1
			n := 2 + w.Intn(4)
			gs := make([]*Gate, n)
			var slots []ferry.ISlot
			for i := range gs {
				gs[i] = w.newGate(fmt.Sprintf("G%d.%d", round, i))
				s := carryLong(gs[i].name, gs[i], true, "Hold", "Quick", "Hold3")
				s.SetTimeout("Hold2", 0.02)
				slots = append(slots, s)
			}
			w.startDock(hub, "gates", slots...)
			cl := w.newEcho(fmt.Sprintf("C%d", round), newLedger())
			if !w.startEchos(hub, "caller", cl) {
				return
			}
			if !w.Await(func() bool { return gs[n-1].theSlot() != nil && gs[0].theSlot() != nil }) {
				w.Viol("hang", "features are not started\n%s", Dump())
				return
			}
			from := gs[n-1].theSlot()
			if remote {
				from = cl.theSlot()
			}
			// G0 is busy with a call nobody waits for any more, and many wait.
			held := int64(round*1000 + 1)
			if err := from.Call(gs[0].name, "Hold2", held); err == nil {
				w.Viol("timeout", "a held call with a timeout of 20 ms succeeds")
			}
			waiting := 1 + w.Intn(40)
			var wg sync.WaitGroup
			var early int64
			for i := 0; i < waiting; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					id := held + 100 + int64(i)
					res, err := from.CallWithResult(gs[0].name, "Quick", id)
					if err != nil || len(res) != 1 || canon(res[0], false) != canon(mix(id), false) {
						w.Viol("result", "queued call %d: %v %v", id, res, err)
					}
					atomic.AddInt64(&early, 1)
				}(i)
			}
			// The other features are not blocked.
			done := make(chan struct{})
			go func() {
				for i := 0; i < 30; i++ {
					for j := 1; j < n; j++ {
						id := held + 500 + int64(i)
						res, err := from.CallWithResult(gs[j].name, "Quick", id)
						if err != nil || len(res) != 1 || canon(res[0], false) != canon(mix(id), false) {
							w.Viol("result", "call of %s while %s is busy: %v %v", gs[j].name, gs[0].name, res, err)
						}
						w.Eval(1)
					}
				}
				close(done)
			}()
			if !w.Done(done) {
				w.Viol("blocked", "a busy feature blocks calls to another (remote %v)\n%s", remote, Dump())
				return
			}
			w.Sleep(3)
			if o := gs[0].order(); len(o) != 1 {
				w.Viol("overlap", "calls %v have started although %d has not returned", o, held)
			}
			gs[0].open(held)
			dd := make(chan struct{})
			go func() { wg.Wait(); close(dd) }()
			if !w.Done(dd) {
				w.Viol("hang", "queued calls do not run after the busy one has returned (remote %v)\n%s", remote, Dump())
				return
			}
			w.Eval(waiting)
			w.State("gate remote %v features %d waiting %d", remote, n, waiting)
			w.Sample("remote %v: %d calls wait for a method that has timed out, %d other features serve on", remote, waiting, n-1)
		}
	})

	// Calls issued one after the other run in that order. Each is issued only
	// when the one before is seen to be blocked.
	scenario("c06order", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			g := w.newGate("order")
			callee := chancall.NewCallee("order", g)
			callee.SetTimeout("Hold", 3600)
			callee.SetTimeout("Quick", 3600)
			shared := chancall.NewCaller(callee)
			n := 3 + w.Intn(20)
			var wg sync.WaitGroup
			base := int64(round * 1000)
			for i := 0; i < n; i++ {
				wg.Add(1)
				m := "Quick"
				if i == 0 {
					m = "Hold"
				}
				c := shared
				if w.Intn(2) == 0 {
					c = chancall.NewCaller(callee)
				}
				go func(id int64) {
					defer wg.Done()
					c06QueuedCall(c, func(c Caller) {
						if res, err := c.CallWithResult(m, id); err != nil || len(res) != 1 || res[0] != mix(id) {
							w.Viol("result", "queued call %d: %v %v", id, res, err)
						}
					})
				}(base + int64(i))
				if i == 0 {
					w.Await(func() bool { return atomic.LoadInt64(&g.in_) == 1 })
				}
				stable := 0
				if !w.Await(func() bool {
					if blockedIn("main.c06QueuedCall") == i+1 {
						stable++
					} else {
						stable = 0
					}
					return stable >= 2
				}) {
					w.Viol("hang", "queued calls are not blocked\n%s", Dump())
					return
				}
			}
			g.open(base)
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			if !w.Done(done) {
				w.Viol("hang", "queued calls do not run\n%s", Dump())
				return
			}
			o := g.order()
			for i := range o {
				if o[i] != base+int64(i) {
					w.Viol("order", "calls issued in the order 0..%d have run in the order %v", n-1, o)
					break
				}
			}
			w.Eval(n)
			w.State("order %d", n)
		}
	})

	checks["C06"] = func(c *C) {
		c.Rule("features in 1..3 docks are called by 4..23 local and remote goroutines with calls that time out while running: a busy counter in each method detects overlap, sequence numbers per caller detect reordering; a gate holds a timed-out method while queued calls must not start and other features must answer; methods with timeouts of 5 ms to 1 s are held for 2.5 s more, nothing may start meanwhile; queued callers, each seen blocked before the next is issued, must run first come first served. Distinct: workload parameters and number of late calls.")
		jobs := Times(c.Pick(4, 10), Job{Scenario: "c06stress", N: c.Pick(9, 20)})
		jobs = append(jobs, Times(c.Pick(2, 4), Job{Scenario: "c06gate", N: c.Pick(8, 18)})...)
		jobs = append(jobs, Job{Scenario: "c06order", N: c.Pick(25, 300)}, Job{Scenario: "c06stress", N: c.Pick(3, 8), Race: true}, Job{Scenario: "c06gate", N: c.Pick(4, 12), Race: true}, Job{Scenario: "c06long"})
		c.Run(6, jobs...)
	}
}

var _ = errors.New
var _ = reflect.TypeOf
