package main

// C07: timeouts. A timeout that fires early is seen on the monotonic clock. One
// that fires late is counted in ticks of this process and only if it is late in
// every one of several attempts.

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
)

// Slow has methods that never return by themselves.
type Slow struct {
	Base
	gate    chan struct{}
	running int64
	begun   int64
	ended   int64
}

func (s *Slow) wait(id int64) int64 {
	s.enter()
	defer s.leave()
	s.led.Add(id)
	atomic.AddInt64(&s.begun, 1)
	<-s.gate
	atomic.AddInt64(&s.ended, 1)
	return mix(id)
}
func (s *Slow) A(id int64) int64 { return s.wait(id) }
func (s *Slow) B(id int64) int64 { return s.wait(id) }
func (s *Slow) Other(id int64) int64 {
	s.enter()
	defer s.leave()
	s.led.Add(id)
	return mix(id)
}

// Slower is a feature of another type with the same methods.
type Slower struct{ *Slow }

func (w *W) newSlow(name string) *Slow {
	s := &Slow{gate: make(chan struct{})}
	s.name, s.led = name, newLedger()
	return s
}

// lateLimit is how many ticks late a timeout may be in all attempts.
const lateLimit = 40

type timing struct {
	err   error
	res   []interface{}
	took  time.Duration
	late  int64 // ticks after it was due
	never bool
}

// timeCall makes a call that is due to fail after due.
func (w *W) timeCall(c Caller, method string, id int64, due time.Duration) timing {
	var t timing
	done := make(chan struct{})
	start := time.Now()
	go func() {
		t.res, t.err = c.CallWithResult(method, id)
		t.took = time.Since(start)
		close(done)
	}()
	go func() {}()
	select {
	case <-done:
		return t
	case <-time.After(due):
	}
	from := w.Ticks()
	if !w.Done(done) {
		return timing{never: true}
	}
	t.late = w.Ticks() - from
	return t
}

func init() {
	// Timeouts of single calls: where is "chancall", "slot" or "remote".
	scenario("c07single", func(w *W) {
		where := []string{"chancall", "slot", "remote"}[w.p("where", 0)]
		type tc struct {
			set  float32 // 0: not set
			due  time.Duration
			meth string
		}
		cases := []tc{{0, time.Second, "A"}, {0, time.Second, "B"}, {0.05, 50 * time.Millisecond, "A"}, {0.25, 250 * time.Millisecond, "B"}, {0.5, 500 * time.Millisecond, "A"},
			{0.9, 900 * time.Millisecond, "A"}, {1.25, 1250 * time.Millisecond, "A"}, {1.75, 1750 * time.Millisecond, "B"}, {2.25, 2250 * time.Millisecond, "A"}, {2.75, 2750 * time.Millisecond, "B"}}
		for i := 0; i < 4; i++ {
			ms := 20 + w.Intn(2500)
			cases = append(cases, tc{float32(ms) / 1000, time.Duration(ms) * time.Millisecond, []string{"A", "B"}[w.Intn(2)]})
		}
		var hub string
		var client *Echo
		if where != "chancall" {
			hub = w.startHub(120)
			client = w.newEcho("client", newLedger())
			if !w.startEchos(hub, "client", client) {
				return
			}
		}
		setup := func(attempt, i int, x tc) (*Slow, Caller) {
			s := w.newSlow(fmt.Sprintf("S%d.%d", attempt, i))
			other := "A"
			if x.meth == "A" {
				other = "B"
			}
			var set func(string, float32)
			var c Caller
			if where == "chancall" {
				callee := chancall.NewCallee(s.name, s)
				set = callee.SetTimeout
				c = chancall.NewCaller(callee)
			} else {
				sl := ferry.Carry(s.name, s, true)
				set = sl.SetTimeout
				w.startDock(hub, s.name, sl)
				if !w.Await(func() bool { return s.theSlot() != nil }) {
					w.Viol("hang", "feature is not started\n%s", Dump())
					return nil, nil
				}
				c = slotCaller{s.theSlot(), s.name}
				if where == "remote" {
					c = slotCaller{client.theSlot(), s.name}
				}
			}
			// Settings of other methods, before and after, don't matter.
			set(other, 3600)
			if x.set != 0 {
				set(x.meth, 77)
				set(x.meth, x.set)
			}
			set("Nothing", 0.001)
			set("Other", 3600)
			// The connection is there before time is taken.
			if res, err := c.CallWithResult("Other", int64(1)); err != nil || len(res) != 1 || canon(res[0], false) != canon(mix(1), false) {
				w.Viol("result", "a call that returns at once: %v %v", res, err)
			}
			return s, c
		}
		var mu sync.Mutex
		for attempt := 0; attempt < 5 && !w.Bad(); attempt++ {
			var again []tc
			w.GroupProgress(len(cases), &w.ticks, func(i int) {
				x := cases[i]
				s, c := setup(attempt, i, x)
				if c == nil {
					return
				}
				t := w.timeCall(c, x.meth, 2, x.due)
				w.Eval(1)
				w.State("%s %v %s", where, x.due, x.meth)
				switch {
				case t.never:
					w.Viol("missing", "%s: the call of a method that does not return, timeout %v, does not fail\n%s", where, x.due, Dump())
				case t.err == nil:
					w.Viol("missing", "%s: the call of a method that does not return succeeds with %v", where, t.res)
				case t.took < x.due-2*time.Millisecond:
					w.Viol("early", "%s: timeout is %v, but the call fails after %v: %v", where, x.due, t.took, t.err)
				case t.late > lateLimit:
					mu.Lock()
					again = append(again, x)
					mu.Unlock()
					if attempt == 4 {
						w.Viol("late", "%s: timeout is %v, but the call fails after %v (%d ticks late, as in 4 attempts before)", where, x.due, t.took, t.late)
					}
				}
				w.Max("ticks a timeout was late", int(t.late))
				// The late result must not go to a later call.
				close(s.gate)
				for k := int64(10); k < 16; k++ {
					res, err := c.CallWithResult("Other", k)
					if err != nil || len(res) != 1 || canon(res[0], false) != canon(mix(k), false) {
						w.Viol("late result", "%s: call %d after one that has timed out gets %v, %v", where, k, short(canon(res, false)), err)
						break
					}
				}
				if !w.Await(func() bool { return atomic.LoadInt64(&s.ended) == 1 }) {
					w.Viol("late result", "the method was not left to run to its end")
				}
				if n := s.led.Count(2); n != 1 {
					w.Viol("count", "the timed-out call has run %d times", n)
				}
				w.Sample("%s: timeout %v, failed after %v, next calls got their own results", where, x.due, t.took)
			})
			cases = again
			if len(cases) == 0 {
				break
			}
		}
	})

	// Long timeouts: a method within its timeout is not failed, and neither is a
	// call that waits behind it.
	scenario("c07long", func(w *W) {
		where := []string{"chancall", "slot", "remote"}[w.p("where", 0)]
		timeouts := []float32{2000, 3600, 1e6, 1e9, 1e10, 1e12, 1e20, 3e38}
		var hub string
		var client *Echo
		if where != "chancall" {
			hub = w.startHub(40)
			client = w.newEcho("client", newLedger())
			if !w.startEchos(hub, "client", client) {
				return
			}
		}
		w.GroupProgress(len(timeouts), &w.ticks, func(i int) {
			s := w.newSlow(fmt.Sprintf("L%d", i))
			var c Caller
			var set func(string, float32)
			if where == "chancall" {
				callee := chancall.NewCallee(s.name, s)
				set = callee.SetTimeout
				c = chancall.NewCaller(callee)
			} else {
				sl := ferry.Carry(s.name, s, true)
				set = sl.SetTimeout
				w.startDock(hub, s.name, sl)
				if !w.Await(func() bool { return s.theSlot() != nil }) {
					w.Viol("hang", "feature is not started\n%s", Dump())
					return
				}
				c = slotCaller{s.theSlot(), s.name}
				if where == "remote" {
					c = slotCaller{client.theSlot(), s.name}
				}
			}
			set("A", timeouts[i])
			set("B", 0.1)
			set("Other", 0.3)
			var wg sync.WaitGroup
			call := func(m string, id int64) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					start := time.Now()
					res, err := c.CallWithResult(m, id)
					if err != nil || len(res) != 1 || canon(res[0], false) != canon(mix(id), false) {
						// Other returns at once, when it runs at all.
						w.Viol("early", "%s: call of %s (timeout of the running method: %v s) fails after %v: %v %v", where, m, timeouts[i], time.Since(start), err, res)
					}
					w.Eval(1)
				}()
			}
			call("A", 1)
			if !w.Await(func() bool { return atomic.LoadInt64(&s.begun) == 1 }) {
				w.Viol("hang", "call does not start\n%s", Dump())
				return
			}
			// Wait in the queue, for longer than their own timeout.
			for k := int64(2); k < 6; k++ {
				call("Other", k)
			}
			w.Sleep(170)
			close(s.gate)
			wg.Wait()
			w.State("%s %v", where, timeouts[i])
		})
	})

	// Methods that take about as long as their timeout: one outcome per call.
	scenario("c07edge", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			f := w.newWork("edge")
			callee := chancall.NewCallee("edge", f)
			for _, m := range workMethods {
				callee.SetTimeout(m, 3600)
			}
			us := 200 + w.Intn(2000)
			callee.SetTimeout("Nap", float32(us)/1e6)
			shared := chancall.NewCaller(callee)
			g := 1 + w.Intn(4)
			var progress, fails, oks int64
			ok := w.GroupProgress(g, &progress, func(k int) {
				r := w.R(k + round*10)
				for i := 0; i < 60 && !w.Bad(); i++ {
					id := int64(round)*1000000 + int64(k)*10000 + int64(i)
					d := int64(us)*1000 + r.Int63n(200000) - 150000
					start := time.Now()
					res, err := shared.CallWithResult("Nap", id, d)
					took := time.Since(start)
					w.Eval(1)
					atomic.AddInt64(&progress, 1)
					if err != nil {
						atomic.AddInt64(&fails, 1)
						if took < time.Duration(us-1)*time.Microsecond {
							w.Viol("early", "timeout %d us, failed after %v: %v", us, took, err)
						}
					} else {
						atomic.AddInt64(&oks, 1)
						if len(res) != 1 || res[0] != mix(id) {
							w.Viol("late result", "call %d gets %v", id, res)
						}
					}
					if i%3 == 0 {
						res, err := shared.CallWithResult("One", id+5000)
						if err != nil || len(res) != 1 || res[0] != mix(id+5000) {
							w.Viol("late result", "call %d gets %v, %v", id+5000, res, err)
						}
					}
					// Settings may change at any time.
					if i%20 == 7 {
						callee.SetTimeout("Many", float32(i))
						callee.SetTimeout("Any", float32(i+3600))
					}
				}
			})
			if !ok {
				w.Viol("hang", "calls have no outcome\n%s", Dump())
				return
			}
			w.Count("edge calls failed", int(fails))
			w.Count("edge calls ok", int(oks))
			w.State("edge %d us: %d failed %d ok", us, fails, oks)
		}
	})

	// A remote caller gets exactly one answer per request.
	scenario("c07answers", func(w *W) {
		hub := w.startHub(5)
		s := w.newSlow("slow")
		sl := ferry.Carry("slow", s, true)
		sl.SetTimeout("A", 0.02)
		sl.SetTimeout("Other", 3600)
		w.startDock(hub, "slow", sl)
		q := w.dialPeer("", hub, nil)
		q.Put(pQueryReq, "slow")
		if !q.AwaitGot(pQueryResp, 1) {
			w.Viol("hang", "query is not answered")
			return
		}
		p := w.dialDock(q.Got(pQueryResp)[0].Str(0), nil, nil)
		n := 10
		for i := 1; i <= n; i++ {
			p.Put(pRpcReq, int64(i), "slow", "A", []interface{}{int64(i)}, i%2 == 0)
			if i == 1 && !p.AwaitGot(pRpcResp, 1) {
				w.Viol("missing", "no answer to a call that times out\n%s", Dump())
				return
			}
		}
		close(s.gate)
		if !p.AwaitGot(pRpcResp, n) {
			w.Viol("missing", "calls are not answered\n%s", Dump())
			return
		}
		p.Put(pRpcReq, int64(100), "slow", "Other", []interface{}{int64(100)}, true)
		w.Await(func() bool { return len(p.Got(pRpcResp)) >= n+1 })
		w.Sleep(10)
		seen := map[int64]int{}
		for _, k := range p.Got(pRpcResp) {
			seen[k.Int(0)]++
			w.Eval(1)
			if k.Int(0) == 1 && k.Str(4) == "" {
				w.Viol("missing", "call 1 has not timed out: %v", k)
			}
			if k.Int(0) == 100 && (len(k.Arr(3)) != 1 || canon(k.Arr(3)[0], false) != canon(mix(100), false)) {
				w.Viol("late result", "call 100 gets %v", k)
			}
		}
		for i := int64(1); i <= int64(n); i++ {
			if seen[i] != 1 {
				w.Viol("outcomes", "request %d is answered %d times", i, seen[i])
			}
		}
		w.State("answers")
	})

	// Features that are named alike keep timeouts of their own.
	scenario("c07names", func(w *W) {
		where := w.p("where", 0)
		for round := 0; round < w.N && !w.Bad(); round++ {
			n := 2 + w.Intn(3)
			type feat struct {
				s   *Slow
				c   Caller
				set func(string, float32)
				due [2]time.Duration // of A and B, 0: an hour
			}
			fs := make([]*feat, n)
			name := fmt.Sprintf("S%d", round)
			hub := w.startHub(4)
			for i := range fs {
				f := &feat{s: w.newSlow(name)}
				fs[i] = f
				if where == 0 {
					var target interface{} = f.s
					if w.Intn(2) == 0 {
						target = &Slower{f.s}
					}
					callee := chancall.NewCallee(name, target)
					f.set, f.c = callee.SetTimeout, chancall.NewCaller(callee)
					continue
				}
				if where == 2 || w.Intn(2) == 0 {
					hub = w.startHub(4)
				}
				sl := ferry.Carry(name, f.s, true)
				f.set = sl.SetTimeout
				w.startDock(hub, "dock", sl)
				if !w.Await(func() bool { return f.s.theSlot() != nil }) {
					w.Viol("hang", "feature is not started\n%s", Dump())
					return
				}
				f.c = slotCaller{f.s.theSlot(), name}
				if where == 2 {
					client := w.newEcho("client", newLedger())
					if !w.startEchos(hub, "client", client) {
						return
					}
					f.c = slotCaller{client.theSlot(), name}
				}
			}
			// Each method of each feature is set at some time, in any order.
			var sets []func()
			for i, f := range fs {
				for k, m := range []string{"A", "B"} {
					f, m := f, m
					switch t := float32(20+w.Intn(280)) / 1000; (i + k + w.Intn(2)) % 3 {
					case 0:
						f.due[k] = time.Duration(t * float32(time.Second))
						sets = append(sets, func() { f.set(m, t) })
					case 1:
						f.due[k] = time.Second
					default:
						sets = append(sets, func() { f.set(m, 3600) })
					}
				}
			}
			for _, i := range w.Perm(len(sets)) {
				sets[i]()
			}
			for _, f := range fs {
				if res, err := f.c.CallWithResult("Other", int64(1)); err != nil || len(res) != 1 || canon(res[0], false) != canon(mix(1), false) {
					w.Viol("result", "a call that returns at once: %v %v", res, err)
				}
			}
			// All at once, a method of each.
			meth := make([]int, n)
			for i := range meth {
				meth[i] = w.Intn(2)
			}
			var short sync.WaitGroup
			over := make(chan struct{})
			for i, f := range fs {
				if f.due[meth[i]] != 0 {
					short.Add(1)
				}
			}
			go func() { short.Wait(); close(over) }()
			w.GroupProgress(n, &w.ticks, func(i int) {
				f, m := fs[i], []string{"A", "B"}[meth[i]]
				due := f.due[meth[i]]
				w.Eval(1)
				w.State("%s %v", places[where], due.Round(50*time.Millisecond))
				if due != 0 {
					t := w.timeCall(f.c, m, 2, due)
					short.Done()
					switch {
					case t.never:
						w.Viol("missing", "%s: the call of a method that does not return, timeout %v, does not fail; another feature is named alike\n%s", places[where], due, Dump())
					case t.err == nil:
						w.Viol("missing", "%s: the call of a method that does not return succeeds with %v", places[where], t.res)
					case t.took < due-2*time.Millisecond:
						w.Viol("early", "%s: timeout is %v, but the call fails after %v: %v; another feature is named alike", places[where], due, t.took, t.err)
					}
					close(f.s.gate)
					return
				}
				go func() {
					<-over
					w.Sleep(80)
					close(f.s.gate)
				}()
				res, err := f.c.CallWithResult(m, int64(2))
				if err != nil || len(res) != 1 || canon(res[0], false) != canon(mix(2), false) {
					w.Viol("early", "%s: timeout is an hour, but the call gets %v %v; another feature is named alike", places[where], res, err)
				}
			})
			w.Sample("%s: %d features named %s keep their own timeouts", places[where], n, name)
		}
	})

	checks["C07"] = func(c *C) {
		c.Rule("methods that never return, under timeouts of 20 ms to 2.75 s (also unset), called in process, through a slot and from another dock: the failure must not come before the timeout (monotonic clock) nor be more than 40 ticks late in 5 of 5 attempts, and the calls after must get their own results; timeouts of 0.5 ms to 1.5 s must beat a timer started along with the call and due 6 ms (12 ms remote, plus 1 %) later, in at least one of many attempts; methods held for more than a minute under timeouts from 60.5 s up; methods that run or queue past other timeouts must not fail, timeouts up to 3e38 s; methods lasting their timeout +-150 us, each call with one outcome; answers per request counted on the wire; several features of one name (callees, docks, hubs), each method with a timeout of its own, held at the same time. Distinct: place x timeout x method, and failed/ok splits.")
		var jobs []Job
		for i := int64(0); i < 3; i++ {
			jobs = append(jobs, Times(c.Pick(1, 6), Job{Scenario: "c07single", P: map[string]int64{"where": i}})...)
			jobs = append(jobs, Job{Scenario: "c07long", P: map[string]int64{"where": i}})
		}
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c07edge", N: c.Pick(15, 200)})...)
		jobs = append(jobs, Job{Scenario: "c07answers"}, Job{Scenario: "c07edge", N: c.Pick(5, 60), Race: true})
		for i := int64(0); i < 3; i++ {
			jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c07prompt", P: map[string]int64{"where": i}})...)
		}
		jobs = append([]Job{{Scenario: "c07hold", P: map[string]int64{"ticks": int64(c.Pick(6200, 31000))}, Timeout: 850}}, jobs...)
		for i := int64(0); i < 3; i++ {
			jobs = append(jobs, Job{Scenario: "c07names", N: c.Pick(2, 20), P: map[string]int64{"where": i}})
		}
		c.Run(4, jobs...)
	}
}
