package main

// C17: everything at once, under the race detector.

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
	"github.com/muguangyi/ferry/network"
)

// errand counts the goroutines of a round; those that wait for something that
// never comes are left behind, outcomes are the matter of other properties.
type errand struct {
	open int64
	ops  int64
}

func (e *errand) run(f func()) {
	atomic.AddInt64(&e.open, 1)
	go func() { defer atomic.AddInt64(&e.open, -1); f() }()
}

func (e *errand) wait(w *W, ticks int64) {
	if !w.AwaitN(ticks, func() bool { return atomic.LoadInt64(&e.open) == 0 }) {
		if os.Getenv("VDBG") != "" {
			fmt.Fprintln(os.Stderr, "LEFT", DumpAll())
		}
		w.Count("goroutines left behind", int(atomic.LoadInt64(&e.open)))
	}
}

type proxyObj struct {
	s ferry.ISlot
	n int
}

func maker(n int) func(s ferry.ISlot) interface{} {
	return func(s ferry.ISlot) interface{} { return &proxyObj{s, n} }
}

// use does what may be done with a slot at any time.
func (w *W) use(r *rand.Rand, s ferry.ISlot, targets []string, id int64, e *errand) {
	atomic.AddInt64(&e.ops, 1)
	w.Eval(1)
	t := targets[r.Intn(len(targets))]
	k := r.Intn(14)
	w.State("use %d", k)
	switch k {
	default:
		s2 := s
		w.callEcho(s2, t, id, r.Intn(5), r.Intn(2000))
	case 6:
		s.SetTimeout(echoMethods[r.Intn(len(echoMethods))], 100+float32(r.Intn(100)))
	case 7:
		ferry.Register(fmt.Sprint("proxy", r.Intn(5)), maker(r.Intn(10)))
	case 8, 9:
		if p, ok := s.Visit(fmt.Sprint("proxy", r.Intn(6))).(*proxyObj); ok && p != nil {
			p.s.Call(t, "Void", id)
		}
	case 10:
		network.ExtendSerializer([]string{"ferry2", "mine", "txt2"}[r.Intn(3)], lineSer{})
	case 11:
		s.Call(t, "Nothing")
		s.CallWithResult(t, "Mix", "x", 1.5)
	case 12:
		l := []int64{1, 2, 3}
		s.CallWithResult(t, "List", id, l)
		l[0] = 5 // it has returned, so the list is ours again
	}
}

// crowd runs docks and users until the docks are closed, over and over again.
func (w *W) crowd(hub string, mock bool, fh *FakeHub) {
	for round := 0; round < w.N && !w.Bad(); round++ {
		e := &errand{}
		led := newLedger()
		k := 2 + w.Intn(3)
		if mock {
			hub = fmt.Sprintf("127.0.0.1:%d", w.hubPort())
			go ferry.Serve(hub, blackExcept(w.block(k), k)...)
			w.Sleep(2)
		}
		var names []string
		for d := 0; d < k; d++ {
			names = append(names, fmt.Sprintf("R%d.%d.a", round, d), fmt.Sprintf("R%d.%d.b", round, d))
		}
		names = append(names, names...)
		names = append(names, fmt.Sprintf("R%d.nobody", round))
		var stop int64
		var ids int64
		users := 2 + w.Intn(3)
		var started int64
		for d := 0; d < k; d++ {
			var slots []ferry.ISlot
			for i := 0; i < 2; i++ {
				ec := w.newEcho(names[2*d+i], led)
				slot := w.carryEcho(ec, w.Intn(5) > 0)
				seed := round*1000 + d*100 + i*10
				ec.onStart = func(s ferry.ISlot) {
					atomic.AddInt64(&started, 1)
					for u := 0; u < users; u++ {
						r := w.R(seed + u)
						e.run(func() {
							for j := 0; j < 150 && atomic.LoadInt64(&stop) == 0; j++ {
								w.use(r, s, names, atomic.AddInt64(&ids, 1), e)
							}
						})
					}
				}
				ec.onEnd = func(s ferry.ISlot) {
					if seed%20 == 0 {
						s.Visit("proxy1")
						s.SetTimeout("Mix", 200)
					}
				}
				slots = append(slots, slot)
			}
			go ferry.Startup(hub, fmt.Sprint("dock", d), slots...)
			if w.Intn(2) == 0 {
				time.Sleep(time.Duration(w.Intn(3000)) * time.Microsecond)
			}
		}
		// Strangers come and go, and the hub breaks connections.
		if !mock {
			for i := 0; i < 3; i++ {
				g := Gen{w.R(round*1000 + 900 + i)}
				e.run(func() {
					ev := &Evil{w: w, names: []string{"x.one"}, slots: names[:2*k], floor: -1 << 50, port: 1, trap: dummyListener}
					for j := 0; j < 15 && atomic.LoadInt64(&stop) == 0; j++ {
						var ports []int
						for _, c := range fh.Conns() {
							if c.port != 0 && !c.p.Closed() {
								ports = append(ports, c.port)
							}
						}
						if len(ports) == 0 {
							time.Sleep(time.Millisecond)
							continue
						}
						c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", ports[g.Intn(len(ports))]))
						if err != nil {
							continue
						}
						for n := g.Intn(4); n > 0; n-- {
							p := ev.packet(g)
							if p[4] == 0xcc && p[5] == pReady {
								continue
							}
							c.Write(p)
						}
						time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
						ev.end(g, c, g.Intn(3))
						atomic.AddInt64(&e.ops, 1)
					}
				})
			}
			if w.Intn(3) == 0 {
				r := w.R(round*1000 + 950)
				e.run(func() {
					time.Sleep(time.Duration(r.Intn(20000)) * time.Microsecond)
					if cs := fh.Conns(); len(cs) > 0 {
						if c := cs[len(cs)-1]; c.p != nil {
							c.p.Close()
						}
					}
				})
			}
		}
		if mock || w.Intn(3) > 0 {
			// Otherwise they are closed while they are starting.
			w.AwaitN(300, func() bool { return atomic.LoadInt64(&started) == int64(2*k) })
			time.Sleep(time.Duration(w.Intn(30)) * time.Millisecond)
		}
		w.Max("features started at the time of Close", int(atomic.LoadInt64(&started)))
		closers := 1 + w.Intn(3)
		for i := 0; i < closers; i++ {
			e.run(func() { ferry.Close() })
		}
		w.Sleep(int64(w.Intn(3)))
		atomic.StoreInt64(&stop, 1)
		e.wait(w, 300)
		w.Count("operations", int(atomic.LoadInt64(&e.ops)))
		w.Count("executions", led.Len())
		w.State("crowd %d %d %v", k, closers, mock)
		w.Sample("%d docks with %d users per feature start, call, visit, register, extend and are closed by %d goroutines: %d operations", k, users, closers, atomic.LoadInt64(&e.ops))
	}
}

func init() {
	scenario("c17dock", func(w *W) {
		fh := w.fakeHub(700)
		w.crowd(fh.Addr, false, fh)
	})
	scenario("c17mock", func(w *W) {
		network.Mock("tcp")
		w.crowd("", true, nil)
	})

	// Hubs start, serve and are closed.
	scenario("c17hub", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			e := &errand{}
			n := 1 + w.Intn(2)
			var addrs []string
			for i := 0; i < n; i++ {
				a := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
				addrs = append(addrs, a)
				go ferry.Serve(a, 20001, 20003)
			}
			var stop int64
			for i := 0; i < 10; i++ {
				r := w.R(round*100 + i)
				e.run(func() {
					for atomic.LoadInt64(&stop) == 0 {
						c, err := dialFrom(fmt.Sprintf("127.0.0.%d", 1+r.Intn(3)), addrs[r.Intn(n)])
						if err != nil {
							time.Sleep(time.Millisecond)
							continue
						}
						name := func() string { return fmt.Sprint("F", r.Intn(4)) }
						for k := r.Intn(12); k > 0; k-- {
							switch r.Intn(4) {
							case 0:
								c.Write(encPacket(r, pRegReq, []string{name(), name()}))
							case 1:
								c.Write(encPacket(r, pReady, []string{name(), name()}))
							case 2:
								c.Write(encPacket(r, pQueryReq, name()))
							case 3:
								time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
							}
							atomic.AddInt64(&e.ops, 1)
							w.Eval(1)
						}
						if r.Intn(2) == 0 {
							c.(*net.TCPConn).SetLinger(0)
						}
						c.Close()
					}
				})
			}
			if w.Intn(4) > 0 {
				w.Sleep(int64(1 + w.Intn(10)))
			}
			for i := 1 + w.Intn(2); i > 0; i-- {
				e.run(func() { ferry.Close() })
			}
			w.Sleep(2)
			atomic.StoreInt64(&stop, 1)
			e.wait(w, 300)
			w.Count("hub packets", int(atomic.LoadInt64(&e.ops)))
			w.State("hub %d", n)
		}
		ferry.Close()
	})

	// Sockets of the network package, with callbacks that send and close.
	c17sock := func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			e := &errand{}
			addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
			var stop int64
			var dialing sync.RWMutex
			gone := false
			var ls network.ISocket
			act := func(r *rand.Rand, s network.ISocket, p network.IPeer) {
				k := r.Intn(10)
				atomic.AddInt64(&e.ops, 1)
				w.State("act %d", k)
				switch k {
				case 0, 1, 2, 3:
					s.Send(strings.Repeat("m", r.Intn(300)) + "\n")
				case 4, 5, 6:
					if p != nil {
						p.Send(strings.Repeat("p", r.Intn(300)) + "\n")
					}
				case 7:
					if p != nil {
						_ = p.LocalAddr().String() + p.RemoteAddr().String() + p.RemoteAddr().Network()
						p.IsSelf()
					}
				case 8:
					network.ExtendSerializer("race", lineSer{})
				case 9:
					if s != ls && r.Intn(8) == 0 {
						s.Close()
					}
				}
			}
			mk := func(seed int) network.ISocket {
				sd := newSide(fmt.Sprint("side", seed))
				var rmu sync.Mutex
				r := w.R(seed)
				var s network.ISocket
				sd.onConn = func(l *life) {
					rmu.Lock()
					k := w.R(r.Int())
					rmu.Unlock()
					act(k, s, l.peer)
				}
				sd.onPack = func(l *life, o interface{}) {
					rmu.Lock()
					k := w.R(r.Int())
					rmu.Unlock()
					if k.Intn(4) == 0 {
						act(k, s, l.peer)
					}
				}
				sd.onEnd = sd.onConn
				s = network.NewSocket(addr, "race", sd)
				return s
			}
			network.ExtendSerializer("race", lineSer{})
			ls = mk(round * 100)
			ls.Listen()
			r0 := w.R(round*100 + 49)
			e.run(func() {
				time.Sleep(time.Duration(r0.Intn(30000)) * time.Microsecond)
				if r0.Intn(2) == 0 {
					dialing.Lock()
					gone = true
					dialing.Unlock()
					ls.Close()
				}
			})
			for i := 0; i < 8; i++ {
				i := i
				r := w.R(round*100 + 50 + i)
				e.run(func() {
					for j := 0; j < 12 && atomic.LoadInt64(&stop) == 0; j++ {
						ds := mk(round*100 + i*10 + j%8)
						// Dial ends the process if nobody listens.
						dialing.RLock()
						if gone {
							dialing.RUnlock()
							return
						}
						// Others may use it, and dial, already.
						for k := r.Intn(3); k > 0; k-- {
							rr := rand.New(rand.NewSource(r.Int63()))
							e.run(func() {
								for n := 1 + rr.Intn(8); n > 0; n-- {
									switch rr.Intn(5) {
									case 0:
										ds.Close()
									case 1:
										dialing.RLock()
										if !gone {
											ds.Dial()
										}
										dialing.RUnlock()
									default:
										ds.Send("early\n")
									}
								}
								ds.Close()
							})
						}
						ds.Dial()
						dialing.RUnlock()
						for k := r.Intn(60); k > 0; k-- {
							act(r, ds, nil)
							if r.Intn(6) == 0 {
								act(r, ls, nil)
							}
							w.Eval(1)
						}
						if r.Intn(3) > 0 {
							ds.Close()
						}
						if r.Intn(3) == 0 {
							ds.Close()
						}
					}
				})
			}
			e.wait(w, 500)
			atomic.StoreInt64(&stop, 1)
			ls.Close()
			w.Count("socket operations", int(atomic.LoadInt64(&e.ops)))
		}
	}
	scenario("c17sock", c17sock)
	scenario("c17sockmock", func(w *W) {
		network.Mock("tcp")
		c17sock(w)
	})

	// Callers of one callee while its timeouts are set.
	scenario("c17chan", func(w *W) {
		led := newLedger()
		e := w.newEcho("E", led)
		callee := chancall.NewCallee("E", e)
		shared := chancall.NewCaller(callee)
		for _, m := range echoMethods {
			callee.SetTimeout(m, 3600)
		}
		var progress int64
		if !w.GroupProgress(12, &progress, func(i int) {
			r := w.R(i)
			own := chancall.NewCaller(callee)
			for j := 0; j < w.N; j++ {
				c := own
				if r.Intn(2) == 0 {
					c = shared
				}
				id := int64(i)*1000000 + int64(j)
				switch r.Intn(6) {
				case 0:
					callee.SetTimeout(echoMethods[r.Intn(4)], float32(100+r.Intn(100)))
				case 1:
					c.Call("Void", id)
				case 2:
					l := []int64{id, 2, 3}
					res, err := c.CallWithResult("List", id, l)
					if err == nil {
						l[1] = 7
						res[0].([]int64)[0]++
						res[1].(map[string]int64)["mine"] = 1
					}
				case 3:
					c.Call("Nothing", 1)
				case 4:
					callee.Name()
					c.CallWithResult("Mix", id, "s")
				case 5:
					c.Call("Mix", "a", "b")
				}
				atomic.AddInt64(&progress, 1)
				w.Eval(1)
			}
		}) {
			w.Viol("hang", "calls hang\n%s", Dump())
		}
		w.State("chan")
		w.Count("calls of one callee", int(progress))
	})

	checks["C17"] = func(c *C) {
		c.Rule("race-detector builds of scenarios of most other properties and of mixed workloads: docks that start, are used by several goroutines per feature (calls, visits, timeouts, proxy and serializer registrations), meet strangers and broken hub connections, and are closed by several goroutines at any point, with a fake hub and over the mock network; hubs that start, serve and close under 10 peers; sockets whose callbacks send and close, TCP and mock; callers of one callee while timeouts are set; arguments that their caller changes as soon as a call has failed for a lost connection. Every race report and every crash counts. The race builds of all other checks count as well. Distinct: kind of operation, number of docks x closers x network.")
		c.Assume("the race detector sees the conflicts of the executions that happen, through history of limited length")
		var jobs []Job
		jobs = append(jobs, Times(c.Pick(3, 8), Job{Scenario: "c17dock", N: c.Pick(24, 120), Race: true})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c17mock", N: c.Pick(24, 120), Race: true, P: map[string]int64{"mock": 1}})...)
		jobs = append(jobs, Times(c.Pick(2, 4), Job{Scenario: "c17hub", N: c.Pick(40, 200), Race: true})...)
		jobs = append(jobs, Times(c.Pick(2, 4), Job{Scenario: "c17sock", N: c.Pick(24, 120), Race: true})...)
		jobs = append(jobs, Times(c.Pick(1, 3), Job{Scenario: "c17sockmock", N: c.Pick(24, 120), Race: true, P: map[string]int64{"mock": 1}})...)
		jobs = append(jobs, Job{Scenario: "c17chan", N: c.Pick(2000, 20000), Race: true})
		jobs = append(jobs, Times(c.Pick(1, 3), Job{Scenario: "c17mutate", N: c.Pick(30, 200), Race: true})...)
		jobs = append(jobs, Job{Scenario: "c17dock", N: c.Pick(15, 150)}, Job{Scenario: "c17sock", N: c.Pick(15, 150)}, Job{Scenario: "c17hub", N: c.Pick(40, 200)})
		// What decides other properties, in builds that watch for races: timeouts
		// that meet results, losses, hubs and docks that close, strangers.
		for _, x := range []struct {
			name string
			n    int
		}{{"c07edge", 4}, {"c05mixed", 2}, {"c18serve", 200}, {"c18race", 10}, {"c18life", 3}, {"hubs", 3}, {"c20point", 14}, {"c20cut", 20}, {"c20inbound", 10}, {"c20hub", 5}, {"c20close", 5},
			{"c11docks", 6}, {"c11order", 2}, {"c15", 8}, {"c15slow", 10}, {"c15dials", 30}, {"c15unread", 10}, {"c14some", 5}, {"c14burst", 2}, {"c16hub", 8}, {"c16dock", 4}, {"c16fields", 20}, {"c23self", 10}, {"c10web", 8}} {
			if scenarios[x.name] == nil {
				fail("no scenario %s", x.name)
			}
			jobs = append(jobs, Job{Scenario: x.name, N: c.Pick(x.n, 6*x.n), Race: true, Timeout: 850})
		}
		c.Run(4, jobs...)
	}
}
