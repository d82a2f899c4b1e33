package main

// Calls that look the same, very many calls of a kind, names of all kinds, and
// very many hosts.

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/chancall"
)

// Clock has methods that give another result each time.
type Clock struct {
	Base
	n     int64
	kinds [6]int64
}

func (c *Clock) tick(k int) int64 {
	c.enter()
	defer c.leave()
	atomic.AddInt64(&c.kinds[k], 1)
	return atomic.AddInt64(&c.n, 1)
}

func (c *Clock) Next() int64                                  { return c.tick(0) }
func (c *Clock) Touch()                                       { c.tick(1) }
func (c *Clock) Tick(s string, v int64) (string, int64)       { return s, c.tick(2) }
func (c *Clock) Mark(s string)                                { c.tick(3) }
func (c *Clock) Any(v interface{}, l []interface{}) (n int64) { return c.tick(4) }
func (c *Clock) Fail(s string) int64                          { c.tick(5); panic("no") }
func (c *Clock) Read() []int64 {
	out := []int64{}
	for i := range c.kinds {
		out = append(out, atomic.LoadInt64(&c.kinds[i]))
	}
	return out
}

// place gives callers of a feature: of a callee of its own, of the same dock or
// of another one.
func (w *W) place(where int64, name string, feature ferry.IFeature, base *Base, timeout func(set func(string, float32))) func() Caller {
	if where == 0 {
		callee := chancall.NewCallee(name, feature)
		timeout(callee.SetTimeout)
		return func() Caller { return chancall.NewCaller(callee) }
	}
	hub := w.startHub(3)
	s := ferry.Carry(name, feature, true)
	timeout(s.SetTimeout)
	if where == 1 {
		w.startDock(hub, "one", s)
	} else {
		e := w.newEcho("client", newLedger())
		w.startDock(hub, "one", s)
		if !w.startEchos(hub, "two", e) {
			return nil
		}
		if !w.Await(func() bool { return base.theSlot() != nil }) {
			w.Viol("hang", "the feature is not started\n%s", Dump())
			return nil
		}
		return func() Caller { return slotCaller{e.theSlot(), name} }
	}
	if !w.Await(func() bool { return base.theSlot() != nil }) {
		w.Viol("hang", "the feature is not started\n%s", Dump())
		return nil
	}
	return func() Caller { return slotCaller{base.theSlot(), name} }
}

var places = []string{"chancall", "slot", "remote"}

// oddNames are names that are all different, if only a little.
func oddNames(r *rand.Rand, n int) []string {
	all := []string{"", " ", "a", "A", "a ", " a", "a\n", "\ta", "a\x00", "\x00a", "a.b", "a/b", "é", "e\u0301", "É", "ß", "SS", "ss", "\xff", "\xfe", "\xff\xfe", "*", "a*", "?", "%s", "%2e",
		"0", "00", "1", "nil", "null", "127.0.0.1:20001", "hub", "_", "__", "a,b", "a,", strings.Repeat("n", 31), strings.Repeat("n", 32), strings.Repeat("n", 127), strings.Repeat("n", 128),
		strings.Repeat("n", 254), strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 257), strings.Repeat("n", 65535), strings.Repeat("n", 65536), strings.Repeat("n", 65536) + "m", strings.Repeat("世", 400)}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:min(n, len(all))]
}

func init() {
	// Equal calls are calls all the same.
	scenario("same", func(w *W) {
		where := w.p("where", 0)
		clock := &Clock{}
		clock.name = "clock"
		clock.overlap = func(string) { w.Viol("overlap", "two calls run at the same time") }
		caller := w.place(where, "clock", clock, &clock.Base, func(set func(string, float32)) {
			for _, m := range []string{"Next", "Touch", "Tick", "Mark", "Any", "Fail", "Read"} {
				set(m, 100000)
			}
		})
		if caller == nil {
			return
		}
		var want [6]int64
		seen := map[int64]bool{}
		var mu sync.Mutex
		var progress int64
		number := func(what string, v interface{}) {
			n, ok := asInt(v)
			mu.Lock()
			defer mu.Unlock()
			if !ok || seen[n] {
				w.Viol("twice", "%s: %s returns %v, which an earlier call has returned", places[where], what, v)
			}
			seen[n] = true
		}
		for round := 0; round < w.N && !w.Bad(); round++ {
			g := []int{1, 1, 2, 8, 40}[w.Intn(5)]
			calls := 20 + w.Intn(100)
			shared := caller()
			only := w.Intn(8) // one kind only, mostly
			value := w.Intn(3)
			if !w.GroupProgress(g, &progress, func(i int) {
				r := w.R(round*100 + i)
				c := shared
				if r.Intn(2) == 0 {
					c = caller()
				}
				for j := 0; j < calls && !w.Bad(); j++ {
					k := only
					if only >= 6 {
						k = r.Intn(6)
					}
					s, v := []string{"", "x", "same"}[value], int64(value)
					var err error
					var res []interface{}
					plain := r.Intn(3) == 0
					do := func(m string, args ...interface{}) {
						if plain {
							err = c.Call(m, args...)
						} else {
							res, err = c.CallWithResult(m, args...)
						}
					}
					switch k {
					case 0:
						do("Next")
					case 1:
						do("Touch")
					case 2:
						do("Tick", s, v)
					case 3:
						do("Mark", s)
					case 4:
						do("Any", nil, []interface{}{s})
					case 5:
						do("Fail", s)
					}
					w.Eval(1)
					if (k == 5) != (err != nil) {
						w.Viol("result", "%s: call of kind %d: error %v", places[where], k, err)
						return
					}
					if !plain && err == nil {
						switch k {
						case 0, 4:
							if len(res) != 1 {
								w.Viol("result", "%s: results are %v", places[where], res)
								return
							}
							number([]string{"Next", "", "", "", "Any"}[k], res[0])
						case 2:
							if len(res) != 2 || res[0] != s {
								w.Viol("result", "%s: results are %v", places[where], res)
								return
							}
							number("Tick", res[1])
						case 1, 3:
							if len(res) != 0 {
								w.Viol("result", "%s: results are %v", places[where], res)
								return
							}
						}
					}
					atomic.AddInt64(&want[k], 1)
					atomic.AddInt64(&progress, 1)
					w.State("%d %v %d %v", k, plain, only, g > 1)
				}
			}) {
				w.Viol("hang", "%s: equal calls do not return\n%s", places[where], Dump())
				return
			}
			got := clock.Read()
			for k := range want {
				if got[k] != want[k] {
					w.Viol("count", "%s: %d calls of kind %d, all alike, have returned, and %d were executed", places[where], want[k], k, got[k])
					return
				}
			}
			w.Count("equal calls compared with their executions", g*calls)
		}
	})
	// Thousands of calls that can't be carried out, to the same feature.
	scenario("c08streak", func(w *W) {
		where := w.p("where", 0)
		t := &Toil{}
		t.name = "toil"
		caller := w.place(where, "toil", t, &t.Base, func(set func(string, float32)) {
			for _, m := range []string{"Add", "Keep", "Blob", "Boom", "Chan", "Err", "List"} {
				set(m, 100000)
			}
		})
		if caller == nil {
			return
		}
		var progress int64
		kinds := []func(c Caller) error{
			func(c Caller) error { _, err := c.CallWithResult("Boom", "x"); return err },
			func(c Caller) error { return c.Call("Boom", "x") },
			func(c Caller) error { return c.Call("Nothing") },
			func(c Caller) error { return c.Call("Add", 1) },
			func(c Caller) error { _, err := c.CallWithResult("Add", 1, 2, 3); return err },
			func(c Caller) error { return c.Call("Add", "x", map[string]int{}) },
			func(c Caller) error { return c.Call("Keep", make(chan int)) },
			func(c Caller) error { _, err := c.CallWithResult("Add", nil, nil); return err },
		}
		if where == 2 {
			kinds = append(kinds, func(c Caller) error { _, err := c.CallWithResult("Chan"); return err })
		}
		w.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		for k, bad := range kinds {
			g := 1 + w.Intn(8)
			if !w.GroupProgress(g, &progress, func(i int) {
				c := caller()
				for j := 0; j < w.N/g && !w.Bad(); j++ {
					if err := bad(c); err == nil {
						w.Viol("accepted", "%s: bad call %d of one kind (%d) succeeds", places[where], j, k)
						return
					}
					w.Eval(1)
					atomic.AddInt64(&progress, 1)
				}
			}) {
				w.Viol("hang", "%s: bad calls of kind %d do not return\n%s", places[where], k, Dump())
				return
			}
			done := make(chan bool, 1)
			go func() {
				c := caller()
				res, err := c.CallWithResult("Add", int64(k), 5)
				n, ok := int64(0), false
				if len(res) == 1 {
					n, ok = asInt(res[0])
				}
				if err != nil || !ok || n != int64(k)+5 {
					w.Viol("failed", "%s: after %d bad calls of each of %d kinds, a good one gets %v, %v", places[where], w.N, k+1, res, err)
				}
				if err := c.Call("Keep", "y"); err != nil {
					w.Viol("failed", "%s: after %d bad calls of each of %d kinds, a good one gets %v", places[where], w.N, k+1, err)
				}
				done <- true
			}()
			if !w.Await(func() bool { return len(done) > 0 }) {
				w.Viol("hang", "%s: a good call after %d bad ones does not return\n%s", places[where], w.N, Dump())
				return
			}
			w.Count("bad calls in a row", w.N)
			w.State("streak %d %d", where, k)
			if w.Bad() {
				return
			}
		}
	})
	// Ports for very many hosts.
	scenario("c12hosts", func(w *W) {
		port := w.hubPort()
		w.serve(fmt.Sprintf("0.0.0.0:%d", port), 20003, 20004)
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		given := map[string]map[int]bool{}
		var mu sync.Mutex
		var progress int64
		stay := make([][]*Peer, 8)
		for round := 0; round < 4 && !w.Bad(); round++ {
			keep := w.Intn(2) == 0
			if !w.GroupProgress(8, &progress, func(i int) {
				r := w.R(round*10 + i)
				for _, h := range r.Perm(w.N) {
					if h%8 != i || w.Bad() {
						continue
					}
					host := fmt.Sprintf("127.%d.%d.%d", 100+w.Slot%100, h/200, 1+h%200)
					p := w.dialPeer(host, addr, nil)
					if p == nil {
						w.Viol("hang", "no connection to the hub")
						return
					}
					p.Put(pRegReq, []string{"many"})
					if !p.AwaitGot(pRegResp, 1) {
						w.Viol("hang", "registration of host %d is not answered\n%s", h, Dump())
						return
					}
					n := int(p.Got(pRegResp)[0].Int(0))
					mu.Lock()
					if given[host] == nil {
						given[host] = map[int]bool{}
					}
					if given[host][n] {
						w.Viol("twice", "%s, one of %d hosts, is given port %d twice", host, w.N, n)
					}
					if n <= 20000 || n > 49000 || n == 20003 || n == 20004 {
						w.Viol("range", "%s is given port %d", host, n)
					}
					given[host][n] = true
					mu.Unlock()
					w.Eval(1)
					w.State("host %d", n)
					atomic.AddInt64(&progress, 1)
					if keep && len(stay[i]) < 100 {
						stay[i] = append(stay[i], p)
					} else {
						p.Close()
					}
				}
			}) {
				w.Viol("hang", "registrations of %d hosts are not answered\n%s", w.N, Dump())
			}
		}
		w.Max("hosts that registered at one hub", len(given))
		for _, l := range stay {
			for _, p := range l {
				p.Close()
			}
		}
	})
	// Features with odd names: each is found, and none is taken for another.
	scenario("c11names", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			led := newLedger()
			docks := 3 + w.Intn(8)
			hub := w.startHub(docks + 1)
			names := oddNames(w.Rand, docks+w.Intn(40))
			es := make([][]*Echo, docks)
			for i, n := range names {
				// Some carry one feature only, who connects for another one finds
				// those of the same dock, too.
				d := i
				if i >= docks {
					d = w.Intn(1 + w.Intn(docks))
				}
				es[d] = append(es[d], w.newEcho(n, led))
			}
			a := w.newEcho("the caller", led)
			first := w.Intn(2) == 0
			if first && !w.startEchos(hub, "caller", a) {
				return
			}
			for d := range es {
				var slots []ferry.ISlot
				for _, e := range es[d] {
					slots = append(slots, w.carryEcho(e, true))
				}
				w.startDock(hub, []string{"", "dock", "dock\x00"}[w.Intn(3)], slots...)
			}
			if !first && !w.startEchos(hub, "caller", a) {
				return
			}
			var progress int64
			var back int64
			if !w.GroupProgress(len(names)*2, &progress, func(i int) {
				name := names[i/2]
				err, wrong := w.callEcho(a.theSlot(), name, int64(i), []int{0, 1}[i%2], 20)
				if err != nil || wrong != "" {
					w.Viol("failed", "call to %q, one of %q: %v %s", short(name), short(fmt.Sprint(names)), err, wrong)
				}
				atomic.AddInt64(&progress, 1)
				atomic.AddInt64(&back, 1)
				w.Eval(1)
				w.State("name %q", short(name))
			}) {
				w.Viol("hang", "%d of %d calls to features with names like %q return\n%s", back, len(names)*2, short(fmt.Sprint(names)), Dump())
				return
			}
			for i := range names {
				for j := 0; j < 2; j++ {
					if n := led.Count(int64(2*i + j)); n != 1 {
						w.Viol("count", "a call to %q is executed %d times", short(names[i]), n)
					}
				}
			}
			w.Count("odd names called", len(names))
		}
	})
	// Very many calls are pending on a connection that ends.
	scenario("c20many", func(w *W) {
		hub := w.startHub(w.N + 10)
		led := newLedger()
		a, b := w.newEcho("caller", led), w.newEcho("other", led)
		if !w.startEchos(hub, "dock", a, b) {
			return
		}
		for round := 0; round < w.N && !w.Bad(); round++ {
			feature := fmt.Sprintf("held%d", round)
			calls := 100 + w.Intn(int(w.p("calls", 2500)))
			var got, back int64
			seen := map[int64]bool{}
			var mu sync.Mutex
			half := 1 + int64(w.Intn(2)*calls/2)
			d := w.passing(hub, feature, w.Slot*1000+round, func(p *Peer, k Packet) {
				if k.ID != pRpcReq {
					return
				}
				id, _ := asInt(k.Arr(3)[0])
				mu.Lock()
				if seen[id] {
					w.Viol("twice", "call %d is requested again", id)
				}
				seen[id] = true
				mu.Unlock()
				if n := atomic.AddInt64(&got, 1); n <= half {
					p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{mix(id)}, "")
				}
			})
			if d == nil {
				w.Viol("hang", "a dock can't join\n%s", Dump())
				return
			}
			var good, bad int64
			done := make(chan bool, 1)
			go func() {
				done <- w.GroupProgress(calls, &w.ticks, func(i int) {
					// The first one makes the connection.
					if i > 0 && !w.Await(func() bool { return atomic.LoadInt64(&back) > 0 }) {
						w.Viol("hang", "a call does not return\n%s", Dump())
						return
					}
					s := a.theSlot()
					if i%2 == 0 {
						s = b.theSlot()
					}
					res, err := s.CallWithResult(feature, "Hold", int64(i))
					if err != nil {
						atomic.AddInt64(&bad, 1)
					} else {
						atomic.AddInt64(&good, 1)
						if n, ok := asInt(res[0]); len(res) != 1 || !ok || n != mix(int64(i)) {
							w.Viol("result", "call %d gets %v", i, res)
						}
					}
					atomic.AddInt64(&back, 1)
					w.Eval(1)
				})
			}()
			if !w.Await(func() bool { return atomic.LoadInt64(&got) == int64(calls) && atomic.LoadInt64(&back) == half }) {
				w.Viol("hang", "%d of %d calls are requested, %d of %d that are answered return\n%s", got, calls, back, half, Dump())
				return
			}
			way := w.Intn(3)
			switch way {
			case 0:
				d.Kill()
			default:
				d.End()
				for _, c := range d.Conns() {
					leave(w.R(round), c)
				}
				if way == 1 {
					leave(w.R(round+7), d.Hub)
				}
			}
			if !w.Await(func() bool { return atomic.LoadInt64(&back) == int64(calls) }) {
				w.Viol("hang", "%d of %d calls return after the connection they were sent over has ended\n%s", back, calls, Dump())
				return
			}
			if good != half || bad != int64(calls)-half {
				w.Viol("outcome", "%d calls succeed and %d fail, but %d of %d were answered", good, bad, half, calls)
			}
			d.Kill()
			if !<-done {
				return
			}
			w.Max("calls pending on a connection that ends", calls)
			w.State("many %d %d %v", calls/200, way, half > 0)
		}
	})
	// Slots of one dock visit their own and each other's names.
	scenario("c23self", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			hub := w.startHub(3)
			c := atomic.AddInt64(&visCount, 1)
			var made int64
			var names []string
			var es []*Echo
			n := 2 + w.Intn(4)
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("Self%d_%d", c, i)
				names = append(names, name)
				es = append(es, w.newEcho(name, newLedger()))
				ferry.Register(name, w.visMaker(name, 1, &made, nil))
			}
			k := 1 + w.Intn(n)
			if !w.startEchos(hub, "one", es[:k]...) || k < n && !w.startEchos(hub, "two", es[k:]...) {
				return
			}
			got := map[string]*vobj{}
			var mu sync.Mutex
			w.Group(1+w.Intn(4), func(g int) {
				r := w.R(round*10 + g)
				for j := 0; j < 40 && !w.Bad(); j++ {
					i, name := r.Intn(n), names[r.Intn(n)]
					if r.Intn(3) == 0 {
						name = es[i].name
					}
					s := es[i].theSlot()
					v, ok := w.judgeVisit(s.Visit(name), s, name)
					if !ok {
						return
					}
					if v == nil {
						w.Viol("visit", "Visit(%q) of a feature returns nothing", name)
						return
					}
					mu.Lock()
					key := fmt.Sprint(i, name)
					if got[key] != nil && got[key] != v {
						w.Viol("visit", "a repeated visit returns another object")
					}
					got[key] = v
					mu.Unlock()
					w.Eval(1)
					w.Count("visits", 1)
					w.State("self %v %v", name == es[i].name, i < k)
				}
			})
		}
	})
}

// Mixed has a method with results of all kinds, which are nil or not.
type Mixed struct {
	Base
	last []interface{}
}

type mixedThing struct{ N int64 }

func (m *mixedThing) Error() string { return fmt.Sprint("error ", m.N) }

// All returns a result of each kind; bit i of k tells whether result i is nil.
func (m *Mixed) All(k int64) (a interface{}, b error, c []int64, d map[string]int64, e *mixedThing, f func() int64, g chan int64, h string, i interface{}, j fmt.Stringer, l mixedThing, n [2]int8, o []byte, p interface{}, q bool) {
	m.enter()
	defer m.leave()
	on := func(i uint) bool { return k>>i&1 == 0 }
	if on(0) {
		a = k
	}
	if on(1) {
		b = &mixedThing{k}
	}
	if on(2) {
		c = []int64{k, k + 1}
	}
	if on(3) {
		d = map[string]int64{"k": k}
	}
	if on(4) {
		e = &mixedThing{k + 2}
	}
	if on(5) {
		f = func() int64 { return k + 3 }
	}
	if on(6) {
		g = make(chan int64, 1)
		g <- k + 4
	}
	if on(7) {
		h = fmt.Sprint(k)
	}
	if on(8) {
		i = []interface{}{k, nil}
	}
	if on(9) {
		j = stringer(k)
	}
	l = mixedThing{k + 5}
	n = [2]int8{int8(k), int8(k >> 8)}
	if on(10) {
		o = []byte{byte(k)}
	}
	if on(11) {
		p = (*mixedThing)(nil)
	}
	q = on(12)
	m.last = []interface{}{a, b, c, d, e, f, g, h, i, j, l, n, o, p, q}
	return
}

// Give returns what it gets.
func (m *Mixed) Give(a interface{}, b error, c *mixedThing, d func() int64, e chan int64, f fmt.Stringer, g mixedThing, h []interface{}, i map[string]*mixedThing, j ...interface{}) (interface{}, error, *mixedThing, func() int64, chan int64, fmt.Stringer, mixedThing, []interface{}, map[string]*mixedThing, []interface{}) {
	m.enter()
	defer m.leave()
	return a, b, c, d, e, f, g, h, i, j
}

// giveWrong calls Give with arguments that only one process can share.
func giveWrong(c Caller, r *rand.Rand) string {
	some := func() bool { return r.Intn(3) > 0 }
	k := r.Int63()
	args := make([]interface{}, 9)
	if some() {
		args[0] = []interface{}{k, nil, &mixedThing{k}, stringer(k), "s", []byte{1}}[r.Intn(6)]
	}
	if some() {
		args[1] = &mixedThing{k}
	}
	args[2] = (*mixedThing)(nil)
	if some() {
		args[2] = &mixedThing{k}
	}
	args[3] = (func() int64)(nil)
	fn := some()
	if fn {
		args[3] = func() int64 { return k }
	}
	args[4] = (chan int64)(nil)
	if some() {
		args[4] = make(chan int64)
	}
	if some() {
		args[5] = stringer(k)
	}
	args[6] = mixedThing{k}
	args[7] = []interface{}(nil)
	if some() {
		args[7] = []interface{}{k, nil, &mixedThing{k}}
	}
	args[8] = map[string]*mixedThing(nil)
	if some() {
		args[8] = map[string]*mixedThing{"k": {k}, "nil": nil}
	}
	extra := make([]interface{}, r.Intn(4))
	for i := range extra {
		if some() {
			extra[i] = &mixedThing{k + int64(i)}
		}
	}
	res, err := c.CallWithResult("Give", append(append([]interface{}{}, args...), extra...)...)
	if err != nil || len(res) != 10 {
		return fmt.Sprintf("Give gives %v, %v", res, err)
	}
	for i, v := range args {
		ok := false
		switch i {
		case 3:
			f, is := res[3].(func() int64)
			ok = is && (f != nil) == fn && (f == nil || f() == k)
		case 2, 4:
			ok = res[i] == v
		default:
			ok = reflect.DeepEqual(res[i], v)
			if p, is := v.(*mixedThing); is {
				ok = res[i] == p
			}
		}
		if !ok {
			return fmt.Sprintf("Give is given %T %v as argument %d and has got %T %v", v, v, i, res[i], res[i])
		}
	}
	l, ok := res[9].([]interface{})
	if !ok || len(l) != len(extra) {
		return fmt.Sprintf("Give is given %d more arguments and has got %v", len(extra), res[9])
	}
	for i := range l {
		if l[i] != extra[i] {
			return fmt.Sprintf("Give is given %v as argument %d and has got %v", extra[i], 9+i, l[i])
		}
	}
	return ""
}

type stringer int64

func (s stringer) String() string { return fmt.Sprint(int64(s)) }

// mixedWrong compares the results of All(k) with what it should have returned.
func mixedWrong(k int64, res []interface{}) string {
	on := func(i uint) bool { return k>>i&1 == 0 }
	want := []interface{}{nil, nil, []int64(nil), map[string]int64(nil), (*mixedThing)(nil), nil, nil, "", nil, nil, mixedThing{k + 5}, [2]int8{int8(k), int8(k >> 8)}, []byte(nil), nil, on(12)}
	set := func(i uint, bit uint, v interface{}) {
		if on(bit) {
			want[i] = v
		}
	}
	set(0, 0, k)
	set(1, 1, &mixedThing{k})
	set(2, 2, []int64{k, k + 1})
	set(3, 3, map[string]int64{"k": k})
	set(4, 4, &mixedThing{k + 2})
	set(7, 7, fmt.Sprint(k))
	set(8, 8, []interface{}{k, nil})
	set(9, 9, stringer(k))
	set(12, 10, []byte{byte(k)})
	set(13, 11, (*mixedThing)(nil))
	if len(res) != len(want) {
		return fmt.Sprintf("All(%d) gives %d results, not %d", k, len(res), len(want))
	}
	for i, v := range want {
		switch i {
		case 5:
			f, ok := res[5].(func() int64)
			if !ok || (f != nil) != on(5) || f != nil && f() != k+3 {
				return fmt.Sprintf("All(%d) gives %T as its 6th result", k, res[5])
			}
		case 6:
			c, ok := res[6].(chan int64)
			if !ok || (c != nil) != on(6) || c != nil && <-c != k+4 {
				return fmt.Sprintf("All(%d) gives %T as its 7th result", k, res[6])
			}
		default:
			if !reflect.DeepEqual(res[i], v) {
				return fmt.Sprintf("All(%d) gives %T %v as result %d, not %T %v", k, res[i], res[i], i, v, v)
			}
		}
	}
	return ""
}

func init() {
	// Results of all kinds in one process.
	scenario("c05kinds", func(w *W) {
		m := &Mixed{}
		m.name, m.led = "mixed", newLedger()
		caller := w.place(w.p("where", 0), "mixed", m, &m.Base, func(set func(string, float32)) { set("All", 3600); set("Give", 3600) })
		if caller == nil {
			return
		}
		var progress, wrong int64
		g := 1 + w.Intn(8)
		if !w.GroupProgress(g, &progress, func(i int) {
			r, c := w.R(i), caller()
			for j := 0; j < w.N && atomic.LoadInt64(&wrong) == 0; j++ {
				k := r.Int63n(1 << 14)
				if j < 14 {
					k = 1<<14 - 1 ^ 1<<uint(j)
				}
				res, err := c.CallWithResult("All", k)
				atomic.AddInt64(&progress, 1)
				w.Eval(1)
				s := fmt.Sprintf("error %v", err)
				if err == nil {
					s = mixedWrong(k, res)
				}
				if s == "" {
					s = giveWrong(c, r)
				}
				if s != "" {
					atomic.StoreInt64(&wrong, 1)
					w.Viol("results", "%s: %s", places[w.p("where", 0)], s)
				}
				w.State("kinds %x", k)
			}
		}) {
			w.Viol("hang", "calls hang\n%s", Dump())
		}
	})
}
