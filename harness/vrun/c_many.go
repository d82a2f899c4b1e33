package main

// Very many of a kind: calls that wait, docks, carriers, queries, objects on one
// connection, names, features, arguments and results.

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/misc"
	"github.com/muguangyi/ferry/network"
)

// Wide has methods of many arguments and results.
type Wide struct{ Base }

func (f *Wide) Twenty(a, b, c, d, e, g, h, i, j, k int64, l, m, n, o, p, q, r, s, t string, u []int64) (int64, int64, int64, int64, int64, int64, int64, int64, int64, int64, string, string, string, string, string, string, string, string, string, []int64) {
	f.enter()
	defer f.leave()
	return mix(a), mix(b), mix(c), mix(d), mix(e), mix(g), mix(h), mix(i), mix(j), mix(k), l + "!", m + "!", n + "!", o + "!", p + "!", q + "!", r + "!", s + "!", t + "!", append([]int64{int64(len(u))}, u...)
}

func (f *Wide) Many(a int64) (r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, ra, rb, rc, rd, re, rf, rg, rh, ri, rj, rk, rl, rm, rn, ro, rp, rq, rr, rs, rt, ru, rv, rw, rx int64) {
	f.enter()
	defer f.leave()
	return a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, a + 8, a + 9, a + 10, a + 11, a + 12, a + 13, a + 14, a + 15, a + 16, a + 17, a + 18, a + 19, a + 20, a + 21, a + 22, a + 23, a + 24, a + 25, a + 26, a + 27, a + 28, a + 29, a + 30, a + 31, a + 32, a + 33
}

func (f *Wide) Rest(first int64, rest ...int64) (int64, []int64) {
	f.enter()
	defer f.leave()
	return first + int64(len(rest)), append([]int64{}, rest...)
}

// Conv takes numbers of all kinds.
func (f *Wide) Conv(a int64, b float64, c uint16, d []int64, e map[string]int64, g interface{}, s string) (int64, int64) {
	f.enter()
	defer f.leave()
	n := a + int64(b) + int64(c) + int64(len(s))
	for _, v := range d {
		n += v
	}
	for _, v := range e {
		n += v
	}
	x, _ := asInt(g)
	return n, x
}

func ints(l []int64) string { return fmt.Sprint(l) }

// asInts reads a list of integers of whatever type.
func asInts(v interface{}) ([]int64, bool) {
	x := reflect.ValueOf(v)
	if !x.IsValid() || x.Kind() != reflect.Slice {
		return nil, v == nil
	}
	out := []int64{}
	for i := 0; i < x.Len(); i++ {
		n, ok := asInt(x.Index(i).Interface())
		if !ok {
			return nil, false
		}
		out = append(out, n)
	}
	return out, true
}

func init() {
	// Methods with many arguments and results, and arguments that are still the
	// caller's.
	scenario("wide", func(w *W) {
		where := w.p("where", 0)
		f := &Wide{}
		f.name = "wide"
		f.overlap = func(string) { w.Viol("overlap", "two calls run at the same time") }
		caller := w.place(where, "wide", f, &f.Base, func(set func(string, float32)) {
			for _, m := range []string{"Twenty", "Many", "Rest", "Conv"} {
				set(m, 100000)
			}
		})
		if caller == nil {
			return
		}
		// Shared by all callers.
		shared := []interface{}{int8(3), 4, int32(5), []interface{}{int8(1), uint64(2), 3.0}, map[string]interface{}{"x": 1, "y": float32(2)}, []interface{}{int16(9), nil}[0], "four"}
		copied := []interface{}{int8(3), 4, int32(5), []interface{}{int8(1), uint64(2), 3.0}, map[string]interface{}{"x": 1, "y": float32(2)}, []interface{}{int16(9), nil}[0], "four"}
		want := int64(3 + 4 + 5 + 6 + 3 + 4)
		var progress int64
		if !w.GroupProgress(8, &progress, func(i int) {
			r := w.R(i)
			c := caller()
			for j := 0; j < w.N && !w.Bad(); j++ {
				id := int64(i*1000000 + j)
				var res []interface{}
				var err error
				kind := r.Intn(4)
				switch kind {
				case 0:
					args := make([]interface{}, 20)
					for k := 0; k < 10; k++ {
						args[k] = id + int64(k)
						if k%2 == 0 && id < 1<<31 {
							args[k] = int32(id) + int32(k)
						}
					}
					for k := 10; k < 19; k++ {
						args[k] = fmt.Sprint(id, k)
					}
					list := []int64{id, id + 1}
					args[19] = list
					kept := append([]interface{}{}, args...)
					res, err = c.CallWithResult("Twenty", args...)
					if !reflect.DeepEqual(args, kept) {
						w.Viol("args", "%s: the call changes the arguments %v into %v", places[where], kept, args)
					}
					if err == nil && len(res) != 20 {
						w.Viol("result", "%s: %d results instead of 20: %v", places[where], len(res), res)
						return
					}
					for k := 0; k < 10 && err == nil; k++ {
						if n, ok := asInt(res[k]); !ok || n != mix(id+int64(k)) {
							w.Viol("result", "%s: result %d of 20 is %v", places[where], k, res[k])
						}
					}
					for k := 10; k < 19 && err == nil; k++ {
						if res[k] != fmt.Sprint(id, k)+"!" {
							w.Viol("result", "%s: result %d of 20 is %v", places[where], k, res[k])
						}
					}
					if err == nil {
						if l, ok := asInts(res[19]); !ok || ints(l) != ints([]int64{2, id, id + 1}) {
							w.Viol("result", "%s: the last of 20 results is %v", places[where], res[19])
						}
					}
				case 1:
					res, err = c.CallWithResult("Many", id)
					if err == nil && len(res) != 34 {
						w.Viol("result", "%s: %d results instead of 34: %v", places[where], len(res), res)
						return
					}
					for k := range res {
						if n, ok := asInt(res[k]); !ok || n != id+int64(k) {
							w.Viol("result", "%s: result %d of 34 is %v", places[where], k, res[k])
						}
					}
				case 2:
					n := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1000, 70000}[r.Intn(17)]
					if n > 2000 && j%16 > 0 {
						n = 40
					}
					args := []interface{}{id}
					rest := []int64{}
					for k := 0; k < n; k++ {
						rest = append(rest, id^int64(k))
						args = append(args, id^int64(k))
					}
					res, err = c.CallWithResult("Rest", args...)
					if err == nil {
						l, ok := []int64(nil), false
						first, fine := int64(0), false
						if len(res) == 2 {
							first, fine = asInt(res[0])
							l, ok = asInts(res[1])
						}
						if !ok || !fine || first != id+int64(n) || ints(l) != ints(rest) {
							w.Viol("result", "%s: %d further arguments: results are %s", places[where], n, short(fmt.Sprint(res)))
						}
					}
					w.State("rest %d", n)
				case 3:
					if r.Intn(3) == 0 {
						err = c.Call("Conv", shared...)
						break
					}
					res, err = c.CallWithResult("Conv", shared...)
					if err == nil {
						if len(res) != 2 {
							w.Viol("result", "%s: results are %v", places[where], res)
							return
						}
						a, _ := asInt(res[0])
						b, _ := asInt(res[1])
						if a != want || b != 9 {
							w.Viol("result", "%s: arguments that several callers share give %v", places[where], res)
						}
					}
				}
				if err != nil {
					w.Viol("failed", "%s: call of kind %d: %v", places[where], kind, err)
					return
				}
				w.Eval(1)
				atomic.AddInt64(&progress, 1)
				w.State("wide %d", kind)
			}
		}) {
			w.Viol("hang", "%s: calls do not return\n%s", places[where], Dump())
			return
		}
		if !reflect.DeepEqual(shared, copied) {
			w.Viol("args", "%s: calls change the arguments %v of their caller into %v", places[where], copied, shared)
		}
		w.Count("calls with many arguments or results", w.N*8)
	})
	// Thousands wait for one feature.
	scenario("crowd", func(w *W) {
		where := w.p("where", 0)
		g := w.newGate("gate")
		caller := w.place(where, "gate", g, &g.Base, func(set func(string, float32)) {
			for _, m := range []string{"Hold", "Quick", "Hold2", "Hold3"} {
				set(m, 100000)
			}
		})
		if caller == nil {
			return
		}
		for round := int64(0); round < w.p("rounds", 1) && !w.Bad(); round++ {
			base := round * 10000000
			shared := caller()
			held := make(chan bool, 1)
			go func() { shared.Call("Hold", base); held <- true }()
			if !w.Await(func() bool { return g.led.Count(base) > 0 }) {
				w.Viol("hang", "%s: a call is not executed\n%s", places[where], Dump())
				return
			}
			n := w.N + w.Intn(w.N)
			var progress, begun int64
			done := make(chan bool, 1)
			go func() {
				done <- w.GroupProgress(n, &progress, func(i int) {
					id := base + int64(i) + 1
					c := shared
					if i%3 == 0 {
						c = caller()
					}
					atomic.AddInt64(&begun, 1)
					if i%2 == 0 {
						if err := c.Call("Quick", id); err != nil {
							w.Viol("failed", "%s: one of %d calls that wait for the same feature: %v", places[where], n, err)
						}
					} else {
						res, err := c.CallWithResult("Quick", id)
						v, ok := int64(0), false
						if len(res) == 1 {
							v, ok = asInt(res[0])
						}
						if err != nil || !ok || v != mix(id) {
							w.Viol("result", "%s: one of %d calls that wait for the same feature gets %v, %v", places[where], n, res, err)
						}
					}
					atomic.AddInt64(&progress, 1)
					w.Eval(1)
				})
			}()
			w.Await(func() bool { return atomic.LoadInt64(&begun) == int64(n) })
			w.Sleep(int64(2 + w.Intn(4)))
			if k := atomic.LoadInt64(&progress); k != 0 {
				w.Viol("overlap", "%s: %d of %d calls return while another one of the same feature is being executed", places[where], k, n)
			}
			g.open(base)
			if !<-done {
				w.Viol("hang", "%s: %d of %d calls that waited for the same feature return\n%s", places[where], progress, n, Dump())
				return
			}
			if !w.Await(func() bool { return len(held) > 0 }) {
				w.Viol("hang", "%s: the call that held the others does not return\n%s", places[where], Dump())
				return
			}
			for i := 1; i <= n; i++ {
				if k := g.led.Count(base + int64(i)); k != 1 {
					w.Viol("count", "%s: one of %d calls that waited is executed %d times", places[where], n, k)
					return
				}
			}
			w.Max("calls waiting for one feature", n)
			w.State("crowd %d", n/100)
		}
	})
	// Docks that all talk to all others.
	scenario("c11docks", func(w *W) {
		docks := w.N
		hub := w.startHub(docks + 1)
		led := newLedger()
		var es []*Echo
		for i := 0; i < docks; i++ {
			e := w.newEcho(fmt.Sprintf("f%d", i), led)
			es = append(es, e)
			w.startDock(hub, "dock", w.carryEcho(e, true))
		}
		if !w.Await(func() bool {
			for _, e := range es {
				if e.theSlot() == nil {
					return false
				}
			}
			return true
		}) {
			w.Viol("hang", "%d docks do not start\n%s", docks, Dump())
			return
		}
		for round := 0; round < 3 && !w.Bad(); round++ {
			var progress int64
			if !w.GroupProgress(docks, &progress, func(i int) {
				r := w.R(round*1000 + i)
				for _, j := range r.Perm(docks) {
					id := int64((round*docks+i)*docks + j)
					err, wrong := w.callEcho(es[i].theSlot(), es[j].name, id, []int{0, 1}[r.Intn(2)], 10)
					if err != nil || wrong != "" {
						w.Viol("failed", "dock %d of %d calls dock %d (round %d): %v %s", i, docks, j, round, err, wrong)
						return
					}
					if n := led.Count(id); n != 1 {
						w.Viol("count", "a call is executed %d times", n)
					}
					atomic.AddInt64(&progress, 1)
					w.Eval(1)
				}
			}) {
				w.Viol("hang", "calls among %d docks do not return\n%s", docks, Dump())
				return
			}
			w.State("docks %d round %d", docks, round)
		}
		w.Max("docks that all call each other", docks)
	})
	// Many carriers of one feature, and many queries that wait for one.
	scenario("c13many", func(w *W) {
		port := w.hubPort()
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		w.serve(addr)
		w.anchor(addr)
		for round := 0; round < 2 && !w.Bad(); round++ {
			slot := fmt.Sprintf("shared%d", round)
			asker := w.dialPeer("127.0.0.2", addr, nil)
			if asker == nil {
				w.Viol("hang", "no connection to the hub")
				return
			}
			// Waiting ones first.
			waiting := w.N * (5 + w.Intn(8))
			var ws []*Peer
			per := 1 + w.Intn(40)
			for i := 0; i*per < waiting; i++ {
				p := w.dialPeer("127.0.0.3", addr, nil)
				if p == nil {
					w.Viol("hang", "no connection to the hub")
					return
				}
				for k := 0; k < per; k++ {
					p.Put(pQueryReq, slot)
				}
				p.Put(pQueryReq, "anchor")
				ws = append(ws, p)
			}
			for _, p := range ws {
				if !p.AwaitGot(pQueryResp, 1) {
					w.Viol("hang", "a query is not answered\n%s", Dump())
					return
				}
				if k := p.Got(pQueryResp)[0].Str(0); k != anchorOf(addr) {
					w.Viol("route", "query for a feature nobody carries is answered %s", k)
					return
				}
			}
			var ps []*Peer
			var as []string
			for i := 0; i < w.N && !w.Bad(); i++ {
				host := fmt.Sprintf("127.0.1.%d", 1+w.Intn(100))
				p := w.dialPeer(host, addr, nil)
				if p == nil {
					w.Viol("hang", "no connection to the hub")
					return
				}
				alive := fmt.Sprintf("alive%d/%d", round, i)
				p.Put(pRegReq, []string{slot, alive})
				if !p.AwaitGot(pRegResp, 1) {
					w.Viol("hang", "registration %d is not answered\n%s", i, Dump())
					return
				}
				as = append(as, net.JoinHostPort(host, fmt.Sprint(p.Got(pRegResp)[0].Int(0))))
				ps = append(ps, p)
				p.Put(pReady, []string{slot, alive})
				p.Put(pQueryReq, "anchor")
				if !p.AwaitGot(pQueryResp, 1) {
					w.Viol("hang", "a query is not answered\n%s", Dump())
					return
				}
			}
			ok := w.Await(func() bool {
				for _, p := range ws {
					if len(p.Got(pQueryResp)) < per+1 {
						return false
					}
				}
				return true
			})
			for _, p := range ws {
				got := p.Got(pQueryResp)
				if len(got) != per+1 {
					w.Viol("lost", "%d of %d queries of one peer that waited (with %d others) are answered (in time: %v)", len(got)-1, per, waiting-per, ok)
					return
				}
				for _, k := range got[1:] {
					if k.Str(0) != as[0] {
						w.Viol("route", "a query that waited is answered %s, the first that was ready is %s", k.Str(0), as[0])
						return
					}
				}
				w.Eval(per)
				p.Close()
			}
			w.Max("queries waiting for one feature", waiting)
			asked := 0
			left := make([]bool, len(ps))
			newest := len(ps) - 1
			for newest > 0 && !w.Bad() {
				k := newest
				if w.Intn(3) == 0 {
					k = w.Intn(newest + 1) // one of the middle
				}
				if left[k] {
					k = newest
				}
				left[k] = true
				leave(w.R(round*1000+k), ps[k])
				alive := fmt.Sprintf("alive%d/%d", round, k)
				if !w.Await(func() bool { return w.gone(addr, alive) }) {
					w.Viol("stale", "hub keeps giving out %s, which has left", as[k])
					return
				}
				for left[newest] {
					newest--
					if newest < 0 {
						return
					}
				}
				asker.Put(pQueryReq, slot)
				asked++
				if !asker.AwaitGot(pQueryResp, asked) {
					w.Viol("lost", "query is not answered, of %d carriers those up to %d are there\n%s", len(ps), newest, Dump())
					return
				}
				if a := asker.Got(pQueryResp)[asked-1].Str(0); a != as[newest] {
					w.Viol("route", "of %d carriers the newest still there is number %d, %s, but the answer is %s", len(ps), newest, as[newest], a)
					return
				}
				w.Eval(1)
				w.State("carriers left %d", newest)
			}
			for _, p := range ps {
				p.Close()
			}
			asker.Close()
			w.Max("carriers of one feature", len(ps))
		}
	})
	// Very many objects on one connection, both ways.
	scenario("c14many", func(w *W) {
		if w.p("mock", 0) == 1 {
			network.Mock("tcp")
		}
		uniq := fmt.Sprint("-many", atomic.AddInt64(&wireUniq, 1))
		network.ExtendSerializer("obj"+uniq, lenSer{8})
		addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
		total := int64(w.N)
		size := w.p("size", 8)
		type count struct {
			got, wrong int64
		}
		var to, fro count
		take := func(c *count) func(l *life, o interface{}) {
			return func(l *life, o interface{}) {
				b, _ := o.([]byte)
				if len(b) != int(size) || int64(binary.BigEndian.Uint64(b)) != c.got {
					if atomic.AddInt64(&c.wrong, 1) == 1 {
						w.Viol("order", "object %d of one connection is %d bytes that begin with % x", c.got, len(b), b[:min(8, len(b))])
					}
				}
				atomic.AddInt64(&c.got, 1)
			}
		}
		server, client := newSide("the accepting side"), newSide("the dialing side")
		server.onPack, client.onPack = take(&to), take(&fro)
		ls := network.NewSocket(addr, "obj"+uniq, server)
		ls.Listen()
		cs := network.NewSocket(addr, "obj"+uniq, client)
		cs.Dial()
		if !w.Await(func() bool { return len(server.all()) == 1 && len(client.all()) == 1 }) {
			w.Viol("hang", "no connection\n%s", Dump())
			return
		}
		back := total / 10
		send := func(p network.IPeer, n int64, c *count) {
			for i := int64(0); i < n && !w.Bad(); i++ {
				b := make([]byte, size)
				binary.BigEndian.PutUint64(b, uint64(i))
				p.Send(b)
				// No more on the way than fits.
				for i-atomic.LoadInt64(&c.got) > 1+(64<<20)/size {
					time.Sleep(100 * time.Microsecond)
					if w.Bad() {
						return
					}
				}
			}
		}
		go send(server.all()[0].peer, back, &fro)
		sent := make(chan struct{})
		go func() { send(client.all()[0].peer, total, &to); close(sent) }()
		last, since := int64(-1), w.Ticks()
		for atomic.LoadInt64(&to.got) < total || atomic.LoadInt64(&fro.got) < back {
			if n := atomic.LoadInt64(&to.got) + atomic.LoadInt64(&fro.got); n != last {
				last, since = n, w.Ticks()
			}
			if w.Bad() || w.Ticks()-since > hangTicks {
				w.Viol("lost", "of %d objects of %d bytes sent over one connection %d arrive, and %d of %d the other way\n%s", total, size, to.got, fro.got, back, Dump())
				return
			}
			time.Sleep(time.Millisecond)
		}
		w.Eval(w.N + int(back))
		w.Max("objects over one connection", w.N)
		w.Max("MB over one connection", int(total*size>>20))
		w.State("many %d %d", total, size)
		w.Sleep(2)
		if to.got != total || fro.got != back {
			w.Viol("extra", "%d of %d objects arrive", to.got, total)
		}
		cs.Close()
		ls.Close()
	})
	// A socket with hundreds of peers: each gets what is sent to all, its end is
	// reported, and when the socket closes all see it.
	scenario("c14peers", func(w *W) {
		for round := 0; round < 2 && !w.Bad(); round++ {
			addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
			s := newSide("the accepting side")
			ls := network.NewSocket(addr, "txt", s)
			ls.Listen()
			n := w.N + w.Intn(w.N)
			var mu sync.Mutex
			got := make([]string, n)
			ended := make([]error, n)
			gone := map[int]bool{}
			cs := make([]net.Conn, n)
			for i := range cs {
				c, err := net.Dial("tcp", addr)
				if err != nil {
					w.Viol("hang", "no connection: %v", err)
					return
				}
				cs[i] = c
				go func(i int) {
					b := make([]byte, 4096)
					for {
						k, err := c.Read(b)
						mu.Lock()
						got[i] += string(b[:k])
						if err != nil {
							ended[i] = err
						}
						mu.Unlock()
						if err != nil {
							return
						}
					}
				}(i)
				c.Write([]byte(fmt.Sprintf("hello %d\x00", i)))
			}
			said := func() int {
				k := 0
				for _, l := range s.all() {
					_, _, p, _, _ := l.state()
					k += p
				}
				return k
			}
			if !w.Await(func() bool { return len(s.all()) == n && said() == n }) {
				w.Viol("lost", "of %d connections %d are reported, of %d objects %d\n%s", n, len(s.all()), n, said(), Dump())
				return
			}
			want := ""
			for k := 0; k < 5; k++ {
				ls.Send(fmt.Sprintf("all %d\x00", k))
				want += fmt.Sprintf("all %d\x00", k)
			}
			if !w.Await(func() bool {
				mu.Lock()
				defer mu.Unlock()
				for _, g := range got {
					if len(g) < len(want) {
						return false
					}
				}
				return true
			}) {
				mu.Lock()
				for i, g := range got {
					if len(g) < len(want) {
						w.Viol("lost", "5 objects are sent to all of %d peers, peer %d gets %q", n, i, g)
						break
					}
				}
				mu.Unlock()
				return
			}
			// Some leave.
			for i := range cs {
				if w.Intn(3) == 0 {
					gone[i] = true
					if w.Intn(2) == 0 {
						cs[i].(*net.TCPConn).SetLinger(0)
					}
					cs[i].Close()
				}
			}
			closed := func() (k, twice int) {
				for _, l := range s.all() {
					_, c, _, _, _ := l.state()
					if c > 0 {
						k++
					}
					if c > 1 {
						twice++
					}
				}
				return
			}
			if !w.Await(func() bool { k, _ := closed(); return k >= len(gone) }) {
				k, _ := closed()
				w.Viol("ends", "%d of %d connections have ended, %d are reported\n%s", len(gone), n, k, Dump())
				return
			}
			ls.Send("last\x00")
			want += "last\x00"
			if !w.Await(func() bool {
				mu.Lock()
				defer mu.Unlock()
				for i, g := range got {
					if !gone[i] && len(g) < len(want) {
						return false
					}
				}
				return true
			}) {
				w.Viol("lost", "an object sent to all peers after %d of %d have left does not reach all others\n%s", len(gone), n, Dump())
				return
			}
			mu.Lock()
			for i, g := range got {
				if !gone[i] && g != want {
					w.Viol("lost", "peer %d gets %q, sent to all was %q", i, g, want)
				}
			}
			mu.Unlock()
			ls.Close()
			if !w.Await(func() bool {
				mu.Lock()
				defer mu.Unlock()
				for i := range cs {
					if !gone[i] && ended[i] == nil {
						return false
					}
				}
				k, _ := closed()
				return k == n
			}) {
				k, _ := closed()
				mu.Lock()
				open := 0
				for i := range cs {
					if !gone[i] && ended[i] == nil {
						open++
					}
				}
				mu.Unlock()
				w.Viol("ends", "after Close %d of %d connections are still open for their peers, %d are reported to be closed\n%s", open, n-len(gone), k, Dump())
				return
			}
			w.Sleep(1)
			if k, twice := closed(); twice > 0 || len(s.all()) != n {
				w.Viol("ends", "%d of %d connections (%d reported) are closed more than once", twice, k, len(s.all()))
			}
			for _, l := range s.all() {
				if con, _, p, early, late := l.state(); con != 1 || p != 1 || early+late > 0 {
					w.Viol("life", "a connection, of %d: connected %d times, %d objects, %d before it was connected and %d after it was closed", n, con, p, early, late)
					break
				}
			}
			mu.Lock()
			for i := range ended {
				if !gone[i] && ended[i] != io.EOF {
					w.Count("connections reset at Close", 1)
				}
			}
			mu.Unlock()
			w.Eval(n)
			w.Max("peers of one socket", n)
			w.State("peers %d %d", n/20, len(gone)/10)
			for _, c := range cs {
				c.Close()
			}
		}
	})
	// Many connections that do nothing.
	scenario("c16many", func(w *W) {
		led := newLedger()
		hub := w.startHub(8)
		a, b, c := w.newEcho("a", led), w.newEcho("b", led), w.newEcho("c", led)
		if !w.startEchos(hub, "one", a) || !w.startEchos(hub, "two", b) {
			return
		}
		q := w.dialPeer("", hub, nil)
		q.Put(pQueryReq, "b")
		if !q.AwaitGot(pQueryResp, 1) {
			w.Viol("hang", "query is not answered\n%s", Dump())
			return
		}
		two := q.Got(pQueryResp)[0].Str(0)
		var idle []net.Conn
		for i := 0; i < w.N; i++ {
			c, err := dialFrom(fmt.Sprintf("127.0.2.%d", 1+i%200), []string{hub, two}[i%2])
			if err != nil {
				break // out of descriptors, not the code's fault
			}
			idle = append(idle, c)
			if i%3 == 0 {
				c.Write([]byte{0, 0, 1})
			}
		}
		w.Max("idle connections", len(idle))
		call := func(from, to *Echo, id int64, what string) {
			err, wrong := w.callEcho(from.theSlot(), to.name, id, 0, 20)
			if err != nil || wrong != "" || led.Count(id) != 1 {
				w.Viol("failed", "%s: with %d idle connections: %v %s, executed %d times", what, len(idle), err, wrong, led.Count(id))
			}
			w.Eval(1)
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			call(a, b, 1, "the first call between two docks")
			if w.startEchos(hub, "three", c) {
				call(a, c, 2, "a call to a dock that joins now")
				call(c, b, 3, "a call of a dock that joins now")
				call(c, a, 4, "a call of a dock that joins now")
				call(b, c, 5, "a call back")
			}
		}()
		if !w.Done(done) {
			w.Viol("hang", "calls do not return, with %d idle connections\n%s", len(idle), Dump())
			return
		}
		for _, c := range idle {
			c.Close()
		}
		w.Sleep(2)
		call(a, b, 6, "a call after they are gone")
		w.State("idle %d", len(idle))
	})
	// One slot visits very many names.
	scenario("c23many", func(w *W) {
		slots := w.visSlots(3)
		c := atomic.AddInt64(&visCount, 1)
		var made int64
		var names []string
		for i := 0; i < w.N; i++ {
			name := fmt.Sprintf("Many%d_%d", c, i)
			if i%50 == 0 {
				name = blob(int64(i), 1+w.Intn(5000)) + name
			}
			names = append(names, name)
			ferry.Register(name, w.visMaker(name, 1, &made, nil))
		}
		got := make([]map[string]*vobj, len(slots))
		for i := range got {
			got[i] = map[string]*vobj{}
		}
		for pass := 0; pass < 3 && !w.Bad(); pass++ {
			w.Group(len(slots), func(i int) {
				for _, k := range w.R(pass*10 + i).Perm(len(names)) {
					name := names[k]
					v, ok := w.judgeVisit(slots[i].Visit(name), slots[i], name)
					if !ok {
						return
					}
					if v == nil {
						w.Viol("visit", "one of %d registered names (%q) can't be visited", len(names), short(name))
						return
					}
					if got[i][name] != nil && got[i][name] != v {
						w.Viol("visit", "a repeated visit, of %d names, returns another object", len(names))
						return
					}
					got[i][name] = v
					w.Eval(1)
				}
			})
			w.State("pass %d", pass)
		}
		w.Count("visits", 3*w.N*len(slots))
		w.Max("names visited by one slot", w.N)
	})
	// Sets of very many items.
	scenario("c22many", func(w *W) {
		s := misc.NewSet()
		item := func(k int) interface{} {
			switch k % 3 {
			case 0:
				return k
			case 1:
				return fmt.Sprint(k)
			}
			return setPair{k, "x"}
		}
		in := map[interface{}]bool{}
		judge := func() {
			l := s.ToSlice()
			seen := map[interface{}]bool{}
			for _, v := range l {
				if seen[v] || !in[v] {
					w.Viol("set", "%v is in a set of %d items: twice %v, was added %v", v, len(in), seen[v], in[v])
					return
				}
				seen[v] = true
			}
			if len(l) != len(in) {
				w.Viol("set", "%d items are in a set that %d were added to", len(l), len(in))
			}
		}
		for k := 0; k < w.N && !w.Bad(); k++ {
			if !s.Add(item(k)) {
				w.Viol("set", "item %d is not taken", k)
			}
			in[item(k)] = true
		}
		judge()
		for _, k := range w.Perm(w.N) {
			if s.Add(item(k)) {
				w.Viol("set", "item %d of %d is taken twice", k, w.N)
				return
			}
			w.Eval(1)
		}
		for _, k := range w.Perm(w.N) {
			if k%5 == 0 {
				continue
			}
			if !s.Remove(item(k)) || s.Remove(item(k)) {
				w.Viol("set", "item %d of %d is not removed once", k, w.N)
				return
			}
			delete(in, item(k))
		}
		judge()
		w.Max("items of one set", w.N)
		w.State("many")
	})
	// Many features of many docks.
	scenario("c18many", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			docks := 1 + w.Intn(24)
			hub := w.startHub(docks)
			var fs []*Echo
			var mu sync.Mutex
			var order []int
			led := newLedger()
			for d := 0; d < docks; d++ {
				n := 1 + w.Intn(4)
				if w.Intn(8) == 0 {
					n = 50 + w.Intn(200)
				}
				var slots []ferry.ISlot
				var mine []*Echo
				for i := 0; i < n; i++ {
					e := w.newEcho(fmt.Sprintf("d%df%d", d, i), led)
					e.onEnd = func(ferry.ISlot) {
						mu.Lock()
						order = append(order, d)
						mu.Unlock()
					}
					mine = append(mine, e)
					slots = append(slots, w.carryEcho(e, w.Intn(2) == 0))
				}
				fs = append(fs, mine...)
				w.startDock(hub, "dock", slots...)
				if !w.Await(func() bool {
					for _, e := range mine {
						if e.theSlot() == nil {
							return false
						}
					}
					return true
				}) {
					w.Viol("start", "not all of %d features of dock %d are started\n%s", n, d, Dump())
					return
				}
			}
			for i := 0; i < 20; i++ {
				e := fs[w.Intn(len(fs))]
				if err, wrong := w.callEcho(e.theSlot(), e.name, int64(i), 0, 20); err != nil || wrong != "" {
					w.Viol("call", "call of one of %d features: %v %s", len(fs), err, wrong)
				}
			}
			w.Await(func() bool {
				for _, e := range fs {
					if atomic.LoadInt64(&e.started) == 0 {
						return false
					}
				}
				return true
			})
			if !w.Group(1, func(int) { ferry.Close() }) {
				w.Viol("hang", "Close does not return\n%s", Dump())
				return
			}
			for _, e := range fs {
				if a, b := atomic.LoadInt64(&e.started), atomic.LoadInt64(&e.ended); a != 1 || b != 1 {
					w.Viol("end", "%d features of %d docks: OnStart of %s is called %d times, OnDestroy %d times", len(fs), docks, e.name, a, b)
					break
				}
			}
			mu.Lock()
			for i := 1; i < len(order); i++ {
				if order[i] > order[i-1] {
					w.Viol("order", "%d docks are closed in the order %v", docks, order)
					break
				}
			}
			mu.Unlock()
			w.Eval(len(fs))
			w.Max("docks closed at once", docks)
			w.Max("features closed at once", len(fs))
			w.State("many %d %d", docks, len(fs)/20)
		}
	})
}

func c12alls() []Job {
	var jobs []Job
	for k := int64(0); k < 5; k++ {
		jobs = append(jobs, Job{Scenario: "c12all", P: map[string]int64{"black": k}})
	}
	return jobs
}

func init() {
	// One socket that dials again and again, also at the same time.
	scenario("c15dials", func(w *W) {
		if w.p("mock", 0) == 1 {
			network.Mock("tcp")
		}
		for round := 0; round < w.N && !w.Bad(); round++ {
			addr := fmt.Sprintf("127.0.0.1:%d", w.hubPort())
			server, client := newSide("the accepting side"), newSide("the dialing side")
			ls, cs := network.NewSocket(addr, "txt", server), network.NewSocket(addr, "txt", client)
			ls.Listen()
			n := 1 + w.Intn(20)
			if !w.Group(n, func(int) { cs.Dial() }) {
				w.Viol("hang", "%d dials of one socket at once do not return\n%s", n, Dump())
				return
			}
			count := func(s *side, what func(l *life) int) int {
				k := 0
				for _, l := range s.all() {
					k += what(l)
				}
				return k
			}
			connected := func(l *life) int { c, _, _, _, _ := l.state(); return c }
			closed := func(l *life) int { _, c, _, _, _ := l.state(); return c }
			packets := func(l *life) int { _, _, p, _, _ := l.state(); return p }
			if !w.Await(func() bool { return count(server, connected) >= n && count(client, connected) >= n }) {
				w.Viol("lost", "of %d connections that one socket dialed at once %d are reported to it and %d to the other side\n%s", n, count(client, connected), count(server, connected), Dump())
				return
			}
			// All have addresses of their own, known to both sides.
			pairs := map[string]int{}
			for _, l := range client.all() {
				pairs[l.peer.LocalAddr().String()+" "+l.peer.RemoteAddr().String()]++
			}
			for _, l := range server.all() {
				pairs[l.peer.RemoteAddr().String()+" "+l.peer.LocalAddr().String()] += 100
			}
			for p, m := range pairs {
				if m != 101 {
					w.Viol("address", "%d connections at once: %d on the dialing side and %d on the accepting side have the addresses %s", n, m%100, m/100, p)
					return
				}
			}
			k := 1 + w.Intn(10)
			for i := 0; i < k; i++ {
				cs.Send(fmt.Sprintf("to %d\x00", i))
				ls.Send(fmt.Sprintf("fro %d\x00", i))
			}
			if !w.Await(func() bool { return count(server, packets) >= n*k && count(client, packets) >= n*k }) {
				w.Viol("lost", "%d objects sent to all of %d connections of one socket: %d and %d arrive\n%s", k, n, count(server, packets), count(client, packets), Dump())
				return
			}
			a, b := cs, ls
			if w.Intn(2) == 0 {
				a, b = ls, cs
			}
			a.Close()
			if !w.Await(func() bool { return count(server, closed) >= n && count(client, closed) >= n }) {
				w.Viol("ends", "a socket with %d connections is closed, %d and %d are reported to be\n%s", n, count(client, closed), count(server, closed), Dump())
				return
			}
			b.Close()
			w.Sleep(1)
			for _, s := range []*side{server, client} {
				for _, l := range s.all() {
					if c, e, p, early, late := l.state(); c != 1 || e != 1 || p != k || early+late > 0 || l.peer.IsSelf() != (s == client) {
						w.Viol("life", "one of %d connections of one socket, %s: connected %d times, closed %d times, %d of %d objects, %d of them too early and %d too late, IsSelf %v", n, s.name, c, e, p, k, early, late, l.peer.IsSelf())
						return
					}
				}
				if len(s.all()) != n {
					w.Viol("life", "%d connections are reported to %s instead of %d", len(s.all()), s.name, n)
				}
			}
			w.Eval(n)
			w.Count("connections dialed by one socket", n)
			w.State("dials %d %d %v", n, k, a == cs)
		}
	})
}
