package main

// C16: packets that lack fields or have fields of wrong types have no effect.

import (
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/muguangyi/ferry"
)

// malformed returns a frame like that of the packet, but with a part of its
// body, a field of a wrong type or a wrong id. It means nothing to anybody.
func malformed(r *rand.Rand, id int, fields ...interface{}) (b []byte, how string) {
	f := append([]interface{}(nil), fields...)
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		body := encPacket(r, id, f...)[4:]
		n := r.Intn(len(body))
		if r.Intn(3) == 0 {
			n = len(body) - 1
		}
		return frame(body[:n]), fmt.Sprintf("the first %d of %d bytes of a packet %d", n, len(body), id)
	case 4, 5, 6, 7:
		i := r.Intn(len(f))
		var others []interface{}
		switch f[i].(type) {
		case string:
			others = []interface{}{int64(7), true, []interface{}{"x"}, refMap{{"a", "b"}}, 1.5, nil}
		case int, int64:
			others = []interface{}{"7", false, []interface{}{int64(7)}, refMap{{"a", int64(1)}}, 7.0, nil}
		case bool:
			others = []interface{}{int64(1), "true", []interface{}{true}, nil}
		default:
			others = []interface{}{"x", int64(1), refMap{{int64(0), "x"}}, true, 2.5}
			if id == pReady || id == pRegReq {
				a, _ := f[i].([]interface{})
				others = append(others, append(append([]interface{}(nil), a...), int64(1)), append([]interface{}{nil}, a...))
			}
		}
		f[i] = others[r.Intn(len(others))]
		return encPacket(r, id, f...), fmt.Sprintf("a packet %d with a field %d of type %T", id, i, f[i])
	}
	body := refAppend(nil, r, []interface{}{"3", int64(200), uint64(300), nil, 3.0, true, uint64(id) + 256, uint64(id) + 1<<16, uint64(id) + 1<<32, -int64(id)}[r.Intn(10)])
	for _, v := range f {
		body = refAppend(body, r, v)
	}
	return frame(body), fmt.Sprintf("fields of a packet %d after an id of no packet", id)
}

func names(s ...string) []interface{} {
	a := []interface{}{}
	for _, n := range s {
		a = append(a, n)
	}
	return a
}

func init() {
	// Requests to a dock, and answers to it.
	scenario("c16fields", func(w *W) {
		hub := w.startHub(8)
		led := newLedger()
		e, own := w.newEcho("victim", led), w.newEcho("caller", led)
		if !w.startEchos(hub, "dock", e, own) {
			return
		}
		q := w.dialPeer("", hub, nil)
		if q == nil {
			w.Viol("hang", "no connection to the hub")
			return
		}
		q.Put(pQueryReq, "victim")
		if !q.AwaitGot(pQueryResp, 1) {
			w.Viol("hang", "a query is not answered\n%s", Dump())
			return
		}
		addr := q.Got(pQueryResp)[0].Str(0)

		// The carrier of "far" spoils its answers.
		var mu sync.Mutex
		spoilt := map[int64]string{}
		r2 := w.R(77)
		fd := w.fakeDock("127.0.0.1", hub, []string{"far"}, nil)
		if fd == nil {
			w.Viol("hang", "registration is not answered")
			return
		}
		fd.On = func(p *Peer, k Packet) {
			if k.ID != pRpcReq || len(k.Arr(3)) == 0 {
				return
			}
			id, _ := asInt(k.Arr(3)[0])
			mu.Lock()
			for n := 1 + r2.Intn(3); n > 0; n-- {
				b, how := malformed(r2, pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{mix(id) + 1, "wrong"}, []string{"", "wrong"}[r2.Intn(2)])
				spoilt[id] += how + ", "
				p.PutRaw(b)
			}
			mu.Unlock()
			p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{mix(id), "right"}, "")
		}
		fd.Ready()

		bad := map[int64]string{}
		var p *Peer
		for i := 0; i < w.N && !w.Bad(); i++ {
			id := int64(1000 + i*10)
			if p == nil || w.Intn(10) == 0 {
				if p != nil {
					p.Close()
				}
				if p = w.dialDock(addr, []string{fmt.Sprint("other", i)}, nil); p == nil {
					w.Viol("hang", "no connection to a dock")
					return
				}
			}
			b, how := malformed(w.Rand, pRpcReq, id, "victim", "Mix", []interface{}{id, "s"}, w.Intn(2) == 0)
			bad[id] = how
			p.PutRaw(b)
			p.Put(pRpcReq, id+1, "victim", "Mix", []interface{}{id + 1, "s"}, true)
			answers := func(index int64) int {
				n := 0
				for _, k := range p.Got(pRpcResp) {
					if k.Int(0) == index {
						n++
					}
				}
				return n
			}
			w.Eval(1)
			if !w.Await(func() bool { return answers(id+1) == 1 || p.Closed() }) {
				w.Viol("served", "a call after %s is not answered\n%s", how, Dump())
				return
			}
			if w.Intn(4) == 0 {
				w.Sleep(1)
			}
			if led.Count(id) != 0 || answers(id) != 0 {
				w.Viol("malformed", "%s: the call has run %d times and has been answered %d times", how, led.Count(id), answers(id))
				return
			}
			if p.Closed() {
				p = nil
			}
			// The other way round.
			w.Eval(1)
			out := make(chan struct{})
			var res []interface{}
			var err error
			go func() {
				res, err = own.theSlot().CallWithResult("far", "Mix", id+2, "s")
				close(out)
			}()
			if !w.Done(out) {
				mu.Lock()
				w.Viol("served", "a call answered after %s does not return\n%s", spoilt[id+2], Dump())
				mu.Unlock()
				return
			}
			mu.Lock()
			lost := false
			for _, c := range fd.Conns() {
				lost = lost || c.Closed()
			}
			if err != nil && !lost || err == nil && canon(res, false) != canon([]interface{}{mix(id + 2), "right"}, false) {
				w.Viol("malformed", "a call that is answered after %s gives %s, %v", spoilt[id+2], short(canon(res, false)), err)
			}
			mu.Unlock()
			w.State("field %s", how)
			if i%100 == 0 {
				w.Sample("%s: not executed, not answered", how)
			}
		}
		w.Sleep(2)
		for id, how := range bad {
			if led.Count(id) != 0 {
				w.Viol("malformed", "%s: the call has run %d times", how, led.Count(id))
			}
		}
		w.Count("malformed requests and answers", w.N*2)
	})

	// Packets to a hub.
	scenario("c16fieldshub", func(w *W) {
		hub := w.startHub(4)
		for i := 0; i < w.N && !w.Bad(); i++ {
			host := fmt.Sprintf("127.0.%d.%d", 10+i/200, 1+i%200)
			a, b := fmt.Sprint("a", i), fmt.Sprint("b", i)
			p := w.dialPeer(host, hub, nil)
			asker := w.dialPeer(host, hub, nil)
			if p == nil || asker == nil {
				w.Viol("hang", "no connection to the hub")
				return
			}
			// step sends a malformed packet, then the right one, and expects n
			// answers of the id on the connection of to.
			step := func(p *Peer, id int, field interface{}, to *Peer, answer, n int) bool {
				w.Eval(1)
				raw, how := malformed(w.Rand, id, field)
				p.PutRaw(raw)
				settle := w.Intn(4) == 0
				if settle {
					w.Sleep(1)
					if got := to.Got(answer); len(got) != n-1 {
						w.Viol("malformed", "%s has an effect: %v", how, got)
						return false
					}
				}
				p.Put(id, field)
				if !w.Await(func() bool { return len(to.Got(answer)) >= n || p.Closed() }) {
					w.Viol("served", "%v after %s is not answered\n%s", Packet{id, []interface{}{field}}, how, Dump())
					return false
				}
				w.State("hub field %s", how)
				if p.Closed() {
					return false
				}
				return true
			}
			if !step(p, pRegReq, names(a, b), p, pRegResp, 1) {
				goto next
			}
			asker.Put(pQueryReq, a)
			w.Sleep(int64(w.Intn(2)))
			if !step(p, pReady, names(a, b), asker, pQueryResp, 1) {
				goto next
			}
			if !step(asker, pQueryReq, b, asker, pQueryResp, 2) {
				goto next
			}
			asker.Put(pQueryReq, a)
			if !asker.AwaitGot(pQueryResp, 3) {
				w.Viol("served", "a query is not answered\n%s", Dump())
			}
			for _, k := range asker.Got(pQueryResp) {
				if want := net.JoinHostPort(host, strconv.Itoa(int(p.Got(pRegResp)[0].Int(0)))); k.Str(0) != want {
					w.Viol("malformed", "a query is answered with %s instead of %s", k.Str(0), want)
				}
			}
			if len(p.Got(pRegResp)) != 1 || len(asker.Got(pQueryResp)) != 3 || len(p.Got(pQueryResp))+len(asker.Got(pRegResp)) > 0 {
				w.Viol("malformed", "malformed packets are answered: %v %v", p.All(), asker.All())
			}
			if i%100 == 0 {
				w.Sample("a registration, a readiness and a query, each after a malformed one of its kind")
			}
		next:
			p.Close()
			asker.Close()
		}
		w.Count("malformed packets to a hub", w.N*3)
	})

	// Packets from a hub.
	scenario("c16fieldsdock", func(w *W) {
		for i := 0; i < w.N && !w.Bad(); i++ {
			h := w.fakeHub(2)
			led := newLedger()
			var mu sync.Mutex
			var told string
			r2 := w.R(i)
			h.Spoil = func(p *Peer, id int, field interface{}) {
				mu.Lock()
				defer mu.Unlock()
				for n := 1 + r2.Intn(2); n > 0; n-- {
					b, how := malformed(r2, id, field)
					told += how + ", "
					p.PutRaw(b)
				}
				if r2.Intn(4) == 0 {
					w.Sleep(1)
				}
			}
			x, y := w.newEcho(fmt.Sprint("x", i), led), w.newEcho(fmt.Sprint("y", i), led)
			if !w.startEchos(h.Addr, "x", x) || !w.startEchos(h.Addr, "y", y) {
				return
			}
			id := int64(i)*10 + 1
			for k, c := range []struct{ from, to *Echo }{{x, y}, {y, x}} {
				w.Eval(1)
				out := make(chan struct{})
				var err error
				var wrong string
				go func() {
					err, wrong = w.callEcho(c.from.theSlot(), c.to.name, id+int64(k), 0, 10)
					close(out)
				}()
				if !w.Done(out) {
					mu.Lock()
					w.Viol("served", "a call does not return after the hub has sent %s\n%s", told, Dump())
					mu.Unlock()
					return
				}
				if err != nil || wrong != "" || led.Count(id+int64(k)) != 1 {
					mu.Lock()
					w.Viol("malformed", "a call gives %v %s and has run %d times after the hub has sent %s", err, wrong, led.Count(id+int64(k)), told)
					mu.Unlock()
				}
			}
			w.Sleep(1)
			mu.Lock()
			for _, e := range []*Echo{x, y} {
				if n := atomic.LoadInt64(&e.started); n != 1 {
					w.Viol("malformed", "a feature is started %d times after the hub has sent %s", n, told)
				}
			}
			w.State("dock field %s", told)
			mu.Unlock()
			if !w.Group(1, func(int) { ferry.Close() }) {
				w.Viol("hang", "Close does not return\n%s", Dump())
			}
			h.End()
		}
		w.Count("docks started with malformed packets of the hub", w.N*2)
	})
}
