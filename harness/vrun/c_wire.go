package main

// C04 on the wire: every frame of a real hub and of real docks is decoded by
// the independent codec and its fields are judged.

import (
	"fmt"
	"math/rand"
	"reflect"
	"sync"

	"github.com/muguangyi/ferry"
)

// fieldKinds of a packet as documented: u unsigned, i signed, s string, l list
// of strings, a array, b bool.
var fieldKinds = map[int]string{pError: "s", pHeartbeat: "", pReady: "l", pRegReq: "l", pRegResp: "i", pQueryReq: "s", pQueryResp: "s", pRpcReq: "issab", pRpcResp: "issas"}

// wireWrong tells what is wrong with the fields of a packet.
func wireWrong(k Packet) string {
	kinds := fieldKinds[k.ID]
	if len(kinds) != len(k.F) {
		return fmt.Sprintf("%d fields", len(k.F))
	}
	for i, f := range k.F {
		ok := false
		switch kinds[i] {
		case 'i':
			_, ok = f.(int64)
		case 's':
			_, ok = f.(string)
		case 'b':
			_, ok = f.(bool)
		case 'a':
			_, ok = f.([]interface{})
		case 'l':
			var a []interface{}
			if a, ok = f.([]interface{}); ok {
				for _, s := range a {
					if reflect.TypeOf(s) != reflect.TypeOf("") {
						ok = false
					}
				}
			}
		}
		if !ok {
			return fmt.Sprintf("field %d is %T", i, f)
		}
	}
	return ""
}

// judgeWire reports the first frame that is not as documented.
func (w *W) judgeWire(from string, p *Peer) {
	if p == nil {
		return
	}
	if err := p.Bad(); err != nil {
		w.Viol("frame", "%s sends a frame that is not a packet: %v", from, err)
	}
	for _, k := range p.All() {
		if s := wireWrong(k); s != "" {
			w.Viol("fields", "%s sends %v: %s", from, k, s)
			return
		}
		w.Eval(1)
		w.Count(fmt.Sprintf("frames of packet %d", k.ID), 1)
	}
}

func init() {
	// A real hub with fake docks that write integers in any width.
	scenario("c04hub", func(w *W) {
		hub := w.startHub(w.N*3 + 2)
		g := Gen{w.Rand}
		var last *Peer
		for i := 0; i < w.N*3+4 && !w.Bad(); i++ {
			p := w.dialPeer("", hub, nil)
			name := fmt.Sprintf("%s#%d", g.str(), i)
			slots := []string{name}
			for n := g.Intn(4); n > 0; n-- {
				slots = append(slots, g.str())
			}
			p.Put(pRegReq, slots)
			if !w.Await(func() bool { return len(p.All()) >= 1 }) {
				w.Viol("hang", "registration of %q is not answered\n%s", slots, Dump())
				return
			}
			k := p.All()[0]
			if i >= w.N*3+2 {
				if k.ID != pError {
					w.Viol("fields", "registration without ports left is answered %v", k)
				}
			} else if k.ID != pRegResp {
				w.Viol("fields", "registration is answered %v", k)
			} else {
				port := k.Int(0)
				p.Put(pReady, slots)
				p.Put(pHeartbeat)
				p.Put(pQueryReq, name)
				if !p.AwaitGot(pQueryResp, 1) {
					w.Viol("hang", "query for %q is not answered\n%s", name, Dump())
					return
				}
				if a, b := p.Got(pQueryResp)[0].Str(0), fmt.Sprintf("127.0.0.1:%d", port); a != b {
					w.Viol("fields", "query for %q gives %q instead of %q", name, a, b)
				}
			}
			w.judgeWire("hub", p)
			w.State("hub %d %d", k.ID, len(name))
			if last != nil && g.Intn(2) == 0 {
				last.Close()
			}
			last = p
		}
	})

	// A real dock that calls and is called by a fake one, via a fake hub.
	scenario("c04dock", func(w *W) {
		h := w.fakeHub(10)
		f := w.newWork("real")
		hidden := w.newWork("hidden")
		slots := []ferry.ISlot{carryLong(f.name, f, true, workMethods...), carryLong("hidden", hidden, false, workMethods...)}
		w.startDock(h.Addr, "A", slots...)
		if !w.Await(func() bool { return f.theSlot() != nil && hidden.theSlot() != nil }) {
			w.Viol("hang", "dock does not start\n%s", Dump())
			return
		}
		g := Gen{w.Rand}
		fakes := []string{g.str() + "0", g.str() + "1", g.str() + "2"}
		type asked struct {
			k   Packet
			res []interface{}
			err string
		}
		var mu sync.Mutex
		reqs := map[int64]asked{} // by the id in the arguments
		rg := Gen{rand.New(rand.NewSource(w.Job.Seed))}
		on := func(p *Peer, k Packet) {
			if k.ID != pRpcReq || wireWrong(k) != "" || len(k.Arr(3)) == 0 {
				return
			}
			id, ok := k.Arr(3)[0].(int64)
			if !ok {
				return
			}
			mu.Lock()
			a := asked{k: k, res: []interface{}{}}
			for n := rg.Intn(4); n > 0; n-- {
				a.res = append(a.res, rg.value(3))
			}
			if rg.Intn(5) == 0 {
				a.err = rg.str() + "!"
				a.res = nil
			}
			reqs[id] = a
			mu.Unlock()
			res := a.res
			if res == nil {
				res = []interface{}{}
			}
			p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), res, a.err)
		}
		fd := w.fakeDock("", h.Addr, fakes, on)
		if fd == nil {
			w.Viol("hang", "fake dock can't join")
			return
		}
		fd.Ready()

		// Calls of the real dock.
		for i := 0; i < w.N && !w.Bad(); i++ {
			id := int64(i) + 1
			slot, method := fakes[g.Intn(3)], g.str()
			args := []interface{}{id}
			for n := g.Intn(4); n > 0; n-- {
				args = append(args, g.value(3))
			}
			withResult := g.Intn(2) == 0
			var res []interface{}
			var err error
			done := make(chan struct{})
			go func() {
				defer close(done)
				if withResult {
					res, err = f.theSlot().CallWithResult(slot, method, args...)
				} else {
					err = f.theSlot().Call(slot, method, args...)
				}
			}()
			if !w.Done(done) {
				w.Viol("hang", "call of %q %q is not answered\n%s", slot, method, Dump())
				break
			}
			mu.Lock()
			a := reqs[id]
			mu.Unlock()
			if a.k.F == nil {
				w.Viol("fields", "no request was seen for the call of %q %q, which gives %v", slot, method, err)
				break
			}
			if a.k.Str(1) != slot || a.k.Str(2) != method || a.k.Bool(4) != withResult || canon(a.k.Arr(3), false) != canon(args, false) {
				w.Viol("fields", "call of %q %q%s with result %v is sent as %v", slot, method, short(canon(args, false)), withResult, a.k)
			}
			if a.err != "" {
				if err == nil || err.Error() != a.err {
					w.Viol("fields", "error %q of the reply becomes %v", a.err, err)
				}
			} else if err != nil || withResult && canon(res, false) != canon(a.res, false) {
				w.Viol("fields", "results %s become %s, error %v", short(canon(a.res, false)), short(canon(res, false)), err)
			}
			w.State("request %d %v %s", len(args), withResult, shape(a.res))
			if i == 0 {
				w.Sample("real dock sends %v", a.k)
			}
		}

		// Calls of a fake dock.
		addr := fmt.Sprintf("127.0.0.1:%d", h.Conns()[0].port)
		c := w.dialDock(addr, fakes, nil)
		if c == nil {
			w.Viol("hang", "dock is not reachable at %s", addr)
			return
		}
		type sent struct {
			slot, method string
			want         []interface{}
			fail         bool
		}
		all := map[int64]sent{}
		for i := 0; i < w.N && !w.Bad(); i++ {
			index := g.Int63() - g.Int63()
			if _, dup := all[index]; dup {
				continue
			}
			id := int64(1e9) + int64(i)
			var s sent
			var args []interface{}
			v := g.value(3)
			with := true
			switch g.Intn(6) {
			case 0:
				s, args = sent{slot: "real", method: "One", want: []interface{}{mix(id)}}, []interface{}{id}
			case 1:
				s, args = sent{slot: "real", method: "Any", want: []interface{}{v, mix(id)}}, []interface{}{id, v}
			case 2:
				s, args = sent{slot: "real", method: "None", want: []interface{}{}}, []interface{}{id}
			case 3:
				s, args, with = sent{slot: "real", method: "One", want: []interface{}{}}, []interface{}{id}, false
			case 4:
				s, args = sent{slot: "real", method: g.str() + "?", fail: true}, []interface{}{id}
			case 5:
				s, args = sent{slot: "real", method: "Many", want: []interface{}{mix(id), "x!", 3.0, true, []string{"x", "x"}}}, []interface{}{uint16(7), "x", float32(1.5), false}
				args[0] = id
			}
			all[index] = s
			c.Put(pRpcReq, index, s.slot, s.method, args, with)
		}
		if !w.Await(func() bool { return c.Bad() != nil || len(c.Got(pRpcResp)) >= len(all) }) {
			w.Viol("hang", "%d of %d requests are answered\n%s", len(c.Got(pRpcResp)), len(all), Dump())
		}
		w.judgeWire("dock A (reply)", c)
		if !w.Bad() {
			for _, k := range c.Got(pRpcResp) {
				s, ok := all[k.Int(0)]
				if !ok {
					w.Viol("fields", "reply to request %d, which was not sent: %v", k.Int(0), k)
					break
				}
				delete(all, k.Int(0))
				if k.Str(1) != s.slot || k.Str(2) != s.method || (k.Str(4) != "") != s.fail || !s.fail && canon(k.Arr(3), false) != canon(s.want, false) {
					w.Viol("fields", "request to %q %q is answered %v instead of %s", s.slot, s.method, k, short(canon(s.want, false)))
				}
				w.State("reply %s %s", s.method, shape(s.want))
			}
		}
		for i, hc := range h.Conns() {
			w.judgeWire(fmt.Sprintf("dock %d to hub", i), hc.p)
		}
		for _, p := range fd.Conns() {
			w.judgeWire("dock A to fake dock", p)
		}
		// What the dock says about itself is the same in all places.
		for _, p := range append(fd.Conns(), h.Conns()[0].p, c) {
			for _, id := range []int{pRegReq, pReady} {
				for _, k := range p.Got(id) {
					if l := k.Strs(0); len(l) != 1 || l[0] != "real" {
						w.Viol("fields", "dock A carries %q but announces %v", "real", k)
					}
				}
			}
		}
		w.Count("requests judged", len(reqs))
	})

	checks["C04"] = func(c *C) {
		c.Rule("random values of every kind nested up to depth 4 are encoded here and decoded by an independent implementation of the tag table, and the other way round with integers of every width and non-minimal lengths; the table itself is checked byte by byte; every frame that a real hub and a real dock send to fake peers (7 of the packet kinds) is decoded strictly and its fields compared with what was asked; fake peers write integers in any width; strings of up to 32 MB cross in frames to and from a real dock, with sizes around 2^8, 2^16 and 2^24. Distinct: shape of the value, packet kind x shape.")
		c.Assume("the hub's and the dock's own heartbeat packets are never sent, so they are only received")
		c.Run(8, append(append(Times(c.Pick(4, 12), Job{Scenario: "c04", N: c.Pick(60000, 400000)}),
			Times(c.Pick(2, 8), Job{Scenario: "c04hub", N: c.Pick(150, 400)})...),
			append(Times(c.Pick(3, 8), Job{Scenario: "c04dock", N: c.Pick(3000, 20000)}), Job{Scenario: "c04big"})...)...)
	}
}
