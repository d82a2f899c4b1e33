package main

// Several hubs in one process, whose docks and peers know nothing of each
// other though they use the same names.

import (
	"fmt"
	"net"
	"strconv"

	"github.com/muguangyi/ferry"
)

func init() {
	scenario("hubs", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			n := 2 + w.Intn(3)
			type world struct {
				hub          string
				first, ports int
				led          *Ledger
				caller       *Echo
				carriers     int
				asker        *Peer
				asked        int
				waiting      []chan string
				ids          []int64
				next         int
			}
			var ws []*world
			for i := 0; i < n; i++ {
				h := &world{ports: 8, led: newLedger()}
				h.first = w.block(h.ports)
				h.next = h.first
				h.hub = fmt.Sprintf("127.0.0.1:%d", w.hubPort())
				w.serve(h.hub, blackExcept(h.first, h.ports)...)
				ws = append(ws, h)
			}
			ids := int64(round) * 1000000
			port := func(h *world) { h.next++ }
			// All callers have the same name, as all carriers will have.
			for _, i := range w.Perm(n) {
				h := ws[i]
				h.caller = w.newEcho("caller", h.led)
				if !w.startEchos(h.hub, "dock", h.caller) {
					return
				}
				port(h)
				if h.asker = w.dialPeer("127.0.0.1", h.hub, nil); h.asker == nil {
					w.Viol("hang", "no connection to a hub")
					return
				}
			}
			call := func(h *world) chan string {
				ids++
				id := ids
				h.ids = append(h.ids, id)
				out := make(chan string, 1)
				k := w.Intn(4)
				go func() {
					err, wrong := w.callEcho(h.caller.theSlot(), "same", id, k, 30)
					switch {
					case err != nil:
						out <- fmt.Sprintf("call %d: %v", id, err)
					case wrong != "":
						out <- fmt.Sprintf("call %d: %s", id, wrong)
					default:
						out <- ""
					}
				}()
				return out
			}
			get := func(what string, c chan string) bool {
				var s string
				got := make(chan struct{})
				go func() { s = <-c; close(got) }()
				if !w.Done(got) {
					w.Viol("hang", "%s does not return\n%s", what, Dump())
					return false
				}
				if s != "" {
					w.Viol("failed", "%s: %s", what, s)
					return false
				}
				return true
			}
			// Calls and queries wait for the carrier of their own hub.
			for step := 0; step < 12; step++ {
				h := ws[w.Intn(n)]
				switch k := w.Intn(4); {
				case k == 0 && h.carriers < 2:
					c := w.newEcho("same", h.led)
					if h.carriers > 0 && w.Intn(2) == 0 {
						c = w.newEcho("other", h.led)
					}
					if !w.startEchos(h.hub, "dock", c) {
						return
					}
					port(h)
					h.carriers++
				case k == 1:
					h.waiting = append(h.waiting, call(h))
				case k == 2:
					h.asker.Put(pQueryReq, "same")
					h.asked++
				default:
					w.Sleep(1)
				}
				for _, o := range ws {
					if o.carriers > 0 {
						for _, c := range o.waiting {
							if !get("a call to a feature that has a carrier", c) {
								return
							}
						}
						o.waiting = nil
						if !o.asker.AwaitGot(pQueryResp, o.asked) {
							w.Viol("hang", "a query for a feature that has a carrier is not answered\n%s", Dump())
							return
						}
					} else if len(o.asker.Got(pQueryResp)) > 0 {
						w.Viol("foreign", "a query is answered with %v, the feature has a carrier with another hub only", o.asker.Got(pQueryResp))
						return
					} else {
						for _, c := range o.waiting {
							if len(c) > 0 {
								w.Viol("foreign", "a call returns (%q), the feature has a carrier with another hub only", <-c)
								return
							}
						}
					}
					w.Eval(1)
				}
			}
			for _, h := range ws {
				if h.carriers == 0 {
					if !w.startEchos(h.hub, "dock", w.newEcho("same", h.led)) {
						return
					}
					port(h)
				}
				h.waiting = append(h.waiting, call(h), call(h))
			}
			for i, h := range ws {
				for _, c := range h.waiting {
					if !get("a call to a feature that has a carrier", c) {
						return
					}
				}
				for _, id := range h.ids {
					for j, o := range ws {
						want := 0
						if i == j {
							want = 1
						}
						if got := o.led.Count(id); got != want {
							w.Viol("foreign", "call %d of a dock of hub %d has run %d times with hub %d", id, i, got, j)
							return
						}
					}
				}
				if !h.asker.AwaitGot(pQueryResp, h.asked) {
					w.Viol("hang", "a query for a feature that has a carrier is not answered\n%s", Dump())
					return
				}
				for _, k := range h.asker.Got(pQueryResp) {
					_, p, _ := net.SplitHostPort(k.Str(0))
					if p, _ := strconv.Atoi(p); p < h.first || p >= h.next {
						w.Viol("foreign", "a query is answered with %s, the docks of that hub have ports %d to %d", k.Str(0), h.first, h.next-1)
						return
					}
				}
				for p := range listening() {
					if p >= h.next && p < h.first+h.ports {
						w.Viol("port", "port %d is listened on, the hub has given %d to %d", p, h.first, h.next-1)
					}
				}
			}
			w.State("hubs %d %d", n, round%7)
			w.Count("hubs next to each other", n)
			w.Sample("%d hubs in one process, their docks carry features of the same names: calls and queries stay with their hub", n)
			if !w.Group(1, func(int) { ferry.Close() }) {
				w.Viol("hang", "Close does not return\n%s", Dump())
				return
			}
			for _, h := range ws {
				h.asker.Close()
			}
		}
	})
}
