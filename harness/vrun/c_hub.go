package main

// C12 and C13: the hub, judged from outside by peers of the harness.

import (
	"bufio"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/muguangyi/ferry"
)

// listening returns the TCP ports this process listens on.
func listening() map[int]bool {
	inodes := map[string]bool{}
	ents, _ := ioutil.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			inodes[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	out := map[int]bool{}
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		file, err := os.Open(f)
		if err != nil {
			continue
		}
		// Those that listen come first; there can be very many others.
		others := 0
		for sc := bufio.NewScanner(file); sc.Scan() && others < 100; {
			p := strings.Fields(sc.Text())
			if len(p) < 10 || p[3] != "0A" {
				others++
				continue
			}
			if !inodes[p[9]] {
				continue
			}
			i := strings.LastIndex(p[1], ":")
			n, _ := strconv.ParseInt(p[1][i+1:], 16, 32)
			out[int(n)] = true
		}
		file.Close()
	}
	return out
}

func init() {
	scenario("c12", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			// A black list: all but some, edges, runs, or next to nothing.
			black := map[int]bool{}
			kind := w.Intn(6)
			free := 20 + w.Intn(60)
			switch kind {
			case 0: // only a few ports are left, anywhere
				for p := minPort; p <= maxPort; p++ {
					black[p] = true
				}
				for i := 0; i < free; i++ {
					delete(black, minPort+w.Intn(maxPort-minPort+1))
				}
				if w.Intn(2) == 0 {
					delete(black, minPort)
				}
				if w.Intn(2) == 0 {
					delete(black, maxPort)
				}
			case 1: // a run at the end is left
				for p := minPort; p <= maxPort-free; p++ {
					black[p] = true
				}
			case 2: // everything is black
				for p := minPort; p <= maxPort; p++ {
					black[p] = true
				}
			case 3: // random ones at the start
				for i := 0; i < 100; i++ {
					black[minPort+w.Intn(200)] = true
				}
			case 4: // every other port and a block
				for p := minPort; p < minPort+400; p++ {
					if p%2 == w.Intn(2) || p > minPort+50 && p < minPort+90 {
						black[p] = true
					}
				}
			}
			left := maxPort - minPort + 1 - len(black)
			list := []int{0, 20000, 49001, -1, 65535, 70000, 49000 + 1<<16}
			for p := range black {
				list = append(list, p)
			}
			sort.Ints(list)
			w.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
			if w.Intn(2) == 0 {
				list = append(list, list...)
			}
			port := w.hubPort()
			addr := fmt.Sprintf("127.0.0.1:%d", port)
			w.serve(fmt.Sprintf(":%d", port), list...)
			hosts := []string{"127.0.0.1", "127.0.0.2", "127.1.2.3", "::1", "127.0.0.10"}[:1+w.Intn(5)]
			peers := 1 + w.Intn(6)
			each := 1 + w.Intn(12)
			if w.Intn(3) == 0 && left < 200 {
				each = left/peers + 3 // more than there are
			}
			var mu sync.Mutex
			ports := map[string]map[int]bool{}
			refused := map[string]int{}
			for _, h := range hosts {
				ports[h] = map[int]bool{}
			}
			ok := w.Group(len(hosts)*peers, func(i int) {
				host := hosts[i%len(hosts)]
				to := addr
				if host == "::1" {
					to = fmt.Sprintf("[::1]:%d", port)
				}
				p := w.dialPeer(host, to, nil)
				if p == nil {
					w.Viol("hang", "hub can't be reached from %s", host)
					return
				}
				r := w.R(i + round*1000)
				for j := 0; j < each; j++ {
					slots := []string{}
					for n := r.Intn(4); n > 0; n-- {
						slots = append(slots, fmt.Sprintf("s%d", r.Intn(20)))
					}
					p.Put(pRegReq, slots)
				}
				if !w.Await(func() bool { return len(p.All()) >= each }) {
					w.Viol("hang", "%d of %d registrations of %s are answered\n%s", len(p.All()), each, host, Dump())
					return
				}
				for _, k := range p.All() {
					w.Eval(1)
					mu.Lock()
					switch k.ID {
					case pRegResp:
						n := int(k.Int(0))
						if n <= 20000 || n > 49000 {
							w.Viol("range", "%s is given port %d", host, n)
						}
						if black[n] {
							w.Viol("black", "%s is given port %d, which is on the black list", host, n)
						}
						if ports[host][n] {
							w.Viol("twice", "%s is given port %d twice", host, n)
						}
						ports[host][n] = true
						w.State("port %d", n)
					case pError:
						refused[host]++
					default:
						w.Viol("answer", "registration is answered %v", k)
					}
					mu.Unlock()
				}
				if i%3 > 0 {
					p.Close()
				}
			})
			if !ok {
				w.Viol("hang", "registrations hang\n%s", Dump())
				return
			}
			for _, h := range hosts {
				asked := peers * each
				want := asked
				if want > left {
					want = left
				}
				if len(ports[h]) != want || refused[h] != asked-want {
					w.Viol("used up", "%s asks %d times with %d ports free: %d given, %d refused", h, asked, left, len(ports[h]), refused[h])
				}
				w.State("kind %d hosts %d peers %d refused %v", kind, len(hosts), peers, refused[h] > 0)
				w.Count("ports given", len(ports[h]))
				w.Count("registrations refused", refused[h])
			}
			// The hub goes on serving.
			p := w.dialPeer("127.0.0.77", addr, nil)
			p.Put(pRegReq, []string{"after"})
			if !w.Await(func() bool { return len(p.All()) >= 1 }) {
				w.Viol("hang", "hub does not serve after %v\n%s", refused, Dump())
				return
			}
			if left > 0 {
				k := p.All()[0]
				if k.ID != pRegResp {
					w.Viol("hosts", "a new host with %d ports is answered %v", left, k)
					return
				}
				p.Put(pReady, []string{"after"})
				p.Put(pQueryReq, "after")
				if !p.AwaitGot(pQueryResp, 1) || p.Got(pQueryResp)[0].Str(0) != fmt.Sprintf("127.0.0.77:%d", k.Int(0)) {
					w.Viol("answer", "query after %v gives %v", refused, p.All())
				}
			} else if p.All()[0].ID != pError {
				w.Viol("black", "all ports are black, but: %v", p.All()[0])
			}
			w.Sample("%d ports free, %d hosts x %d peers x %d registrations: all distinct per host and allowed, %v refused", left, len(hosts), peers, each, refused)
		}
	})

	// The whole range of one host.
	scenario("c12all", func(w *W) {
		port := w.hubPort()
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		black := map[int]bool{}
		var list []int
		for k := []int{0, 1, 3, 100, 3000}[w.p("black", 0)]; k > 0; k-- {
			n := minPort + w.Intn(maxPort-minPort+1)
			if black[n] = true; w.Intn(3) == 0 {
				list = append(list, n) // named twice
			}
			list = append(list, n)
		}
		if w.p("black", 0) > 0 {
			for _, n := range []int{maxPort, minPort, 0, -1, 70000}[:w.Intn(6)] {
				list = append(list, n)
				if n >= minPort && n <= maxPort {
					black[n] = true
				}
			}
		}
		w.serve(addr, list...)
		const peers = 8
		seen := make([]int32, 1<<16)
		var refused, given int64
		ok := w.Group(peers, func(i int) {
			p := w.dialPeer("", addr, nil)
			r := w.R(i)
			const each = 29000/peers + 10
			var buf []byte
			for j := 0; j < each; j++ {
				buf = append(buf, encPacket(r, pRegReq, []string{})...)
			}
			p.PutRaw(buf)
			if !w.Await(func() bool { return len(p.All()) >= each }) {
				w.Viol("hang", "%d of %d registrations are answered\n%s", len(p.All()), each, Dump())
				return
			}
			for _, k := range p.All() {
				w.Eval(1)
				if k.ID == pError {
					atomic.AddInt64(&refused, 1)
					continue
				}
				n := int(k.Int(0))
				if n <= 20000 || n > 49000 || black[n] {
					w.Viol("range", "port %d is given, the black list is %s", n, short(fmt.Sprint(list)))
					return
				}
				if atomic.AddInt32(&seen[n], 1) > 1 {
					w.Viol("twice", "port %d is given twice", n)
					return
				}
				atomic.AddInt64(&given, 1)
			}
		})
		if !ok {
			w.Viol("hang", "registrations hang\n%s", Dump())
		}
		if !w.Bad() && (given != int64(29000-len(black)) || given+refused != 29080) {
			w.Viol("used up", "%d ports given, %d refused, %d are on the black list", given, refused, len(black))
		}
		w.State("all %d", len(black))
		w.Count("ports given", int(given))
	})

	// A dock listens exactly on the port it is given.
	scenario("c12listen", func(w *W) {
		for i := 0; i < w.N && !w.Bad(); i++ {
			n := 1 + w.Intn(3)
			h := w.fakeHub(n)
			if w.Intn(3) == 0 {
				h.first, h.n = w.hubPort(), 1
				n = 1
			}
			first := h.first
			h.mu.Lock() // registrations are not answered yet
			before := listening()
			var es []*Echo
			for d := 0; d < n; d++ {
				e := w.newEcho(fmt.Sprint("E", d), newLedger())
				es = append(es, e)
				w.startDock(h.Addr, fmt.Sprint("dock", d), w.carryEcho(e, true))
			}
			w.Sleep(3)
			early := listening()
			h.mu.Unlock()
			for p := range early {
				if !before[p] {
					w.Viol("listen", "dock listens on %d before hub has given it a port", p)
				}
			}
			if !w.Await(func() bool {
				for _, e := range es {
					if e.theSlot() == nil {
						return false
					}
				}
				return true
			}) {
				w.Viol("hang", "features are not started\n%s", Dump())
				return
			}
			want := map[int]bool{}
			for p := first; p < first+n; p++ {
				want[p] = true
			}
			for p := range listening() {
				if !before[p] && !want[p] {
					w.Viol("listen", "dock listens on %d instead of %v", p, want)
				}
				delete(want, p)
			}
			for p := range want {
				w.Viol("listen", "nobody listens on %d", p)
			}
			for p := first; p < first+n; p++ {
				for _, host := range []string{"127.0.0.1", "::1", "127.0.0.9"} {
					if !canDial(net.JoinHostPort(host, strconv.Itoa(p))) {
						w.Viol("listen", "port %d given to the dock is not open on %s", p, host)
					}
				}
				w.State("listen %d", p)
				w.Eval(1)
			}
		}
	})

	checks["C12"] = func(c *C) {
		c.Rule("1 to 6 peers on each of 1 to 5 hosts (127.x and ::1) register concurrently, up to 12 times each or more often than ports are free, with black lists that are empty, random, sparse, dense, at the edges or complete; all 29000 ports of one host; 1200 hosts; real docks under a fake hub that gives out chosen ports, with the process's listening sockets read from the kernel. Distinct: ports seen, black list kind x hosts x peers.")
		c.Run(6, append(append(Times(c.Pick(5, 12), Job{Scenario: "c12", N: c.Pick(60, 250)}), c12alls()...),
			append(Times(c.Pick(1, 4), Job{Scenario: "c12listen", N: c.Pick(20, 100)}), Job{Scenario: "c12hosts", N: c.Pick(1200, 12000)}, Job{Scenario: "c12", N: c.Pick(5, 30), Race: true})...)...)
	}
}

// C13

// hubModel is the sequential reference of the hub's routing.
type hubModel struct {
	w     *W
	addr  string // hub
	stubs map[string][]*mstub
	wait  map[string][]*mpeer
	peers []*mpeer
	log   []string
	n     int
	anch  string
}

type mstub struct {
	p     *mpeer
	addr  string
	ready bool
}

type mpeer struct {
	*Peer
	id       int
	host     string
	want     []string // query answers due, in order
	regs     map[string]bool
	faked    map[string]bool
	ports    int
	open     bool
	barriers int
}

func (m *hubModel) note(f string, a ...interface{}) { m.log = append(m.log, fmt.Sprintf(f, a...)) }

func (m *hubModel) history() string {
	l := m.log
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	return strings.Join(l, "\n")
}

func (m *hubModel) connect() *mpeer {
	m.n++
	host := []string{"127.0.0.1", "127.0.0.2", "127.0.0.3"}[m.w.Intn(3)]
	p := &mpeer{id: m.n, host: host, regs: map[string]bool{}, faked: map[string]bool{}, open: true}
	p.Peer = m.w.dialPeer(host, m.addr, nil)
	if p.Peer == nil {
		m.w.Viol("hang", "hub does not accept\n%s", m.history())
		return nil
	}
	m.peers = append(m.peers, p)
	m.note("peer %d connects from %s", p.id, host)
	m.register(p, []string{p.alive()})
	m.ready(p, []string{p.alive()})
	return p
}

func (p *mpeer) alive() string { return fmt.Sprint("alive", p.id) }

func (m *hubModel) register(p *mpeer, slots []string) {
	p.Put(pRegReq, slots)
	p.ports++
	if !p.AwaitGot(pRegResp, p.ports) {
		m.w.Viol("hang", "registration is not answered\n%s", m.history())
		return
	}
	addr := net.JoinHostPort(p.host, fmt.Sprint(p.Got(pRegResp)[p.ports-1].Int(0)))
	m.note("peer %d registers %v as %s", p.id, slots, addr)
	for _, s := range slots {
		m.stubs[s] = append(m.stubs[s], &mstub{p: p, addr: addr})
		p.regs[s] = true
	}
}

func (m *hubModel) pick(slot string) string {
	l := m.stubs[slot]
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].ready {
			return l[i].addr
		}
	}
	return ""
}

func (m *hubModel) ready(p *mpeer, slots []string) {
	m.note("peer %d is ready for %v", p.id, slots)
	for _, s := range slots {
		if !p.regs[s] {
			p.faked[s] = true
			continue
		}
		for _, st := range m.stubs[s] {
			if st.p == p {
				st.ready = true
			}
		}
		if a := m.pick(s); a != "" {
			for _, q := range m.wait[s] {
				q.want = append(q.want, a)
			}
			delete(m.wait, s)
		}
	}
	p.Put(pReady, slots)
	m.barrier(p)
}

func (m *hubModel) query(p *mpeer, slot string) {
	m.note("peer %d queries %s", p.id, slot)
	if a := m.pick(slot); a != "" {
		p.want = append(p.want, a)
	} else {
		m.wait[slot] = append(m.wait[slot], p)
	}
	p.Put(pQueryReq, slot)
	m.barrier(p)
}

// barrier waits until hub has handled what the peer has sent, and then judges
// everybody's answers.
func (m *hubModel) barrier(p *mpeer) {
	if m.anch != "" {
		p.want = append(p.want, m.anch)
		p.Put(pQueryReq, "anchor")
		if !m.w.Await(func() bool {
			k := p.Got(pQueryResp)
			for i := p.barriers; i < len(k); i++ {
				if k[i].Str(0) == m.anch {
					p.barriers = i + 1
					return true
				}
			}
			return false
		}) {
			m.w.Viol("lost", "a query for a feature that is ready all the time is not answered to peer %d\n%s\n%s", p.id, m.history(), Dump())
			return
		}
	}
	for _, q := range m.peers {
		if q.open {
			m.judge(q)
		}
	}
}

func (m *hubModel) judge(q *mpeer) {
	if !m.w.Await(func() bool { return len(q.Got(pQueryResp)) >= len(q.want) }) {
		m.w.Viol("lost", "peer %d gets %d answers instead of %v\n%s", q.id, len(q.Got(pQueryResp)), q.want, m.history())
		return
	}
	got := q.Got(pQueryResp)
	for i, k := range got {
		if i >= len(q.want) {
			m.w.Viol("extra", "peer %d gets an answer it has not asked for: %v\n%s", q.id, k, m.history())
			return
		}
		if k.Str(0) != q.want[i] {
			m.w.Viol("route", "answer %d to peer %d is %s instead of %s\n%s", i, q.id, k.Str(0), q.want[i], m.history())
			return
		}
	}
}

// leave disconnects the peer and waits until hub has noticed.
func (m *hubModel) leave(p *mpeer) {
	m.note("peer %d leaves", p.id)
	if m.w.Intn(2) == 0 {
		p.Conn.(*net.TCPConn).SetLinger(0)
	}
	p.Close()
	p.open = false
	for s, l := range m.stubs {
		var keep []*mstub
		for _, st := range l {
			if st.p != p {
				keep = append(keep, st)
			}
		}
		m.stubs[s] = keep
	}
	for s, l := range m.wait {
		var keep []*mpeer
		for _, q := range l {
			if q != p {
				keep = append(keep, q)
			}
		}
		m.wait[s] = keep
	}
	if !m.w.Await(func() bool { return m.w.gone(m.addr, p.alive()) }) {
		m.w.Viol("stale", "hub keeps giving out the address of peer %d, which has left\n%s", p.id, m.history())
	}
}

// gone asks hub through a peer of its own whether a slot is still there.
func (w *W) gone(hub, slot string) bool {
	q := w.dialPeer("", hub, nil)
	if q == nil {
		return false
	}
	defer q.Close()
	q.Put(pQueryReq, slot)
	q.Put(pQueryReq, "anchor")
	if !q.AwaitGot(pQueryResp, 1) {
		return false
	}
	// Answers of one peer's queries come in the order they were handled.
	return q.Got(pQueryResp)[0].Str(0) == anchorOf(hub)
}

var anchors sync.Map

func anchorOf(hub string) string { v, _ := anchors.Load(hub); s, _ := v.(string); return s }

// anchor registers a feature at hub that stays ready.
func (w *W) anchor(hub string) string {
	a := w.dialPeer("", hub, nil)
	if a == nil {
		return ""
	}
	a.Put(pRegReq, []string{"anchor"})
	if !a.AwaitGot(pRegResp, 1) {
		w.Viol("hang", "registration is not answered\n%s", Dump())
		return ""
	}
	addr := fmt.Sprintf("127.0.0.1:%d", a.Got(pRegResp)[0].Int(0))
	anchors.Store(hub, addr)
	a.Put(pReady, []string{"anchor"})
	a.Put(pQueryReq, "anchor")
	if !a.AwaitGot(pQueryResp, 1) {
		w.Viol("hang", "query is not answered\n%s", Dump())
	}
	return addr
}

func init() {
	scenario("c13seq", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			port := w.hubPort()
			addr := fmt.Sprintf("127.0.0.1:%d", port)
			w.serve(addr)
			m := &hubModel{w: w, addr: addr, stubs: map[string][]*mstub{}, wait: map[string][]*mpeer{}}
			m.anch = w.anchor(addr)
			names := []string{"a", "b", "c", "A", ""}
			if w.Intn(2) == 0 {
				names = oddNames(w.Rand, 5)
			}
			var live []*mpeer
			for i := 0; i < 120 && !w.Bad(); i++ {
				w.Eval(1)
				op := w.Intn(12)
				if len(live) < 2 {
					op = 0
				}
				if op == 0 && len(live) > 7 {
					op = 11
				}
				var p *mpeer
				if len(live) > 0 {
					p = live[w.Intn(len(live))]
				}
				slot := names[w.Intn(len(names))]
				switch op {
				case 0:
					if p := m.connect(); p != nil {
						live = append(live, p)
					}
				case 1, 2, 3:
					var slots []string
					for _, n := range w.Perm(len(names)) {
						s := names[n]
						if !p.regs[s] && !p.faked[s] && w.Intn(2) == 0 {
							slots = append(slots, s)
						}
					}
					m.register(p, slots)
				case 4, 5, 6:
					var slots []string
					for s := range p.regs {
						if w.Intn(2) == 0 {
							slots = append(slots, s)
						}
					}
					if w.Intn(3) == 0 && !p.regs[slot] {
						slots = append(slots, slot)
					}
					sort.Strings(slots)
					m.ready(p, slots)
				case 7, 8, 9, 10:
					m.query(p, slot)
				case 11:
					k := w.Intn(len(live))
					m.leave(live[k])
					live = append(live[:k], live[k+1:]...)
				}
				ready, waiting := 0, 0
				for _, s := range names {
					if m.pick(s) != "" {
						ready++
					}
					waiting += len(m.wait[s])
				}
				w.State("op %d, %d ready, %d waiting, %d carriers of %q", op, ready, min(waiting, 5), len(m.stubs[slot]), slot)
				if waiting > 0 {
					w.Count("steps with queries waiting", 1)
				}
			}
			for _, p := range m.peers {
				if p.open && !w.Bad() {
					m.barrier(p)
				}
				w.Count("answers judged", len(p.want))
				p.Close()
			}
			w.Sample("%s", m.history())
		}
	})

	// Docks come and go while many query.
	scenario("c13par", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			port := w.hubPort()
			addr := fmt.Sprintf("127.0.0.1:%d", port)
			w.serve(addr)
			w.anchor(addr)
			type carrier struct {
				slot    string
				ready   bool
				gone    bool
				goneSeq int64
			}
			var mu sync.Mutex
			var clock int64 // orders "confirmed gone" and "about to ask"
			by := map[string]*carrier{}
			names := []string{"a", "b", "c", "d"}
			var progress, ids int64
			nd, nq := 2+w.Intn(6), 2+w.Intn(8)
			var final *Peer
			left := int64(nd)
			ok := w.GroupProgress(nd+nq, &progress, func(i int) {
				r := w.R(i + round*100)
				if i < nd {
					defer func() {
						// The last one stays and carries everything.
						if atomic.AddInt64(&left, -1) > 0 || w.Bad() {
							return
						}
						final = w.dialPeer("127.0.0.9", addr, nil)
						if final == nil {
							return
						}
						final.Put(pRegReq, names)
						if final.AwaitGot(pRegResp, 1) {
							mu.Lock()
							by[fmt.Sprintf("127.0.0.9:%d", final.Got(pRegResp)[0].Int(0))] = &carrier{slot: "*", ready: true}
							mu.Unlock()
							final.Put(pReady, names)
						}
					}()
					for n := 0; n < 6 && !w.Bad(); n++ {
						slot := names[(i+n)%len(names)]
						id := atomic.AddInt64(&ids, 1)
						host := fmt.Sprintf("127.0.0.%d", 1+r.Intn(4))
						p := w.dialPeer(host, addr, nil)
						if p == nil {
							w.Viol("hang", "hub does not accept")
							return
						}
						alive := fmt.Sprint("alive", id)
						p.Put(pRegReq, []string{slot, alive})
						if !p.AwaitGot(pRegResp, 1) {
							w.Viol("hang", "registration is not answered\n%s", Dump())
							return
						}
						a := net.JoinHostPort(host, fmt.Sprint(p.Got(pRegResp)[0].Int(0)))
						c := &carrier{slot: slot}
						mu.Lock()
						by[a] = c
						mu.Unlock()
						sure := true
						if r.Intn(5) > 0 {
							mu.Lock()
							c.ready = true
							mu.Unlock()
							p.Put(pReady, []string{slot, alive})
							// Otherwise hub may see it as gone because it is not ready yet.
							if sure = r.Intn(3) > 0; sure {
								p.Put(pQueryReq, "anchor")
								p.AwaitGot(pQueryResp, 1)
							}
						}
						p.Close()
						if sure && r.Intn(2) == 0 {
							if !w.Await(func() bool { return w.gone(addr, alive) }) {
								w.Viol("stale", "hub keeps giving out %s, which has left", a)
								return
							}
							mu.Lock()
							c.gone = true
							clock++
							c.goneSeq = clock
							mu.Unlock()
						}
						atomic.AddInt64(&progress, 1)
					}
					return
				}
				q := w.dialPeer("", addr, nil)
				if q == nil {
					w.Viol("hang", "hub does not accept")
					return
				}
				for n := 0; n < 60 && !w.Bad(); n++ {
					slot := names[r.Intn(len(names))]
					mu.Lock()
					from := clock
					mu.Unlock()
					q.Put(pQueryReq, slot)
					// An answer may not come before the end, when all are ready.
					if !q.AwaitGot(pQueryResp, n+1) {
						w.Viol("lost", "query for %s is not answered\n%s", slot, Dump())
						return
					}
					k := q.Got(pQueryResp)[n]
					mu.Lock()
					c := by[k.Str(0)]
					switch {
					case c == nil:
						w.Viol("route", "query for %s gives %s, which nobody has", slot, k.Str(0))
					case c.slot != slot && c.slot != "*":
						w.Viol("route", "query for %s gives %s, which carries %s", slot, k.Str(0), c.slot)
					case !c.ready:
						w.Viol("route", "query for %s gives %s, which is not ready", slot, k.Str(0))
					case c.gone && c.goneSeq <= from:
						w.Viol("stale", "query for %s gives %s, which was known to have left before", slot, k.Str(0))
					}
					mu.Unlock()
					w.Eval(1)
					w.State("par answer %s", k.Str(0))
					atomic.AddInt64(&progress, 1)
				}
				w.Count("concurrent queries judged", 60)
				// None is answered twice.
				q.Put(pQueryReq, "anchor")
				if !q.AwaitGot(pQueryResp, 61) {
					w.Viol("lost", "query for the anchor is not answered")
				}
				q.Put(pQueryReq, "anchor")
				q.AwaitGot(pQueryResp, 62)
				if k := q.Got(pQueryResp); len(k) != 62 {
					w.Viol("extra", "%d answers to 62 queries", len(k))
				}
				q.Close()
			})
			if !ok {
				if !w.Bad() {
					w.Viol("hang", "queries or registrations hang\n%s", Dump())
				}
				return
			}
			final.Close()
		}
	})

	// Real docks: the newest carrier gets the calls, an older one after it has
	// left. The hub's view is judged through a query of a fake peer.
	scenario("c13real", func(w *W) {
		hub := w.startHub(30)
		w.anchor(hub)
		led := newLedger()
		var names []string
		q := w.dialPeer("", hub, nil)
		for i := 0; i < 6 && !w.Bad(); i++ {
			e := w.newEcho("same", led)
			own := w.newEcho(fmt.Sprint("own", i), led)
			var slots []ferry.ISlot
			slots = append(slots, w.carryEcho(e, true), w.carryEcho(own, true))
			w.startDock(hub, fmt.Sprint("dock", i), slots...)
			names = append(names, own.name)
			q.Put(pQueryReq, own.name)
			if !q.AwaitGot(pQueryResp, 2*i+1) {
				w.Viol("hang", "query for %s is not answered\n%s", own.name, Dump())
				return
			}
			q.Put(pQueryReq, "same")
			if !q.AwaitGot(pQueryResp, 2*i+2) {
				w.Viol("hang", "query for same is not answered\n%s", Dump())
				return
			}
			k := q.Got(pQueryResp)
			if a, b := k[2*i].Str(0), k[2*i+1].Str(0); a != b {
				w.Viol("route", "dock %d has %s, but the newest carrier of same is %s", i, a, b)
			}
			w.Eval(1)
			w.State("real %d", i)
		}
	})

	checks["C13"] = func(c *C) {
		c.Rule("random histories of 120 steps (connect from one of three hosts, register, ready for a subset, ready for foreign slots, query, leave or reset) of up to 8 peers and 5 slots against a real hub, compared step by step with a sequential reference: every peer must get exactly the answers due, in order; and up to 15 peers concurrently, where each answer must be an address that carries the slot, is ready and was not known to be gone before. Distinct: operation x slots ready x queries waiting x carriers, addresses answered.")
		c.Assume("a peer registers a slot before it declares itself ready for it, and only once")
		c.Run(6, append(append(Times(c.Pick(5, 12), Job{Scenario: "c13seq", N: c.Pick(40, 200)}), Times(c.Pick(3, 8), Job{Scenario: "c13par", N: c.Pick(15, 80)})...),
			Job{Scenario: "c13hold", P: map[string]int64{"ticks": int64(c.Pick(6200, 31000))}, Timeout: 850}, Job{Scenario: "c13real"}, Job{Scenario: "hubs", N: c.Pick(10, 40)}, Job{Scenario: "c13many", N: c.Pick(120, 400)}, Job{Scenario: "c13many", N: c.Pick(20, 100), Race: true}, Job{Scenario: "c13par", N: c.Pick(2, 10), Race: true}, Job{Scenario: "c13seq", N: c.Pick(1, 10), Race: true})...)
	}
}
