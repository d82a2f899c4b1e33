package main

// C20: docks and hubs that go away.

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The points of the protocol at which a carrier dies. At the soft ones no
// request can have been sent to it.
var softPoints = []string{"refuse", "accept", "halfregister"}
var hardPoints = []string{"register", "unready", "halfready", "notready", "request", "half", "late", "idle", "reply", "fin", "garbled"}

// mortal is a carrier that dies at a given point.
type mortal struct {
	*FakeDock
	w      *W
	r      *rand.Rand
	name   string
	point  string
	after  int64 // requests until it dies, where that matters
	mu     sync.Mutex
	reqs   map[int64]int
	dead   bool
	linger bool // the hub notices later
	reset  bool
	log    *lossLog
}

// lossLog is what a round has seen.
type lossLog struct {
	mu       sync.Mutex
	got      map[int64]string // requests received, and by whom
	twice    string
	conns    int64 // connections that died with calls on them
	allConns int64
	hard     int64
	events   []string
}

func (l *lossLog) note(f string, a ...interface{}) {
	l.mu.Lock()
	l.events = append(l.events, fmt.Sprintf(f, a...))
	l.mu.Unlock()
}

func (l *lossLog) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return strings.Join(tailOf(l.events, 80), ", ")
}

func (l *lossLog) request(who string, id int64) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if by, ok := l.got[id]; ok {
		l.twice = fmt.Sprintf("call %d is requested from %s and then from %s", id, by, who)
	}
	l.got[id] = who
}

// newMortal joins the hub with a carrier that dies at the point ("" for never).
func (w *W) newMortal(r *rand.Rand, host, hub, name, feature, point string, log *lossLog) *mortal {
	m := &mortal{w: w, r: r, name: name, point: point, reqs: map[int64]int{}, log: log}
	m.after = 1 + r.Int63n(5)
	m.reset = r.Intn(3) == 0
	m.linger = r.Intn(3) == 0
	delay := time.Duration(r.Int63n(int64(3 * time.Millisecond)))
	frame := func(id int, f ...interface{}) []byte { return encPacket(rand.New(rand.NewSource(1)), id, f...) }
	setup := func(d *FakeDock) {
		m.FakeDock = d
		d.Quiet = true
		d.Acc = func(p *Peer) {
			if m.isDead() {
				p.Close()
				return
			}
			switch point {
			case "accept":
				m.die()
			case "halfregister":
				b := frame(pRegReq, d.Slots)
				p.PutRaw(b[:len(b)/2])
				time.Sleep(delay)
				m.die()
			case "register":
				p.Put(pRegReq, d.Slots)
				time.Sleep(delay)
				m.die()
			default:
				p.Put(pRegReq, d.Slots)
			}
		}
		d.On = func(p *Peer, k Packet) {
			if m.isDead() {
				p.Close()
				return
			}
			switch k.ID {
			case pRegReq:
				switch point {
				case "unready":
					time.Sleep(delay)
					m.die()
				case "halfready":
					b := frame(pReady, d.Slots)
					p.PutRaw(b[:len(b)-1])
					time.Sleep(delay)
					m.die()
				case "notready":
					p.Put(pReady, []string{"something else"})
					time.Sleep(delay)
					m.die()
				default:
					p.Put(pReady, d.Slots)
					if point == "idle" {
						time.Sleep(delay)
						m.die()
					}
				}
			case pRpcReq:
				m.request(p, k, delay)
			}
		}
	}
	d := w.fakeDockWith(host, hub, []string{feature}, nil, setup)
	if d == nil {
		w.Viol("hang", "carrier %s can't join the hub\n%s", name, Dump())
		return nil
	}
	if point == "refuse" {
		d.l.Close()
	}
	d.Ready()
	return m
}

func (m *mortal) request(p *Peer, k Packet, delay time.Duration) {
	args := k.Arr(3)
	if len(args) == 0 {
		return
	}
	id, _ := asInt(args[0])
	m.mu.Lock()
	m.reqs[id]++
	n := int64(len(m.reqs))
	m.mu.Unlock()
	m.log.request(m.name, id)
	reply := []interface{}{k.Int(0), k.Str(1), k.Str(2), []interface{}{mix(id), "s/" + m.name}, ""}
	die := n >= m.after
	switch {
	case m.point == "request" && die:
		m.die()
	case m.point == "half" && die:
		b := encPacket(rand.New(rand.NewSource(1)), pRpcResp, reply...)
		p.PutRaw(b[:1+int(delay)%(len(b)-1)])
		m.die()
	case m.point == "garbled" && die:
		// The length is there, the body stops.
		b := encPacket(rand.New(rand.NewSource(1)), pRpcResp, reply...)
		p.PutRaw(b[:4])
		time.Sleep(delay)
		m.die()
	case m.point == "late" && n >= 1:
		// No request is answered any more.
		if n == 1 {
			go func() { time.Sleep(delay); m.die() }()
		}
	case m.point == "reply" && die:
		p.Put(pRpcResp, reply...)
		m.die()
	case m.point == "fin" && die:
		// The reply has been sent in full before the end.
		p.Put(pRpcResp, reply...)
		m.finish(p)
	default:
		p.Put(pRpcResp, reply...)
	}
}

func (m *mortal) hard() bool {
	for _, p := range hardPoints {
		if p == m.point {
			return true
		}
	}
	return m.point == ""
}

// end marks the death; false if it has been before.
func (m *mortal) end() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.dead {
		return false
	}
	m.dead = true
	cs := m.Conns()
	if m.hard() {
		atomic.AddInt64(&m.log.conns, int64(len(cs)))
		atomic.AddInt64(&m.log.hard, 1)
	}
	m.log.note("%s dies (%s, %d connections)", m.name, m.point, len(cs))
	return true
}

func (m *mortal) isDead() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.dead }

func (m *mortal) die() {
	if !m.end() {
		return
	}
	m.l.Close()
	if !m.linger {
		m.Hub.Close()
	}
	for _, c := range m.Conns() {
		if t, ok := c.Conn.(*net.TCPConn); ok && m.reset {
			t.SetLinger(0)
		}
		c.Close()
	}
	if m.linger {
		// For the hub it is still there for a while.
		go func() {
			m.w.Sleep(20)
			m.Hub.Close()
		}()
	}
}

// finish ends the connections after what was sent has been read.
func (m *mortal) finish(p *Peer) {
	if !m.end() {
		return
	}
	m.l.Close()
	m.Hub.Close()
	for _, c := range m.Conns() {
		if t, ok := c.Conn.(*net.TCPConn); ok {
			t.CloseWrite()
		}
	}
}

// caller is a dock of this process that makes calls.
func (w *W) callers(hub string, n int) []*Echo {
	var es []*Echo
	for i := 0; i < n; i++ {
		e := w.newEcho(fmt.Sprintf("caller%d", i), newLedger())
		if !w.startEchos(hub, fmt.Sprintf("dock%d", i), e) {
			return nil
		}
		es = append(es, e)
	}
	return es
}

func init() {
	scenario("c20point", func(w *W) {
		hub := w.startHub(10 + 5*w.N)
		es := w.callers(hub, 2)
		side := w.newEcho("bystander", newLedger())
		if es == nil || !w.startEchos(hub, "bystanders", side) {
			return
		}
		// Points are enumerated, everything else is random.
		points := append(append([]string{}, softPoints...), hardPoints...)
		w.Shuffle(len(points), func(i, j int) { points[i], points[j] = points[j], points[i] })
		var ids int64
		for i := 0; i < w.N && !w.Bad(); i++ {
			w.lossRound(i, w.R(i), hub, es, points[i%len(points)], &ids)
		}
		side.led.mu.Lock()
		for id, n := range side.led.execs {
			if n != 1 {
				w.Viol("count", "call %d of the bystander has run %d times", id, n)
			}
		}
		side.led.mu.Unlock()
	})
	scenario("c20cut", func(w *W) { w.lossCut() })
	scenario("c20kill", func(w *W) { w.lossKill() })
	scenario("c20hub", func(w *W) {
		for i := 0; i < w.N && !w.Bad(); i++ {
			w.lossHub(i, w.R(i))
		}
	})
	scenario("c20close", func(w *W) {
		for i := 0; i < w.N && !w.Bad(); i++ {
			w.lossClose(i, w.R(i))
		}
	})
	scenario("c20black", func(w *W) { w.lossBlack() })
	checks["C20"] = func(c *C) {
		c.Rule("a case is a call made around the loss of a dock or hub; distinct are the point at which the carrier dies, what replaces it, the order of events and the outcome. 14 points are enumerated, cut connections (orderly and reset), connections made by the dock that goes, killed processes, lost hubs, local closes and unresponsive addresses")
		c.Assume("a call may fail once for every connection that was lost while calls could be on it")
		var jobs []Job
		jobs = append(jobs, Times(c.Pick(4, 24), Job{Scenario: "c20point", N: c.Pick(56, 140), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(2, 8), Job{Scenario: "c20point", N: c.Pick(28, 140), Race: true, Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(2, 8), Job{Scenario: "c20cut", N: c.Pick(150, 2000), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(1, 4), Job{Scenario: "c20cut", N: c.Pick(50, 500), Race: true, Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(2, 8), Job{Scenario: "c20kill", N: c.Pick(15, 80), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c20hub", N: c.Pick(20, 60), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c20inbound", N: c.Pick(60, 200), Timeout: 850})...)
		jobs = append(jobs, Job{Scenario: "c20inbound", N: c.Pick(20, 100), Race: true, Timeout: 850})
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c20many", N: c.Pick(20, 80), P: map[string]int64{"calls": int64(c.Pick(1500, 6000))}, Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(2, 6), Job{Scenario: "c20close", N: c.Pick(20, 60), Timeout: 850})...)
		jobs = append(jobs, Times(c.Pick(1, 2), Job{Scenario: "c20black", N: c.Pick(1, 4), Timeout: 850})...)
		jobs = append([]Job{{Scenario: "c10hold", P: map[string]int64{"what": 2, "ticks": int64(c.Pick(6200, 31000))}, Timeout: 850}}, jobs...)
		c.Run(8, jobs...)
	}
}

// lossRound lets carriers of one feature die while it is called.
func (w *W) lossRound(round int, r *rand.Rand, hub string, es []*Echo, point string, ids *int64) {
	feature := fmt.Sprintf("mortal%d", round)
	log := &lossLog{got: map[int64]string{}}
	older := r.Intn(2) == 0
	var all []*mortal
	join := func(name, point string) *mortal {
		m := w.newMortal(r, "", hub, name, feature, point, log)
		if m != nil {
			all = append(all, m)
			log.note("%s joins", name)
		}
		return m
	}
	if older && join("older", "") == nil {
		return
	}
	seq := []string{point}
	points := append(append([]string{}, softPoints...), hardPoints...)
	for r.Intn(2) == 0 && len(seq) < 3 {
		seq = append(seq, points[r.Intn(len(points))])
	}
	waiting := r.Intn(3) == 0 // calls are there before any carrier
	gs := 1 + r.Intn(6)
	per := 3 + r.Intn(6)
	var stop, progress int64
	failed := make([]int64, gs)
	done := make(chan bool, 1)
	start := func() {
		go func() {
			done <- w.GroupProgress(gs, &progress, func(g int) {
				e := es[g%len(es)]
				rr := rand.New(rand.NewSource(int64(round*100 + g)))
				for n := 0; n < per || atomic.LoadInt64(&stop) == 0; n++ {
					if n >= per {
						time.Sleep(time.Duration(200+rr.Intn(1000)) * time.Microsecond)
					}
					id := atomic.AddInt64(ids, 1)
					var res []interface{}
					var err error
					if rr.Intn(4) == 0 {
						err = e.theSlot().Call(feature, "Mix", id, "s")
					} else {
						res, err = e.theSlot().CallWithResult(feature, "Mix", id, "s")
					}
					atomic.AddInt64(&progress, 1)
					w.Eval(1)
					log.mu.Lock()
					by := log.got[id]
					log.mu.Unlock()
					if err != nil {
						failed[g]++
						if atomic.LoadInt64(&log.hard) == 0 {
							w.Viol("failed", "call %d to %s fails with %q, no connection that carried calls is lost yet (points %v, older carrier %v): %v", id, feature, err, seq, older, log)
							return
						}
						if limit := atomic.LoadInt64(&log.conns); failed[g] > limit {
							w.Viol("failed", "%d calls of one caller to %s have failed (now %q), %d connections were lost (points %v, older carrier %v): %v", failed[g], feature, err, limit, seq, older, log)
							return
						}
						w.State("fail %v %v %v %v", seq, older, by == "", waiting)
						continue
					}
					if by == "" {
						w.Viol("invented", "call %d to %s succeeds, but no carrier has got it: %v", id, feature, log)
						return
					}
					if res != nil && (len(res) != 2 || canon(res[0], false) != canon(mix(id), false) || res[1] != "s/"+by) {
						w.Viol("wrong", "call %d to %s of %s gives %v", id, feature, by, short(canon(res, false)))
						return
					}
					w.State("good %v %v %s %v", seq, older, by, waiting)
					// Others are not affected.
					if rr.Intn(3) == 0 {
						o := atomic.AddInt64(ids, 1)
						if err, wrong := w.callEcho(e.theSlot(), "bystander", o, rr.Intn(5), 50); err != nil || wrong != "" {
							w.Viol("collateral", "a call to a feature of another dock gives %v %s: %v", err, wrong, log)
							return
						}
					}
				}
			})
		}()
	}
	if waiting {
		start()
	}
	var last *mortal
	for i, pt := range seq {
		last = join(fmt.Sprint("mortal-", i), pt)
		if last == nil {
			return
		}
		if !waiting && i == 0 {
			start()
		}
		// It dies on its own where connections or requests come; the others are
		// told to in the end.
		w.AwaitN(int64(20+r.Intn(60)), last.isDead)
		last.die()
	}
	if r.Intn(2) == 0 {
		w.Sleep(int64(r.Intn(15)))
	}
	if !older || r.Intn(2) == 0 {
		if join("newer", "") == nil {
			return
		}
	}
	atomic.StoreInt64(&stop, 1)
	if !<-done {
		w.Viol("hang", "calls to %s hang (points %v, older carrier %v): %v\n%s", feature, seq, older, log, Dump())
		return
	}
	log.mu.Lock()
	twice := log.twice
	log.mu.Unlock()
	if twice != "" {
		w.Viol("twice", "%s (points %v): %v", twice, seq, log)
		return
	}
	if w.Bad() {
		return
	}
	// After all that every caller reaches a living carrier.
	for k, e := range es {
		ok := w.Group(1, func(int) {
			limit := atomic.LoadInt64(&log.conns) + 1
			for n := int64(0); ; n++ {
				id := atomic.AddInt64(ids, 1)
				res, err := e.theSlot().CallWithResult(feature, "Mix", id, "s")
				if err == nil {
					if len(res) == 2 && (res[1] == "s/older" || res[1] == "s/newer") {
						return
					}
					w.Viol("wrong", "the last call to %s gives %v: %v", feature, res, log)
					return
				}
				if n > limit {
					w.Viol("failed", "caller %d can't reach a living carrier of %s: %v: %v", k, feature, err, log)
					return
				}
			}
		})
		if !ok {
			w.Viol("hang", "the last call to %s hangs: %v\n%s", feature, log, Dump())
			return
		}
	}
	w.Count("carriers that died", len(seq))
	for _, g := range failed {
		w.Count("calls failed", int(g))
	}
	w.Sample("points %v, older carrier %v: %v", seq, older, log)
	for _, m := range all {
		m.die()
		m.Hub.Close()
		for _, c := range m.Conns() {
			c.Close()
		}
	}
}

// lossCut breaks the connections between real docks again and again.
func (w *W) lossCut() {
	h := w.fakeHub(20)
	net := w.proxyNet(0, 0)
	cuttable := map[string]bool{}
	var cmu sync.Mutex
	h.Route = func(addr string) string {
		cmu.Lock()
		c := cuttable[addr]
		cmu.Unlock()
		if c {
			return net.Route(addr)
		}
		return addr
	}
	led := newLedger()
	target := w.newEcho("cut", led)
	if !w.startEchos(h.Addr, "cut", target) {
		return
	}
	for _, c := range h.Conns() {
		cmu.Lock()
		cuttable[fmt.Sprintf("127.0.0.1:%d", c.port)] = true
		cmu.Unlock()
	}
	side := w.newEcho("bystander", newLedger())
	es := []*Echo{}
	if !w.startEchos(h.Addr, "bystander", side) {
		return
	}
	for i := 0; i < 2; i++ {
		e := w.newEcho(fmt.Sprint("caller", i), newLedger())
		if !w.startEchos(h.Addr, e.name, e) {
			return
		}
		es = append(es, e)
	}
	gs := 6
	var stop, ids, progress, cuts int64
	var mu sync.Mutex
	issued := map[int64]bool{} // -> succeeded
	finished := make(chan bool, 1)
	go func() {
		finished <- w.GroupProgress(gs, &progress, func(g int) {
			r := w.R(1000 + g)
			e := es[g%2]
			since, fails := int64(0), 0
			for atomic.LoadInt64(&stop) == 0 && !w.Bad() {
				id := atomic.AddInt64(&ids, 1)
				name, isSide := "cut", g >= 4
				if isSide {
					name = "bystander"
				}
				err, wrong := w.callEcho(e.theSlot(), name, id, r.Intn(5), r.Intn(3000))
				atomic.AddInt64(&progress, 1)
				w.Eval(1)
				if wrong != "" {
					w.Viol("wrong", "call %d: %s", id, wrong)
				}
				if isSide {
					if err != nil {
						w.Viol("collateral", "a call over a connection that was not cut fails: %v", err)
					}
					continue
				}
				mu.Lock()
				issued[id] = err == nil
				mu.Unlock()
				now := atomic.LoadInt64(&cuts)
				if err == nil {
					w.State("good %d after %d", min(int(now), 50), fails)
					since, fails = now, 0
					continue
				}
				if now == since {
					fails++
				} else {
					since, fails = now, 1
				}
				if now == 0 || fails > 30 {
					w.Viol("failed", "call %d fails with %v, %d in a row although connections were cut only %d times", id, err, fails, now)
				}
				w.Count("calls failed", 1)
				w.State("fail %d %d", min(int(now), 50), fails)
			}
		})
	}()
	r := w.R(1)
	for i := 0; i < w.N && !w.Bad(); i++ {
		before := atomic.LoadInt64(&progress)
		w.AwaitN(200, func() bool { return atomic.LoadInt64(&progress) > before+int64(r.Intn(300)) })
		time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
		atomic.AddInt64(&cuts, 1)
		net.mu.Lock()
		ps := []*Proxy{}
		for _, p := range net.m {
			ps = append(ps, p)
		}
		net.mu.Unlock()
		for _, p := range ps {
			p.Cut(r.Intn(2) == 0)
		}
		w.Count("cuts", 1)
	}
	// Calls get through again after the last cut.
	before := atomic.LoadInt64(&ids)
	if !w.Await(func() bool {
		if w.Bad() {
			return true
		}
		mu.Lock()
		defer mu.Unlock()
		for id := atomic.LoadInt64(&ids); id > before; id-- {
			if issued[id] {
				return true
			}
		}
		return false
	}) {
		w.Viol("hang", "no call succeeds any more after %d cuts\n%s", cuts, Dump())
	}
	atomic.StoreInt64(&stop, 1)
	if !<-finished {
		w.Viol("hang", "calls hang after %d cuts\n%s", cuts, Dump())
		return
	}
	w.Sleep(10) // what was requested before a cut may still run
	led.mu.Lock()
	defer led.mu.Unlock()
	for id, n := range led.execs {
		good, known := issued[id]
		if !known || n > 1 {
			w.Viol("twice", "call %d (made: %v, successful: %v) has run %d times", id, known, good, n)
			return
		}
	}
	for id, good := range issued {
		if good && led.execs[id] != 1 {
			w.Viol("count", "successful call %d has run %d times", id, led.execs[id])
			return
		}
	}
	w.Sample("%d calls, %d cuts", ids, cuts)
}

// lossKill kills processes that carry the feature, others take over.
func (w *W) lossKill() {
	hub := w.startHub(100)
	es := w.callers(hub, 2)
	if es == nil {
		return
	}
	r := w.R(0)
	var ids, progress, kills, stop int64
	var nodes []*Node
	n := 0
	spawn := func() bool {
		nd := w.node(0)
		n++
		nd.Dock(hub, fmt.Sprint("k", n), "killed")
		if !nd.Started("killed") {
			return false
		}
		nodes = append(nodes, nd)
		return true
	}
	defer func() {
		for _, nd := range nodes {
			nd.Kill()
		}
	}()
	if !spawn() || !spawn() {
		return
	}
	var mu sync.Mutex
	issued := map[int64]bool{}
	finished := make(chan bool, 1)
	gs := 5
	go func() {
		finished <- w.GroupProgress(gs, &progress, func(g int) {
			rr := w.R(100 + g)
			e := es[g%2]
			since, fails := int64(0), 0
			for atomic.LoadInt64(&stop) == 0 && !w.Bad() {
				id := atomic.AddInt64(&ids, 1)
				err, wrong := w.callEcho(e.theSlot(), "killed", id, rr.Intn(5), rr.Intn(2000))
				atomic.AddInt64(&progress, 1)
				w.Eval(1)
				mu.Lock()
				issued[id] = err == nil
				mu.Unlock()
				if wrong != "" {
					w.Viol("wrong", "call %d: %s", id, wrong)
				}
				now := atomic.LoadInt64(&kills)
				if err == nil {
					w.State("good %d %d", now, fails)
					since, fails = now, 0
					continue
				}
				w.Count("calls failed", 1)
				w.State("fail %d %d", now, fails)
				if now == since {
					fails++
				} else {
					since, fails = now, 1
				}
				if now == 0 || fails > 30 {
					w.Viol("failed", "call %d fails with %v, %d in a row after %d kills", id, err, fails, now)
				}
			}
		})
	}()
	for i := 0; i < w.N && !w.Bad(); i++ {
		before := atomic.LoadInt64(&progress)
		w.AwaitN(200, func() bool { return atomic.LoadInt64(&progress) > before+int64(r.Intn(500)) })
		// A call that is being executed when its process dies.
		held := make(chan error, 1)
		go func() { _, err := es[0].theSlot().CallWithResult("killed", "Hold", int64(1e12)+int64(i)); held <- err }()
		// The feature that holds is busy now, calls to it wait. Kill it, and
		// maybe others.
		holder := -1
		if !w.Await(func() bool {
			for k, nd := range nodes {
				if rep, ok := nd.Do(Cmd{Op: "held", Name: "killed"}); ok && rep.N > 0 {
					holder = k
					return true
				}
			}
			return w.Bad()
		}) {
			w.Viol("hang", "a call is not executed although there are carriers\n%s", Dump())
			return
		}
		if holder < 0 {
			return
		}
		var left []*Node
		for k, nd := range nodes {
			if k == holder || r.Intn(3) == 0 {
				atomic.AddInt64(&kills, 1)
				nd.Kill()
				w.Count("processes killed", 1)
			} else {
				left = append(left, nd)
			}
		}
		nodes = left
		var err error
		if !w.Await(func() bool {
			select {
			case err = <-held:
				return true
			default:
				return false
			}
		}) {
			w.Viol("hang", "a call executed by a process that was killed does not return\n%s", Dump())
			return
		}
		if err == nil {
			w.Viol("invented", "a call that was never answered succeeds")
			return
		}
		w.State("kill %d %d", holder, len(left))
		for len(nodes) < 2 {
			if !spawn() {
				return
			}
		}
		// Somebody serves again.
		from := atomic.LoadInt64(&ids)
		if !w.Await(func() bool {
			if w.Bad() {
				return true
			}
			mu.Lock()
			defer mu.Unlock()
			for id := atomic.LoadInt64(&ids); id > from; id-- {
				if issued[id] {
					return true
				}
			}
			return false
		}) {
			w.Viol("hang", "no call succeeds after a kill, although there are carriers\n%s", Dump())
			return
		}
	}
	atomic.StoreInt64(&stop, 1)
	if !<-finished {
		w.Viol("hang", "calls hang\n%s", Dump())
		return
	}
	execs := map[int64]int{}
	for _, nd := range nodes {
		rep, _ := nd.Do(Cmd{Op: "ledger"})
		for id, c := range rep.Execs {
			execs[id] += c
		}
	}
	for id, c := range execs {
		if c > 1 {
			w.Viol("twice", "call %d has run %d times", id, c)
		}
	}
	w.Sample("%d calls, %d kills", ids, kills)
}

// lossHub takes the hub away.
func (w *W) lossHub(round int, r *rand.Rand) {
	// A hub that goes before it has answered.
	if r.Intn(2) == 0 {
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", w.hubPort()))
		if err != nil {
			fail("%v", err)
		}
		e := w.newEcho(fmt.Sprint("orphan", round), newLedger())
		w.startDock(l.Addr().String(), "orphan", w.carryEcho(e, true))
		c, err := l.Accept()
		if err == nil {
			// Once it has registered the dock is connected for sure.
			k := r.Intn(4)
			if k > 0 {
				newPeer(w, c, 1, nil).AwaitGot(pRegReq, 1)
			}
			switch k {
			case 2:
				c.Write(encPacket(r, pRegResp, 1234)[:5])
			case 3:
				c.Write(encPacket(r, pError, "no"))
			}
			if k > 0 && r.Intn(2) == 0 {
				c.(*net.TCPConn).SetLinger(0)
			}
			c.Close()
		}
		l.Close()
	}
	var hubNode *Node
	var hub string
	var fake *FakeHub
	if r.Intn(2) == 0 {
		hubNode = w.node(0)
		hub = hubNode.Hub(w.block(8), 8)
		if hub == "" {
			return
		}
	} else {
		fake = w.fakeHub(8)
		hub = fake.Addr
	}
	a := w.newEcho(fmt.Sprint("a", round), newLedger())
	b := w.newEcho(fmt.Sprint("b", round), newLedger())
	if !w.startEchos(hub, a.name, a) || !w.startEchos(hub, b.name, b) {
		return
	}
	base := int64(round) * 1000
	if err, wrong := w.callEcho(a.theSlot(), b.name, base, 0, 0); err != nil || wrong != "" {
		w.Viol("failed", "call before the loss: %v %s", err, wrong)
		return
	}
	k := 1 + r.Intn(5)
	errs := make(chan error, 2*k)
	for i := 0; i < k; i++ {
		i := i
		go func() {
			if i%2 == 0 {
				errs <- a.theSlot().Call(fmt.Sprint("absent", i), "Void", int64(i))
			} else {
				_, err := a.theSlot().CallWithResult(fmt.Sprint("absent", i), "Mix", int64(i), "x")
				errs <- err
			}
		}()
	}
	held := make(chan error, 1)
	go func() {
		_, err := a.theSlot().CallWithResult(b.name, "Hold", base+1)
		held <- err
	}()
	if !w.Await(func() bool { return atomic.LoadInt64(&b.held) > 0 && (fake == nil || fake.Queries() > k) }) {
		w.Viol("hang", "the call that is to wait does not run\n%s", Dump())
		return
	}
	w.Sleep(int64(r.Intn(4)))
	if hubNode != nil {
		hubNode.Kill()
	} else {
		fake.l.Close()
		for _, c := range fake.Conns() {
			if t, ok := c.p.Conn.(*net.TCPConn); ok && r.Intn(2) == 0 {
				t.SetLinger(0)
			}
			c.p.Close()
		}
	}
	for i := 0; i < k; i++ {
		var err error
		ok := w.Await(func() bool {
			select {
			case err = <-errs:
				return true
			default:
				return false
			}
		})
		if !ok {
			w.Viol("hang", "a call waiting for the hub does not return although the hub is lost\n%s", Dump())
			return
		}
		if err == nil {
			w.Viol("invented", "a call to a feature that does not exist succeeds")
			return
		}
		w.Eval(1)
	}
	select {
	case err := <-held:
		w.Viol("collateral", "a call to a connected dock ends with %v when the hub is lost", err)
		return
	default:
	}
	close(b.gate)
	var err error
	if !w.Await(func() bool {
		select {
		case err = <-held:
			return true
		default:
			return false
		}
	}) || err != nil {
		w.Viol("collateral", "a call to a connected dock, made before the hub is lost, gives %v\n%s", err, Dump())
		return
	}
	ok := w.Group(2, func(g int) {
		from, to := a, b
		if g == 1 {
			// b knows a by the connection a has made.
			from, to = b, a
		}
		for i := 0; i < 20; i++ {
			w.Eval(1)
			if err, wrong := w.callEcho(from.theSlot(), to.name, base+10+int64(g*100+i), i, 100); err != nil || wrong != "" {
				w.Viol("collateral", "a call from %s to %s, which are connected, gives %v %s after the hub is lost", from.name, to.name, err, wrong)
				return
			}
		}
	})
	if !ok {
		w.Viol("hang", "calls between connected docks hang after the hub is lost\n%s", Dump())
		return
	}
	// Nobody can be asked for other features any more.
	ok = w.Group(4, func(g int) {
		from := []*Echo{a, b}[g%2]
		for i := 0; i < 5; i++ {
			w.Eval(1)
			var err error
			if (g+i)%3 == 0 {
				err = from.theSlot().Call(fmt.Sprint("nowhere", i), "Void", int64(i))
			} else {
				_, err = from.theSlot().CallWithResult(fmt.Sprint("nowhere", i%2), "Mix", int64(i), "x")
			}
			if err == nil {
				w.Viol("invented", "a call to a feature that does not exist succeeds after the hub is lost")
				return
			}
		}
	})
	if !ok {
		w.Viol("hang", "a call made after the hub is lost, to a feature nobody carries, does not return\n%s", Dump())
		return
	}
	w.State("hub %v %d %d", hubNode != nil, k, r.Intn(2))
	w.Count("hubs lost", 1)
}

// lossClose closes a process of docks while calls wait.
func (w *W) lossClose(round int, r *rand.Rand) {
	h := w.fakeHub(8)
	silent := w.fakeDock("", h.Addr, []string{"silent"}, nil)
	silent.Ready()
	nd := w.node(0)
	defer nd.Kill()
	nd.Dock(h.Addr, "closing", "mine")
	if !nd.Started("mine") {
		return
	}
	k := 1 + r.Intn(4)
	var reps []chan Reply
	for i := 0; i < k; i++ {
		reps = append(reps, nd.Go(Cmd{Op: "raw", Name: "mine", Names: []string{"silent", "Mix"}, Base: int64(i)}))
		reps = append(reps, nd.Go(Cmd{Op: "raw", Name: "mine", Names: []string{"absent", "Mix"}, Base: int64(i)}))
	}
	if !w.Await(func() bool {
		n := 0
		for _, c := range silent.Conns() {
			n += len(c.Got(pRpcReq))
		}
		return n == k && h.Queries() > k
	}) {
		w.Viol("hang", "requests of %d calls do not arrive\n%s", k, nd.Stacks())
		return
	}
	stop := int32(0)
	if r.Intn(2) == 0 {
		// Peers keep talking while it closes.
		go func() {
			for atomic.LoadInt32(&stop) == 0 {
				for _, c := range silent.Conns() {
					c.Put(pRegReq, []string{"silent", "other"})
					c.Put(pReady, []string{"silent", "absent"})
				}
			}
		}()
	}
	w.Sleep(int64(r.Intn(4)))
	nd.Do(Cmd{Op: "close"})
	for _, c := range reps {
		rep, ok := nd.Get(c)
		if !ok {
			w.Viol("hang", "a call does not return although its dock is closed\n%s", nd.Stacks())
			return
		}
		w.Eval(1)
		if rep.Err == "" {
			w.Viol("invented", "a call nobody has answered succeeds")
			return
		}
	}
	for i := 0; i < 4; i++ {
		// Whoever is asked, there is no connection any more.
		name := []string{"silent", "absent", "other", "silent"}[i]
		rep, ok := nd.Get(nd.Go(Cmd{Op: "raw", Name: "mine", Names: []string{name, "Mix"}, Base: 77}))
		if !ok {
			w.Viol("hang", "a call to %s made after Close does not return\n%s", name, nd.Stacks())
			return
		}
		w.Eval(1)
		if rep.Err == "" {
			w.Viol("invented", "a call nobody has answered succeeds after Close")
			return
		}
	}
	atomic.StoreInt32(&stop, 1)
	w.State("close %d", k)
	w.Count("docks closed", 1)
	silent.Kill()
}

// lossBlack has a dock at an address that does not answer at all.
func (w *W) lossBlack() {
	// A socket whose queue of connections is full drops requests to connect.
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		fail("%v", err)
	}
	defer syscall.Close(fd)
	port := w.hubPort()
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Port: port, Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		fail("%v", err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		fail("%v", err)
	}
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	full := false
	for i := 0; i < 10 && !full; i++ {
		c, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
		if err != nil {
			full = true
		} else {
			defer c.Close()
		}
	}
	if !full {
		w.Count("no address that drops connection requests", 1)
		w.Eval(1)
		w.State("black none")
		return
	}
	h := w.fakeHub(8)
	h.Answer = func(p *Peer, slot string) (string, bool) {
		if strings.HasPrefix(slot, "black") {
			return addr, true
		}
		return "", false
	}
	a, b := w.newEcho("a", newLedger()), w.newEcho("b", newLedger())
	if !w.startEchos(h.Addr, "a", a) || !w.startEchos(h.Addr, "b", b) {
		return
	}
	for i := 0; i < 3; i++ {
		i := i
		go a.theSlot().Call(fmt.Sprint("black", i), "Void", int64(i))
	}
	if !w.Await(func() bool { return h.Queries() >= 3 }) {
		w.Viol("hang", "queries do not reach the hub\n%s", Dump())
		return
	}
	w.Sleep(10)
	ok := w.Group(4, func(g int) {
		for i := 0; i < 10; i++ {
			w.Eval(1)
			w.State("black %d %d", g, i)
			if err, wrong := w.callEcho(a.theSlot(), "b", int64(1000+g*100+i), i, 100); err != nil || wrong != "" {
				w.Viol("collateral", "a call to a dock that is well gives %v %s while another one does not answer", err, wrong)
				return
			}
		}
	})
	if !ok {
		w.Viol("hang", "calls to a dock that is well hang while another one does not answer\n%s", Dump())
	}
}
