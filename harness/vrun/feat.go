package main

// Features that record what happens to them.

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"

	"github.com/muguangyi/ferry"
)

func exit() { os.Exit(0) }

// Ledger keeps the executions of calls, which are told apart by their ids.
type Ledger struct {
	mu    sync.Mutex
	execs map[int64]int
	trace uint64 // hash of the order of executions
}

func newLedger() *Ledger { return &Ledger{execs: map[int64]int{}} }

func (l *Ledger) Add(id int64) {
	l.mu.Lock()
	l.execs[id]++
	l.trace = (l.trace ^ uint64(id)) * 0x100000001b3
	l.mu.Unlock()
}

func (l *Ledger) Count(id int64) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.execs[id]
}

func (l *Ledger) Len() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.execs)
}

// Base is a feature with callbacks for the life cycle.
type Base struct {
	name    string
	led     *Ledger
	slot    ferry.ISlot
	smu     sync.Mutex
	started int64
	ended   int64
	busy    int64
	plain   int64 // never locked, as calls of a feature must not overlap
	onStart func(s ferry.ISlot)
	onEnd   func(s ferry.ISlot)
	overlap func(name string)
}

func (b *Base) OnStart(s ferry.ISlot) {
	b.smu.Lock()
	b.slot = s
	b.smu.Unlock()
	atomic.AddInt64(&b.started, 1)
	if b.onStart != nil {
		b.onStart(s)
	}
}

func (b *Base) OnDestroy(s ferry.ISlot) {
	atomic.AddInt64(&b.ended, 1)
	if b.onEnd != nil {
		b.onEnd(s)
	}
}

func (b *Base) enter() {
	if atomic.AddInt64(&b.busy, 1) != 1 && b.overlap != nil {
		b.overlap(b.name)
	}
	b.probe()
}
func (b *Base) probe() { b.plain++ }

func (b *Base) leave() { atomic.AddInt64(&b.busy, -1) }

func (b *Base) theSlot() ferry.ISlot { b.smu.Lock(); defer b.smu.Unlock(); return b.slot }

// Echo is the feature most workloads call. Results are derived from the
// arguments, so that a result tells which call it belongs to.
type Echo struct {
	Base
	gate chan struct{} // Hold waits for it
	held int64
}

func (e *Echo) Mix(id int64, s string) (int64, string) {
	e.enter()
	defer e.leave()
	e.led.Add(id)
	return mix(id), s + "/" + e.name
}

func (e *Echo) Void(id int64) {
	e.enter()
	defer e.leave()
	e.led.Add(id)
}

func (e *Echo) Blob(id int64, b string) (string, int64) {
	e.enter()
	defer e.leave()
	e.led.Add(id)
	return b, mix(id)
}

func (e *Echo) List(id int64, l []int64) ([]int64, map[string]int64) {
	e.enter()
	defer e.leave()
	e.led.Add(id)
	r := make([]int64, len(l))
	for i, v := range l {
		r[len(l)-1-i] = v
	}
	return r, map[string]int64{"id": id, "n": int64(len(l))}
}

func (e *Echo) Hold(id int64) int64 {
	e.enter()
	defer e.leave()
	e.led.Add(id)
	atomic.AddInt64(&e.held, 1)
	<-e.gate
	return mix(id)
}

func mix(id int64) int64 {
	x := uint64(id) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	return int64(x * 0xbf58476d1ce4e5b9)
}

var echoMethods = []string{"Mix", "Void", "Blob", "List", "Hold"}

func (w *W) newEcho(name string, led *Ledger) *Echo {
	e := &Echo{gate: make(chan struct{})}
	e.name, e.led = name, led
	e.overlap = func(n string) { w.Viol("overlap", "two calls of feature %s run at the same time\n%s", n, Dump()) }
	return e
}

// carry wraps a feature whose methods may take as long as they like.
func carryLong(name string, f interface{}, discoverable bool, methods ...string) ferry.ISlot {
	s := ferry.Carry(name, f, discoverable)
	for _, m := range methods {
		s.SetTimeout(m, 3600)
	}
	return s
}

func (w *W) carryEcho(e *Echo, discoverable bool) ferry.ISlot {
	return carryLong(e.name, e, discoverable, echoMethods...)
}

// startDock runs a real dock in this process and waits until its features are
// started.
func (w *W) startDock(hub, name string, slots ...ferry.ISlot) {
	go ferry.Startup(hub, name, slots...)
}

// startEchos runs a dock with echo features and waits for them to be started.
func (w *W) startEchos(hub, name string, es ...*Echo) bool {
	slots := make([]ferry.ISlot, len(es))
	for i, e := range es {
		slots[i] = w.carryEcho(e, true)
	}
	w.startDock(hub, name, slots...)
	if !w.Await(func() bool {
		for _, e := range es {
			if e.theSlot() == nil {
				return false
			}
		}
		return true
	}) {
		w.Viol("hang", "the features of dock %s are not started\n%s", name, Dump())
		return false
	}
	return true
}

// fixed-size call results compare
func asInt(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int8:
		return int64(x), true
	case int16:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	case int:
		return int64(x), true
	}
	return 0, false
}

// callEcho makes one call of a random method and judges its result.
func (w *W) callEcho(s ferry.ISlot, target string, id int64, k int, size int) (err error, wrong string) {
	check := func(res []interface{}, want ...interface{}) string {
		if len(res) != len(want) {
			return fmt.Sprintf("%d results instead of %d: %v", len(res), len(want), short(canon(res, false)))
		}
		for i := range want {
			if canon(res[i], false) != canon(want[i], false) {
				return fmt.Sprintf("result %d is %s, not %s", i, short(canon(res[i], false)), short(canon(want[i], false)))
			}
		}
		return ""
	}
	switch k % 5 {
	case 0:
		a := fmt.Sprintf("a%d", id)
		res, err := s.CallWithResult(target, "Mix", id, a)
		if err != nil {
			return err, ""
		}
		return nil, check(res, mix(id), a+"/"+target)
	case 1:
		return s.Call(target, "Void", id), ""
	case 2:
		b := blob(id, size)
		res, err := s.CallWithResult(target, "Blob", id, b)
		if err != nil {
			return err, ""
		}
		return nil, check(res, b, mix(id))
	case 3:
		l := []int64{id, id * 3, -id, 7}
		res, err := s.CallWithResult(target, "List", id, l)
		if err != nil {
			return err, ""
		}
		return nil, check(res, []int64{7, -id, id * 3, id}, map[string]int64{"id": id, "n": 4})
	}
	return s.Call(target, "Mix", id, "x"), ""
}

// blob makes a payload that tells which call it belongs to.
func blob(id int64, size int) string {
	b := make([]byte, size)
	x := uint64(id)*2654435761 + 12345
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
	}
	return string(b)
}
