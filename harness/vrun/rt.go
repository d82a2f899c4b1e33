package main

// Worker side runtime: what a scenario uses to report, to count and to wait.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Job describes one worker process run. It is what a replay file stores.
type Job struct {
	Prop     string           `json:"prop"`
	Scenario string           `json:"scenario"`
	Seed     int64            `json:"seed"`
	N        int              `json:"n"`
	P        map[string]int64 `json:"p,omitempty"`
	Race     bool             `json:"race"`
	Procs    int              `json:"procs,omitempty"`  // GOMAXPROCS
	NoFile   uint64           `json:"nofile,omitempty"` // RLIMIT_NOFILE
	Slot     int              `json:"slot"`             // port partition, set by the parent
	Timeout  int              `json:"timeout,omitempty"`
}

type msg struct {
	T      string   `json:"t"`
	Kind   string   `json:"kind,omitempty"`
	Detail string   `json:"detail,omitempty"`
	K      string   `json:"k,omitempty"`
	N      int64    `json:"n,omitempty"`
	H      []uint64 `json:"h,omitempty"`
	S      string   `json:"s,omitempty"`
}

// W is the context of a scenario.
type W struct {
	Job
	*rand.Rand
	mu      sync.Mutex
	out     *bufio.Writer
	viols   int
	counts  map[string]int64
	evals   int64
	states  map[uint64]bool
	sent    map[uint64]bool
	samples int
	ticks   int64
	tmp     string
}

const maxViols = 4

func newW(job Job, out io.Writer) *W {
	w := &W{Job: job, Rand: rand.New(rand.NewSource(job.Seed*1000003 + 17)), out: bufio.NewWriter(out),
		counts: map[string]int64{}, states: map[uint64]bool{}, sent: map[uint64]bool{}}
	return w
}

// R makes an independent generator, as rand.Rand must not be shared.
func (w *W) R(i int) *rand.Rand {
	return rand.New(rand.NewSource(w.Job.Seed*7919 + int64(i)*104729 + 5))
}

func (w *W) p(name string, def int64) int64 {
	if v, ok := w.P[name]; ok {
		return v
	}
	return def
}

func (w *W) send(m msg) {
	b, _ := json.Marshal(m)
	w.out.Write(b)
	w.out.WriteByte('\n')
	w.out.Flush()
}

// Viol reports a violation of the property.
func (w *W) Viol(kind, format string, a ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.viols++
	if w.viols > maxViols {
		return
	}
	d := fmt.Sprintf(format, a...)
	if len(d) > 20000 {
		d = d[:20000] + "..."
	}
	w.send(msg{T: "viol", Kind: kind, Detail: d})
}

// Bad tells whether enough violations were seen to stop.
func (w *W) Bad() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.viols > 0
}

func (w *W) Eval(n int) { atomic.AddInt64(&w.evals, int64(n)) }

func (w *W) Count(k string, n int) {
	w.mu.Lock()
	w.counts[k] += int64(n)
	w.mu.Unlock()
}

func (w *W) Max(k string, n int) {
	w.mu.Lock()
	if w.counts["max "+k] < int64(n) {
		w.counts["max "+k] = int64(n)
	}
	w.mu.Unlock()
}

// State records a distinct non-trivial case or state.
func (w *W) State(format string, a ...interface{}) {
	h := fnv.New64a()
	if len(a) > 0 {
		fmt.Fprintf(h, format, a...)
	} else {
		h.Write([]byte(format))
	}
	s := h.Sum64()
	w.mu.Lock()
	if len(w.states) < 400000 {
		w.states[s] = true
	}
	w.mu.Unlock()
}

func (w *W) Sample(format string, a ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.samples >= 2 {
		return
	}
	w.samples++
	s := fmt.Sprintf(format, a...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	w.send(msg{T: "sample", S: s})
}

func (w *W) finish() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for k, v := range w.counts {
		w.send(msg{T: "count", K: k, N: v})
	}
	hs := make([]uint64, 0, len(w.states))
	for h := range w.states {
		hs = append(hs, h)
	}
	for len(hs) > 0 {
		n := len(hs)
		if n > 2000 {
			n = 2000
		}
		w.send(msg{T: "states", H: hs[:n]})
		hs = hs[n:]
	}
	w.send(msg{T: "done", N: atomic.LoadInt64(&w.evals)})
}

// heartbeat counts logical ticks. A tick is a short sleep and a round trip over
// a loopback connection of this very process, so a starved process has starved
// ticks, too: waiting for ticks does not blame the code for a loaded machine.
func (w *W) heartbeat() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("heartbeat: %v", err)
	}
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		l.Close()
		b := make([]byte, 64) // io.Copy would use a pipe
		for {
			n, err := c.Read(b)
			if err != nil {
				return
			}
			c.Write(b[:n])
		}
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		fail("heartbeat: %v", err)
	}
	b := make([]byte, 1)
	go func() {
		for {
			time.Sleep(10 * time.Millisecond)
			c.Write(b)
			io.ReadFull(c, b)
			runtime.Gosched()
			atomic.AddInt64(&w.ticks, 1)
		}
	}()
}

func (w *W) Ticks() int64 { return atomic.LoadInt64(&w.ticks) }

// hangTicks is the bound on progress: what is due must happen within that many
// ticks (at least 20 seconds, more on a loaded machine).
const hangTicks = 2000

// Await waits until cond holds, and returns false if it still does not after
// hangTicks.
func (w *W) Await(cond func() bool) bool { return w.AwaitN(hangTicks, cond) }

func (w *W) AwaitN(n int64, cond func() bool) bool {
	end := w.Ticks() + n
	d := 100 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if w.Ticks() > end {
			return cond()
		}
		time.Sleep(d)
		if d < 5*time.Millisecond {
			d *= 2
		}
	}
}

// Done waits for a channel to be closed or sent to.
func (w *W) Done(c <-chan struct{}) bool {
	end := w.Ticks() + hangTicks
	for {
		select {
		case <-c:
			return true
		case <-time.After(50 * time.Millisecond):
			if w.Ticks() > end {
				select {
				case <-c:
					return true
				default:
				}
				return false
			}
		}
	}
}

// Sleep waits for n ticks.
func (w *W) Sleep(n int64) {
	end := w.Ticks() + n
	for w.Ticks() < end {
		time.Sleep(2 * time.Millisecond)
	}
}

// Group runs fs concurrently and waits for all; false if one hangs.
func (w *W) Group(n int, f func(i int)) bool {
	var wg sync.WaitGroup
	wg.Add(n)
	done := make(chan struct{})
	for i := 0; i < n; i++ {
		go func(i int) {
			defer wg.Done()
			f(i)
		}(i)
	}
	go func() { wg.Wait(); close(done) }()
	return w.Done(done)
}

// Wait is for a group of goroutines that make progress counted by *progress:
// it fails only if there is no progress for hangTicks.
func (w *W) GroupProgress(n int, progress *int64, f func(i int)) bool {
	var wg sync.WaitGroup
	wg.Add(n)
	done := make(chan struct{})
	for i := 0; i < n; i++ {
		go func(i int) {
			defer wg.Done()
			f(i)
		}(i)
	}
	go func() { wg.Wait(); close(done) }()
	last := atomic.LoadInt64(progress)
	end := w.Ticks() + hangTicks
	for {
		select {
		case <-done:
			return true
		case <-time.After(50 * time.Millisecond):
		}
		if now := atomic.LoadInt64(progress); now != last {
			last = now
			end = w.Ticks() + hangTicks
		} else if w.Ticks() > end {
			select {
			case <-done:
				return true
			default:
				return false
			}
		}
	}
}

// DumpAll returns the stacks of all goroutines at any length.
func DumpAll() string {
	b := make([]byte, 32<<20)
	return string(b[:runtime.Stack(b, true)])
}

// Dump returns the stacks of all goroutines.
func Dump() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	if len(b) > 12000 {
		b = b[:12000]
	}
	return string(b)
}

// fail reports an error of the harness itself.
func fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", a...)
	os.Exit(97)
}

var scenarios = map[string]func(w *W){}

func scenario(name string, f func(w *W)) { scenarios[name] = f }
