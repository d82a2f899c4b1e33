package main

// Child processes: a hub or docks in a process of their own, told what to do by
// lines of JSON.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/muguangyi/ferry"
)

// Cmd is a line to a node, Reply its answer.
type Cmd struct {
	Seq     int      `json:"seq"`
	Op      string   `json:"op"`
	Addr    string   `json:"addr,omitempty"`
	Name    string   `json:"name,omitempty"`
	Names   []string `json:"names,omitempty"`
	Targets []string `json:"targets,omitempty"`
	Black   []int    `json:"black,omitempty"`
	First   int      `json:"first,omitempty"` // block of ports, if not 0
	N       int      `json:"n,omitempty"`
	G       int      `json:"g,omitempty"`
	Size    int      `json:"size,omitempty"`
	Base    int64    `json:"base,omitempty"`
	Seed    int64    `json:"seed,omitempty"`
	Hidden  bool     `json:"hidden,omitempty"`
	Nap     int64    `json:"nap,omitempty"`
}

type Reply struct {
	Seq    int           `json:"seq"`
	Err    string        `json:"err,omitempty"`
	N      int           `json:"n"`
	Wrong  []string      `json:"wrong,omitempty"`
	Failed []int64       `json:"failed,omitempty"`
	Issued []int64       `json:"issued,omitempty"`
	Execs  map[int64]int `json:"execs,omitempty"`
	Counts []int64       `json:"counts,omitempty"`
	Res    Usage         `json:"res"`
}

// Usage is what a process holds.
type Usage struct {
	Goroutines int    `json:"g"`
	Fds        int    `json:"fd"`
	Heap       uint64 `json:"heap"`
	CPU        int64  `json:"cpu"` // ns
}

func usage() Usage {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return Usage{Goroutines: runtime.NumGoroutine(), Fds: countFds(), Heap: m.HeapAlloc, CPU: cpuTime()}
}

func countFds() int {
	ents, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

func cpuTime() int64 {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return r.Utime.Nano() + r.Stime.Nano()
}

func node(args []string) {
	w := newW(Job{Seed: 1}, ioutil.Discard)
	if len(args) > 0 {
		var lim uint64
		fmt.Sscan(args[0], &lim)
		if lim > 0 {
			syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: lim, Max: lim})
		}
	}
	w.heartbeat()
	led := newLedger()
	var mu sync.Mutex
	feats := map[string]*Echo{}
	toils := map[string]*Toil{}
	var returned int64
	out := bufio.NewWriter(os.NewFile(3, "out"))
	var omu sync.Mutex
	reply := func(r Reply) {
		omu.Lock()
		defer omu.Unlock()
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	get := func(n string) *Echo { mu.Lock(); defer mu.Unlock(); return feats[n] }
	sc := bufio.NewScanner(os.NewFile(0, "in"))
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var c Cmd
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			fail("node: %v", err)
		}
		r := Reply{Seq: c.Seq}
		switch c.Op {
		case "hub":
			black := c.Black
			if c.First > 0 {
				black = blackExcept(c.First, c.N)
			}
			go func(r Reply) {
				go func() { ferry.Serve(c.Addr, black...); atomic.AddInt64(&returned, 1) }()
				if !w.Await(func() bool { return canDial(c.Addr) }) {
					r.Err = "hub does not listen"
				}
				reply(r)
			}(r)
			continue
		case "dock":
			var slots []ferry.ISlot
			mu.Lock()
			for _, n := range c.Names {
				e := w.newEcho(n, led)
				e.overlap = func(n string) { fmt.Fprintf(os.Stderr, "OVERLAP %s\n", n) }
				feats[n] = e
				slots = append(slots, w.carryEcho(e, !c.Hidden))
			}
			mu.Unlock()
			go func() { ferry.Startup(c.Addr, c.Name, slots...); atomic.AddInt64(&returned, 1) }()
		case "toil": // a dock with features for work of all kinds
			var slots []ferry.ISlot
			mu.Lock()
			for _, n := range c.Names {
				t := &Toil{}
				t.name = n
				toils[n] = t
				slots = append(slots, carryToil(t))
			}
			mu.Unlock()
			go ferry.Startup(c.Addr, c.Name, slots...)
		case "toiling":
			mu.Lock()
			for _, n := range c.Names {
				if t := toils[n]; t != nil && atomic.LoadInt64(&t.started) > 0 {
					r.N++
				}
			}
			mu.Unlock()
		case "work":
			go func(c Cmd, r Reply) {
				mu.Lock()
				t := toils[c.Name]
				mu.Unlock()
				r.Wrong, r.Counts = t.work(c)
				reply(r)
			}(c, r)
			continue
		case "stacks": // goroutines that are in code of the given name
			r.N = goroutinesIn(c.Name)
		case "count":
			r.Res = Usage{Goroutines: runtime.NumGoroutine(), Fds: countFds(), CPU: cpuTime()}
		case "returned":
			r.N = int(atomic.LoadInt64(&returned))
		case "started":
			for _, n := range c.Names {
				if e := get(n); e != nil {
					r.Counts = append(r.Counts, atomic.LoadInt64(&e.started), atomic.LoadInt64(&e.ended))
				}
			}
		case "open": // opens the gate of Hold
			close(get(c.Name).gate)
		case "held":
			r.N = int(atomic.LoadInt64(&get(c.Name).held))
		case "calls":
			go func(c Cmd, r Reply) {
				var rmu sync.Mutex
				var wg sync.WaitGroup
				for k := 0; k < c.G; k++ {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						g := w.R(int(c.Seed)*100 + k)
						for i := 0; i < c.N; i++ {
							id := c.Base + int64(k)*100000 + int64(i)
							size := 1 + g.Intn(100)
							if g.Intn(8) == 0 {
								size = 1 + g.Intn(c.Size+1)
							}
							self := get(c.Names[g.Intn(len(c.Names))])
							err, wrong := w.callEcho(self.theSlot(), c.Targets[g.Intn(len(c.Targets))], id, g.Intn(5), size)
							rmu.Lock()
							r.Issued = append(r.Issued, id)
							r.N++
							if err != nil {
								r.Failed = append(r.Failed, id)
								if r.Err == "" {
									r.Err = err.Error()
								}
							}
							if wrong != "" && len(r.Wrong) < 5 {
								r.Wrong = append(r.Wrong, fmt.Sprintf("call %d: %s", id, wrong))
							}
							rmu.Unlock()
							if c.Nap > 0 {
								time.Sleep(time.Duration(g.Int63n(c.Nap)))
							}
						}
					}(k)
				}
				wg.Wait()
				reply(r)
			}(c, r)
			continue
		case "raw": // one call of any method
			go func(c Cmd, r Reply) {
				res, err := get(c.Name).theSlot().CallWithResult(c.Names[0], c.Names[1], c.Base)
				if err != nil {
					r.Err = err.Error()
				}
				r.Wrong = []string{canon(res, false)}
				reply(r)
			}(c, r)
			continue
		case "raw2": // the same by a work feature
			go func(c Cmd, r Reply) {
				mu.Lock()
				t := toils[c.Name]
				mu.Unlock()
				_, err := t.theSlot().CallWithResult(c.Names[0], c.Names[1], c.Base)
				if err != nil {
					r.Err = err.Error()
				}
				reply(r)
			}(c, r)
			continue
		case "fails": // calls of features that nobody carries and that can't be asked for
			go func(c Cmd, r Reply) {
				mu.Lock()
				t := toils[c.Name]
				mu.Unlock()
				var wg sync.WaitGroup
				var n int64
				for k := 0; k < c.G; k++ {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						for i := 0; i < c.N; i++ {
							var err error
							if i%2 == 0 {
								err = t.theSlot().Call(c.Targets[(i+k)%len(c.Targets)], "Add", i, k)
							} else {
								_, err = t.theSlot().CallWithResult(c.Targets[(i+k)%len(c.Targets)], "Add", i, k)
							}
							if err != nil {
								atomic.AddInt64(&n, 1)
							}
						}
					}(k)
				}
				wg.Wait()
				r.N = int(n)
				reply(r)
			}(c, r)
			continue
		case "wait": // calls nobody waits for
			mu.Lock()
			t := toils[c.Name]
			mu.Unlock()
			for i := 0; i < c.N; i++ {
				go t.theSlot().Call(c.Names[i%len(c.Names)], "Add", 1, 2)
			}
		case "ledger":
			led.mu.Lock()
			r.Execs = map[int64]int{}
			for id, n := range led.execs {
				r.Execs[id] = n
			}
			led.mu.Unlock()
		case "usage":
			r.Res = usage()
		case "close":
			ferry.Close()
		case "exit":
			reply(r)
			os.Exit(0)
		}
		reply(r)
	}
	os.Exit(0)
}

// Node is the parent's handle of a child.
type Node struct {
	w      *W
	name   string
	cmd    *exec.Cmd
	in     io.WriteCloser
	mu     sync.Mutex
	seq    int
	wait   map[int]chan Reply
	dead   chan struct{}
	killed int32
	errs   string
}

var nodeCount int64

func (w *W) node(nofile int) *Node {
	n := &Node{w: w, wait: map[int]chan Reply{}, dead: make(chan struct{})}
	n.name = fmt.Sprintf("node%d", atomic.AddInt64(&nodeCount, 1))
	exe, err := os.Executable()
	if err != nil {
		fail("%v", err)
	}
	n.cmd = exec.Command(exe, "node", fmt.Sprint(nofile))
	n.errs = filepath.Join(w.tmp, n.name+".err")
	f, err := os.Create(n.errs)
	if err != nil {
		fail("%v", err)
	}
	n.cmd.Stderr = f
	n.cmd.Stdout = f
	n.in, err = n.cmd.StdinPipe()
	if err != nil {
		fail("%v", err)
	}
	r, wr, err := os.Pipe()
	if err != nil {
		fail("%v", err)
	}
	n.cmd.ExtraFiles = []*os.File{wr}
	if err := n.cmd.Start(); err != nil {
		fail("%v", err)
	}
	wr.Close()
	f.Close()
	go func() {
		sc := bufio.NewScanner(r)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var m Reply
			if json.Unmarshal(sc.Bytes(), &m) != nil {
				continue
			}
			n.mu.Lock()
			c := n.wait[m.Seq]
			delete(n.wait, m.Seq)
			n.mu.Unlock()
			if c != nil {
				c <- m
			}
		}
		werr := n.cmd.Wait()
		if atomic.LoadInt32(&n.killed) == 0 {
			text := tail(n.errs)
			if harnessPanic(text) || strings.Contains(text, "HARNESS: ") {
				fail("%s: %s", n.name, text)
			}
			w.Viol("crash", "process %s of the code under test ended: %v\n%s", n.name, werr, firstCrash(text))
		}
		close(n.dead)
	}()
	return n
}

// Go sends a command; the reply comes on the channel.
func (n *Node) Go(c Cmd) chan Reply {
	ch := make(chan Reply, 1)
	n.mu.Lock()
	n.seq++
	c.Seq = n.seq
	n.wait[c.Seq] = ch
	b, _ := json.Marshal(c)
	n.in.Write(append(b, '\n'))
	n.mu.Unlock()
	return ch
}

// Do sends a command and waits for its reply.
func (n *Node) Do(c Cmd) (Reply, bool) { return n.Get(n.Go(c)) }

func (n *Node) Get(ch chan Reply) (Reply, bool) {
	end := n.w.Ticks() + 3*hangTicks
	for {
		select {
		case r := <-ch:
			return r, true
		case <-n.dead:
			select {
			case r := <-ch:
				return r, true
			default:
			}
			return Reply{}, false
		case <-time.After(50 * time.Millisecond):
			if n.w.Ticks() > end {
				return Reply{}, false
			}
		}
	}
}

func (n *Node) Dead() bool {
	select {
	case <-n.dead:
		return true
	default:
		return false
	}
}

// Kill ends the process at once.
func (n *Node) Kill() {
	atomic.StoreInt32(&n.killed, 1)
	n.cmd.Process.Kill()
	<-n.dead
}

// Stop, Cont pause the process.
func (n *Node) Stop() { n.cmd.Process.Signal(syscall.SIGSTOP) }
func (n *Node) Cont() { n.cmd.Process.Signal(syscall.SIGCONT) }

// Stacks makes the process print its goroutines and end.
func (n *Node) Stacks() string {
	atomic.StoreInt32(&n.killed, 1)
	n.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-n.dead:
	case <-time.After(3 * time.Second):
		n.cmd.Process.Kill()
		<-n.dead
	}
	b, _ := ioutil.ReadFile(n.errs)
	if i := strings.Index(string(b), "SIGQUIT"); i >= 0 {
		b = b[i:]
	}
	if len(b) > 8000 {
		b = b[:8000]
	}
	return string(b)
}

// Hub, Dock start a hub or a dock in the node.
func (n *Node) Hub(first, count int) string {
	addr := fmt.Sprintf("127.0.0.1:%d", n.w.hubPort())
	r, ok := n.Do(Cmd{Op: "hub", Addr: addr, First: first, N: count})
	if !ok || r.Err != "" {
		n.w.Viol("hang", "hub in a process of its own: %v %s\n%s", ok, r.Err, n.Stacks())
		return ""
	}
	return addr
}

func (n *Node) Dock(hub, name string, feats ...string) {
	n.Do(Cmd{Op: "dock", Addr: hub, Name: name, Names: feats})
}

// Started waits until all the features are.
func (n *Node) Started(feats ...string) bool {
	ok := n.w.Await(func() bool {
		r, ok := n.Do(Cmd{Op: "started", Names: feats})
		if !ok {
			return true
		}
		c := 0
		for i := 0; i < len(r.Counts); i += 2 {
			if r.Counts[i] > 0 {
				c++
			}
		}
		return c == len(feats)
	})
	if !ok {
		n.w.Viol("hang", "features %v are not started\n%s", feats, n.Stacks())
	}
	return ok && !n.Dead()
}
