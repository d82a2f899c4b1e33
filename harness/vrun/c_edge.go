package main

// Moments that other scenarios meet rarely or not at all: Close while a dock
// connects, arguments that change as soon as a call has returned.

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/muguangyi/ferry"
)

// deaf is an address whose queue of connections is full, so that requests to
// connect are dropped until it is drained.
type deaf struct {
	fd   int
	addr string
	port int
	fill []net.Conn
	mu   sync.Mutex
	got  []int // descriptors of accepted connections
	stop int64
}

func (w *W) deafAddr() *deaf {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		fail("%v", err)
	}
	d := &deaf{fd: fd, port: w.hubPort()}
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Port: d.port, Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		fail("%v", err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		fail("%v", err)
	}
	d.addr = fmt.Sprintf("127.0.0.1:%d", d.port)
	for i := 0; i < 10; i++ {
		c, err := net.DialTimeout("tcp", d.addr, 300*time.Millisecond)
		if err != nil {
			return d
		}
		d.fill = append(d.fill, c)
	}
	d.close()
	return nil
}

// connecting counts the connection requests to the address that wait.
func (d *deaf) connecting() int {
	n := 0
	f, err := os.Open("/proc/self/net/tcp")
	if err != nil {
		return 0
	}
	defer f.Close()
	to := fmt.Sprintf("0100007F:%04X", d.port)
	for s := bufio.NewScanner(f); s.Scan(); {
		if f := strings.Fields(s.Text()); len(f) > 3 && f[2] == to && f[3] == "02" {
			n++
		}
	}
	return n
}

// drain accepts all connections from now on.
func (d *deaf) drain() {
	syscall.SetNonblock(d.fd, true)
	for _, c := range d.fill {
		c.Close()
	}
	go func() {
		for atomic.LoadInt64(&d.stop) == 0 {
			fd, _, err := syscall.Accept4(d.fd, syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC)
			if err != nil {
				time.Sleep(time.Millisecond)
				continue
			}
			d.mu.Lock()
			d.got = append(d.got, fd)
			d.mu.Unlock()
		}
		d.mu.Lock()
		for _, fd := range d.got {
			syscall.Close(fd)
		}
		d.mu.Unlock()
		syscall.Close(d.fd)
	}()
}

// open counts the accepted connections that the other side has not closed.
func (d *deaf) open() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := 0
	b := make([]byte, 4096)
	for _, fd := range d.got {
		for {
			k, err := syscall.Read(fd, b)
			if err == syscall.EAGAIN {
				n++
			}
			if k <= 0 {
				break
			}
		}
	}
	return n
}

func (d *deaf) close() {
	for _, c := range d.fill {
		c.Close()
	}
	syscall.Close(d.fd)
}

func init() {
	// Close while docks wait for their connection to the hub.
	scenario("c18connect", func(w *W) {
		for round := 0; round < w.N && !w.Bad(); round++ {
			d := w.deafAddr()
			if d == nil {
				w.Count("no address that drops connection requests", 1)
				w.Eval(1)
				w.State("connect none")
				return
			}
			docks := 1 + w.Intn(4)
			var es []*Echo
			rec := &lives{}
			for i := 0; i < docks; i++ {
				var slots []ferry.ISlot
				for k := w.Intn(3); k >= 0; k-- {
					e := w.newEcho(fmt.Sprintf("W%d.%d.%d", round, i, k), newLedger())
					e.onStart = func(s ferry.ISlot) { rec.note("start %s", e.name) }
					e.onEnd = func(s ferry.ISlot) { rec.note("end %s", e.name) }
					es = append(es, e)
					slots = append(slots, w.carryEcho(e, w.Intn(4) > 0))
				}
				go ferry.Startup(d.addr, "waiting", slots...)
			}
			if !w.Await(func() bool { return d.connecting() >= docks }) {
				w.Count("docks that do not wait for the hub", 1)
				w.Eval(1)
				w.State("connect none")
				d.close()
				return
			}
			rec.note("close")
			closed := make(chan struct{})
			go func() { ferry.Close(); close(closed) }()
			if !w.Done(closed) {
				w.Viol("hang", "Close does not return while docks wait for their connection to the hub\n%s", Dump())
				return
			}
			judge := func(when string) {
				for _, e := range es {
					if n := atomic.LoadInt64(&e.ended); n != 1 {
						w.Viol("end", "%s: Close was called while %d docks waited for their connections, OnDestroy of %s is called %d times\n%s", when, docks, e.name, n, rec)
					}
				}
			}
			judge("after Close")
			d.drain()
			if !w.Await(func() bool { return d.connecting() == 0 && d.open() == 0 }) {
				w.Viol("port", "%d connections, made after Close to a hub that docks had waited for, stay open\n%s\n%s", d.open(), rec, Dump())
			}
			w.Sleep(2)
			judge("after the connection was made")
			ferry.Close()
			judge("after a second Close")
			w.Eval(len(es))
			w.Count("features closed while their dock connects", len(es))
			w.State("connect %d %d", docks, len(es))
			w.Sample("close while connecting: %s", rec)
			atomic.StoreInt64(&d.stop, 1)
		}
	})

	// The connection is lost while large arguments are being encoded. The call
	// has failed then, and its caller changes what it has given to it.
	scenario("c17mutate", func(w *W) {
		h := w.fakeHub(2*w.N + 4)
		a := w.newEcho("a", newLedger())
		if !w.startEchos(h.Addr, "a", a) {
			return
		}
		var lost, served int64
		for round := 0; round < w.N && !w.Bad(); round++ {
			name := fmt.Sprint("leaver", round)
			r := w.R(round)
			linked := make(chan *Peer, 4)
			d := w.fakeDock("", h.Addr, []string{name}, func(p *Peer, k Packet) {
				switch k.ID {
				case pReady, pRegReq:
					select {
					case linked <- p:
					default:
					}
				case pRpcReq:
					atomic.AddInt64(&served, 1)
				}
			})
			if d == nil {
				return
			}
			d.Ready()
			ints := make([]int32, 200000)
			strs := make([]string, 50000)
			list := make([]interface{}, 100000)
			dict := map[interface{}]interface{}{}
			for i := 0; i < 20000; i++ {
				dict[i] = "v"
			}
			done := make(chan bool, 3)
			for g := 0; g < 3; g++ {
				g := g
				go func() {
					defer func() { done <- true }()
					var err error
					if g == 0 {
						err = a.theSlot().Call(name, "Take", ints, strs)
					} else if g == 1 {
						_, err = a.theSlot().CallWithResult(name, "Take", list)
					} else {
						err = a.theSlot().Call(name, "Take", dict)
					}
					if err != nil {
						atomic.AddInt64(&lost, 1)
					}
					// They belong to the caller again.
					switch g {
					case 0:
						for i := range ints {
							ints[i] = 1
						}
						for i := range strs {
							strs[i] = "x"
						}
					case 1:
						for i := range list {
							list[i] = i
						}
					case 2:
						for i := 0; i < 20000; i++ {
							dict[i] = nil
						}
					}
				}()
			}
			var p *Peer
			select {
			case p = <-linked:
			case <-time.After(2 * time.Second):
			}
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
			if p != nil {
				p.Close()
			}
			d.Kill()
			// Calls that were not sent yet go to the next one.
			next := w.fakeDock("", h.Addr, []string{name}, func(p *Peer, k Packet) {
				if k.ID == pRpcReq {
					p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), []interface{}{}, "")
				}
			})
			if next == nil {
				return
			}
			next.Ready()
			ok := true
			for g := 0; g < 3 && ok; g++ {
				c := make(chan struct{})
				go func() { <-done; close(c) }()
				ok = w.Done(c)
			}
			if !ok {
				w.Viol("hang", "a call with large arguments does not return after the connection is lost\n%s", Dump())
				return
			}
			next.Kill()
			w.Eval(3)
			w.State("mutate %d", round%16)
		}
		w.Count("calls that fail with large arguments on their way", int(lost))
		w.Count("requests with large arguments that got through", int(served))
	})
}
