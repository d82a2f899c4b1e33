package main

// Sizes that need every byte of a length, for C01 and C04.

import (
	"bytes"
	"errors"
	"fmt"
	"github.com/muguangyi/ferry"
	"reflect"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/muguangyi/ferry/codec"
)

// bigSizes lie around each byte of a 32 bit length.
func bigSizes(most int) []int {
	var out []int
	for _, n := range []int{1<<8 - 1, 1 << 8, 1<<8 + 1, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<16 + 1<<8 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 1<<16 + 1<<8 + 1, 1<<25 + 5} {
		if n <= most {
			out = append(out, n)
		}
	}
	return out
}

// bigValue makes a value of kind with n elements, and a test for equality.
func bigValue(kind string, n int) (interface{}, func(interface{}) string) {
	switch kind {
	case "string":
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i>>16) ^ byte(i>>8) ^ byte(i)
		}
		s := string(b)
		return s, func(x interface{}) string {
			if t, ok := x.(string); !ok || t != s {
				return fmt.Sprintf("a %T of %d bytes", x, len(t))
			}
			return ""
		}
	case "array":
		a := make([]bool, n)
		for i := range a {
			a[i] = i%3 == 0
		}
		return a, func(x interface{}) string {
			b, ok := x.([]interface{})
			if !ok || len(b) != n {
				return fmt.Sprintf("a %T of %d elements", x, len(b))
			}
			for i := range b {
				if b[i] != a[i] {
					return fmt.Sprintf("element %d is %v", i, b[i])
				}
			}
			return ""
		}
	}
	m := make(map[uint32]bool, n)
	for i := 0; i < n; i++ {
		m[uint32(i)] = i%3 == 0
	}
	return m, func(x interface{}) string {
		b, ok := x.(map[interface{}]interface{})
		if !ok || len(b) != n {
			return fmt.Sprintf("a %T of %d keys", x, len(b))
		}
		for k, v := range b {
			u, err := codec.NewAny(k).Uint64()
			if err != nil || u >= uint64(n) || v != m[uint32(u)] {
				return fmt.Sprintf("%v has %v", k, v)
			}
		}
		return ""
	}
}

// hugeString has n bytes that take no memory.
func hugeString(n int) string {
	m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		return ""
	}
	return unsafe.String(&m[0], n)
}

// Huge is a feature with results that can't be sent.
type Huge struct {
	Base
	s     string
	taken int64
}

func (h *Huge) Give() string { return h.s }
func (h *Huge) GiveMany() []interface{} {
	g := h.s[:1<<30]
	return []interface{}{g, g, g, g, g}
}
func (h *Huge) Take(s ...string)   { atomic.AddInt64(&h.taken, 1) }
func (h *Huge) Ok(s string) string { return s }

func init() {
	scenario("c01big", func(w *W) {
		debug.SetGCPercent(50)
		for _, kind := range []string{"string", "array", "map"} {
			most := int(w.p(kind, 1<<30))
			for _, n := range bigSizes(most) {
				v, differs := bigValue(kind, n)
				w.Eval(1)
				w.State("%s %d", kind, n)
				b, err, p := encodeOf(v)
				if err != nil || p != nil {
					w.Viol("encode", "encoding a %s of %d: err %v, panic %v", kind, n, err, p)
					continue
				}
				// Among others, so that a wrong length shows after it, too.
				r := &countReader{r: bytes.NewReader(append(b, 0xc3, 0xa1, 'x'))}
				any := codec.NewAny(nil)
				err, p = try(func() error { return any.Decode(r) })
				if err != nil || p != nil {
					w.Viol("decode", "decoding what a %s of %d was encoded to (% x...): err %v, panic %v", kind, n, b[:8], err, p)
					continue
				}
				if d := differs(any.Any()); d != "" {
					w.Viol("differs", "a %s of %d (% x...) decodes to %s", kind, n, b[:8], d)
					continue
				}
				if h := be(map[string]byte{"string": 0xdb, "array": 0xdd, "map": 0xdf}[kind], uint64(n), 4); !bytes.Equal(h, b[:5]) {
					w.Viol("table", "a %s of %d starts with % x instead of % x", kind, n, b[:5], h)
				}
				if r.n != len(b) {
					w.Viol("consumed", "a %s of %d: encoded to %d bytes, decoding took %d", kind, n, len(b), r.n)
				}
				w.Sample("a %s of %d comes back, % x...", kind, n, b[:8])
			}
		}
	})

	// Lengths that don't fit into 32 bits can't be encoded.
	scenario("c01huge", func(w *W) {
		s := hugeString(1<<32 + 5)
		if s == "" {
			w.Count("no address space for huge values", 1)
			w.Eval(1)
			w.State("huge none")
			return
		}
		slice := reflect.MakeSlice(reflect.TypeOf([][0]int{}), 1<<32, 1<<32).Interface()
		array := reflect.Zero(reflect.ArrayOf(1<<32+3, reflect.TypeOf([0]string{}))).Interface()
		debug.SetGCPercent(20)
		for _, c := range []struct {
			what string
			v    interface{}
		}{
			{"a slice of 1<<32 empty arrays", slice}, {"an array of 1<<32+3 empty arrays", array}, {"a slice of 1<<32 empty arrays in an array", [1]interface{}{slice}},
			{"a string of 1<<32 bytes", s[:1<<32]}, {"a string of 1<<32+5 bytes", s},
			{"a string of 1<<32 bytes in an array", []interface{}{1, s[:1<<32]}}, {"a string of 1<<32+1 bytes in a map", map[string]string{"k": s[:1<<32+1]}},
			{"a string of 1<<32 bytes as a key", map[string]int{s[:1<<32]: 1}},
		} {
			if w.Bad() { // what encodes such values takes a lot of memory
				break
			}
			what, v := c.what, c.v
			lw := &limitWriter{n: 4096}
			err, p := try(func() error { return codec.NewAny(v).Encode(lw) })
			debug.FreeOSMemory()
			w.Eval(1)
			w.State("huge %s", what)
			if err == nil || p != nil || errors.Is(err, errWriter) {
				b := lw.buf.Bytes()
				w.Viol("huge", "encoding %s, which has no encoding, writes % x...: err %v, panic %v", what, b[:min(len(b), 16)], err, p)
			}
		}
		w.Sample("values of a length over 32 bits are refused")
	})

	// Arguments and results that no packet can hold.
	scenario("c08huge", func(w *W) {
		s := hugeString(1<<32 + 5)
		if s == "" {
			w.Count("no address space for huge values", 1)
			w.Eval(1)
			w.State("huge none")
			return
		}
		h := w.fakeHub(4)
		a, b := w.newEcho("a", newLedger()), &Huge{Base: Base{name: "huge"}, s: s}
		if !w.startEchos(h.Addr, "A", a) {
			return
		}
		w.startDock(h.Addr, "B", ferry.Carry("huge", b, true))
		if !w.Await(func() bool { return b.theSlot() != nil }) {
			w.Viol("hang", "dock does not start\n%s", Dump())
			return
		}
		for _, m := range []string{"Give", "GiveMany", "Take", "Ok"} {
			b.theSlot().SetTimeout(m, 600)
		}
		gb := s[:1<<30]
		type bad struct {
			what string
			f    func() error
		}
		bads := []bad{
			{"a method of 4 GB", func() error { return a.theSlot().Call("huge", s) }},
			{"an argument of 4 GB", func() error { return a.theSlot().Call("huge", "Take", s) }},
			{"a feature of 4 GB", func() error { return a.theSlot().Call(s, "Take", "x") }},
			{"an argument of 4 GB, with result", func() error { _, err := a.theSlot().CallWithResult("huge", "Take", s[:1<<32]); return err }},
			{"a result of 4 GB", func() error { _, err := a.theSlot().CallWithResult("huge", "Give"); return err }},
			{"a method that nearly fills the packet", func() error { return a.theSlot().Call("huge", s[:1<<32-8], "x") }},
		}
		if w.p("many", 0) != 0 {
			bads = append(bads,
				bad{"five arguments of 1 GB", func() error { return a.theSlot().Call("huge", "Take", gb, gb, gb, gb, gb) }},
				bad{"a result of five strings of 1 GB", func() error { _, err := a.theSlot().CallWithResult("huge", "GiveMany"); return err }})
		}
		debug.SetGCPercent(20)
		for _, c := range bads {
			what, f := c.what, c.f
			if w.Bad() {
				return
			}
			var err error
			var done int64
			go func() { err = f(); atomic.StoreInt64(&done, 1) }()
			if !w.AwaitN(4*hangTicks, func() bool { return atomic.LoadInt64(&done) != 0 }) {
				w.Viol("hang", "a call with %s does not return\n%s", what, Dump())
				return
			}
			debug.FreeOSMemory()
			w.Eval(2)
			w.State("huge %s", what)
			if err == nil {
				w.Viol("accepted", "a call with %s succeeds", what)
			}
			var res []interface{}
			if !w.Group(1, func(int) { res, err = a.theSlot().CallWithResult("huge", "Ok", "after") }) {
				w.Viol("hang", "a call after one with %s does not return\n%s", what, Dump())
				return
			}
			if err != nil || len(res) != 1 || res[0] != "after" {
				w.Viol("after", "a call after one with %s gives %v, %v", what, res, err)
			}
		}
		if n := atomic.LoadInt64(&b.taken); n != 0 {
			w.Viol("ran", "a method has run %d times with arguments that can't be sent", n)
		}
		w.Sample("values of 4 GB and more fail alone")
	})

	// Frames of many sizes, to and from a real dock.
	scenario("c04big", func(w *W) {
		h := w.fakeHub(10)
		led := newLedger()
		e := w.newEcho("real", led)
		if !w.startEchos(h.Addr, "A", e) {
			return
		}
		var seen int64
		fd := w.fakeDock("", h.Addr, []string{"fake"}, func(p *Peer, k Packet) {
			if k.ID == pRpcReq {
				atomic.AddInt64(&seen, 1)
				p.Put(pRpcResp, k.Int(0), k.Str(1), k.Str(2), k.Arr(3), "")
			}
		})
		if fd == nil {
			w.Viol("hang", "fake dock can't join")
			return
		}
		fd.Ready()
		c := w.dialDock(fmt.Sprintf("127.0.0.1:%d", h.Conns()[0].port), nil, nil)
		if c == nil {
			w.Viol("hang", "dock is not reachable")
			return
		}
		for i, n := range bigSizes(int(w.p("most", 1<<30))) {
			for d := -40; d <= 0 && !w.Bad(); d += 20 { // the frame is a little bigger
				n := n + d
				id := int64(n)
				b := blob(id, n)
				w.Eval(2)
				w.State("size %d", n)
				res, err := e.theSlot().CallWithResult("fake", "Blob", id, b)
				if err != nil || len(res) != 2 || canon(res[0], false) != canon(id, false) || res[1] != b {
					w.Viol("fields", "call of a fake dock with %d bytes gives %d results, %v", n, len(res), err)
				}
				got := len(c.Got(pRpcResp))
				c.Put(pRpcReq, id, "real", "Blob", []interface{}{id, b}, true)
				if !c.AwaitGot(pRpcResp, got+1) {
					w.Viol("hang", "request with %d bytes is not answered\n%s", n, Dump())
					return
				}
				k := c.Got(pRpcResp)[got]
				if a := k.Arr(3); k.Str(4) != "" || len(a) != 2 || a[0] != b || canon(a[1], false) != canon(mix(id), false) {
					w.Viol("fields", "request with %d bytes is answered with %d results, %q", n, len(a), k.Str(4))
				}
				if i%4 == 0 && d == 0 {
					w.Sample("frames of %d bytes and more in all directions", n)
				}
			}
		}
		for _, p := range append(fd.Conns(), c) {
			if err := p.Bad(); err != nil {
				w.Viol("frame", "real dock sends a frame that is not a packet: %v", err)
			}
		}
	})

	// Arguments and results of many sizes between real docks.
	scenario("c09big", func(w *W) {
		hub := w.startHub(10)
		led := newLedger()
		far, near, local := w.newEcho("far", led), w.newEcho("near", led), w.newEcho("local", led)
		if !w.startEchos(hub, "A", near, local) || !w.startEchos(hub, "B", far) {
			return
		}
		id := int64(0)
		for i, n := range bigSizes(int(w.p("most", 1<<30))) {
			for _, target := range []string{"far", "local"} {
				id++
				b := blob(id, n)
				w.Eval(1)
				w.State("%s %d", target, n)
				res, err := near.theSlot().CallWithResult(target, "Blob", id, b)
				if err != nil || len(res) != 2 || res[0] != b || canon(res[1], false) != canon(mix(id), false) {
					w.Viol("value", "a string of %d bytes does not come back from %s: %d results, %v", n, target, len(res), err)
				}
				if n > 1<<17 && n < 1<<24 || n > 1<<24+1 {
					continue
				}
				id++
				l := make([]int64, n)
				for j := range l {
					l[j] = int64(j % 100)
				}
				l[n-1] = 12345
				res, err = near.theSlot().CallWithResult(target, "List", id, l)
				if err != nil || len(res) != 2 {
					w.Viol("value", "a list of %d does not come back from %s: %d results, %v", n, target, len(res), err)
					continue
				}
				back := reflect.ValueOf(res[0])
				at := func(i int) string { return canon(back.Index(i).Interface(), false) }
				if back.Kind() != reflect.Slice || back.Len() != n || at(0) != canon(12345, false) || at(1) != canon((n-2)%100, false) || at(n-1) != canon(0, false) {
					w.Viol("value", "a list of %d comes back from %s as %T %s", n, target, res[0], short(fmt.Sprint(res[0])))
				}
				if i%4 == 0 {
					w.Sample("%s: a string and a list of %d come back", target, n)
				}
			}
		}
	})
}
