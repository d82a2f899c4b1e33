package main

// C01-C04: the codec, judged by an independent codec.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/muguangyi/ferry/codec"
)

// countReader hides everything but Read, and counts.
type countReader struct {
	r io.Reader
	n int
}

func (c *countReader) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	c.n += n
	return n, err
}

// limitWriter fails after n bytes, writing what fits before.
type limitWriter struct {
	n   int
	buf bytes.Buffer
}

var errWriter = errors.New("writer is full")

func (l *limitWriter) Write(b []byte) (int, error) {
	if len(b) > l.n {
		n := l.n
		l.buf.Write(b[:n])
		l.n = 0
		return n, errWriter
	}
	l.n -= len(b)
	return l.buf.Write(b)
}

// onceWriter fails in one of the calls of Write only.
type onceWriter struct{ n int }

func (o *onceWriter) Write(b []byte) (int, error) {
	o.n--
	if o.n == -1 {
		return 0, errWriter
	}
	return len(b), nil
}

func try(f func() error) (err error, panicked interface{}) {
	defer func() { panicked = recover() }()
	return f(), nil
}

func encodeOf(v interface{}) ([]byte, error, interface{}) {
	var buf bytes.Buffer
	err, p := try(func() error { return codec.NewAny(v).Encode(&buf) })
	return buf.Bytes(), err, p
}

// topBits: floats are compared bit by bit at top level only.
func topCanon(v interface{}) string { return canon(v, true) }

type structVal struct{ A int }

func unsupported(g Gen) interface{} {
	x := 5
	switch g.Intn(20) {
	case 8:
		return []*int{&x, nil}
	case 9:
		return map[string]func(){"f": func() {}}
	case 10:
		return map[*int]string{&x: "pointer"}
	case 11:
		return map[[2]int]string{{1, 2}: "array"} // would be a sequence, which is no key
	case 12:
		return map[interface{}]interface{}{"k": 1, [1]string{"array"}: 2}
	case 13:
		return map[structVal]int{{3}: 1}
	case 14:
		return map[interface{}]interface{}{[2]interface{}{1, "x"}: nil}
	case 15:
		return [][]chan int{nil, {make(chan int)}}
	case 16:
		return [2]error{nil, errors.New("an error value")}
	case 17:
		return map[complex128]bool{2: true}
	case 0:
		return &x
	case 1:
		return structVal{1}
	case 2:
		return func() {}
	case 3:
		return make(chan int)
	case 4:
		return complex(1, 2)
	case 5:
		return complex64(complex(1, 2))
	case 6:
		return &structVal{2}
	}
	return errors.New("an error value")
}

// bury puts v somewhere inside nested containers.
func bury(g Gen, v interface{}, depth int) interface{} {
	for i := 0; i < depth; i++ {
		switch g.Intn(4) {
		case 0:
			v = []interface{}{g.scalar(), v}
		case 1:
			v = map[interface{}]interface{}{g.key(): v}
		case 2:
			v = map[string]interface{}{"k": v}
		default:
			v = [2]interface{}{v, g.scalar()}
		}
	}
	return v
}

func init() {
	scenario("c01", func(w *W) {
		g := Gen{w.Rand}
		// Exhaustive over the small integers, then generated values.
		var list []interface{}
		if w.p("exhaustive", 0) == 1 {
			for i := 0; i < 256; i++ {
				list = append(list, int8(i), uint8(i))
			}
			for i := 0; i < 65536; i++ {
				list = append(list, int16(i), uint16(i))
			}
			for s := 0; s < 64; s++ {
				for d := -3; d <= 3; d++ {
					u := uint64(1)<<uint(s) + uint64(d)
					list = append(list, int(u), uint(u), int32(u), uint32(u), int64(u), uint64(u), -int64(u), -int32(u), -int(u),
						math.Float64frombits(u), math.Float32frombits(uint32(u)), math.Float64frombits(u<<32), math.Float64frombits(^u))
				}
			}
			for _, n := range []int{0, 1, 255, 256, 65535, 65536, 65537, 1 << 20, 5 << 20} {
				b := make([]byte, n)
				w.Read(b)
				list = append(list, string(b))
			}
			for _, n := range []int{0, 1, 255, 256, 257, 65535, 65536, 65537, 200000} {
				a := make([]interface{}, n)
				m := make(map[interface{}]interface{}, n)
				for i := range a {
					a[i] = i - 100
					m[i] = uint16(i)
				}
				list = append(list, a, m)
			}
			var deep interface{} = "bottom"
			for i := 0; i < 200; i++ {
				if i%2 == 0 {
					deep = []interface{}{deep, i}
				} else {
					deep = map[interface{}]interface{}{"k": deep}
				}
				list = append(list, deep)
			}
		}
		var stream bytes.Buffer
		var inStream []interface{}
		flush := func() {
			// Written back to back, read back one by one.
			r := &countReader{r: bytes.NewReader(stream.Bytes())}
			any := codec.NewAny(nil)
			for i, v := range inStream {
				err, p := try(func() error { return any.Decode(r) })
				if err != nil || p != nil || topCanon(any.Any()) != topCanon(v) {
					w.Viol("stream", "value %d of a stream of %d: wrote %s (%T), read %s (%T), err %v, panic %v", i, len(inStream), short(topCanon(v)), v, short(topCanon(any.Any())), any.Any(), err, p)
					return
				}
			}
			if r.n != stream.Len() {
				w.Viol("stream", "read %d of %d bytes", r.n, stream.Len())
			}
			stream.Reset()
			inStream = nil
			w.Count("streams", 1)
		}
		for i := 0; i < w.N+len(list) && !w.Bad(); i++ {
			var v interface{}
			if i < len(list) {
				v = list[i]
			} else {
				v = g.value(4)
			}
			before := ""
			if i >= len(list) {
				before = topCanon(v)
			}
			b, err, p := encodeOf(v)
			w.Eval(1)
			if err != nil || p != nil {
				w.Viol("encode", "encoding %s (%T): err %v, panic %v", short(topCanon(v)), v, err, p)
				continue
			}
			r := &countReader{r: bytes.NewReader(append(append([]byte(nil), b...), 0xcc, 7, 0xc3))}
			any := codec.NewAny("old")
			err, p = try(func() error { return any.Decode(r) })
			if err != nil || p != nil {
				w.Viol("decode", "decoding what %s (%T) was encoded to: err %v, panic %v", short(topCanon(v)), v, err, p)
				continue
			}
			if a, b := topCanon(v), topCanon(any.Any()); a != b {
				w.Viol("differs", "%T %s decodes to %T %s", v, short(a), any.Any(), short(b))
				continue
			}
			if before != "" && before != topCanon(v) {
				w.Viol("changed", "encoding changed the value: %s to %s", short(before), short(topCanon(v)))
			}
			if r.n != len(b) {
				w.Viol("consumed", "%T %s: encoded to %d bytes, decoding took %d", v, short(topCanon(v)), len(b), r.n)
			}
			if i%2000 == 0 {
				w.Sample("%T %s <-> % x", v, short(topCanon(v)), b[:min(len(b), 24)])
			}
			w.State(shape(v))
			if len(b) < 100000 {
				stream.Write(b)
				inStream = append(inStream, v)
				if len(inStream) >= 1+i%50 {
					flush()
				}
			}
			// Every write failure position.
			if i%50 == 0 && len(b) < 400 || i%997 == 0 && len(b) < 5000 {
				for n := 0; n < len(b); n++ {
					lw := &limitWriter{n: n}
					err, p := try(func() error { return codec.NewAny(v).Encode(lw) })
					w.Count("write failures", 1)
					if err == nil || p != nil {
						w.Viol("writer", "%T %s: the writer failed after %d of %d bytes, but Encode returned %v, panic %v", v, short(topCanon(v)), n, len(b), err, p)
						break
					}
				}
				for n := 0; n < 2000; n++ {
					ow := &onceWriter{n: n}
					err, p := try(func() error { return codec.NewAny(v).Encode(ow) })
					if ow.n >= 0 {
						break
					}
					w.Count("write failures", 1)
					if err == nil || p != nil {
						w.Viol("writer", "%T %s: write %d failed, but Encode returned %v, panic %v", v, short(topCanon(v)), n, err, p)
						break
					}
				}
			}
			// Unsupported kinds, at any depth.
			if i%10 == 0 {
				d := g.Intn(6)
				u := unsupported(g)
				bad := bury(g, u, d)
				_, err, p := encodeOf(bad)
				w.Count("unsupported", 1)
				w.State("unsupported %T %d", u, d)
				if err == nil || p != nil {
					w.Viol("unsupported", "Encode of %T at depth %d: err %v, panic %v", u, d, err, p)
				}
			}
		}
		flush()
	})

	// Nesting to any depth: what is encoded comes back, what is too deep or has
	// no end is refused.
	scenario("c01deep", func(w *W) {
		loop := []interface{}{1, nil}
		loop[1] = loop
		loopMap := map[string]interface{}{}
		loopMap["x"] = loopMap
		both := map[interface{}]interface{}{"a": []interface{}{nil}}
		both["a"].([]interface{})[0] = map[string]interface{}{"b": both}
		t := tree{nil, {}}
		t[0] = tree{t, t}
		for what, v := range map[string]interface{}{
			"a slice": loop, "a map": loopMap, "a map of a slice of a map": both, "a typed slice": tree{{}, t}, "a typed map": (&Frail{}).loopWood(), "an array": [2]interface{}{nil, loop},
		} {
			lw := &limitWriter{n: 1 << 20}
			err, p := try(func() error { return codec.NewAny(v).Encode(lw) })
			w.Eval(1)
			w.State("endless %s", what)
			if err == nil || p != nil {
				w.Viol("endless", "encoding %s that contains itself: err %v, panic %v", what, err, p)
			}
		}
		last := ""
		for _, kind := range []string{"slice", "map", "mixed", "tree"} {
			for _, n := range []int{1, 10, 500, 1000, 2000, 5000, 8000, 9998, 9999, 10000, 10001, 10002, 20000, 1000000} {
				var v interface{} = "bottom"
				tr := tree{}
				for i := 0; i < n; i++ {
					switch {
					case kind == "tree":
						tr = tree{tr}
						v = tr
					case kind == "slice" || kind == "mixed" && i%2 == 0:
						v = []interface{}{v}
					default:
						v = map[string]interface{}{"k": v}
					}
				}
				b, err, p := encodeOf(v)
				w.Eval(1)
				w.State("deep %s %d", kind, n)
				if p != nil {
					w.Viol("deep", "encoding %ss nested to a depth of %d: panic %v", kind, n, p)
					continue
				}
				if err != nil {
					if n <= 1000 {
						w.Viol("deep", "encoding %ss nested to a depth of %d: %v", kind, n, err)
					}
					last = fmt.Sprintf("%ss nested to a depth of %d are refused: %v", kind, n, err)
					continue
				}
				any := codec.NewAny(nil)
				err, p = try(func() error { return any.Decode(bytes.NewReader(b)) })
				if err != nil || p != nil {
					w.Viol("deep", "%ss nested to a depth of %d are encoded, but can't be decoded: err %v, panic %v", kind, n, err, p)
					continue
				}
				x := any.Any()
				for i := n; i > 0; i-- {
					var in interface{}
					switch c := x.(type) {
					case []interface{}:
						if len(c) == 1 && (kind != "map" && (kind != "mixed" || i%2 == 1)) {
							in = c[0]
						}
					case map[interface{}]interface{}:
						if len(c) == 1 && (kind == "map" || kind == "mixed" && i%2 == 0) {
							in = c["k"]
						}
					}
					if in == nil {
						w.Viol("differs", "of %ss nested to a depth of %d, %d come back, then %s", kind, n, n-i, short(fmt.Sprintf("%T", x)))
						break
					}
					x = in
				}
				if a, ok := x.([]interface{}); x != "bottom" && !(kind == "tree" && ok && len(a) == 0) {
					w.Viol("differs", "%ss nested to a depth of %d end in %T", kind, n, x)
				}
			}
			w.Sample("%s", last)
		}
	})

	// Many goroutines encode and decode their own values.
	scenario("c01par", func(w *W) {
		var progress int64
		ok := w.GroupProgress(8, &progress, func(k int) {
			g := Gen{w.R(k)}
			for i := 0; i < w.N && !w.Bad(); i++ {
				v := g.value(3)
				b, err, p := encodeOf(v)
				runtime.Gosched()
				any := codec.NewAny(nil)
				if err == nil && p == nil {
					err, p = try(func() error { return any.Decode(&countReader{r: bytes.NewReader(b)}) })
				}
				if err != nil || p != nil || topCanon(any.Any()) != topCanon(v) {
					w.Viol("concurrent", "%T %s decodes to %s, err %v, panic %v, with 8 goroutines", v, short(topCanon(v)), short(topCanon(any.Any())), err, p)
				}
				// Values read before are not overwritten by later ones.
				any2 := codec.NewAny(nil)
				any2.Decode(bytes.NewReader(b))
				if s, okk := any.Any().([]interface{}); okk && len(s) > 0 {
					s[0] = "overwritten"
					if topCanon(any2.Any()) != topCanon(v) {
						w.Viol("shared", "two decoded values share memory")
					}
				}
				w.Eval(1)
				w.State("par " + shape(v))
				atomic.AddInt64(&progress, 1)
			}
		})
		if !ok {
			w.Viol("hang", "encoding or decoding hangs\n%s", Dump())
		}
	})

	checks["C01"] = func(c *C) {
		c.Rule("values generated over all supported kinds (all 8/16 bit integers, 2^k+d for every width, special and boundary float bit patterns, strings up to 5 MB, typed and untyped containers to depth 200; strings, arrays and maps around each byte of the 32 bit length: strings up to 32 MB, arrays up to 2^25, maps over 2^16 (2^24 in the thorough check)) are encoded, decoded and compared in a canonical form; streams of values; a writer that fails at every offset, for good or for one write; unsupported kinds at depth 0..5; lengths over 32 bits; nesting of 1 to 1000000 levels and values that contain themselves. Distinct: Go type with bit length/shape of the value.")
		c.Assume("map keys are scalars, distinct after encoding, and not NaN")
		c.Run(8, append([]Job{{Scenario: "c01", N: c.Pick(60000, 400000), P: map[string]int64{"exhaustive": 1}}, {Scenario: "c01par", N: c.Pick(3000, 40000)},
			{Scenario: "c01huge"}, {Scenario: "c01deep"},
			{Scenario: "c01big", P: map[string]int64{"array": 1, "map": 70000}}, {Scenario: "c01big", P: map[string]int64{"string": 1, "map": int64(c.Pick(1, 1<<24+1))}}},
			Times(c.Pick(6, 14), Job{Scenario: "c01", N: c.Pick(75000, 400000)})...)...)
	}
}

// chunked readers

type chunkReader struct {
	b   []byte
	r   *rand.Rand
	max int
	eof bool // return EOF along with the last bytes
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.r != nil && c.r.Intn(8) == 0 {
		return 0, nil
	}
	n := c.max
	if c.r != nil {
		n = 1 + c.r.Intn(c.max)
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	if c.eof && len(c.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type outcome struct {
	ok  bool
	val string
}

func decodeBytes(r io.Reader) (outcome, interface{}) {
	any := codec.NewAny(nil)
	err, p := try(func() error { return any.Decode(r) })
	if err != nil || p != nil {
		return outcome{}, p
	}
	return outcome{true, topCanon(any.Any())}, nil
}

// alikeKeys tells if a map in v has keys that are equal, so that it's open which
// of their values it has.
func alikeKeys(v interface{}) bool {
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			if alikeKeys(e) {
				return true
			}
		}
	case refMap:
		seen := map[string]bool{}
		for _, p := range x {
			k := canon(p.K, false)
			if seen[k] || alikeKeys(p.V) {
				return true
			}
			seen[k] = true
		}
	}
	return false
}

func mutate(g Gen, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + g.Intn(3); k > 0; k-- {
		if len(b) == 0 {
			return []byte{byte(g.Intn(256))}
		}
		switch g.Intn(7) {
		case 0:
			b[g.Intn(len(b))] ^= 1 << uint(g.Intn(8))
		case 1:
			b[g.Intn(len(b))] = []byte{0xc0, 0xc1, 0xca, 0xcb, 0xcc, 0xcf, 0xd0, 0xd3, 0xdb, 0xdd, 0xdf, 0xff, 0, 0x7f}[g.Intn(14)]
		case 2:
			b = b[:g.Intn(len(b))]
		case 3:
			i := g.Intn(len(b))
			b = append(b[:i:i], append([]byte{byte(g.Intn(256)), byte(g.Intn(256))}, b[i:]...)...)
		case 4:
			i := g.Intn(len(b))
			b = append(b[:i:i], b[min(i+1+g.Intn(4), len(b)):]...)
		case 5: // a huge length
			i := g.Intn(len(b))
			b = append(b[:i:i], append(be([]byte{0xdb, 0xdd, 0xdf}[g.Intn(3)], uint64(g.Uint32()|1<<31>>uint(g.Intn(20))), 4), b[i:]...)...)
		case 6:
			i, j := g.Intn(len(b)), g.Intn(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(b, b[i:j]...)
		}
	}
	return b
}

func randomBytes(g Gen) []byte {
	n := g.Intn(40)
	b := make([]byte, n)
	for i := range b {
		switch g.Intn(3) {
		case 0:
			b[i] = byte(g.Intn(256))
		case 1:
			b[i] = []byte{0xc0, 0xc2, 0xc3, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xdb, 0xdd, 0xdf}[g.Intn(16)]
		case 2:
			b[i] = byte(g.Intn(4))
		}
	}
	return b
}

func allocOf(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func init() {
	scenario("c02", func(w *W) {
		g := Gen{w.Rand}
		var cur atomic.Value
		done := make(chan struct{})
		go func() {
			defer close(done)
			for i := 0; i < w.N && !w.Bad(); i++ {
				v := g.value(3)
				valid := refEncode(w.Rand, v)
				var b []byte
				kind := "random"
				switch i % 4 {
				case 0:
					b, kind = valid, "valid"
				case 1, 2:
					b, kind = mutate(g, valid), "mutated"
				case 3:
					b = randomBytes(g)
				}
				cur.Store(b)
				w.Eval(1)
				out, p := decodeBytes(bytes.NewReader(b))
				if p != nil {
					w.Viol("panic", "decoding % x: panic %v", b[:min(len(b), 200)], p)
					continue
				}
				w.State("%s %v %s", kind, out.ok, shapeBytes(b))
				if kind == "valid" && !out.ok {
					w.Viol("rejected", "decoding % x gives an error", b[:min(len(b), 200)])
				}
				// What has no meaning in the tag table is no value.
				if out.ok {
					w.Count("values compared with the tag table", 1)
					ref, _, err := refDecode(b)
					if err != nil {
						w.Viol("meaning", "decoding % x gives %s, but it means nothing: %v", b[:min(len(b), 200)], short(out.val), err)
					} else if !alikeKeys(ref) && topCanon(ref) != out.val {
						w.Viol("meaning", "decoding % x gives %s, but it means %s", b[:min(len(b), 200)], short(out.val), short(topCanon(ref)))
					}
				}
				// The outcome does not depend on the chunking.
				readers := map[string]io.Reader{
					"one byte at a time":      &chunkReader{b: b, max: 1},
					"one byte, EOF with data": &chunkReader{b: b, max: 1, eof: true},
					"random chunks":           &chunkReader{b: b, max: 9, r: w.Rand},
					"whole, EOF with data":    &chunkReader{b: b, max: 1 << 30, eof: true},
				}
				for name, r := range readers {
					o, p := decodeBytes(r)
					w.Count("chunked decodes", 1)
					if p != nil || o != out {
						w.Viol("chunking", "decoding % x read %s: ok %v %s panic %v, read at once: ok %v %s", b[:min(len(b), 200)], name, o.ok, short(o.val), p, out.ok, short(out.val))
					}
				}
				// No strict prefix is a value.
				if kind == "valid" {
					step := 1
					if len(b) > 300 {
						step = 1 + len(b)/100
					}
					for n := 0; n < len(b); n += step {
						for m, r := range []io.Reader{bytes.NewReader(b[:n]), &chunkReader{b: b[:n], max: 1}} {
							w.Count("prefixes", 1)
							o, p := decodeBytes(r)
							if o.ok || p != nil {
								w.Viol("prefix", "the first %d of the %d bytes % x give %s, panic %v (reader %d)", n, len(b), b[:min(len(b), 200)], short(o.val), p, m)
								break
							}
						}
					}
				}
				// Memory is bounded by what is supplied.
				if i%8 < 4 {
					got := allocOf(func() { decodeBytes(bytes.NewReader(b)) })
					w.Max("bytes allocated by one decode", int(got))
					if lim := uint64(256<<10 + 2000*len(b)); got > lim {
						w.Viol("memory", "decoding the %d bytes % x takes %d bytes of memory", len(b), b[:min(len(b), 100)], got)
					}
				}
				if i%2500 == 1 {
					w.Sample("%s % x -> ok=%v", kind, b[:min(len(b), 40)], out.ok)
				}
			}
		}()
		last, end := int64(-1), int64(0)
		for {
			select {
			case <-done:
				return
			default:
			}
			if n := atomic.LoadInt64(&w.evals); n != last {
				last, end = n, w.Ticks()+hangTicks
			} else if w.Ticks() > end {
				b, _ := cur.Load().([]byte)
				w.Viol("hang", "decoding % x does not terminate", b[:min(len(b), 300)])
				return
			}
			w.Sleep(2)
		}
	})

	// Hostile inputs: claimed lengths and deep nesting, one process per kind as
	// an exhausted stack can't be recovered from.
	scenario("c02hostile", func(w *W) {
		size := int(w.p("mb", 24)) << 20
		kind := w.p("kind", 0)
		debug.SetGCPercent(50)
		run := func(name string, b []byte, lim uint64) {
			w.Eval(1)
			w.State(name)
			var o outcome
			var p interface{}
			done := make(chan struct{})
			var got uint64
			go func() {
				got = allocOf(func() {
					any := codec.NewAny(nil)
					var err error
					err, p = try(func() error { return any.Decode(bytes.NewReader(b)) })
					o.ok = err == nil && p == nil
				})
				close(done)
			}()
			if !w.Done(done) {
				w.Viol("hang", "decoding %s does not terminate", name)
				return
			}
			if p != nil {
				w.Viol("panic", "decoding %s: panic %v", name, p)
			}
			if got > lim {
				w.Viol("memory", "decoding the %d bytes of %s takes %d bytes of memory", len(b), name, got)
			}
			if o.ok {
				w.Viol("value", "decoding %s, which is not complete, gives a value", name)
			}
			w.Max("bytes allocated by one decode", int(got))
			w.Sample("%s, %d bytes: error, %d bytes allocated", name, len(b), got)
		}
		switch kind {
		case 0:
			for _, tag := range []byte{0xdb, 0xdd, 0xdf} {
				for _, n := range []uint64{1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
					run(fmt.Sprintf("tag %#x claiming %d", tag, n), be(tag, n, 4), 256<<10)
					run(fmt.Sprintf("tag %#x claiming %d with a bit of data", tag, n), append(be(tag, n, 4), bytes.Repeat([]byte{0xc0}, 10)...), 256<<10)
					run(fmt.Sprintf("tag %#x claiming %d inside an array", tag, n), append(be(0xdd, 3, 4), be(tag, n, 4)...), 256<<10)
				}
			}
			// Nested claims.
			for _, tag := range []byte{0xdd, 0xdf} {
				run(fmt.Sprintf("1000 nested claims of tag %#x", tag), bytes.Repeat(be(tag, 1<<32-1, 4), 1000), 256<<10+2000*5000)
			}
		case 1:
			run("deep arrays", bytes.Repeat(be(0xdd, 1, 4), size/5), uint64(size)*200)
		case 2:
			run("deep maps (values)", bytes.Repeat(append(be(0xdf, 1, 4), 0xc0), size/6), uint64(size)*200)
		case 3:
			run("deep maps (keys)", bytes.Repeat(be(0xdf, 1, 4), size/5), uint64(size)*200)
		case 4:
			run("deep float32 tags", bytes.Repeat([]byte{0xca}, size), uint64(size)*200)
			run("deep float64 tags", bytes.Repeat([]byte{0xcb}, size), uint64(size)*200)
		case 5:
			b := append(be(0xdd, 1<<30, 4), bytes.Repeat([]byte{0xc0}, size/8)...)
			run("long array cut short", b, uint64(len(b))*200)
			b = append(be(0xdb, 1<<30, 4), bytes.Repeat([]byte{'x'}, size)...)
			run("long string cut short", b, uint64(len(b))*16)
		}
	})

	checks["C02"] = func(c *C) {
		c.Rule("valid encodings (any integer width), mutations of them and random tag-heavy bytes are decoded whole, byte by byte, in random chunks and with EOF delivered with the last data; every strict prefix of valid encodings; allocation measured per decode against 256 KB + 2000 B per supplied byte; hostile claimed lengths and nesting by tens of MB in processes of their own. Distinct: input class, outcome, tag skeleton.")
		jobs := Times(c.Pick(6, 12), Job{Scenario: "c02", N: c.Pick(40000, 200000)})
		for k := 0; k <= 5; k++ {
			jobs = append(jobs, Job{Scenario: "c02hostile", P: map[string]int64{"kind": int64(k), "mb": int64(c.Pick(24, 64))}})
		}
		c.Run(6, jobs...)
	}
}

func shapeBytes(b []byte) string {
	var sb strings.Builder
	for i := 0; i < len(b) && i < 24; i++ {
		if b[i] >= 0xc0 && b[i] < 0xe0 {
			sb.WriteByte(b[i])
		} else if b[i] == 0 {
			sb.WriteByte('0')
		} else {
			sb.WriteByte('.')
		}
	}
	return sb.String()
}

// C03

type accessor struct {
	name  string
	class string
	call  func(a codec.IAny) (interface{}, error)
	lo    *big.Int
	hi    *big.Int
}

func pow(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
func sub1(x *big.Int) *big.Int {
	return new(big.Int).Sub(x, big.NewInt(1))
}

var accessors = []accessor{
	{"Bool", "bool", func(a codec.IAny) (interface{}, error) { return a.Bool() }, nil, nil},
	{"String", "string", func(a codec.IAny) (interface{}, error) { return a.String() }, nil, nil},
	{"Int", "int", func(a codec.IAny) (interface{}, error) { return a.Int() }, new(big.Int).Neg(pow(63)), sub1(pow(63))},
	{"Int8", "int", func(a codec.IAny) (interface{}, error) { return a.Int8() }, new(big.Int).Neg(pow(7)), sub1(pow(7))},
	{"Int16", "int", func(a codec.IAny) (interface{}, error) { return a.Int16() }, new(big.Int).Neg(pow(15)), sub1(pow(15))},
	{"Int32", "int", func(a codec.IAny) (interface{}, error) { return a.Int32() }, new(big.Int).Neg(pow(31)), sub1(pow(31))},
	{"Int64", "int", func(a codec.IAny) (interface{}, error) { return a.Int64() }, new(big.Int).Neg(pow(63)), sub1(pow(63))},
	{"Uint", "uint", func(a codec.IAny) (interface{}, error) { return a.Uint() }, new(big.Int), sub1(pow(64))},
	{"Uint8", "uint", func(a codec.IAny) (interface{}, error) { return a.Uint8() }, new(big.Int), sub1(pow(8))},
	{"Uint16", "uint", func(a codec.IAny) (interface{}, error) { return a.Uint16() }, new(big.Int), sub1(pow(16))},
	{"Uint32", "uint", func(a codec.IAny) (interface{}, error) { return a.Uint32() }, new(big.Int), sub1(pow(32))},
	{"Uint64", "uint", func(a codec.IAny) (interface{}, error) { return a.Uint64() }, new(big.Int), sub1(pow(64))},
	{"Float32", "float", func(a codec.IAny) (interface{}, error) { return a.Float32() }, nil, nil},
	{"Float64", "float", func(a codec.IAny) (interface{}, error) { return a.Float64() }, nil, nil},
	{"Arr", "seq", func(a codec.IAny) (interface{}, error) { return a.Arr() }, nil, nil},
	{"Map", "map", func(a codec.IAny) (interface{}, error) { return a.Map() }, nil, nil},
}

// classOf tells the class of a built-in value and, for integers, its value.
func classOf(v interface{}) (string, *big.Int) {
	switch x := v.(type) {
	case nil:
		return "nil", nil
	case bool:
		return "bool", nil
	case string:
		return "string", nil
	case float32, float64:
		return "float", nil
	case int, int8, int16, int32, int64:
		return "int", big.NewInt(reflect.ValueOf(x).Int())
	case uint, uint8, uint16, uint32, uint64:
		return "uint", new(big.Int).SetUint64(reflect.ValueOf(x).Uint())
	}
	switch reflect.ValueOf(v).Kind() {
	case reflect.Slice, reflect.Array:
		return "seq", nil
	case reflect.Map:
		return "map", nil
	}
	return "other", nil
}

func sameFloat(a, b float64) bool { return a == b || a != a && b != b }

func judgeAccessors(w *W, a codec.IAny, v interface{}, how string) {
	class, iv := classOf(v)
	for _, ac := range accessors {
		var got interface{}
		var err error
		_, p := try(func() error { got, err = ac.call(a); return nil })
		w.Eval(1)
		w.State("%s %s %s", how, ac.name, shape(v))
		if p != nil {
			w.Viol("panic", "%s of %T %s (%s): panic %v", ac.name, v, short(canon(v, true)), how, p)
			return
		}
		should := class == ac.class
		if should && iv != nil {
			should = iv.Cmp(ac.lo) >= 0 && iv.Cmp(ac.hi) <= 0
		}
		if should && err != nil {
			w.Viol("refused", "%s of %T %s (%s): error %v", ac.name, v, short(canon(v, true)), how, err)
			return
		}
		if err != nil {
			continue
		}
		exact := false
		switch ac.class {
		case "int", "uint":
			if iv != nil {
				_, gv := classOf(got)
				exact = gv != nil && gv.Cmp(iv) == 0
			}
		case "float":
			if class == "float" {
				f := reflect.ValueOf(v).Float()
				if ac.name == "Float32" {
					want := float32(f)
					g := got.(float32)
					exact = g == want || g != g && want != want
				} else {
					exact = sameFloat(got.(float64), f)
				}
			}
		case "seq", "map":
			exact = class == ac.class && canon(got, false) == canon(v, false)
		default:
			exact = class == ac.class && got == v
		}
		if !exact {
			w.Viol("foreign", "%s of %T %s (%s) gives %T %s without an error", ac.name, v, short(canon(v, true)), how, got, short(canon(got, true)))
			return
		}
	}
}

type failReader struct{ b []byte }

func (f *failReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, errors.New("broken reader")
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	return n, nil
}

func init() {
	scenario("c03", func(w *W) {
		g := Gen{w.Rand}
		var list []interface{}
		for s := 0; s < 64; s++ {
			for d := -2; d <= 2; d++ {
				u := uint64(1)<<uint(s) + uint64(d)
				list = append(list, int(u), uint(u), int8(u), uint8(u), int16(u), uint16(u), int32(u), uint32(u), int64(u), uint64(u), -int64(u), -int(u), -int32(u), -int16(u), -int8(u))
			}
		}
		list = append(list, math.MaxFloat32, math.MaxFloat32*1.0000001, math.MaxFloat64, -math.MaxFloat64, 1e-300, math.NaN(), nil, true, false, "")
		reused := codec.NewAny(nil)
		for i := 0; i < w.N+len(list) && !w.Bad(); i++ {
			var v interface{}
			sendable := true
			switch {
			case i < len(list):
				v = list[i]
			case i%25 == 0:
				v, sendable = unsupported(g), false
			default:
				v = g.value(3)
			}
			a := codec.NewAny(v)
			judgeAccessors(w, a, v, "given")
			got := a.Any()
			if canon(got, true) != canon(v, true) || reflect.TypeOf(got) != reflect.TypeOf(v) {
				w.Viol("any", "Any() of %T %s gives %T %s", v, short(canon(v, true)), got, short(canon(got, true)))
			}
			if i%499 == 0 {
				w.Sample("%T %s: 16 accessors", v, short(canon(v, true)))
			}
			if !sendable {
				continue
			}
			b := refEncode(w.Rand, v)
			if err, p := try(func() error { return reused.Decode(bytes.NewReader(b)) }); err != nil || p != nil {
				continue // C02 and C04 judge that.
			}
			dec, _, _ := refDecode(b)
			if canon(reused.Any(), true) != canon(dec, true) {
				w.Viol("any", "Any() after decoding %T %s gives %T %s", v, short(canon(v, true)), reused.Any(), short(canon(reused.Any(), true)))
			}
			judgeAccessors(w, reused, reused.Any(), "decoded")
			// After a failed Decode the object still holds one value.
			if i%5 == 0 && len(b) > 0 {
				old := canon(reused.Any(), true)
				bad := [][]byte{b[:len(b)-1], {0xc1}, {}, {0xdd, 0, 0, 0, 2, 0xc3}}[g.Intn(4)]
				if err, p := try(func() error { return reused.Decode(&failReader{bad}) }); p != nil {
					w.Viol("panic", "Decode of % x: panic %v", bad, p)
				} else if err != nil {
					w.Count("failed decodes", 1)
					if now := canon(reused.Any(), true); now != old {
						w.Viol("any", "a failed Decode has changed the value from %s to %s", short(old), short(now))
					}
					judgeAccessors(w, reused, reused.Any(), "after a failed decode")
				}
			}
		}
	})
	checks["C03"] = func(c *C) {
		c.Rule("every accessor on every value: 2^k+d in every integer type, boundary floats, strings, typed/untyped containers, unsupported kinds; given to NewAny, decoded (into one reused object) and after failed decodes; judged by arbitrary precision comparison. Distinct: origin x accessor x type and bit length/shape.")
		c.Run(8, Times(c.Pick(6, 12), Job{Scenario: "c03", N: c.Pick(40000, 400000)})...)
	}

	// C04: independent codec in both directions.
	scenario("c04", func(w *W) {
		g := Gen{w.Rand}
		for i := 0; i < w.N && !w.Bad(); i++ {
			v := g.value(4)
			w.Eval(1)
			b, err, p := encodeOf(v)
			if err != nil || p != nil {
				w.Viol("encode", "encoding %T: %v %v", v, err, p)
				continue
			}
			dec, n, err := refDecode(b)
			if err != nil || n != len(b) {
				w.Viol("table", "%T %s is encoded to % x, which is not of the table: %v, %d of %d bytes", v, short(topCanon(v)), b[:min(len(b), 100)], err, n, len(b))
				continue
			}
			if x, y := topCanon(v), topCanon(dec); x != y {
				w.Viol("table", "%T %s is encoded to % x, which means %s", v, short(x), b[:min(len(b), 100)], short(y))
			}
			// Any width of integers is accepted.
			alt := refEncode(w.Rand, v)
			any := codec.NewAny(nil)
			r := &countReader{r: bytes.NewReader(append(append([]byte(nil), alt...), 0xc3, 0xc3))}
			err, p = try(func() error { return any.Decode(r) })
			if err != nil || p != nil || topCanon(any.Any()) != topCanon(v) || r.n != len(alt) {
				w.Viol("accept", "% x means %s, but decodes to %s, err %v, panic %v, %d of %d bytes", alt[:min(len(alt), 100)], short(topCanon(v)), short(topCanon(any.Any())), err, p, r.n, len(alt))
			}
			w.State(shape(v))
			if !bytes.Equal(alt, b) {
				w.Count("non-minimal encodings", 1)
			}
			if i%5000 == 0 {
				w.Sample("%T %s -> % x", v, short(topCanon(v)), b[:min(len(b), 24)])
			}
		}
	})
}

var _ sync.Mutex
