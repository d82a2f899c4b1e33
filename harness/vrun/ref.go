package main

// Independent implementation of the wire format: tag table, packets, frames.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

var errShort = errors.New("short")

// refDecode decodes one value. Integers become int64/uint64, floats float32 or
// float64, sequences []interface{}, maps refMap.
type refPair struct{ K, V interface{} }
type refMap []refPair

func refDecode(b []byte) (v interface{}, n int, err error) {
	if len(b) == 0 {
		return nil, 0, errShort
	}
	need := func(k int) bool { return len(b) >= 1+k }
	switch t := b[0]; t {
	case 0xc0:
		return nil, 1, nil
	case 0xc2:
		return false, 1, nil
	case 0xc3:
		return true, 1, nil
	case 0xca, 0xcb:
		x, k, err := refDecode(b[1:])
		if err != nil {
			return nil, 0, err
		}
		u, ok := x.(uint64)
		if !ok {
			return nil, 0, fmt.Errorf("float payload %T", x)
		}
		if t == 0xca {
			if u > math.MaxUint32 {
				return nil, 0, errors.New("float32 payload too big")
			}
			return math.Float32frombits(uint32(u)), 1 + k, nil
		}
		return math.Float64frombits(u), 1 + k, nil
	case 0xcc:
		if !need(1) {
			return nil, 0, errShort
		}
		return uint64(b[1]), 2, nil
	case 0xcd:
		if !need(2) {
			return nil, 0, errShort
		}
		return uint64(binary.BigEndian.Uint16(b[1:])), 3, nil
	case 0xce:
		if !need(4) {
			return nil, 0, errShort
		}
		return uint64(binary.BigEndian.Uint32(b[1:])), 5, nil
	case 0xcf:
		if !need(8) {
			return nil, 0, errShort
		}
		return binary.BigEndian.Uint64(b[1:]), 9, nil
	case 0xd0:
		if !need(1) {
			return nil, 0, errShort
		}
		return int64(int8(b[1])), 2, nil
	case 0xd1:
		if !need(2) {
			return nil, 0, errShort
		}
		return int64(int16(binary.BigEndian.Uint16(b[1:]))), 3, nil
	case 0xd2:
		if !need(4) {
			return nil, 0, errShort
		}
		return int64(int32(binary.BigEndian.Uint32(b[1:]))), 5, nil
	case 0xd3:
		if !need(8) {
			return nil, 0, errShort
		}
		return int64(binary.BigEndian.Uint64(b[1:])), 9, nil
	case 0xdb:
		if !need(4) {
			return nil, 0, errShort
		}
		l := int(binary.BigEndian.Uint32(b[1:]))
		if len(b) < 5+l {
			return nil, 0, errShort
		}
		return string(b[5 : 5+l]), 5 + l, nil
	case 0xdd, 0xdf:
		if !need(4) {
			return nil, 0, errShort
		}
		l := int(binary.BigEndian.Uint32(b[1:]))
		n := 5
		if t == 0xdf {
			m := refMap{}
			for i := 0; i < l; i++ {
				k, kn, err := refDecode(b[n:])
				if err != nil {
					return nil, 0, err
				}
				n += kn
				v, vn, err := refDecode(b[n:])
				if err != nil {
					return nil, 0, err
				}
				n += vn
				m = append(m, refPair{k, v})
			}
			return m, n, nil
		}
		a := []interface{}{}
		for i := 0; i < l; i++ {
			v, vn, err := refDecode(b[n:])
			if err != nil {
				return nil, 0, err
			}
			n += vn
			a = append(a, v)
		}
		return a, n, nil
	}
	return nil, 0, fmt.Errorf("tag %#x", b[0])
}

func be(tag byte, v uint64, n int) []byte {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], v)
	out := append([]byte{tag}, b[9-n:]...)
	return out
}

// refEncode encodes v, with any width that holds an integer: minimal if r is
// nil and random otherwise.
func refEncode(r *rand.Rand, v interface{}) []byte {
	return refAppend(nil, r, v)
}

func refAppend(out []byte, r *rand.Rand, v interface{}) []byte {
	if v == nil {
		return append(out, 0xc0)
	}
	switch x := v.(type) {
	case refMap:
		out = append(out, be(0xdf, uint64(len(x)), 4)...)
		for _, p := range x {
			out = refAppend(out, r, p.K)
			out = refAppend(out, r, p.V)
		}
		return out
	case float32:
		out = append(out, 0xca)
		return refUint(out, r, uint64(math.Float32bits(x)), 4)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return append(out, 0xc3)
		}
		return append(out, 0xc2)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return refInt(out, r, rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return refUint(out, r, rv.Uint(), 8)
	case reflect.Float64, reflect.Float32:
		out = append(out, 0xcb)
		return refUint(out, r, math.Float64bits(rv.Float()), 8)
	case reflect.String:
		out = append(out, be(0xdb, uint64(rv.Len()), 4)...)
		return append(out, rv.String()...)
	case reflect.Slice, reflect.Array:
		out = append(out, be(0xdd, uint64(rv.Len()), 4)...)
		for i := 0; i < rv.Len(); i++ {
			out = refAppend(out, r, rv.Index(i).Interface())
		}
		return out
	case reflect.Map:
		out = append(out, be(0xdf, uint64(rv.Len()), 4)...)
		for it := rv.MapRange(); it.Next(); {
			out = refAppend(out, r, it.Key().Interface())
			out = refAppend(out, r, it.Value().Interface())
		}
		return out
	}
	panic(fmt.Sprintf("refEncode %T", v))
}

func refUint(out []byte, r *rand.Rand, u uint64, max int) []byte {
	w := []int{}
	for _, n := range []int{1, 2, 4, 8} {
		if n <= max && (n == 8 || u < 1<<uint(8*n)) {
			w = append(w, n)
		}
	}
	n := w[0]
	if r != nil {
		n = w[r.Intn(len(w))]
	}
	return append(out, be(map[int]byte{1: 0xcc, 2: 0xcd, 4: 0xce, 8: 0xcf}[n], u, n)...)
}

func refInt(out []byte, r *rand.Rand, i int64) []byte {
	w := []int{}
	for _, n := range []int{1, 2, 4, 8} {
		if n == 8 || (i >= -(1<<uint(8*n-1)) && i < 1<<uint(8*n-1)) {
			w = append(w, n)
		}
	}
	n := w[0]
	if r != nil {
		n = w[r.Intn(len(w))]
	}
	return append(out, be(map[int]byte{1: 0xd0, 2: 0xd1, 4: 0xd2, 8: 0xd3}[n], uint64(i), n)...)
}

// canon writes a value such that equal values, up to integer width and generic
// container types, and only those give the same string. A float32 equals the
// float64 of the same value. With bits, floats are told apart by width and bits.
func canon(v interface{}, bits bool) string {
	var sb strings.Builder
	canonTo(&sb, v, bits)
	return sb.String()
}

func canonTo(sb *strings.Builder, v interface{}, bits bool) {
	if v == nil {
		sb.WriteString("nil")
		return
	}
	if m, ok := v.(refMap); ok {
		entries := make([]string, 0, len(m))
		for _, p := range m {
			entries = append(entries, canon(p.K, false)+":"+canon(p.V, false))
		}
		sort.Strings(entries)
		sb.WriteString("{" + strings.Join(entries, ",") + "}")
		return
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(rv.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString("i")
		sb.WriteString(strconv.FormatInt(rv.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString("u")
		sb.WriteString(strconv.FormatUint(rv.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		f := rv.Float()
		if bits {
			if x, ok := v.(float32); ok {
				fmt.Fprintf(sb, "F32:%08x", math.Float32bits(x))
			} else {
				fmt.Fprintf(sb, "F64:%016x", math.Float64bits(f))
			}
			return
		}
		if f != f {
			sb.WriteString("fNaN")
			return
		}
		if f == 0 {
			f = 0 // no negative zero
			sb.WriteString("f0")
			return
		}
		fmt.Fprintf(sb, "f%016x", math.Float64bits(f))
	case reflect.String:
		s := rv.String()
		sb.WriteString("s")
		sb.WriteString(strconv.Itoa(len(s)))
		sb.WriteString(":")
		sb.WriteString(s)
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < rv.Len(); i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			canonTo(sb, rv.Index(i).Interface(), false)
		}
		sb.WriteString("]")
	case reflect.Map:
		entries := make([]string, 0, rv.Len())
		for it := rv.MapRange(); it.Next(); {
			entries = append(entries, canon(it.Key().Interface(), false)+":"+canon(it.Value().Interface(), false))
		}
		sort.Strings(entries)
		sb.WriteString("{" + strings.Join(entries, ",") + "}")
	case reflect.Interface, reflect.Ptr:
		if rv.IsNil() {
			sb.WriteString("nil")
			return
		}
		canonTo(sb, rv.Elem().Interface(), bits)
	default:
		fmt.Fprintf(sb, "?%T", v)
	}
}

func short(s string) string {
	s = strconv.QuoteToASCII(s)
	if len(s) > 300 {
		return s[:150] + "..." + s[len(s)-100:] + fmt.Sprintf("(%d)", len(s))
	}
	return s
}

// Packets.
const (
	pError = iota
	pHeartbeat
	pReady
	pRegReq
	pRegResp
	pQueryReq
	pQueryResp
	pRpcReq
	pRpcResp
)

// Packet is a decoded packet: the id and its fields in order.
type Packet struct {
	ID int
	F  []interface{}
}

func (p Packet) String() string {
	s := fmt.Sprintf("packet %d", p.ID)
	for _, f := range p.F {
		s += " " + short(canon(f, false))
	}
	return s
}

var packetFields = map[int]int{pError: 1, pHeartbeat: 0, pReady: 1, pRegReq: 1, pRegResp: 1, pQueryReq: 1, pQueryResp: 1, pRpcReq: 5, pRpcResp: 5}

func frame(body []byte) []byte {
	h := make([]byte, 4)
	binary.LittleEndian.PutUint32(h, uint32(len(body)))
	return append(h, body...)
}

// encPacket builds the frame of a packet.
func encPacket(r *rand.Rand, id int, fields ...interface{}) []byte {
	body := refUint(nil, r, uint64(id), 8)
	for _, f := range fields {
		body = refAppend(body, r, f)
	}
	return frame(body)
}

// decPacket decodes the body of a frame.
func decPacket(body []byte) (Packet, error) {
	v, n, err := refDecode(body)
	if err != nil {
		return Packet{}, err
	}
	id, ok := v.(uint64)
	if !ok {
		return Packet{}, fmt.Errorf("packet id is %T", v)
	}
	p := Packet{ID: int(id)}
	want, ok := packetFields[p.ID]
	if !ok {
		return p, fmt.Errorf("packet id %d", p.ID)
	}
	for i := 0; i < want; i++ {
		f, fn, err := refDecode(body[n:])
		if err != nil {
			return p, fmt.Errorf("packet %d field %d: %v", p.ID, i, err)
		}
		n += fn
		p.F = append(p.F, f)
	}
	if n != len(body) {
		return p, fmt.Errorf("packet %d has %d extra bytes", p.ID, len(body)-n)
	}
	return p, nil
}

// Str and the like return a field, or a zero value of the wrong kind.
func (p Packet) Str(i int) string {
	s, _ := p.F[i].(string)
	return s
}

func (p Packet) Int(i int) int64 {
	switch x := p.F[i].(type) {
	case int64:
		return x
	case uint64:
		return int64(x)
	}
	return -1
}

func (p Packet) Strs(i int) []string {
	a, _ := p.F[i].([]interface{})
	out := []string{}
	for _, v := range a {
		s, _ := v.(string)
		out = append(out, s)
	}
	return out
}

func (p Packet) Arr(i int) []interface{} {
	a, _ := p.F[i].([]interface{})
	return a
}

func (p Packet) Bool(i int) bool {
	b, _ := p.F[i].(bool)
	return b
}
