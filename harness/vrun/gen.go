package main

import (
	"math"
	"math/rand"
	"reflect"
	"strings"
)

// Gen makes values.
type Gen struct{ *rand.Rand }

// bound returns 64 bits near an interesting boundary.
func (g Gen) bound() uint64 {
	switch g.Intn(4) {
	case 0:
		return g.Uint64() >> uint(g.Intn(64))
	case 1:
		return uint64(1)<<uint(g.Intn(64)) + uint64(g.Intn(5)) - 2
	case 2:
		return -(uint64(1)<<uint(g.Intn(64)) + uint64(g.Intn(5)) - 2)
	}
	return uint64(g.Intn(300)) - 150
}

func (g Gen) signed() interface{} {
	b := g.bound()
	switch g.Intn(5) {
	case 0:
		return int8(b)
	case 1:
		return int16(b)
	case 2:
		return int32(b)
	case 3:
		return int64(b)
	}
	return int(b)
}

func (g Gen) unsigned() interface{} {
	b := g.bound()
	switch g.Intn(5) {
	case 0:
		return uint8(b)
	case 1:
		return uint16(b)
	case 2:
		return uint32(b)
	case 3:
		return uint64(b)
	}
	return uint(b)
}

func (g Gen) f64() float64 {
	switch g.Intn(8) {
	case 0:
		return []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, 0.1, math.Pi}[g.Intn(12)]
	case 1, 2:
		return math.Float64frombits(g.bound())
	case 3:
		return float64(g.f32())
	case 4:
		return float64(g.Intn(2000) - 1000)
	case 5:
		return math.Float64frombits(0x7ff0000000000000 | g.Uint64()>>12) // NaN payloads
	}
	return math.Float64frombits(g.Uint64())
}

func (g Gen) f32() float32 {
	switch g.Intn(6) {
	case 0:
		return []float32{0, float32(math.Copysign(0, -1)), 1, -1, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32}[g.Intn(9)]
	case 1, 2:
		return math.Float32frombits(uint32(g.bound()))
	case 3:
		return float32(g.Intn(2000) - 1000)
	}
	return math.Float32frombits(g.Uint32())
}

func (g Gen) str() string {
	var n int
	switch g.Intn(10) {
	case 0:
		return ""
	case 1:
		n = []int{1, 31, 32, 127, 128, 255, 256, 257, 1023, 1024, 4096}[g.Intn(11)]
	case 2:
		n = g.Intn(600)
	default:
		n = g.Intn(12)
	}
	b := make([]byte, n)
	switch g.Intn(3) {
	case 0:
		g.Read(b)
	case 1:
		for i := range b {
			b[i] = "abcdefghij \x00\x01\xff\xc0\xdb\xdd"[g.Intn(17)]
		}
	default:
		return strings.Repeat("é漢", n/5) + "x"
	}
	return string(b)
}

func (g Gen) scalar() interface{} {
	switch g.Intn(8) {
	case 0:
		return nil
	case 1:
		return g.Intn(2) == 0
	case 2, 3:
		return g.signed()
	case 4:
		return g.unsigned()
	case 5:
		return g.f64()
	case 6:
		return g.f32()
	}
	return g.str()
}

func isNaN(v interface{}) bool {
	switch x := v.(type) {
	case float64:
		return x != x
	case float32:
		return x != x
	}
	return false
}

// key makes a map key: a scalar that equals itself.
func (g Gen) key() interface{} {
	for {
		k := g.scalar()
		if !isNaN(k) {
			return k
		}
	}
}

func (g Gen) value(depth int) interface{} {
	if depth <= 0 || g.Intn(3) > 0 {
		return g.scalar()
	}
	n := g.Intn(6)
	if g.Intn(40) == 0 {
		n = 100 + g.Intn(500)
		depth = 1
	}
	switch g.Intn(12) {
	case 0, 1, 2:
		a := make([]interface{}, n)
		for i := range a {
			a[i] = g.value(depth - 1)
		}
		return a
	case 3, 4:
		m := map[interface{}]interface{}{}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := g.key()
			c := canon(k, false)
			if seen[c] {
				continue // not distinct after encoding
			}
			seen[c] = true
			m[k] = g.value(depth - 1)
		}
		return m
	case 5:
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[g.str()] = g.value(depth - 1)
		}
		return m
	}
	return g.typed(n, depth)
}

// typed makes a slice, array or map with static element types.
func (g Gen) typed(n, depth int) interface{} {
	t := g.typ(depth)
	return g.ofType(t, n).Interface()
}

var scalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
}
var anyType = reflect.TypeOf((*interface{})(nil)).Elem()

func (g Gen) elemType(depth int) reflect.Type {
	if depth > 1 && g.Intn(3) == 0 {
		return g.typ(depth - 1)
	}
	if g.Intn(6) == 0 {
		return anyType
	}
	return scalarTypes[g.Intn(len(scalarTypes))]
}

func (g Gen) typ(depth int) reflect.Type {
	switch g.Intn(3) {
	case 0:
		return reflect.SliceOf(g.elemType(depth))
	case 1:
		return reflect.ArrayOf(g.Intn(4), g.elemType(depth))
	}
	return reflect.MapOf(scalarTypes[g.Intn(len(scalarTypes))], g.elemType(depth))
}

func (g Gen) ofType(t reflect.Type, n int) reflect.Value {
	switch t.Kind() {
	case reflect.Slice:
		if n > 20 {
			n = 20
		}
		v := reflect.MakeSlice(t, n, n+g.Intn(3))
		for i := 0; i < n; i++ {
			v.Index(i).Set(g.ofType(t.Elem(), g.Intn(4)))
		}
		return v
	case reflect.Array:
		v := reflect.New(t).Elem()
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(g.ofType(t.Elem(), g.Intn(4)))
		}
		return v
	case reflect.Map:
		v := reflect.MakeMap(t)
		for i := 0; i < n && i < 20; i++ {
			k := g.ofType(t.Key(), 0)
			if isNaN(k.Interface()) {
				continue
			}
			v.SetMapIndex(k, g.ofType(t.Elem(), g.Intn(4)))
		}
		return v
	case reflect.Interface:
		v := reflect.New(t).Elem()
		if x := g.scalar(); x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return v
	case reflect.Bool:
		return reflect.ValueOf(g.Intn(2) == 0).Convert(t)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return reflect.ValueOf(int64(g.bound())).Convert(t)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return reflect.ValueOf(g.bound()).Convert(t)
	case reflect.Float64:
		return reflect.ValueOf(g.f64()).Convert(t)
	case reflect.Float32:
		return reflect.ValueOf(g.f32()).Convert(t)
	case reflect.String:
		return reflect.ValueOf(g.str()).Convert(t)
	}
	panic(t.String())
}

// shape describes a value without its contents.
func shape(v interface{}) string {
	if v == nil {
		return "nil"
	}
	rv := reflect.ValueOf(v)
	s := rv.Type().String()
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := rv.Int()
		l := 0
		for y := uint64(x ^ (x >> 63)); y > 0; y >>= 1 {
			l++
		}
		if x < 0 {
			return s + "-" + string(rune('A'+l))
		}
		return s + "+" + string(rune('A'+l))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		l := 0
		for y := rv.Uint(); y > 0; y >>= 1 {
			l++
		}
		return s + string(rune('A'+l))
	case reflect.Float64:
		b := math.Float64bits(rv.Float())
		return s + string(rune('A'+b>>58)) + string(rune('A'+lead(b)))
	case reflect.Float32:
		b := math.Float32bits(float32(rv.Float()))
		return s + string(rune('A'+b>>26)) + string(rune('A'+lead(uint64(b))))
	case reflect.String:
		return s + string(rune('A'+lead(uint64(rv.Len()))))
	case reflect.Slice, reflect.Array:
		s += "["
		for i := 0; i < rv.Len() && i < 8; i++ {
			s += shape(rv.Index(i).Interface()) + ","
		}
		return s + "]"
	case reflect.Map:
		return s + "{" + string(rune('A'+lead(uint64(rv.Len())))) + "}"
	}
	return s
}

func lead(x uint64) int {
	l := 0
	for ; x > 0; x >>= 1 {
		l++
	}
	return l
}
