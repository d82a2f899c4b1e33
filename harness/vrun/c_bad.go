package main

// C08: calls that can't be carried out. C09: the same call, local and remote.

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/muguangyi/ferry/chancall"
)

// Frail is a feature that many bad calls are made to.
type Frail struct {
	Base
	ran int64 // executions of methods that must not run
}

func (f *Frail) Good(id int64, s string) (int64, string) {
	f.enter()
	defer f.leave()
	f.led.Add(id)
	return mix(id), s + f.name
}

func (f *Frail) note() { atomic.AddInt64(&f.ran, 1) }

func (f *Frail) TakeInt(v int)                 { f.note() }
func (f *Frail) TakeU8(v uint8)                { f.note() }
func (f *Frail) TakeStr(v string) string       { f.note(); return v }
func (f *Frail) TakeBool(v bool)               { f.note() }
func (f *Frail) TakeTwo(a int, b string) int   { f.note(); return a }
func (f *Frail) TakeInts(v []int)              { f.note() }
func (f *Frail) TakeArr(v [3]int)              { f.note() }
func (f *Frail) TakeMap(v map[string]int)      { f.note() }
func (f *Frail) TakeVar(a string, rest ...int) { f.note() }
func (f *Frail) TakeNone()                     { f.note() }

func (f *Frail) TakeAny(v interface{}) interface{}                              { f.note(); return v }
func (f *Frail) TakeAnys(v []interface{})                                       { f.note() }
func (f *Frail) TakeF32(v float32) float32                                      { f.note(); return v }
func (f *Frail) TakeI64F64(a int64, b float64) float64                          { f.note(); return b }
func (f *Frail) TakeStrAny(a string, b interface{})                             { f.note() }
func (f *Frail) TakeAnyAny(a, b interface{})                                    { f.note() }
func (f *Frail) TakeMixed(a uint16, b []string, c map[int8]bool, d interface{}) { f.note() }
func (f *Frail) TakeNest(v [][]map[string][]bool)                               { f.note() }
func (f *Frail) TakeSliceMap(a []bool, b map[string]interface{})                { f.note() }
func (f *Frail) TakeVarAny(a bool, rest ...interface{})                         { f.note() }
func (f *Frail) TakeVarMap(a interface{}, b string, rest ...map[string]bool) int {
	f.note()
	return len(rest)
}

var takes []reflect.Method

func init() {
	t := reflect.TypeOf(&Frail{})
	for i := 0; i < t.NumMethod(); i++ {
		if m := t.Method(i); strings.HasPrefix(m.Name, "Take") {
			takes = append(takes, m)
		}
	}
}

// fit makes a value for a parameter.
func (g Gen) fit(t reflect.Type) interface{} {
	if t == anyType {
		return []interface{}{nil, 1, "x", true, []int{1}}[g.Intn(5)]
	}
	return g.ofType(t, 1+g.Intn(3)).Interface()
}

// kindOf sorts types by what can't become what.
func kindOf(t reflect.Type) string {
	switch {
	case isNum(t.Kind()):
		return "number"
	case t.Kind() == reflect.Bool:
		return "bool"
	case t.Kind() == reflect.String:
		return "string"
	case t.Kind() == reflect.Slice || t.Kind() == reflect.Array:
		return "list"
	case t.Kind() == reflect.Map:
		return "map"
	}
	return "any"
}

// misfit makes a value that is nothing for a parameter, or false if there is none.
func (g Gen) misfit(t reflect.Type) (interface{}, string, bool) {
	k := kindOf(t)
	if k == "any" {
		return nil, "", false
	}
	if (k == "list" || k == "map") && g.Intn(2) == 0 {
		// One element of it.
		v, what, ok := g.misfit(t.Elem())
		if k == "list" && ok {
			n := 1 + g.Intn(3)
			if t.Kind() == reflect.Array {
				n = t.Len()
			}
			a := make([]interface{}, n)
			for i := range a {
				a[i] = g.fit(t.Elem())
			}
			a[g.Intn(n)] = v
			return a, "element: " + what, true
		}
		if k == "map" {
			if ok && g.Intn(2) == 0 {
				return map[interface{}]interface{}{g.fit(t.Key()): v}, "element: " + what, true
			}
			v, what, ok := g.misfit(t.Key())
			if ok && v != nil && reflect.TypeOf(v).Comparable() {
				return map[interface{}]interface{}{v: g.fit(t.Elem())}, "key: " + what, true
			}
		}
	}
	all := map[string][]interface{}{
		"number": {1, int8(-1), uint64(7), float32(1.5), 2.5},
		"bool":   {true, false},
		"string": {"", "1", "true"},
		"list":   {[]int{}, []int{1}, []interface{}{1, "x"}, [2]bool{true, false}, []string{"a"}},
		"map":    {map[string]int{}, map[string]int{"a": 1}, map[interface{}]interface{}{1: "x"}},
		"nil":    {nil},
	}
	for {
		o := []string{"number", "bool", "string", "list", "map", "nil"}[g.Intn(6)]
		if o == k || o == "nil" && (k == "list" && t.Kind() == reflect.Slice || k == "map") {
			continue
		}
		// In Go these are conversions.
		if k == "string" && (o == "number" || o == "list") || k == "list" && o == "string" {
			continue
		}
		v := all[o][g.Intn(len(all[o]))]
		return v, fmt.Sprintf("%s for %s", o, k), true
	}
}

// wrongCall makes a call with a wrong number of arguments, or one of a wrong type.
func (g Gen) wrongCall() badCall {
	for {
		m := takes[g.Intn(len(takes))]
		n := m.Type.NumIn() - 1
		in := func(i int) reflect.Type {
			if m.Type.IsVariadic() && i >= n-1 {
				return m.Type.In(n).Elem()
			}
			return m.Type.In(i + 1)
		}
		least := n
		if m.Type.IsVariadic() {
			least--
		}
		fill := func(n int) []interface{} {
			var a []interface{}
			for i := 0; i < n; i++ {
				a = append(a, g.fit(in(i)))
			}
			return a
		}
		switch g.Intn(4) {
		case 0:
			if least == 0 {
				continue
			}
			k := g.Intn(least)
			return badCall{fmt.Sprintf("%d of %d arguments", k, least), m.Name, fill(k), false, ""}
		case 1:
			if m.Type.IsVariadic() {
				continue
			}
			a := fill(n)
			for k := 1 + g.Intn(3); k > 0; k-- {
				a = append(a, []interface{}{nil, 0, "", false, []int{}}[g.Intn(5)])
			}
			return badCall{fmt.Sprintf("%d arguments more, last %T", len(a)-n, a[len(a)-1]), m.Name, a, false, ""}
		}
		k := n
		if m.Type.IsVariadic() {
			k += g.Intn(3)
		}
		if k == 0 {
			continue
		}
		a := fill(k)
		i := g.Intn(k)
		v, what, ok := g.misfit(in(i))
		if !ok {
			continue
		}
		a[i] = v
		return badCall{fmt.Sprintf("argument %d, %s", i, what), m.Name, a, false, ""}
	}
}

// wrongName makes a call that would be right if the name of the method were.
func (g Gen) wrongName() badCall {
	t := reflect.TypeOf(&Frail{})
	for {
		name, args := "Good", []interface{}{1, "s"}
		if g.Intn(2) == 0 {
			m := takes[g.Intn(len(takes))]
			name, args = m.Name, nil
			for i := 1; i < m.Type.NumIn(); i++ {
				if !m.Type.IsVariadic() || i < m.Type.NumIn()-1 {
					args = append(args, g.fit(m.Type.In(i)))
				}
			}
		}
		b := []byte(name)
		i := g.Intn(len(b))
		switch g.Intn(9) {
		case 0:
			name = []string{" ", "\n", "\t", "\x00", "\u00a0", "\ufeff", "_", ".", "*", "(*Frail).", "Frail.", "main.", "Base."}[g.Intn(13)] + name
		case 1:
			name += []string{" ", "\n", "\r\n", "\x00", "\u0301", "()", "-fm", ".", "*", "s"}[g.Intn(10)]
		case 2:
			name = strings.ToLower(name)
		case 3:
			name = strings.ToUpper(name)
		case 4:
			b[i] ^= 0x20
			name = string(b)
		case 5:
			b[i] |= 0x80
			name = string(b)
		case 6:
			name = name[:i] + name[i+1:]
		case 7:
			name = name[:i] + name[i:i+1] + name[i:]
		case 8:
			name, args = []string{"enter", "leave", "note", "probe", "theSlot", "quit", "loopWood", "name", "ran", "Base", "%s", "*", "", "\xff", strings.Repeat("G", 70000)}[g.Intn(15)], nil
		}
		if _, is := t.MethodByName(name); !is {
			return badCall{"no such method", name, args, false, ""}
		}
	}
}

var errPanic = errors.New("an error that is panicked with")

func (f *Frail) Panic(kind int) int {
	f.enter()
	defer f.leave()
	switch kind {
	case 0:
		panic("a string")
	case 1:
		panic(errPanic)
	case 2:
		panic(42)
	case 3:
		var m map[string]int
		m["x"] = 1
	case 4:
		var a []int
		_ = a[kind]
	case 5:
		var p *Frail
		p.name = "x"
	case 6:
		panic(fmt.Sprintf("%v", []int{1, 2}))
	case 7:
		var i interface{} = "x"
		_ = i.(int)
	case 8:
		panic(structVal{3})
	case 9:
		var e error
		panic(e)
	case 10:
		panic(&structVal{4})
	}
	return kind
}

// Quit ends the goroutine it runs in, some calls deep.
func (f *Frail) Quit(deep int) int {
	f.enter()
	defer f.leave()
	if deep > 0 {
		defer func() { recover() }()
		return f.quit(deep)
	}
	runtime.Goexit()
	return deep
}

func (f *Frail) quit(deep int) int {
	defer func() { recover() }()
	if deep > 1 {
		return f.quit(deep - 1)
	}
	runtime.Goexit()
	return 0
}

// Types that contain themselves.
type tree []tree
type wood map[string]wood
type leaf [1][]leaf

func (f *Frail) GrowTree(t tree) { f.note() }
func (f *Frail) GrowWood(t wood) { f.note() }
func (f *Frail) GrowLeaf(t leaf) { f.note() }

func (f *Frail) GiveLoop() []interface{} {
	loop := []interface{}{1, nil}
	loop[1] = loop
	return loop
}
func (f *Frail) GiveWood() wood { return f.loopWood() }
func (f *Frail) loopWood() wood {
	t := wood{}
	t["x"] = wood{"y": t}
	return t
}

func (f *Frail) GiveChan() chan int      { return make(chan int) }
func (f *Frail) GiveFunc() (int, func()) { return 1, func() {} }
func (f *Frail) GiveStruct() structVal   { return structVal{1} }
func (f *Frail) GiveNested() []interface{} {
	return []interface{}{1, map[string]interface{}{"x": &structVal{1}}}
}
func (f *Frail) GiveError() error { return errPanic }

type badCall struct {
	name   string
	method string
	args   []interface{}
	remote bool // bad only if the feature is in another dock
	target string
}

func badCalls(g Gen) []badCall {
	loop := []interface{}{nil}
	loop[0] = loop
	loopMap := map[string]interface{}{}
	loopMap["x"] = loopMap
	bad := []badCall{
		{"unknown method", "Nothing", nil, false, ""},
		{"unknown method with arguments", "good", []interface{}{1, "x"}, false, ""},
		{"empty method name", "", nil, false, ""},
		{"too few", "TakeInt", nil, false, ""},
		{"too few", "TakeTwo", []interface{}{1}, false, ""},
		{"too few", "TakeVar", nil, false, ""},
		{"too many", "TakeInt", []interface{}{1, 2}, false, ""},
		{"too many", "TakeNone", []interface{}{1}, false, ""},
		{"too many", "TakeTwo", []interface{}{1, "x", 2, 3, 4}, false, ""},
		{"string for int", "TakeInt", []interface{}{"1"}, false, ""},
		{"bool for int", "TakeInt", []interface{}{true}, false, ""},
		{"nil for int", "TakeInt", []interface{}{nil}, false, ""},
		{"slice for int", "TakeInt", []interface{}{[]int{1}}, false, ""},
		{"map for int", "TakeU8", []interface{}{map[string]int{"a": 1}}, false, ""},
		{"nil for string", "TakeStr", []interface{}{nil}, false, ""},
		{"float for string", "TakeStr", []interface{}{1.5}, false, ""},
		{"map for string", "TakeStr", []interface{}{map[string]int{}}, false, ""},
		{"int for bool", "TakeBool", []interface{}{1}, false, ""},
		{"string for bool", "TakeBool", []interface{}{"true"}, false, ""},
		{"second argument", "TakeTwo", []interface{}{1, true}, false, ""},
		{"first argument", "TakeTwo", []interface{}{"x", "y"}, false, ""},
		{"element", "TakeInts", []interface{}{[]interface{}{1, "x"}}, false, ""},
		{"scalar for slice", "TakeInts", []interface{}{5}, false, ""},
		{"map for slice", "TakeInts", []interface{}{map[string]int{}}, false, ""},
		{"slice for map", "TakeMap", []interface{}{[]int{1}}, false, ""},
		{"map element", "TakeMap", []interface{}{map[string]interface{}{"a": "b"}}, false, ""},
		{"map key", "TakeMap", []interface{}{map[interface{}]interface{}{true: 1}}, false, ""},
		{"array of another length", "TakeArr", []interface{}{[]int{1, 2}}, false, ""},
		{"variadic element", "TakeVar", []interface{}{"x", 1, "y"}, false, ""},
		{"struct", "TakeInt", []interface{}{structVal{1}}, false, ""},
		{"pointer", "TakeInt", []interface{}{&structVal{1}}, false, ""},
		{"function", "TakeStr", []interface{}{func() {}}, false, ""},
		{"channel", "TakeStr", []interface{}{make(chan int)}, false, ""},
		{"complex", "TakeStr", []interface{}{complex(1, 2)}, false, ""},
		{"slice of functions", "TakeInts", []interface{}{[]interface{}{1, func() {}}}, false, ""},
		{"endless slice", "TakeInts", []interface{}{loop}, true, ""},
		{"endless map", "TakeMap", []interface{}{loopMap}, true, ""},
		{"endless slice for a recursive type", "GrowTree", []interface{}{loop}, false, ""},
		{"endless map for a recursive type", "GrowWood", []interface{}{loopMap}, false, ""},
		{"endless slice for a recursive array", "GrowLeaf", []interface{}{[1]interface{}{loop}}, false, ""},
		{"endless result", "GiveLoop", nil, true, ""},
		{"endless typed result", "GiveWood", nil, true, ""},
		{"end of the goroutine", "Quit", []interface{}{0}, false, ""},
		{"end of the goroutine in a call", "Quit", []interface{}{1}, false, ""},
		{"end of the goroutine in calls", "Quit", []interface{}{3}, false, ""},
		{"result is a channel", "GiveChan", nil, true, ""},
		{"result is a function", "GiveFunc", nil, true, ""},
		{"result is a struct", "GiveStruct", nil, true, ""},
		{"result holds a pointer", "GiveNested", nil, true, ""},
		{"result is an error", "GiveError", nil, true, ""},
	}
	for k := 0; k <= 10; k++ {
		bad = append(bad, badCall{fmt.Sprintf("panic %d", k), "Panic", []interface{}{k}, false, ""})
	}
	for k := 0; k < 40; k++ {
		bad = append(bad, g.wrongCall())
	}
	for k := 0; k < 15; k++ {
		bad = append(bad, g.wrongName())
	}
	return bad
}

// mustRun tells whether the method of a bad call runs at all.
func mustNotRun(b badCall) bool {
	return strings.HasPrefix(b.method, "Take") || strings.HasPrefix(b.method, "Grow")
}

func (w *W) goodCall(what string, c Caller, f *Frail, id int64) bool {
	res, err := c.CallWithResult("Good", id, "s")
	if err != nil || len(res) != 2 || canon(res[0], false) != canon(mix(id), false) || res[1] != "s"+f.name {
		w.Viol("collateral", "%s: the good call %d gets %v, %v", what, id, short(canon(res, false)), err)
		return false
	}
	return true
}

func (w *W) badRound(where string, c Caller, f *Frail, others func(what string) bool, remote bool, r *rand.Rand, base int64, progress *int64) {
	bad := badCalls(Gen{r})
	r.Shuffle(len(bad), func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
	for i, b := range bad {
		if w.Bad() {
			return
		}
		if b.remote && !remote {
			continue
		}
		what := fmt.Sprintf("%s, %s (%s)", where, b.name, short(fmt.Sprintf("%q", b.method)))
		withResult := r.Intn(2) == 0 || strings.HasPrefix(b.method, "Give")
		var res []interface{}
		var err error
		if _, p := try(func() error {
			if withResult {
				res, err = c.CallWithResult(b.method, b.args...)
			} else {
				err = c.Call(b.method, b.args...)
			}
			return nil
		}); p != nil {
			w.Viol("panic", "%s: the caller panics: %v", what, p)
			return
		}
		w.Eval(1)
		atomic.AddInt64(progress, 1)
		if err == nil {
			w.Viol("accepted", "%s: no error, results %v", what, short(canon(res, false)))
			return
		}
		w.State("%s %s %s %v", where, short(b.method), b.name, withResult)
		w.Sample("%s -> %v", what, err)
		if !w.goodCall("after "+what, c, f, base+int64(i)) || !others("after "+what) {
			return
		}
	}
	if n := atomic.LoadInt64(&f.ran); n != 0 {
		w.Viol("ran", "%s: a method has run %d times although every call to it was to be rejected", where, n)
	}
}

func init() {
	scenario("c08", func(w *W) {
		where := []string{"chancall", "slot", "remote"}[w.p("where", 0)]
		g := int(w.p("g", 1))
		var hub string
		if where != "chancall" {
			hub = w.startHub(2*w.N + 10)
		}
		for round := 0; round < w.N && !w.Bad(); round++ {
			f := &Frail{}
			f.name, f.led = fmt.Sprintf("frail%d", round), newLedger()
			o := &Frail{}
			o.name, o.led = fmt.Sprintf("other%d", round), newLedger()
			var c, oc Caller
			if where == "chancall" {
				cf, co := chancall.NewCallee(f.name, f), chancall.NewCallee(o.name, o)
				cf.SetTimeout("Good", 3600)
				co.SetTimeout("Good", 3600)
				c, oc = chancall.NewCaller(cf), chancall.NewCaller(co)
			} else {
				w.startDock(hub, f.name, carryLong(f.name, f, true, "Good"), carryLong(o.name, o, true, "Good"))
				client := w.newEcho(fmt.Sprintf("client%d", round), newLedger())
				if !w.startEchos(hub, client.name, client) {
					return
				}
				if !w.Await(func() bool { return f.theSlot() != nil && o.theSlot() != nil }) {
					w.Viol("hang", "features are not started\n%s", Dump())
					return
				}
				s := o.theSlot()
				if where == "remote" {
					s = client.theSlot()
				}
				c, oc = slotCaller{s, f.name}, slotCaller{s, o.name}
				// A feature that the addressed dock does not carry.
				if where == "remote" {
					q := w.dialPeer("", hub, nil)
					q.Put(pQueryReq, f.name)
					if !q.AwaitGot(pQueryResp, 1) {
						w.Viol("hang", "query is not answered")
						return
					}
					p := w.dialDock(q.Got(pQueryResp)[0].Str(0), nil, nil)
					p.Put(pRpcReq, int64(1), "absent", "Good", []interface{}{1, "s"}, true)
					p.Put(pRpcReq, int64(2), f.name, "Good", []interface{}{1, "s"}, true)
					p.Put(pRpcReq, int64(3), "", "", []interface{}{}, false)
					if !p.AwaitGot(pRpcResp, 3) {
						w.Viol("hang", "requests for an absent and a present feature get %v", p.All())
						return
					}
					for _, k := range p.Got(pRpcResp) {
						if (k.Int(0) == 2) != (k.Str(4) == "") {
							w.Viol("accepted", "request %d (1 and 3 are for absent features) is answered %v", k.Int(0), k)
						}
					}
					p.Close()
				}
			}
			var id int64
			var progress int64
			ok := w.GroupProgress(g, &progress, func(k int) {
				r := w.R(k + round*50)
				w.badRound(where, c, f, func(what string) bool {
					return w.goodCall(what, oc, o, 1e9+atomic.AddInt64(&id, 1))
				}, where == "remote", r, int64(k+1)*100000, &progress)
			})
			if !ok {
				w.Viol("hang", "%s: bad calls or calls after them do not return\n%s", where, Dump())
				return
			}
			f.led.mu.Lock()
			for id, n := range f.led.execs {
				if n != 1 {
					w.Viol("count", "good call %d has run %d times", id, n)
				}
			}
			f.led.mu.Unlock()
			w.State("%s %d goroutines", where, g)
		}
	})

	checks["C08"] = func(c *C) {
		c.Rule("61 fixed kinds of calls, and generated ones (names a little different from a method's, every wrong number of arguments; one argument, element or key of another kind, for 21 methods) that can't be carried out (names, counts, types at any depth, unsendable, also for a size over 4 GB, arguments and results, values that contain themselves, 11 kinds of panics, methods that end their goroutine, absent features) in random order, by 1 and 8 goroutines, in process, through slots and across docks; each must give its caller an error, run nothing if rejected, and be followed by correct calls to the same and another feature. Distinct: place x bad call x with/without result.")
		var jobs []Job
		for i := int64(0); i < 3; i++ {
			for _, g := range []int64{1, 8} {
				jobs = append(jobs, Times(c.Pick(1, 3), Job{Scenario: "c08", N: c.Pick(120, 380), P: map[string]int64{"where": i, "g": g}})...)
			}
			jobs = append(jobs, Job{Scenario: "c08", N: c.Pick(2, 15), Race: true, P: map[string]int64{"where": i, "g": 8}})
		}
		for i := int64(0); i < 3; i++ {
			jobs = append(jobs, Job{Scenario: "c08streak", N: c.Pick(2500, 80000), P: map[string]int64{"where": i}})
		}
		jobs = append(jobs, Job{Scenario: "c08huge", P: map[string]int64{"many": int64(c.Pick(0, 1))}})
		c.Run(6, jobs...)
	}
}

// C09

// Twin is carried twice: by the dock of the caller and by another one.
type Twin struct {
	Base
	mu   sync.Mutex
	seen map[int64]string
}

func (t *Twin) see(id int64, args ...interface{}) {
	t.enter()
	defer t.leave()
	s := ""
	for _, a := range args {
		// The declared type is part of what the method sees, except in an
		// interface, where only the value is.
		if p, ok := a.(*interface{}); ok {
			s += canon(*p, false) + ";"
		} else {
			s += reflect.TypeOf(a).String() + " " + canon(a, false) + ";"
		}
	}
	t.mu.Lock()
	t.seen[id] += s + "|"
	t.mu.Unlock()
}

func (t *Twin) what(id int64) string { t.mu.Lock(); defer t.mu.Unlock(); return t.seen[id] }

func (t *Twin) Bool(id int64, a bool) bool              { t.see(id, a); return a }
func (t *Twin) Int(id int64, a int) int                 { t.see(id, a); return a }
func (t *Twin) I8(id int64, a int8) int8                { t.see(id, a); return a }
func (t *Twin) I16(id int64, a int16) int16             { t.see(id, a); return a }
func (t *Twin) I32(id int64, a int32) int32             { t.see(id, a); return a }
func (t *Twin) I64(id int64, a int64) int64             { t.see(id, a); return a }
func (t *Twin) Uint(id int64, a uint) uint              { t.see(id, a); return a }
func (t *Twin) U8(id int64, a uint8) uint8              { t.see(id, a); return a }
func (t *Twin) U16(id int64, a uint16) uint16           { t.see(id, a); return a }
func (t *Twin) U32(id int64, a uint32) uint32           { t.see(id, a); return a }
func (t *Twin) U64(id int64, a uint64) uint64           { t.see(id, a); return a }
func (t *Twin) F32(id int64, a float32) float32         { t.see(id, a); return a }
func (t *Twin) F64(id int64, a float64) float64         { t.see(id, a); return a }
func (t *Twin) Str(id int64, a string) string           { t.see(id, a); return a }
func (t *Twin) Any(id int64, a interface{}) interface{} { t.see(id, &a); return a }
func (t *Twin) Ints(id int64, a []int) []int            { t.see(id, a); return a }
func (t *Twin) Bytes(id int64, a []byte) []byte         { t.see(id, a); return a }
func (t *Twin) Strs(id int64, a []string) []string      { t.see(id, a); return a }
func (t *Twin) F32s(id int64, a []float32) []float32    { t.see(id, a); return a }
func (t *Twin) Anys(id int64, a []interface{}) []interface{} {
	t.see(id, a)
	return a
}
func (t *Twin) Arr(id int64, a [3]int16) [3]int16                      { t.see(id, a); return a }
func (t *Twin) Map(id int64, a map[string]int) map[string]int          { t.see(id, a); return a }
func (t *Twin) MapU(id int64, a map[uint8][]string) map[uint8][]string { t.see(id, a); return a }
func (t *Twin) MapF(id int64, a map[float32]bool) map[float32]bool     { t.see(id, a); return a }
func (t *Twin) MapAny(id int64, a map[interface{}]interface{}) map[interface{}]interface{} {
	t.see(id, a)
	return a
}
func (t *Twin) Nest(id int64, a [][]map[string][]float64) [][]map[string][]float64 {
	t.see(id, a)
	return a
}
func (t *Twin) Two(id int64, a string, b []uint16, c float32) (string, []uint16, float32, int) {
	t.see(id, a, b, c)
	return a, b, c, len(b)
}
func (t *Twin) Var(id int64, a string, rest ...int32) (string, int) {
	t.see(id, a, rest)
	return a, len(rest)
}
func (t *Twin) VarAny(id int64, rest ...interface{}) []interface{} { t.see(id, rest); return rest }
func (t *Twin) None(id int64)                                      { t.see(id) }
func (t *Twin) Err(id int64, a int) int {
	t.see(id, a)
	if a%2 == 0 {
		panic("even")
	}
	return a
}

var twinParams = map[string][]reflect.Type{}
var twinNames []string

func init() {
	t := reflect.TypeOf(&Twin{})
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() < 2 || m.Type.In(1).Kind() != reflect.Int64 || m.Name == "Err" || strings.HasPrefix(m.Name, "On") {
			continue
		}
		var in []reflect.Type
		for k := 2; k < m.Type.NumIn(); k++ {
			in = append(in, m.Type.In(k))
		}
		twinParams[m.Name] = in
		twinNames = append(twinNames, m.Name)
	}
}

func isNum(k reflect.Kind) bool {
	return k >= reflect.Int && k <= reflect.Float64 && k != reflect.Uintptr
}

// argFor makes an argument for a parameter type: of this type, of one that
// converts to it number by number, or nil where nil is a value.
func (g Gen) argFor(t reflect.Type, depth int) interface{} {
	switch {
	case t == anyType:
		return g.value(2)
	case isNum(t.Kind()):
		switch g.Intn(4) {
		case 0:
			// Values small enough for every number type.
			return []interface{}{int(g.Intn(100)), int8(g.Intn(100)), uint8(g.Intn(100)), uint64(g.Intn(100)), float64(g.Intn(100)), float32(g.Intn(100)), int64(g.Intn(100)), uint16(g.Intn(100))}[g.Intn(8)]
		case 1:
			if t.Kind() >= reflect.Float32 {
				return g.signed()
			}
			// Out of range values wrap the same way on both sides.
			if g.Intn(2) == 0 {
				return g.signed()
			}
			return g.unsigned()
		}
		return g.ofType(t, 0).Interface()
	case t.Kind() == reflect.Slice:
		if g.Intn(10) == 0 {
			return nil
		}
		n := g.Intn(5)
		switch g.Intn(3) {
		case 0:
			return g.ofType(t, n).Interface()
		case 1:
			a := make([]interface{}, n)
			for i := range a {
				a[i] = g.argFor(t.Elem(), depth-1)
			}
			return a
		}
		if isNum(t.Elem().Kind()) {
			et := []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(int16(0))}[g.Intn(4)]
			v := reflect.MakeSlice(reflect.SliceOf(et), n, n)
			for i := 0; i < n; i++ {
				v.Index(i).Set(reflect.ValueOf(g.Intn(100)).Convert(et))
			}
			return v.Interface()
		}
		return g.ofType(reflect.ArrayOf(n, t.Elem()), 0).Interface()
	case t.Kind() == reflect.Array:
		switch g.Intn(3) {
		case 0:
			return g.ofType(t, 0).Interface()
		case 1:
			return g.ofType(reflect.SliceOf(t.Elem()), t.Len()).Interface()
		}
		a := make([]interface{}, t.Len())
		for i := range a {
			a[i] = g.argFor(t.Elem(), depth-1)
		}
		return a
	case t.Kind() == reflect.Map:
		if g.Intn(10) == 0 {
			return nil
		}
		if g.Intn(2) == 0 {
			return g.ofType(t, g.Intn(5)).Interface()
		}
		m := map[interface{}]interface{}{}
		seen := map[string]bool{}
		for i := g.Intn(5); i > 0; i-- {
			k := g.ofType(t.Key(), 0).Interface()
			if t.Key() == anyType {
				k = g.key()
			}
			if isNaN(k) || seen[canon(k, false)] {
				continue
			}
			seen[canon(k, false)] = true
			m[k] = g.argFor(t.Elem(), depth-1)
		}
		return m
	}
	return g.ofType(t, 0).Interface()
}

// clean tells whether a map keyed by interfaces has keys that stay distinct.
func distinctKeys(v interface{}) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			if !distinctKeys(rv.Index(i).Interface()) {
				return false
			}
		}
	case reflect.Map:
		seen := map[string]bool{}
		for it := rv.MapRange(); it.Next(); {
			c := canon(it.Key().Interface(), false)
			if seen[c] || isNaN(it.Key().Interface()) || !distinctKeys(it.Value().Interface()) {
				return false
			}
			seen[c] = true
		}
	}
	return true
}

func init() {
	scenario("c09", func(w *W) {
		hub := w.startHub(8)
		local, remote := &Twin{seen: map[int64]string{}}, &Twin{seen: map[int64]string{}}
		local.name, remote.name = "local", "remote"
		methods := append([]string{"Err"}, twinNames...)
		w.startDock(hub, "A", carryLong("local", local, true, methods...))
		w.startDock(hub, "B", carryLong("remote", remote, true, methods...))
		if !w.Await(func() bool { return local.theSlot() != nil && remote.theSlot() != nil }) {
			w.Viol("hang", "features are not started\n%s", Dump())
			return
		}
		s := local.theSlot()
		var progress int64
		par := int(w.p("g", 4))
		ok := w.GroupProgress(par, &progress, func(k int) {
			g := Gen{w.R(k)}
			for i := 0; i < w.N && !w.Bad(); i++ {
				id := int64(k)*10000000 + int64(i)
				m := twinNames[g.Intn(len(twinNames))]
				in := twinParams[m]
				args := []interface{}{id}
				kind := "good"
				for j, t := range in {
					if j == len(in)-1 && strings.HasPrefix(m, "Var") {
						for n := g.Intn(4); n > 0; n-- {
							args = append(args, g.argFor(t.Elem(), 2))
						}
						break
					}
					args = append(args, g.argFor(t, 2))
				}
				switch g.Intn(14) {
				case 0: // a wrong number or type of arguments fails in both places
					kind = "extra"
					args = append(args, true)
				case 1:
					kind = "missing"
					args = args[:len(args)-1]
				case 2:
					kind = "nil"
					args[g.Intn(len(args))] = nil
				case 3:
					kind = "bool"
					args[g.Intn(len(args))] = true
				case 4:
					kind = "map"
					args[g.Intn(len(args))] = map[string]int{"a": 1}
				case 5:
					kind = "panic"
					m = "Err"
					args = []interface{}{id, g.Intn(10)}
				}
				if !distinctKeys(args) {
					continue
				}
				var res [2][]interface{}
				var err [2]error
				var callErr [2]error
				for n, target := range []string{"local", "remote"} {
					_, p := try(func() error {
						res[n], err[n] = s.CallWithResult(target, m, args...)
						callErr[n] = s.Call(target, m, args...)
						return nil
					})
					if p != nil {
						w.Viol("panic", "%s %s%v: panic %v", target, m, short(canon(args, false)), p)
						return
					}
				}
				atomic.AddInt64(&progress, 1)
				w.Eval(1)
				desc := fmt.Sprintf("%s%s", m, short(fmt.Sprintf("%#v", args)))
				if (err[0] == nil) != (err[1] == nil) {
					w.Viol("success", "%s: local error %v, remote error %v", desc, err[0], err[1])
				}
				for n, where := range []string{"local", "remote"} {
					if (err[n] == nil) != (callErr[n] == nil) {
						w.Viol("success", "%s, %s: CallWithResult gives %v, Call gives %v", desc, where, err[n], callErr[n])
					}
				}
				if a, b := local.what(id), remote.what(id); a != b {
					w.Viol("arguments", "%s: the local method sees %s, the remote one %s", desc, short(a), short(b))
				}
				if err[0] == nil && canon(res[0], false) != canon(res[1], false) {
					w.Viol("results", "%s: local %s, remote %s", desc, short(canon(res[0], false)), short(canon(res[1], false)))
				}
				if err[0] == nil && m != "None" && m != "Err" && local.what(id) == "" {
					w.Viol("arguments", "%s: the method has not run", desc)
				}
				w.State("%s %s %v %s", m, kind, err[0] == nil, shape(args))
				if i%1000 == 0 {
					w.Sample("%s: ok %v in both places, results %s", desc, err[0] == nil, short(canon(res[1], false)))
				}
			}
		})
		if !ok {
			w.Viol("hang", "calls do not return\n%s", Dump())
		}
	})
	checks["C09"] = func(c *C) {
		c.Rule("the same feature is carried by the caller's dock and by another; 31 methods over all parameter kinds are called in both with generated arguments (matching, numerically convertible, generic containers, nil, wrong numbers and types, panics): arguments as seen by the methods in their declared types, results up to integer width and container type, and success must agree, for Call and CallWithResult alike. Distinct: method x kind x success x shape of the arguments.")
		c.Assume("excluded: []byte or []rune passed for a string parameter, NaN and colliding map keys")
		c.Run(6, append(Times(c.Pick(6, 10), Job{Scenario: "c09", N: c.Pick(9000, 60000)}), Job{Scenario: "c09", N: c.Pick(1500, 8000), Race: true}, Job{Scenario: "c09big"}, Job{Scenario: "wide", N: c.Pick(200, 2000)}, Job{Scenario: "wide", N: c.Pick(200, 2000), P: map[string]int64{"where": 2}}, Job{Scenario: "c10hold", P: map[string]int64{"ticks": int64(c.Pick(6200, 31000))}, Timeout: 850})...)
	}
}
