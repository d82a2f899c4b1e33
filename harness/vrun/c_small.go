package main

// C22: sets. C23: visits and registrations.

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/misc"
)

type setName string
type setNum int
type setPair struct {
	a int
	b string
}
type setBox struct{ v interface{} }

var setPtrs = []*int{new(int), new(int), new(int), nil}
var setChans = []chan int{make(chan int), make(chan int), nil}

// setItem makes a comparable item. Few enough that items come again, many that
// look alike but differ in type.
func setItem(r *rand.Rand, n int) interface{} {
	k := r.Intn(n)
	switch r.Intn(26) {
	case 0:
		return nil
	case 1:
		return k
	case 2:
		return int8(k)
	case 3:
		return int32(k)
	case 4:
		return int64(k)
	case 5:
		return uint(k)
	case 6:
		return uint8(k)
	case 7:
		return uint64(k)
	case 8:
		return float64(k)
	case 9:
		return float32(k)
	case 10:
		return fmt.Sprint(k)
	case 11:
		return setName(fmt.Sprint(k))
	case 12:
		return setNum(k)
	case 13:
		return setPair{k, "x"}
	case 14:
		return setPair{k, fmt.Sprint(k % 2)}
	case 15:
		return [2]int{k, k / 2}
	case 16:
		return setPtrs[k%len(setPtrs)]
	case 17:
		return setBox{[]interface{}{nil, 0, "", false, int8(0), setBox{1}}[k%6]}
	case 18:
		return k%2 == 0
	case 19:
		return ""
	case 20:
		return []interface{}{struct{}{}, [0]int{}, [0]string{}, complex(float64(k), 0), complex(0, float64(k))}[k%5]
	case 21:
		return setChans[k%len(setChans)]
	case 22:
		return []interface{}{math.Inf(1), math.Inf(-1), math.Copysign(0, -1), math.MaxInt64, uint64(math.MaxUint64), 0.1}[k%6]
	case 23:
		return fmt.Errorf("%d", k) // a new pointer every time
	case 24:
		return uintptr(k)
	}
	return [1]interface{}{k}
}

func init() {
	scenario("c22set", func(w *W) {
		for i := 0; i < w.N && !w.Bad(); i++ {
			w.setRound(w.R(i))
		}
	})
	checks["C22"] = func(c *C) {
		c.Rule("a case is a sequence of up to 400 operations on up to 3 sets; a state is the operation, its outcome, the dynamic type of the item and whether an equal looking item of another type is present; every outcome is compared with a reference set")
		c.Run(8, append(Times(c.Pick(8, 64), Job{Scenario: "c22set", N: c.Pick(3000, 60000)}), Job{Scenario: "c22many", N: c.Pick(100000, 3000000)})...)
	}
	scenario("c23visit", func(w *W) {
		for i := 0; i < w.N && !w.Bad(); i++ {
			w.visitRound(i, w.R(i))
		}
	})
	scenario("c23seq", func(w *W) {
		for i := 0; i < w.N && !w.Bad(); i++ {
			w.visitSeq(i, w.R(i))
		}
	})
	checks["C23"] = func(c *C) {
		c.Rule("a case is a round of visits of several slots to several names, sequential with an exact model or concurrent with registrations; a state is the outcome of a visit together with what was registered before it; objects know the slot and the maker they were made by")
		c.Assume("a maker may be called more than once by concurrent first visits of one slot, one object wins")
		q := Times(c.Pick(6, 30), Job{Scenario: "c23seq", N: c.Pick(8000, 40000)})
		q = append(q, Job{Scenario: "c23many", N: c.Pick(3000, 100000)}, Job{Scenario: "c23many", N: c.Pick(300, 3000), Race: true})
		q = append(q, Job{Scenario: "c23self", N: c.Pick(100, 190)}, Job{Scenario: "c23self", N: c.Pick(20, 100), Race: true})
		for i, j := range Times(c.Pick(16, 80), Job{Scenario: "c23visit", N: c.Pick(3000, 12000)}) {
			j.Race = i%2 == 0
			if j.Race {
				j.N /= 4
			}
			j.Procs = []int{0, 2, 3, 0}[i/2%4]
			q = append(q, j)
		}
		c.Run(8, q...)
	}
}

// setRound runs operations on sets, which must not influence each other.
func (w *W) setRound(r *rand.Rand) {
	n := 1 + r.Intn(3)
	sets := make([]misc.ISet, n)
	refs := make([]map[interface{}]bool, n)
	for i := range sets {
		sets[i], refs[i] = misc.NewSet(), map[interface{}]bool{}
	}
	span := 1 + r.Intn(12)
	bias := r.Intn(3)
	var log []string
	ops := 1 + r.Intn(400)
	for k := 0; k < ops; k++ {
		i := r.Intn(n)
		s, ref := sets[i], refs[i]
		x := setItem(r, span)
		w.Eval(1)
		w.Count("set operations", 1)
		op := r.Intn(10)
		switch {
		case op < 4+bias:
			got := s.Add(x)
			log = append(log, fmt.Sprintf("%d.Add(%T %v)=%v", i, x, x, got))
			w.State("add %T %v %d", x, got, min(len(ref), 20))
			if got == ref[x] {
				w.Viol("set", "Add reports %v, the item was present: %v\n%v", got, ref[x], tailOf(log, 40))
				return
			}
			ref[x] = true
		case op < 8:
			if len(ref) > 0 && r.Intn(2) == 0 {
				x = anyKey(ref)
			}
			got := s.Remove(x)
			log = append(log, fmt.Sprintf("%d.Remove(%T %v)=%v", i, x, x, got))
			w.State("remove %T %v %d", x, got, min(len(ref), 20))
			if got != ref[x] {
				w.Viol("set", "Remove reports %v, the item was present: %v\n%v", got, ref[x], tailOf(log, 40))
				return
			}
			delete(ref, x)
		default:
			if !w.sameSet(s, ref, log, i) {
				return
			}
			l := s.ToSlice()
			for j := range l {
				l[j] = "overwritten"
			}
			l = append(l[:len(l)/2], "more", 1, 2)
			if !w.sameSet(s, ref, log, i) {
				return
			}
		}
	}
	for i := range sets {
		if !w.sameSet(sets[i], refs[i], log, i) {
			return
		}
	}
	w.Sample("%v", tailOf(log, 12))
}

func anyKey(m map[interface{}]bool) interface{} {
	for k := range m {
		return k
	}
	return nil
}

func tailOf(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

func (w *W) sameSet(s misc.ISet, ref map[interface{}]bool, log []string, i int) bool {
	l := s.ToSlice()
	seen := map[interface{}]bool{}
	for _, x := range l {
		if !ref[x] {
			w.Viol("set", "ToSlice of set %d lists %T %v, which is not in it\n%v", i, x, x, tailOf(log, 60))
			return false
		}
		if seen[x] {
			w.Viol("set", "ToSlice of set %d lists %T %v twice\n%v", i, x, x, tailOf(log, 60))
			return false
		}
		seen[x] = true
	}
	if len(l) != len(ref) {
		w.Viol("set", "ToSlice of set %d lists %d of %d items\n%v", i, len(l), len(ref), tailOf(log, 60))
		return false
	}
	w.Max("items in a set", len(l))
	return true
}

// vobj is what makers make.
type vobj struct {
	slot ferry.ISlot
	name string
	ver  int
}

// visMaker is a maker of version ver; it may do something of its own first.
func (w *W) visMaker(name string, ver int, made *int64, f func(s ferry.ISlot)) func(s ferry.ISlot) interface{} {
	return func(s ferry.ISlot) interface{} {
		atomic.AddInt64(made, 1)
		if f != nil {
			f(s)
		}
		return &vobj{s, name, ver}
	}
}

var visCount int64

func (w *W) visSlots(n int) []ferry.ISlot {
	ids := []string{"vs", "vs2", fmt.Sprint("vs", visCount)}
	out := make([]ferry.ISlot, n)
	for i := range out {
		e := &Echo{}
		// Some slots carry the same name, they are different slots still.
		out[i] = ferry.Carry(ids[w.Intn(len(ids))], e, true)
	}
	return out
}

func (w *W) judgeVisit(o interface{}, s ferry.ISlot, name string) (v *vobj, ok bool) {
	if o == nil {
		return nil, true
	}
	v, is := o.(*vobj)
	if !is || v == nil {
		w.Viol("visit", "Visit(%q) returns %T %v, which no maker made", name, o, o)
		return nil, false
	}
	if v.name != name {
		w.Viol("visit", "Visit(%q) returns the object made for %q", name, v.name)
		return v, false
	}
	if v.slot != s {
		w.Viol("visit", "Visit(%q) returns an object made for another slot", name)
		return v, false
	}
	return v, true
}

// visitSeq compares visits with an exact model.
func (w *W) visitSeq(i int, r *rand.Rand) {
	n := 1 + r.Intn(4)
	slots := w.visSlots(n)
	names := visNames(i, r, 1+r.Intn(6))
	reg := map[string]int{}
	got := map[string]*vobj{}
	var made int64
	ver := 0
	var log []string
	for k := 0; k < 5+r.Intn(60); k++ {
		name := names[r.Intn(len(names))]
		w.Eval(1)
		if r.Intn(4) == 0 {
			ver++
			if !ferry.Register(name, w.visMaker(name, ver, &made, nil)) {
				w.Viol("visit", "Register reports false")
				return
			}
			reg[name] = ver
			log = append(log, fmt.Sprintf("register %q v%d", name, ver))
			continue
		}
		si := r.Intn(n)
		o := slots[si].Visit(name)
		v, ok := w.judgeVisit(o, slots[si], name)
		if !ok {
			return
		}
		key := fmt.Sprint(si, name)
		log = append(log, fmt.Sprintf("slot %d visits %q: %p", si, name, v))
		had := got[key]
		w.Count("visits", 1)
		w.State("seq %v %v %v", had != nil, reg[name] != 0, had != nil && had.ver != reg[name])
		switch {
		case had != nil && v != had:
			w.Viol("visit", "a repeated visit returns another object: %v", tailOf(log, 40))
			return
		case had == nil && reg[name] == 0 && v != nil:
			w.Viol("visit", "a name that is not registered is visitable: %v", tailOf(log, 40))
			return
		case had == nil && reg[name] != 0 && v == nil:
			w.Viol("visit", "a registered name is not visitable: %v", tailOf(log, 40))
			return
		case had == nil && v != nil && v.ver != reg[name]:
			w.Viol("visit", "the object is not made by the maker registered (version %d, not %d): %v", v.ver, reg[name], tailOf(log, 40))
			return
		}
		if v != nil {
			got[key] = v
		}
	}
	w.Sample("%v", tailOf(log, 8))
}

// visNames makes names used in this round only, the registry is for ever.
func visNames(i int, r *rand.Rand, n int) []string {
	out := make([]string, n)
	c := atomic.AddInt64(&visCount, 1)
	for k := range out {
		switch k % 3 {
		case 0:
			out[k] = fmt.Sprintf("IProxy%d_%d", c, k)
		case 1:
			out[k] = fmt.Sprintf("iproxy%d_%d", c, k-1) // differs in case only
		default:
			out[k] = fmt.Sprintf("%d/%d \x00世", c, k)
		}
	}
	return out
}

// visitRound runs visits and registrations at the same time.
func (w *W) visitRound(i int, r *rand.Rand) {
	n := 1 + r.Intn(4)
	slots := w.visSlots(n)
	names := visNames(i, r, 1+r.Intn(4))
	var made int64
	state := make([]int64, len(names)) // 1 registration begun, 2 done
	regAt := make([]int, len(names))   // step of a routine that registers
	for k := range regAt {
		regAt[k] = r.Intn(20)
	}
	deep := r.Intn(4) == 0
	slow := r.Intn(3) == 0
	do := func(k int) {
		name := names[k]
		atomic.StoreInt64(&state[k], 1)
		ferry.Register(name, w.visMaker(name, 1, &made, func(s ferry.ISlot) {
			if slow {
				time.Sleep(20 * time.Microsecond)
			} else {
				runtime.Gosched()
			}
			if deep && k > 0 {
				// A proxy may need another one.
				w.judgeVisit(s.Visit(names[k-1]), s, names[k-1])
			}
		}))
		atomic.StoreInt64(&state[k], 2)
	}
	var mu sync.Mutex
	objs := map[string]*vobj{}
	gs := 2 + r.Intn(7)
	ok := w.Group(gs, func(g int) {
		rr := rand.New(rand.NewSource(int64(i)*1000 + int64(g) + w.Job.Seed))
		for step := 0; step < 30; step++ {
			if g == 0 {
				for k := range regAt {
					if regAt[k] == step {
						do(k)
					}
				}
			}
			if g == 1 && rr.Intn(8) == 0 {
				// Others register at the same time.
				nm := fmt.Sprint("other", rr.Intn(50))
				ferry.Register(nm, w.visMaker(nm, 1, new(int64), nil))
			}
			k, si := rr.Intn(len(names)), rr.Intn(n)
			before := atomic.LoadInt64(&state[k])
			o := slots[si].Visit(names[k])
			after := atomic.LoadInt64(&state[k])
			w.Eval(1)
			w.Count("visits", 1)
			v, good := w.judgeVisit(o, slots[si], names[k])
			if !good {
				return
			}
			w.State("visit %d %d %v %v %v %d", before, after, v != nil, deep, slow, gs)
			if v == nil && before == 2 {
				w.Viol("visit", "Visit of a registered name returns nil")
				return
			}
			if v != nil && after == 0 {
				w.Viol("visit", "Visit of a name that is not registered returns an object")
				return
			}
			if v == nil {
				continue
			}
			key := fmt.Sprint(si, "|", names[k])
			mu.Lock()
			had := objs[key]
			if had == nil {
				objs[key] = v
			}
			mu.Unlock()
			if had != nil && had != v {
				w.Viol("visit", "slot %d gets two objects for %q", si, names[k])
				return
			}
		}
	})
	if !ok {
		w.Viol("hang", "visits hang\n%s", Dump())
		return
	}
	for k, name := range names {
		for si, s := range slots {
			v, good := w.judgeVisit(s.Visit(name), s, name)
			if !good {
				return
			}
			had := objs[fmt.Sprint(si, "|", name)]
			if v == nil || had != nil && had != v {
				w.Viol("visit", "after registration %d of %q slot %d gets %p, before it got %p", state[k], name, si, v, had)
				return
			}
		}
	}
	w.Count("objects made", int(made))
	w.Count("objects given", len(objs))
}
