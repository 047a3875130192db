package scen

import (
	"math"

	"dst/sim"

	"poodle/collection"
)

// vast is a container with so many members that counters, indices and depths
// grow out of the range a few hundred of them reach. Its keys are plain numbers,
// and the reference is an array.
type vast struct {
	c     *coll
	mode  int
	val   []int // 0: not there
	n     int
	keys  []*num // the object last put
	probe *num
	met   int
}

type num struct {
	v  *vast
	id int
}

func (k *num) Equal(o collection.IObject) bool {
	x, ok := o.(*num)
	if !ok {
		return false
	}
	return k.id == x.id
}

func (k *num) HashUint32(f func([]byte) uint32) uint32 {
	switch k.v.mode {
	case 1:
		return uint32(k.id)
	case 2:
		return math.MaxUint32 - uint32(k.id)
	case 3:
		return uint32(k.id) << 8
	}
	return f([]byte{byte(k.id), byte(k.id >> 8), byte(k.id >> 16)})
}

func (k *num) Compare(o collection.IComparable) int {
	x := o.(*num)
	if p := k.v.probe; p == k || p == x {
		k.v.met++
	}
	return k.id - x.id
}

func (v *vast) what(got any, id int, call string) {
	want := any(nil)
	old := v.val[id]
	if v.c.set {
		if old == 0 {
			if !collection.IsNil(got) {
				sim.Failf("previous", "%s: %s of %d, which is not there, returns %v", v.c.name, call, id, got)
			}
			return
		}
		if k, ok := got.(*num); !ok || k == nil || k.id != id {
			sim.Failf("previous", "%s: %s of %d among %d members does not return the previous key", v.c.name, call, id, v.n)
		}
		return
	}
	if old != 0 {
		want = old
	}
	if got != want {
		sim.Failf("previous", "%s: %s of %d among %d members returns %v, not the previous %v", v.c.name, call, id, v.n, got, want)
	}
}

func (v *vast) put(id int) {
	c := v.c
	k := &num{v, id}
	c.serial++
	var got any
	switch {
	case c.hm != nil:
		got = c.hm.Put(k, c.serial)
	case c.hs != nil:
		got = c.hs.Put(k)
	case c.sm != nil:
		got = c.sm.Put(k, c.serial)
	default:
		got = c.ss.Put(k)
	}
	v.what(got, id, "put")
	if v.val[id] == 0 {
		v.n++
	}
	v.val[id] = c.serial
	v.size()
}

func (v *vast) remove(id int) {
	c := v.c
	k := &num{v, id}
	var got any
	switch {
	case c.hm != nil:
		got = c.hm.Remove(k)
	case c.hs != nil:
		got = c.hs.Remove(k)
	case c.sm != nil:
		got = c.sm.Remove(k)
	default:
		got = c.ss.Remove(k)
	}
	v.what(got, id, "remove")
	if v.val[id] != 0 {
		v.n--
	}
	v.val[id] = 0
	v.size()
}

func (v *vast) size() {
	if n := v.c.size(); n != v.n {
		sim.Failf("size", "%s: the size is %d, not %d", v.c.name, n, v.n)
	}
}

func (v *vast) get(id int) {
	c := v.c
	k := &num{v, id}
	v.probe, v.met = k, 0
	got := c.get(k)
	v.probe = nil
	var want any
	if c.set {
		want = v.val[id] != 0
	} else if v.val[id] != 0 {
		want = v.val[id]
	}
	if got != want {
		sim.Failf("get", "%s: get of %d among %d members gives %v, not %v", c.name, id, v.n, got, want)
	}
	if c.sorted {
		h := 0
		for a, b := 1, 2; a <= v.n; a, b = b, a+b+1 {
			h++
		}
		if v.met > 2*(h+2) { // a node is asked twice at most
			sim.Failf("height", "%s: a look-up among %d members compares %d times; the height of a balanced tree is %d at most", c.name, v.n, v.met, h)
		}
	}
}

// walk iterates over [lo,hi) of a sorted container, or all; -1 is no bound.
func (v *vast) walk(lo, hi int) {
	c := v.c
	var a, b any
	if lo >= 0 {
		a = &num{v, lo}
	}
	if hi >= 0 {
		b = &num{v, hi}
	}
	it := c.iterator(c.sorted && (lo >= 0 || hi >= 0), a, b)
	last, count, want := -1, 0, 0
	for id, x := range v.val {
		if x != 0 && id >= lo && (hi < 0 || id < hi) {
			want++
		}
	}
	var seen []bool
	if !c.sorted {
		seen = make([]bool, len(v.val))
	}
	for {
		k, x := it.next()
		if collection.IsNil(k) {
			break
		}
		e, ok := k.(*num)
		if !ok || e.v != v {
			sim.Failf("iterate", "%s: iterating yields a key that was never put: %v", c.name, k)
		}
		if v.val[e.id] == 0 || !c.set && x != v.val[e.id] {
			sim.Failf("iterate", "%s: iterating over %d members yields %d=%v, the value is %v", c.name, v.n, e.id, x, v.val[e.id])
		}
		if c.sorted {
			if e.id <= last || e.id < lo || hi >= 0 && e.id >= hi {
				sim.Failf("iterate", "%s: iterating from %d to %d over %d members yields %d after %d", c.name, lo, hi, v.n, e.id, last)
			}
			last = e.id
		} else {
			if seen[e.id] {
				sim.Failf("iterate", "%s: iterating over %d members yields %d twice", c.name, v.n, e.id)
			}
			seen[e.id] = true
		}
		count++
	}
	if count != want {
		if count == 0 && !c.sorted {
			finding(c.w, "C14", "hash-iterator-empty", "iterate", "%s: iterating yields nothing, of %d members", c.name, want)
			return
		}
		sim.Failf("iterate", "%s: iterating from %d to %d yields %d of %d members", c.name, lo, hi, count, want)
	}
}

func (c *coll) huge() {
	w := c.w
	size := 1000 + w.Choose(3000)
	if w.Chance(1, 4) {
		size = 66000 + w.Choose(3000) // more than 16 bits count
		w.Probe("more than 65536 members")
	}
	v := &vast{c: c, mode: w.Choose(4), val: make([]int, size)}
	r := sim.NewRng(uint64(w.Choose(1 << 16)))
	spot := func() {
		for i := 0; i < 300; i++ {
			v.get(r.Intn(size))
		}
		if v.n > 0 || c.sorted {
			v.walk(-1, -1)
		}
		if c.sorted {
			lo := r.Intn(size)
			v.walk(lo, lo+r.Intn(size-lo+1))
			v.walk(lo, -1)
		}
	}
	order := w.Choose(3)
	at := func(i int) int {
		switch order {
		case 1:
			return size - 1 - i
		case 2: // every one once, scattered; 40009 is prime and divides no size
			return i * 40009 % size
		}
		return i
	}
	w.Ev("huge", size, order, v.mode)
	for i := 0; i < size; i++ {
		v.put(at(i))
		if i%64 == 0 {
			v.get(r.Intn(size))
		}
	}
	spot()
	for i := r.Intn(3); i < size; i += 1 + r.Intn(5) {
		if r.Intn(4) == 0 {
			v.put(at(i))
		} else {
			v.remove(at(i))
		}
	}
	spot()
	if size < 10000 || w.Chance(1, 3) {
		for i := size - 1; i >= 0; i-- {
			v.remove(at(i))
		}
		spot()
		v.put(at(0))
		v.get(at(0))
	}
	w.NonTrivial = true
}
