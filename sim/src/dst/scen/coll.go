package scen

import (
	"fmt"
	"math"
	"sort"

	"dst/sim"

	"poodle/collection"
	"poodle/util"
)

// ---------------------------------------------------------------- C14, C15

// One container with its reference. The universe of keys is numbered; each
// number stands for a content, and any number of key objects may be made for it.

type coll struct {
	w      *sim.World
	name   string
	sorted bool
	set    bool
	kind   int
	direct bool // the keys are the package's own, without the fuse
	hmode  int
	cmode  int
	n      int
	ints   [][]int64  // content, numeric kinds
	parts  [][][]byte // content, kinds made of byte strings
	each   []int      // kind of each content
	pool   []*elem
	ids    map[any]int
	in     map[int]any // reference: number of the key, value
	fuse   int         // calls of keys until one fails
	blown  bool
	probe  *elem
	seen   map[*elem]bool      // nodes asked
	doomed map[*sim.Thread]int // calls until one fails, for threads that share it
	serial int

	hm *collection.HashMap
	hs *collection.HashSet
	sm *collection.SortedMap
	ss *collection.SortedSet
}

// elem is a key whose callbacks may fail.
type elem struct {
	c     *coll
	id    int
	inner any
}

type fuseBlown struct{}

func (c *coll) burn() {
	if n := c.doomed[sim.Cur()]; n > 0 {
		c.doomed[sim.Cur()] = n - 1
		if n == 1 {
			panic(fuseBlown{})
		}
	}
	if c.fuse > 0 {
		c.fuse--
		if c.fuse == 0 {
			c.blown = true
			panic(fuseBlown{})
		}
	}
}

func (c *coll) see(a, b *elem) {
	if c.seen != nil {
		if a != c.probe {
			c.seen[a] = true
		}
		if b != c.probe {
			c.seen[b] = true
		}
	}
}

func (e *elem) Equal(o collection.IObject) bool {
	e.c.burn()
	x, ok := o.(*elem)
	if !ok {
		return false
	}
	e.c.see(e, x)
	if e.inner == nil {
		return e.id == x.id
	}
	if k, ok := e.inner.(collection.IComparable); ok {
		return k.Equal(x.inner)
	}
	return e.inner.(collection.IHashable).Equal(x.inner)
}

func (e *elem) HashUint32(f func([]byte) uint32) uint32 {
	e.c.burn()
	switch e.c.hmode {
	case 1:
		return f([]byte{byte(e.id % 3)})
	case 2:
		return 12345
	case 3:
		return uint32(e.id) * 0x80000000
	case 4:
		return math.MaxUint32 - uint32(e.id%5)
	}
	if e.inner == nil {
		return f([]byte(fmt.Sprint(e.id)))
	}
	return e.inner.(collection.IHashable).HashUint32(f)
}

func (e *elem) Compare(o collection.IComparable) int {
	e.c.burn()
	x := o.(*elem)
	e.c.see(e, x)
	if e.inner != nil {
		return e.inner.(collection.IComparable).Compare(x.inner.(collection.IComparable))
	}
	d := e.id - x.id
	switch e.c.cmode {
	case 1: // any negative or positive number will do
		return d * 1000003
	case 2:
		if d < 0 {
			return math.MinInt64
		} else if d > 0 {
			return math.MaxInt64
		}
	}
	return d
}

func (e *elem) String() string { return fmt.Sprintf("#%d", e.id) }

const (
	kCustom = iota
	kBytes
	kInt8
	kInt16
	kUint16
	kInt32
	kUint32
	kInt64
	kUint64
	kSlice
	kKey
	kMixed // any of the others, in one hash container
	kinds
)

var kindNames = []string{"custom", "bytes", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "slices", "keys", "mixed"}

var intPool = []int64{0, 1, -1, 2, 127, 128, -128, 255, 256, 32767, -32768, 65535, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64, math.MinInt64, 1 << 40, -2}

func width(kind int, v int64) int64 {
	switch kind {
	case kBytes:
		return int64(uint8(v))
	case kInt8:
		return int64(int8(v))
	case kInt16:
		return int64(int16(v))
	case kUint16:
		return int64(uint16(v))
	case kInt32:
		return int64(int32(v))
	case kUint32:
		return int64(uint32(v))
	}
	return v
}

func cast[T int8 | int16 | uint16 | int32 | uint32 | int64 | uint64 | byte](v []int64, extra int) []T {
	if v == nil {
		return nil
	}
	r := make([]T, 0, len(v)+extra) // the capacity must not matter
	for _, x := range v {
		r = append(r, T(x))
	}
	return r
}

// less is the reference order.
func (c *coll) less(a, b int) bool {
	switch c.kind {
	case kCustom:
		return a < b
	case kSlice, kKey:
		x, y := c.parts[a], c.parts[b]
		for i := range x {
			if i >= len(y) {
				return false
			}
			if s, t := string(x[i]), string(y[i]); s != t {
				return s < t
			}
		}
		return len(x) < len(y)
	}
	x, y := c.ints[a], c.ints[b]
	for i := range x {
		if i >= len(y) {
			return false
		}
		if x[i] != y[i] {
			if c.kind == kUint64 {
				return uint64(x[i]) < uint64(y[i])
			}
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// universe makes the contents.
func (c *coll) universe(n int) {
	w := c.w
	c.n = 0
	have := map[string]bool{}
	nils := c.kind != kKey && w.Chance(1, 4)
	for try := 0; c.n < n && try < 4*n; try++ {
		kind := c.kind
		if kind == kMixed {
			var of []int
			for k := 0; k < kinds; k++ {
				if k != kMixed && k != kCustom && k != kInt8 {
					of = append(of, k)
				}
			}
			kind = of[w.Choose(len(of))]
		}
		var p [][]byte
		var v []int64
		switch kind {
		case kCustom:
		case kSlice, kKey:
			p = [][]byte{}
			for k := w.Choose(4); k > 0; k-- {
				if len(p) > 0 && w.Chance(1, 3) {
					p = append(p, p[0])
					continue
				}
				if nils && kind == kSlice && !c.sorted && w.Chance(1, 4) {
					p = append(p, nil) // an element that is nil
					continue
				}
				b := blob(w, w.Range(1, 3))
				if w.Bool() {
					for i := range b {
						b[i] &= 3
					}
				}
				p = append(p, b)
			}
			if nils && len(p) == 0 && kind == kSlice {
				p = nil // the nil slice, and not the empty one
			}
		default:
			v = []int64{}
			for k := w.Choose(4); k > 0; k-- {
				x := intPool[w.Choose(len(intPool))]
				if w.Bool() {
					x = int64(w.Choose(9)) - 4
				}
				v = append(v, width(kind, x))
			}
			if nils && len(v) == 0 {
				v = nil
			}
		}
		s := fmt.Sprint(kind, v, len(p))
		for _, b := range p {
			s += fmt.Sprintf("/%x,%v", b, b == nil)
		}
		if kind == kCustom {
			s = fmt.Sprint(c.n)
		}
		if have[s] {
			continue
		}
		have[s] = true
		c.parts, c.ints, c.each = append(c.parts, p), append(c.ints, v), append(c.each, kind)
		c.n++
	}
}

// content makes a key object of the package for a number.
func (c *coll) content(id int) any {
	w := c.w
	kind := c.each[id]
	switch kind {
	case kCustom:
		return nil
	case kKey:
		k := util.NewKey()
		for _, b := range c.parts[id] {
			k.Add(append([]byte(nil), b...))
		}
		switch w.Choose(4) {
		case 1:
			if k.Encode(nil) != nil {
				break
			}
			if m, _, err := util.NewMappedKey(append([]byte(nil), k.Buf()...)); err == nil {
				return m
			}
		case 2:
			if len(c.parts[id]) == 1 {
				return util.NewSimpleKey(append([]byte(nil), c.parts[id][0]...))
			}
		case 3:
			if len(c.parts[id]) == 0 {
				return util.NewEmptyKey()
			}
		}
		return k
	case kSlice:
		extra := w.Choose(3)
		if c.parts[id] == nil {
			if c.sorted {
				return collection.NewComparableSlice(nil)
			}
			return collection.NewHashableSlice(nil)
		}
		if c.sorted {
			s := make([]collection.IComparable, 0, 4+extra)
			for _, b := range c.parts[id] {
				s = append(s, collection.NewComparableByteSlice(append([]byte(nil), b...)))
			}
			return collection.NewComparableSlice(s)
		}
		s := make([]collection.IHashable, 0, 4+extra)
		for _, b := range c.parts[id] {
			if b == nil {
				s = append(s, nil)
				continue
			}
			s = append(s, collection.NewHashableByteSlice(append([]byte(nil), b...)))
		}
		return collection.NewHashableSlice(s)
	}
	v := c.ints[id]
	x := w.Choose(3)
	if c.sorted {
		switch kind {
		case kBytes:
			return collection.NewComparableByteSlice(cast[byte](v, x))
		case kInt8:
			return collection.NewComparableInt8Slice(cast[int8](v, x))
		case kInt16:
			return collection.NewComparableInt16Slice(cast[int16](v, x))
		case kUint16:
			return collection.NewComparableUint16Slice(cast[uint16](v, x))
		case kInt32:
			return collection.NewComparableInt32Slice(cast[int32](v, x))
		case kUint32:
			return collection.NewComparableUint32Slice(cast[uint32](v, x))
		case kInt64:
			return collection.NewComparableInt64Slice(cast[int64](v, x))
		}
		return collection.NewComparableUint64Slice(cast[uint64](v, x))
	}
	switch kind {
	case kBytes, kInt8: // there is no hashable int8 slice
		return collection.NewHashableByteSlice(cast[byte](v, x))
	case kInt16:
		return collection.NewHashableInt16Slice(cast[int16](v, x))
	case kUint16:
		return collection.NewHashableUint16Slice(cast[uint16](v, x))
	case kInt32:
		return collection.NewHashableInt32Slice(cast[int32](v, x))
	case kUint32:
		return collection.NewHashableUint32Slice(cast[uint32](v, x))
	case kInt64:
		return collection.NewHashableInt64Slice(cast[int64](v, x))
	}
	return collection.NewHashableUint64Slice(cast[uint64](v, x))
}

// key returns an object for a number, new or used before.
func (c *coll) key(id int) any {
	w := c.w
	var e *elem
	if len(c.pool) > 0 && w.Bool() {
		if x := c.pool[w.Choose(len(c.pool))]; x.id == id {
			e = x
		}
	}
	if e == nil {
		e = &elem{c: c, id: id, inner: c.content(id)}
		if len(c.pool) < 200 {
			c.pool = append(c.pool, e)
		}
		c.ids[e] = id
		if e.inner != nil {
			c.ids[e.inner] = id
		}
	}
	c.probe = e
	if c.direct {
		return e.inner
	}
	return e
}

func newColl(w *sim.World, name string, sorted bool) *coll {
	c := &coll{w: w, name: name, sorted: sorted, ids: map[any]int{}, in: map[int]any{}}
	c.set = w.Bool()
	if w.Bool() {
		c.kind = w.Choose(kinds)
		if !sorted && c.kind == kInt8 || sorted && c.kind == kMixed {
			c.kind = kBytes
		}
		c.direct = c.kind != kCustom && w.Bool()
	}
	if !sorted && w.Chance(2, 3) {
		c.hmode = 1 + w.Choose(4)
		if c.direct {
			c.hmode = 0
		}
	}
	c.cmode = w.Choose(3)
	c.universe([]int{3, 6, 12, 30}[w.Choose(4)])
	custom := w.Bool()
	lf := []float32{0.75, 0.5, 1, 0, 2, 0.9}[w.Choose(6)]
	mu := []float32{1.5, 1.2, 5, 2, 1, 10, 1.25}[w.Choose(7)]
	ca := []int{10, 0, 11, 17, 64, -3}[w.Choose(6)]
	switch {
	case sorted && c.set:
		c.ss = collection.NewSortedSet()
	case sorted:
		c.sm = collection.NewSortedMap()
	case c.set && custom:
		c.hs = collection.NewCustomHashSet(ca, lf, mu)
	case c.set:
		c.hs = collection.NewHashSet()
	case custom:
		c.hm = collection.NewCustomHashMap(ca, lf, mu)
	default:
		c.hm = collection.NewHashMap()
	}
	w.Ev("container", name, sorted, c.set, kindNames[c.kind], c.direct, c.hmode, c.n)
	return c
}

// ---- operations on the container; values of a set are whether it is there

func (c *coll) get(k any) any {
	switch {
	case c.hm != nil:
		return c.hm.Get(k.(collection.IHashable))
	case c.hs != nil:
		return c.hs.Exist(k.(collection.IHashable))
	case c.sm != nil:
		return c.sm.Get(k.(collection.IComparable))
	}
	return c.ss.Exist(k.(collection.IComparable))
}

func (c *coll) put(k, v any) any {
	switch {
	case c.hm != nil:
		return c.hm.Put(k.(collection.IHashable), v)
	case c.hs != nil:
		return c.prev(c.hs.Put(k.(collection.IHashable)))
	case c.sm != nil:
		return c.sm.Put(k.(collection.IComparable), v)
	}
	return c.prev(c.ss.Put(k.(collection.IComparable)))
}

func (c *coll) remove(k any) any {
	switch {
	case c.hm != nil:
		return c.hm.Remove(k.(collection.IHashable))
	case c.hs != nil:
		return c.prev(c.hs.Remove(k.(collection.IHashable)))
	case c.sm != nil:
		return c.sm.Remove(k.(collection.IComparable))
	}
	return c.prev(c.ss.Remove(k.(collection.IComparable)))
}

// prev: a set returns the key that was there; its number stands for it.
func (c *coll) prev(k any) any {
	if collection.IsNil(k) {
		return nil
	}
	id, ok := c.ids[k]
	if !ok {
		sim.Failf("foreign", "%s returned a key that was never put: %v", c.name, k)
	}
	return id
}

func (c *coll) size() int {
	switch {
	case c.hm != nil:
		return c.hm.Size()
	case c.hs != nil:
		return c.hs.Size()
	case c.sm != nil:
		return c.sm.Size()
	}
	return c.ss.Size()
}

// expect is what get should return.
func (c *coll) expect(m map[int]any, id int) any {
	v, ok := m[id]
	if c.set {
		return ok
	}
	if !ok {
		return nil
	}
	return v
}

// differs tells how the container differs from a reference, or "".
func (c *coll) differs(m map[int]any) string {
	if n := c.size(); n != len(m) {
		return fmt.Sprintf("its size is %d, not %d", n, len(m))
	}
	for id := 0; id < c.n; id++ {
		if got, want := c.get(c.key(id)), c.expect(m, id); got != want {
			return fmt.Sprintf("get of %d gives %v, not %v", id, got, want)
		}
	}
	return ""
}

func (c *coll) check(when string) {
	if d := c.differs(c.in); d != "" {
		sim.Failf("state", "%s %s: %s", c.name, when, d)
	}
}

func (c *coll) describe() string {
	if c.set {
		return fmt.Sprintf("set of %s", kindNames[c.kind])
	}
	return fmt.Sprintf("map of %s", kindNames[c.kind])
}

func (c *coll) op() {
	w := c.w
	id := w.Choose(c.n)
	k := c.key(id)
	kind := w.Choose(5)
	c.blown = false
	c.fuse = 0
	if !c.direct && w.Chance(1, 5) {
		c.fuse = 1 + w.Choose(6)
		if w.Chance(1, 4) {
			c.fuse = 1 + w.Choose(4+3*len(c.in))
		}
	}
	switch kind {
	case 0, 1: // put
		c.serial++
		v := any(c.serial)
		if w.Chance(1, 30) {
			v = nil
		}
		after := copyMap(c.in)
		after[id] = v
		c.change("put", id, after, func() any { return c.put(k, v) })
	case 2, 3:
		after := copyMap(c.in)
		delete(after, id)
		c.change("remove", id, after, func() any { return c.remove(k) })
	case 4:
		var got any
		o := sim.Try(func() { got = c.get(k) })
		c.fuse = 0
		w.Ev("get", id, fmt.Sprint(got), o.Panicked)
		if o.Panicked && !c.blown {
			sim.Failf("panic", "%s: get of %d %s", c.name, id, o)
		}
		if c.blown {
			w.Fault("key callback failed")
			c.check("after a get that failed")
			return
		}
		if want := c.expect(c.in, id); got != want {
			sim.Failf("get", "%s: get of %d gives %v, not %v", c.name, id, got, want)
		}
	}
}

func copyMap(m map[int]any) map[int]any {
	r := make(map[int]any, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

// change does a put or a remove, which perhaps fails part way.
func (c *coll) change(what string, id int, after map[int]any, fn func() any) {
	w := c.w
	var got any
	o := sim.Try(func() { got = fn() })
	c.fuse = 0
	w.Ev(what, id, fmt.Sprint(got), o.Panicked)
	if o.Panicked && !c.blown {
		sim.Failf("panic", "%s: %s of %d %s", c.name, what, id, o)
	}
	if c.blown {
		w.Fault("key callback failed")
		a := c.differs(c.in)
		if a == "" {
			return
		}
		if b := c.differs(after); b != "" {
			sim.Failf("abandoned", "%s: after a %s of %d that was abandoned, the container is neither as before (%s) nor as after (%s)", c.name, what, id, a, b)
		}
		w.Probe("abandoned operation completed")
		c.in = after
		return
	}
	var want any
	if old, ok := c.in[id]; ok {
		want = old
		if c.set {
			want = id
		}
	}
	if got != want {
		sim.Failf("previous", "%s: %s of %d returns %v, not the previous %v", c.name, what, id, got, want)
	}
	c.in = after
	if n := c.size(); n != len(after) {
		sim.Failf("size", "%s: after a %s of %d the size is %d, not %d", c.name, what, id, n, len(after))
	}
	if got, want := c.get(c.key(id)), c.expect(c.in, id); got != want {
		sim.Failf("get", "%s: after its %s, get of %d gives %v, not %v", c.name, what, id, got, want)
	}
}

// bulk does many insertions or removals in one order.
func (c *coll) bulk() {
	w := c.w
	order := make([]int, c.n)
	for i := range order {
		order[i] = i
	}
	if c.sorted {
		sort.Slice(order, func(i, j int) bool { return c.less(order[i], order[j]) })
	}
	switch w.Choose(4) {
	case 1:
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	case 2: // from the outside in
		var o []int
		for i, j := 0, len(order)-1; i <= j; i, j = i+1, j-1 {
			o = append(o, order[i])
			if i != j {
				o = append(o, order[j])
			}
		}
		order = o
	case 3:
		r := sim.NewRng(uint64(w.Choose(1 << 16)))
		for i := len(order) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	order = order[w.Choose(min(c.n, 4)):]
	put := w.Choose(3) > 0 || len(c.in) == 0
	step := 1
	if w.Chance(1, 3) {
		step = 2 + w.Choose(2)
	}
	w.Ev("bulk", put, len(order), step)
	for i := 0; i < len(order); i += step {
		id := order[i]
		k := c.key(id)
		var got, want any
		if old, ok := c.in[id]; ok {
			want = old
			if c.set {
				want = id
			}
		}
		if put {
			c.serial++
			got = c.put(k, c.serial)
			c.in[id] = c.serial
		} else {
			got = c.remove(k)
			delete(c.in, id)
		}
		if got != want {
			sim.Failf("previous", "%s: put or remove of %d returns %v, not the previous %v", c.name, id, got, want)
		}
		if n := c.size(); n != len(c.in) {
			sim.Failf("size", "%s: the size is %d, not %d", c.name, n, len(c.in))
		}
	}
	c.check("after many operations")
}

// iter is the common view of the iterators.
type iter struct {
	next, peek func() (any, any)
	more       func() bool
}

func (c *coll) iterator(ranged bool, start, end any) iter {
	cmp := func(x any) collection.IComparable {
		if x == nil {
			return nil
		}
		return x.(collection.IComparable)
	}
	switch {
	case c.hm != nil:
		it := c.hm.Iterator()
		return iter{func() (any, any) { return it.Next() }, func() (any, any) { return it.Peek() }, it.HasNext}
	case c.sm != nil:
		it := c.sm.Iterator()
		if ranged {
			it = c.sm.RangeIterator(cmp(start), cmp(end))
		}
		return iter{func() (any, any) { return it.Next() }, func() (any, any) { return it.Peek() }, it.HasNext}
	}
	var it collection.IIterator
	if c.hs != nil {
		it = c.hs.Iterator()
	} else {
		it = c.ss.Iterator()
		if ranged {
			it = c.ss.RangeIterator(cmp(start), cmp(end))
		}
	}
	return iter{func() (any, any) { return it.Next(), nil }, func() (any, any) { return it.Peek(), nil }, it.HasNext}
}

// members in order (of a sorted container), within [lo,hi); -1 is no bound.
func (c *coll) members(lo, hi int) []int {
	var r []int
	for id := range c.in {
		if lo >= 0 && c.less(id, lo) || hi >= 0 && !c.less(id, hi) {
			continue
		}
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool {
		if c.sorted {
			return c.less(r[i], r[j])
		}
		return r[i] < r[j]
	})
	return r
}

// walk goes through an iterator, asking in any order.
func (c *coll) walk(it iter, want []int, what string) {
	w := c.w
	style := w.Choose(3) // 0: HasNext and Next; 1: Next only; 2: any mixture
	var got []int
	end := 0
	look := func(k, v any, call string, pos int) {
		if collection.IsNil(k) {
			if pos < len(want) {
				if !c.sorted && pos == 0 {
					finding(w, "C14", "hash-iterator-empty", "iterate", "%s: %s yields nothing, of %d members", c.name, what, len(want))
					pos = len(want)
				}
				if pos < len(want) {
					sim.Failf("iterate", "%s: %s ends after %d of %d members", c.name, what, pos, len(want))
				}
			}
			return
		}
		id, ok := c.ids[k]
		if !ok {
			sim.Failf("iterate", "%s: %s yields a key that was never put: %v", c.name, what, k)
		}
		if pos >= len(want) {
			sim.Failf("iterate", "%s: %s yields %d after all %d members", c.name, what, id, len(want))
		}
		if c.sorted && id != want[pos] {
			sim.Failf("iterate", "%s: %s yields %d as member %d, not %d (%s)", c.name, what, id, pos, want[pos], call)
		}
		if x, ok := c.in[id]; !ok || !c.set && v != x {
			sim.Failf("iterate", "%s: %s yields %d=%v, the value is %v", c.name, what, id, v, x)
		}
	}
	for end < 2 {
		pos := len(got)
		if c.n > 0 && w.Chance(1, 4) { // looking things up is no change
			id := w.Choose(c.n)
			if x, y := c.get(c.key(id)), c.expect(c.in, id); x != y {
				sim.Failf("iterate", "%s: while %s, get of %d gives %v, not %v", c.name, what, id, x, y)
			}
		}
		if style == 2 {
			for n := w.Choose(3); n > 0; n-- {
				if w.Bool() {
					k, v := it.peek()
					look(k, v, "peek", pos)
				} else if m := it.more(); m != (pos < len(want)) {
					if pos == 0 && !c.sorted && !m {
						finding(w, "C14", "hash-iterator-empty", "iterate", "%s: %s has nothing, of %d members", c.name, what, len(want))
						return
					}
					sim.Failf("iterate", "%s: %s has more after %d of %d members: %v", c.name, what, pos, len(want), m)
				}
			}
		}
		if style == 0 {
			m := it.more()
			if m != (pos < len(want)) {
				if pos == 0 && !c.sorted && !m {
					finding(w, "C14", "hash-iterator-empty", "iterate", "%s: %s has nothing, of %d members", c.name, what, len(want))
					return
				}
				sim.Failf("iterate", "%s: %s has more after %d of %d members: %v", c.name, what, pos, len(want), m)
			}
			if !m {
				return
			}
		}
		k, v := it.next()
		look(k, v, "next", pos)
		if collection.IsNil(k) {
			if pos < len(want) {
				return // listed
			}
			end++
			continue
		}
		got = append(got, c.ids[k])
	}
	if !c.sorted {
		seen := map[int]bool{}
		for _, id := range got {
			if seen[id] {
				sim.Failf("iterate", "%s: %s yields %d twice", c.name, what, id)
			}
			seen[id] = true
		}
	}
}

func (c *coll) iterate() {
	w := c.w
	if !c.sorted || w.Bool() {
		w.Ev("iterate", len(c.in))
		c.walk(c.iterator(false, nil, nil), c.members(-1, -1), "iterating")
		return
	}
	lo, hi := w.Choose(c.n+1)-1, w.Choose(c.n+1)-1
	if lo >= 0 && hi >= 0 && c.less(hi, lo) {
		lo, hi = hi, lo
	}
	var a, b any
	if lo >= 0 {
		a = c.key(lo)
	}
	if hi >= 0 {
		b = c.key(hi)
	}
	w.Ev("iterate", lo, hi, len(c.in))
	if !c.direct && w.Chance(1, 6) {
		// given up part way: nothing of that is seen in the container
		c.blown = false
		c.fuse = 1 + w.Choose(6)
		o := sim.Try(func() {
			it := c.iterator(true, a, b)
			for it.more() {
				it.next()
			}
		})
		c.fuse = 0
		if o.Panicked && !c.blown {
			sim.Failf("panic", "%s: iterating %s", c.name, o)
		}
		if c.blown {
			w.Fault("key callback failed")
		}
		c.check("after an iteration")
		return
	}
	c.walk(c.iterator(true, a, b), c.members(lo, hi), fmt.Sprintf("iterating from %d to %d", lo, hi))
}

// height: how many nodes the look-up of any key meets.
func (c *coll) height() {
	if c.direct {
		return
	}
	n, h := len(c.in), 0
	for a, b := 1, 2; a <= n; a, b = b, a+b+1 {
		h++ // the smallest balanced trees have 1, 2, 4, 7, 12, ... nodes
	}
	for id := 0; id < c.n; id++ {
		k := c.key(id)
		c.seen = map[*elem]bool{}
		c.get(k)
		m := len(c.seen)
		c.seen = nil
		if m > h+2 { // looking may meet a node or two on the side
			sim.Failf("height", "%s: a look-up among %d members meets %d nodes; the height of a balanced tree is %d at most", c.name, n, m, h)
		}
	}
	c.w.Probe("height checked")
}

func (c *coll) session() {
	w := c.w
	steps := 2 + w.Choose(40)
	for i := 0; i < steps; i++ {
		switch w.Choose(12) {
		case 9:
			if w.Chance(1, 3) {
				c.bulk()
			}
		case 10:
			c.iterate()
		case 11:
			if w.Chance(1, 3) {
				c.check("later")
				if c.sorted {
					c.height()
				}
			}
		default:
			c.op()
		}
	}
	c.check("in the end")
	c.walk(c.iterator(false, nil, nil), c.members(-1, -1), "iterating")
	if c.sorted {
		c.height()
	}
}

// long: a history of hundreds of members.
func (c *coll) long() {
	w := c.w
	c.kind, c.direct = kCustom, false
	c.universe(100 + w.Choose(400))
	if c.hmode == 1 || c.hmode == 2 {
		c.hmode = 4
	}
	r := sim.NewRng(uint64(w.Choose(1 << 16)))
	for rounds := 1 + w.Choose(4); rounds > 0; rounds-- {
		if w.Bool() {
			c.bulk()
		} else {
			bias := 1 + w.Choose(3) // out of 4: removals
			for i := 0; i < c.n; i++ {
				id := r.Intn(c.n)
				k := c.key(id)
				var want any
				if old, ok := c.in[id]; ok {
					want = old
					if c.set {
						want = id
					}
				}
				var got any
				if r.Intn(4) < bias {
					got = c.remove(k)
					delete(c.in, id)
				} else {
					c.serial++
					got = c.put(k, c.serial)
					c.in[id] = c.serial
				}
				if got != want {
					sim.Failf("previous", "%s: put or remove of %d returns %v, not the previous %v", c.name, id, got, want)
				}
			}
			c.check("after many operations")
		}
		if c.sorted {
			c.height()
		}
		c.iterate()
	}
	w.NonTrivial = true
}

func collRun(w *sim.World, sorted bool) {
	w.EntropyBias = w.Choose(4)
	if w.Bool() {
		w.EntropyBias = 0
	}
	p := w.NewProc("app")
	n := 1
	if w.Chance(1, 5) {
		n = 2 // nothing is shared between containers
		w.Preemptive(true)
	}
	var ts []*sim.Thread
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("container %d", i+1)
		ts = append(ts, w.Spawn(p, name, func() {
			if n == 1 && w.Chance(1, 20) {
				c := newCollKind(w, name, sorted)
				if w.Chance(1, 64) {
					c.huge()
					return
				}
				c.long()
				return
			}
			newColl(w, name, sorted).session()
		}))
	}
	w.Join(ts...)
	for _, t := range ts {
		if !t.Returned {
			sim.Failf("panic", "%s: %s", "a thread", p.End(t))
		}
	}
}

func newCollKind(w *sim.World, name string, sorted bool) *coll {
	c := newColl(w, name, sorted)
	c.ints, c.parts, c.each, c.pool = nil, nil, nil, nil
	return c
}

func c14(w *sim.World) { collRun(w, false) }
func c15(w *sim.World) { collRun(w, true) }
