package scen

import (
	"fmt"
	"sort"
	"strings"

	"dst/sim"

	"poodle/util"
)

// ---------------------------------------------------------------- C16

// shared is one object with everything that may be read of it. The probes of a
// twin tell what a lone reader gets.
type shared struct {
	what  string
	ps    []probe
	twin  []probe // nil: the same object, afterwards
	final func()
	coll  *coll
}

func readOnly(ps []probe, also ...string) []probe {
	var r []probe
next:
	for _, p := range ps {
		for _, n := range append(also, "Decode", "Encode") {
			if p.name == n {
				continue next
			}
		}
		r = append(r, p)
	}
	return r
}

func c16(w *sim.World) {
	w.LimitSteps(1 << 27)
	newMachine(w)
	w.EntropyBias = w.Choose(4)
	p := w.NewProc("app")
	var s *shared
	in := func(what string, fn func()) {
		if end := w.RunIn(p, fn); !end.Returned {
			sim.Failf("panic", "%s: %s", what, end)
		}
	}
	in("making something to read", func() { s = makeShared(w) })
	if s == nil {
		return
	}
	w.Ev("shared", s.what, len(s.ps))
	w.Preemptive(true)
	type seen struct {
		i int
		s string
	}
	n := w.Range(2, 4)
	results := make([][]seen, n)
	var ts []*sim.Thread
	doomed := -1
	if s.coll != nil && !s.coll.direct && w.Chance(1, 4) {
		doomed = w.Choose(n)
	}
	focus := w.Choose(len(s.ps))
	narrow := w.Chance(1, 3)
	for i := 0; i < n; i++ {
		ts = append(ts, w.Spawn(p, fmt.Sprintf("reader%d", i), func() {
			if i == doomed {
				s.coll.doomed = map[*sim.Thread]int{sim.Cur(): 1 + w.Choose(30)}
			}
			for k := 1 + w.Choose(8); k > 0; k-- {
				j := w.Choose(len(s.ps))
				if narrow {
					j = focus // all the same
				}
				r := ""
				o := sim.Try(func() { r = s.ps[j].fn(0) })
				if o.Panicked {
					if i == doomed && s.coll.doomed[sim.Cur()] == 0 {
						w.Fault("key callback failed")
						return
					}
					sim.Failf("panic", "%s of %s, read by %d threads: %s", s.ps[j].name, s.what, n, o)
				}
				results[i] = append(results[i], seen{j, r})
			}
		}))
	}
	w.Join(ts...)
	w.Preemptive(false)
	for _, t := range ts {
		if !t.Returned {
			sim.Failf("panic", "reading %s: %s", s.what, p.End(t))
		}
	}
	if s.coll != nil {
		s.coll.doomed = nil
	}
	in("reading "+s.what+" again", func() {
		ps := s.twin
		if ps == nil {
			ps = s.ps
		}
		alone := map[int]string{}
		get := func(i int) string {
			if _, ok := alone[i]; !ok {
				alone[i] = ps[i].fn(0)
			}
			return alone[i]
		}
		for i := range results {
			for _, r := range results[i] {
				if a := get(r.i); a != r.s {
					sim.Failf("disturbed", "%s of %s gives %s to one of %d readers, and %s to a lone one", s.ps[r.i].name, s.what, clip(r.s), n, clip(a))
				}
			}
		}
		for _, i := range order(w, len(s.ps)) {
			if a, b := get(i), s.ps[i].fn(0); a != b {
				sim.Failf("disturbed", "%s of %s gives %s after it was read, and %s before", s.ps[i].name, s.what, clip(b), clip(a))
			}
		}
		if s.final != nil {
			s.final()
		}
	})
}

func makeShared(w *sim.World) *shared {
	kind := w.Choose(14)
	g := func(what string) *guard { return &guard{w: w, what: what, shared: true} }
	twin := func(kind int, ro ...string) *shared {
		b, keys := valid(w, kind)
		if w.Chance(1, 6) {
			b = hurt(w, b) // whatever of it is accepted
		}
		// both lie in a larger buffer
		_, _, a := open(g("the shared "+dNames[kind]), kind, append(append([]byte(nil), b...), 7, 7), keys)
		_, _, t := open(g("the lone "+dNames[kind]), kind, append(append([]byte(nil), b...), 7, 7), keys)
		if len(a) == 0 || len(a) != len(t) {
			return nil
		}
		return &shared{what: "a decoded " + dNames[kind], ps: readOnly(a, ro...), twin: readOnly(t, ro...)}
	}
	switch kind {
	case 0:
		return twin(dKey)
	case 1, 2:
		return twin(dStd)
	case 3:
		return twin(dSimple)
	case 4, 5:
		return twin(dRec)
	case 6:
		return twin(dScheme)
	case 7:
		if w.Bool() {
			return twin(dTime)
		}
		return twin(dID)
	case 8: // a new index, or one loaded
		k, o := someKeys(w, w.Choose(12), 4)
		exact := w.Bool()
		var objs []util.IKey
		for _, x := range k {
			objs = append(objs, keyObject(w, x))
		}
		t := util.MPHBuild(objs, exact)
		if w.Bool() {
			b, err := t.Encode()
			if err != nil {
				return nil
			}
			if w.Bool() {
				if t, _, err = util.NewMPHTable(b); err != nil {
					sim.Failf("lost", "an index of %d keys cannot be loaded: %v", len(k), err)
				}
			}
		}
		for _, x := range o {
			objs = append(objs, keyObject(w, x))
		}
		ps := readOnly(tableProbes(t, objs))
		s := &shared{what: "an index table", ps: ps}
		for i := range k {
			i := i
			s.ps = append(s.ps, probe{fmt.Sprintf("LookupNew%d", i), func(int) string {
				n, ok := t.Lookup(keyObject(w, k[i]))
				if !ok || int(n) != i {
					sim.Failf("disturbed", "key %d of %d is found by one of several readers at %d (%v)", i, len(k), n, ok)
				}
				return fmt.Sprint(n, ok)
			}})
		}
		if len(s.ps) == 0 {
			return nil
		}
		return s
	case 9: // a key
		k := genKey(w, false)
		key := buildKey(w, k)
		if key.Encode(nil) != nil {
			return nil
		}
		return &shared{what: "a key", ps: readOnly(keyProbes(key)), final: func() {
			if d := diffKey(key, k); d != "" {
				sim.Failf("disturbed", "after a key was read: %s", d)
			}
		}}
	case 10: // a value
		m := genVal(w, 2, false)
		v := buildVal(w, m)
		if v.Encode(nil) != nil {
			return nil
		}
		return &shared{what: "an encoded value", ps: readOnly(valProbes(g("an encoded value"), v)), final: func() {
			if d := diffVal(w, v, m); d != "" {
				sim.Failf("disturbed", "after a value was read: %s", d)
			}
		}}
	case 11: // a record
		m := genRec(w, 2, false)
		r := buildRec(w, m)
		if r.Encode(nil) != nil {
			return nil
		}
		return &shared{what: "an encoded record", ps: readOnly(recProbes(g("an encoded record"), r)), final: func() {
			if d := diffRec(w, r, m); d != "" {
				sim.Failf("disturbed", "after a record was read: %s", d)
			}
		}}
	}
	return sharedColl(w, kind == 13)
}

// sharedColl is a collection, with keys that are looked up by all.
func sharedColl(w *sim.World, sorted bool) *shared {
	c := newColl(w, "the collection", sorted)
	if w.Chance(1, 60) { // more members than any short cut for small ones
		c.kind, c.direct = kCustom, false
		c.ints, c.parts, c.each, c.pool = nil, nil, nil, nil
		if c.hmode == 1 || c.hmode == 2 {
			c.hmode = 4
		}
		c.universe(70 + w.Choose(230))
	}
	for i := w.Choose(3 * c.n); i > 0; i-- {
		id := w.Choose(c.n)
		if w.Chance(1, 4) {
			c.remove(c.key(id))
			delete(c.in, id)
		} else {
			c.serial++
			c.put(c.key(id), c.serial)
			c.in[id] = c.serial
		}
	}
	keys := make([]any, c.n)
	for id := range keys {
		keys[id] = c.key(id)
	}
	s := &shared{what: "a " + c.describe(), coll: c}
	add := func(name, want string, fn func() string) {
		s.ps = append(s.ps, probe{name, func(int) string { return fn() }})
		s.twin = append(s.twin, probe{name, func(int) string {
			if want == "" {
				return fn()
			}
			return want
		}})
	}
	for id := range keys {
		add(fmt.Sprintf("Get%d", id), fmt.Sprint(c.expect(c.in, id)), func() string { return fmt.Sprint(c.get(keys[id])) })
	}
	add("GetAll", "", func() string {
		r := ""
		for _, id := range order(w, len(keys)) {
			if got, want := c.get(keys[id]), c.expect(c.in, id); got != want {
				sim.Failf("disturbed", "get of %d in %s gives %v to one of several readers, not %v", id, s.what, got, want)
			}
		}
		return r
	})
	add("Size", fmt.Sprint(len(c.in)), func() string { return fmt.Sprint(c.size()) })
	walk := func(ranged bool, a, b any) string {
		it := c.iterator(ranged, a, b)
		var out []string
		for it.more() {
			k, v := it.peek()
			k2, v2 := it.next()
			if k != k2 || v != v2 {
				sim.Failf("disturbed", "an iterator over %s shows %v and yields %v", s.what, k, k2)
			}
			id, ok := c.ids[k]
			if !ok || len(out) > len(c.in) {
				sim.Failf("disturbed", "an iterator over %s yields a foreign key, or too many", s.what)
			}
			out = append(out, fmt.Sprint(id, "=", v))
		}
		if !c.sorted {
			sort.Strings(out)
		}
		return strings.Join(out, " ") + "."
	}
	list := func(ids []int) string {
		var out []string
		for _, id := range ids {
			v := c.in[id]
			if c.set {
				v = nil
			}
			out = append(out, fmt.Sprint(id, "=", v))
		}
		return strings.Join(out, " ") + "."
	}
	if !sorted {
		add("Iterate", "", func() string { return walk(false, nil, nil) })
		return s
	}
	add("Iterate", list(c.members(-1, -1)), func() string { return walk(false, nil, nil) })
	for i := 0; i < 3; i++ {
		lo, hi := w.Choose(c.n+1)-1, w.Choose(c.n+1)-1
		if lo >= 0 && hi >= 0 && c.less(hi, lo) {
			lo, hi = hi, lo
		}
		var a, b any
		if lo >= 0 {
			a = keys[lo]
		}
		if hi >= 0 {
			b = keys[hi]
		}
		add(fmt.Sprintf("Range%d", i), list(c.members(lo, hi)), func() string { return walk(true, a, b) })
	}
	return s
}
