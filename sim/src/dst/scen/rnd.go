package scen

import (
	"fmt"
	"math"
	"math/big"

	"dst/sim"

	"poodle/collection"
	"poodle/util"
)

// ---------------------------------------------------------------- C18

// Values are carried as big integers, as no type holds all of them.

type rangeHelper struct {
	name   string
	lo, hi *big.Int // of the type
	ranged func(lo, hi *big.Int) *big.Int
	plain  func() *big.Int
}

func bi(x int64) *big.Int   { return big.NewInt(x) }
func bu(x uint64) *big.Int  { return new(big.Int).SetUint64(x) }
func i64(x *big.Int) int64  { return x.Int64() }
func u64(x *big.Int) uint64 { return x.Uint64() }

var rangeHelpers = []rangeHelper{
	{"int8", bi(math.MinInt8), bi(math.MaxInt8), func(a, b *big.Int) *big.Int { return bi(int64(util.RandInt8Range(int8(i64(a)), int8(i64(b))))) }, func() *big.Int { return bi(int64(util.RandInt8())) }},
	{"uint8", bi(0), bi(math.MaxUint8), func(a, b *big.Int) *big.Int { return bi(int64(util.RandUint8Range(uint8(i64(a)), uint8(i64(b))))) }, func() *big.Int { return bi(int64(util.RandUint8())) }},
	{"int16", bi(math.MinInt16), bi(math.MaxInt16), func(a, b *big.Int) *big.Int { return bi(int64(util.RandInt16Range(int16(i64(a)), int16(i64(b))))) }, func() *big.Int { return bi(int64(util.RandInt16())) }},
	{"uint16", bi(0), bi(math.MaxUint16), func(a, b *big.Int) *big.Int { return bi(int64(util.RandUint16Range(uint16(i64(a)), uint16(i64(b))))) }, func() *big.Int { return bi(int64(util.RandUint16())) }},
	{"int32", bi(math.MinInt32), bi(math.MaxInt32), func(a, b *big.Int) *big.Int { return bi(int64(util.RandInt32Range(int32(i64(a)), int32(i64(b))))) }, func() *big.Int { return bi(int64(util.RandInt32())) }},
	{"uint32", bi(0), bi(math.MaxUint32), func(a, b *big.Int) *big.Int { return bi(int64(util.RandUint32Range(uint32(i64(a)), uint32(i64(b))))) }, func() *big.Int { return bi(int64(util.RandUint32())) }},
	{"int64", bi(math.MinInt64), bi(math.MaxInt64), func(a, b *big.Int) *big.Int { return bi(util.RandInt64Range(i64(a), i64(b))) }, func() *big.Int { return bi(util.RandInt64()) }},
	{"uint64", bi(0), bu(math.MaxUint64), func(a, b *big.Int) *big.Int { return bu(util.RandUint64Range(u64(a), u64(b))) }, func() *big.Int { return bu(util.RandUint64()) }},
}

// source watches, and breaks, the entropy source.
type source struct {
	w      *sim.World
	got    int                  // bytes read
	fails  map[*sim.Thread]bool // for that thread; under nil: for all
	failed map[*sim.Thread]bool
	part   int
}

func watchEntropy(w *sim.World) *source {
	s := &source{w: w, part: w.Choose(12), fails: map[*sim.Thread]bool{}, failed: map[*sim.Thread]bool{}}
	w.OnEntropy = func(b []byte) { s.got += len(b) }
	w.EntropyFail = func(n int) (int, error, bool) {
		if !s.fails[nil] && !s.fails[sim.Cur()] {
			return 0, nil, false
		}
		w.Fault("entropy failure")
		s.failed[sim.Cur()] = true
		s.failed[nil] = true
		k := s.part
		if k >= n {
			k = 0
		}
		return k, fmt.Errorf("entropy source failed"), true
	}
	return s
}

// someRange draws a non-empty range of the type.
func someRange(w *sim.World, h *rangeHelper) (lo, hi *big.Int) {
	one := bi(1)
	edge := func() *big.Int {
		span := new(big.Int).Sub(h.hi, h.lo)
		x := new(big.Int)
		switch w.Choose(7) {
		case 0:
			x.Set(h.lo)
		case 1:
			x.Set(h.hi)
		case 2:
			x.SetInt64(0)
		case 3:
			x.SetInt64(int64(w.Choose(9)) - 4)
		case 4: // near a power of two
			x.Lsh(one, uint(w.Choose(64)))
			x.Add(x, bi(int64(w.Choose(3))-1))
			if w.Bool() {
				x.Neg(x)
			}
		default:
			x.SetBytes(blob(w, 9))
			x.Mod(x, span)
			x.Add(x, h.lo)
		}
		if x.Cmp(h.lo) < 0 || x.Cmp(h.hi) > 0 {
			x.Sub(x, h.lo)
			x.Mod(x, span)
			x.Add(x, h.lo)
		}
		return x
	}
	lo, hi = edge(), edge()
	if w.Bool() { // small
		hi = new(big.Int).Add(lo, bi(int64(1+w.Choose(12))))
		if hi.Cmp(h.hi) > 0 {
			hi.Set(h.hi)
		}
	}
	if lo.Cmp(hi) > 0 {
		lo, hi = hi, lo
	}
	if lo.Cmp(hi) == 0 {
		if hi.Cmp(h.hi) < 0 {
			hi = new(big.Int).Add(hi, one)
		} else {
			lo = new(big.Int).Sub(lo, one)
		}
	}
	return
}

func c18ranges(w *sim.World) {
	w.LimitSteps(1 << 26)
	newMachine(w)
	src := watchEntropy(w)
	w.EntropyBias = w.Choose(4)
	needed := 0 // bytes of entropy for all values drawn
	p := w.NewProc("app")
	if w.Chance(1, 4) {
		w.Preemptive(true)
	}
	var ts []*sim.Thread
	for i := 1 + w.Choose(2); i > 0; i-- {
		ts = append(ts, w.Spawn(p, "drawer", func() {
			for k := 1 + w.Choose(4); k > 0; k-- {
				h := &rangeHelpers[w.Choose(len(rangeHelpers))]
				lo, hi := someRange(w, h)
				width := new(big.Int).Sub(hi, lo)
				fails := w.Chance(1, 6)
				w.Ev("range", h.name, lo.String(), hi.String(), fails)
				n := 1 + w.Choose(20)
				bytes := (new(big.Int).Sub(width, bi(1)).BitLen() + 7) / 8
				every := len(ts) == 1 && w.EntropyBias == 0 && !fails && width.Cmp(bi(14)) <= 0 && w.Chance(1, 4)
				if every {
					n = 60 * int(width.Int64())
				}
				if fails {
					src.fails[sim.Cur()] = true
				}
				seen := map[string]bool{}
				for j := 0; j < n; j++ {
					var v *big.Int
					src.failed[sim.Cur()] = false
					o := sim.Try(func() { v = h.ranged(lo, hi) })
					if o.Panicked {
						if src.failed[sim.Cur()] {
							continue
						}
						sim.Failf("panic", "a random %s in [%v,%v): %s", h.name, lo, hi, o)
					}
					needed += bytes
					if v.Cmp(lo) < 0 || v.Cmp(hi) >= 0 {
						sim.Failf("range", "a random %s in [%v,%v) is %v", h.name, lo, hi, v)
					}
					seen[v.String()] = true
					if src.got < needed {
						if src.failed[sim.Cur()] {
							sim.Failf("silent", "the entropy source failed, and a random %s in [%v,%v) is %v", h.name, lo, hi, v)
						}
						sim.Failf("predictable", "random values of at least %d bytes were made from %d bytes of entropy", needed, src.got)
					}
				}
				src.fails[sim.Cur()] = false
				if every && len(seen) != int(width.Int64()) {
					sim.Failf("unreachable", "%d random %s in [%v,%v) take only the values %v", n, h.name, lo, hi, sim.SortedKeys(seen))
				}
			}
		}))
	}
	w.Join(ts...)
	for _, t := range ts {
		if !t.Returned {
			sim.Failf("panic", "drawing random values: %s", p.End(t))
		}
	}
	w.NonTrivial = true
}

// c18plain: the plain helpers, the spread of what they and the wide ranges
// give, and that nothing is ever repeated.
func c18plain(w *sim.World) {
	w.LimitSteps(1 << 26)
	newMachine(w)
	src := watchEntropy(w)
	needed := 0
	type drawn struct{ n, ones, zeros, diff uint64 }
	seen := map[uint64]bool{}
	procs := 1 + w.Choose(3)
	for i := 0; i < procs; i++ {
		p := w.NewProc("app")
		if w.Bool() {
			w.Preemptive(true)
		}
		var ts []*sim.Thread
		for j := 1 + w.Choose(3); j > 0; j-- {
			h := &rangeHelpers[w.Choose(len(rangeHelpers))]
			size := (new(big.Int).Sub(h.hi, h.lo).BitLen() + 7) / 8
			ts = append(ts, w.Spawn(p, "drawer "+h.name, func() {
				d := drawn{}
				last := uint64(0)
				one := func() uint64 {
					v := h.plain()
					needed += size
					if src.got < needed {
						sim.Failf("predictable", "random values of %d bytes were made from %d bytes of entropy", needed, src.got)
					}
					x := new(big.Int).Sub(v, h.lo).Uint64()
					d.n++
					d.ones |= x
					d.zeros |= ^x
					if d.n > 1 {
						d.diff |= x ^ last
					}
					last = x
					if size == 8 {
						if seen[x] {
							sim.Failf("repeated", "the random %s %v was given twice", h.name, v)
						}
						seen[x] = true
					}
					return x
				}
				all := uint64(math.MaxUint64) >> (64 - 8*size)
				switch w.Choose(3) {
				case 0: // every bit takes both values
					for k := 0; k < 120; k++ {
						one()
					}
					if d.ones&all != all || d.zeros&all != all || d.diff&all != all {
						sim.Failf("unreachable", "a bit never changes in 120 random %s: %x %x", h.name, d.ones&all, d.zeros&all)
					}
				case 1: // quarters of a wide range
					lo, hi := someRange(w, h)
					width := new(big.Int).Sub(hi, lo)
					if width.BitLen() < 4 {
						return
					}
					q := [4]int{}
					bytes := (new(big.Int).Sub(width, bi(1)).BitLen() + 7) / 8
					for k := 0; k < 300; k++ {
						v := h.ranged(lo, hi)
						needed += bytes
						if v.Cmp(lo) < 0 || v.Cmp(hi) >= 0 {
							sim.Failf("range", "a random %s in [%v,%v) is %v", h.name, lo, hi, v)
						}
						x := new(big.Int).Sub(v, lo)
						x.Mul(x, bi(4))
						q[x.Div(x, width).Int64()]++
					}
					for k := range q {
						if q[k] == 0 {
							sim.Failf("unreachable", "of 300 random %s in [%v,%v), none is in quarter %d", h.name, lo, hi, k)
						}
					}
				default:
					for k := 1 + w.Choose(6); k > 0; k-- {
						if w.Chance(1, 3) {
							src.fails[sim.Cur()] = true
							src.failed[sim.Cur()] = false
							var v *big.Int
							g := src.got
							o := sim.Try(func() { v = h.plain() })
							src.fails[sim.Cur()] = false
							if !o.Panicked {
								needed += size
								if g < needed {
									sim.Failf("silent", "the entropy source failed, and a random %s is %v", h.name, v)
								}
							}
						} else {
							one()
						}
					}
				}
			}))
		}
		w.Join(ts...)
		w.Preemptive(false)
		for _, t := range ts {
			if !t.Returned {
				sim.Failf("panic", "drawing random values: %s", p.End(t))
			}
		}
	}
	w.NonTrivial = true
}

// c18users: what needs random values does not go on without them.
// seedKey remembers what the hash function it was given makes of one input.
type seedKey struct{ seen map[uint32]int }

func (k *seedKey) Equal(o collection.IObject) bool { return o == collection.IObject(k) }
func (k *seedKey) HashUint32(f func([]byte) uint32) uint32 {
	h := f([]byte("one input"))
	k.seen[h]++
	return h
}

// seedSpread: hash containers take their seeds from more than a few values.
func seedSpread(w *sim.World) {
	k := &seedKey{map[uint32]int{}}
	const n = 2000
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			collection.NewHashMap().Get(k)
		} else {
			collection.NewHashSet().Exist(k)
		}
	}
	w.Probe("spread of hash seeds")
	if len(k.seen) < n-3 {
		sim.Failf("repeated", "the hash functions of %d containers are only %d different ones", n, len(k.seen))
	}
}

func c18users(w *sim.World) {
	w.LimitSteps(1 << 27)
	st := newStore(w, "C18", 2)
	src := watchEntropy(w)
	var D, X []*big.Int
	procs := 1 + w.Choose(2)
	for i := 0; i < procs; i++ {
		p := w.NewProc("app")
		for k := 1 + w.Choose(3); k > 0; k-- {
			src.fails[nil] = w.Chance(2, 3)
			src.failed[nil] = false
			got := src.got
			what := ""
			silent := ""
			kind := w.Choose(6)
			end := w.RunIn(p, func() {
				switch kind {
				case 0:
					what = "generating a key"
					k := util.ECDSAGenerateKey()
					if k == nil {
						if !src.failed[nil] {
							sim.Failf("generate", "no key was generated")
						}
						return
					}
					silent = fmt.Sprintf("a key was generated: %x", k.D)
					for i := range D {
						if D[i].Cmp(k.D) == 0 || X[i].Cmp(k.X) == 0 {
							sim.Failf("repeated", "the same key was generated twice: %x", k.D)
						}
					}
					D, X = append(D, k.D), append(X, k.X)
				case 1:
					what = "signing"
					k := util.ECDSAGetPrivateKey(append([]byte{1}, blob(w, 31)...))
					r, s, err := util.ECDSASign(k, util.SumSHA256([]byte("message")))
					if err == nil {
						silent = fmt.Sprintf("a signature was made: %v %v", r, s)
					} else if !src.failed[nil] {
						sim.Failf("sign", "signing fails: %v", err)
					}
				case 2:
					what = "saving a key"
					s := st.slots[w.Choose(len(st.slots))]
					v := st.newVal()
					err := util.LCSaveKeyPair(s.cls, s.id, v.key.X, v.key.D, append([]byte(nil), v.secret...))
					if err == nil {
						silent = "a private key was encrypted"
					} else if !src.failed[nil] {
						sim.Failf("save", "saving %s: %v", s, err)
					}
				case 3:
					what = "making a hash map"
					m := collection.NewHashMap()
					if w.Bool() {
						m = collection.NewCustomHashMap(w.Choose(40), 0.5, 2)
					}
					m.Put(util.NewStringKey("k"), 1)
					if m.Get(util.NewStringKey("k")) != 1 {
						sim.Failf("lost", "a member of a new hash map is missing")
					}
					if !src.fails[nil] && w.EntropyBias == 0 && w.Chance(1, 30) {
						seedSpread(w)
					}
					silent = "a hash map was made and used"
				case 4:
					what = "making a hash set"
					m := collection.NewHashSet()
					if w.Bool() {
						m = collection.NewCustomHashSet(w.Choose(40), 0.5, 2)
					}
					m.Put(util.NewStringKey("k"))
					if !m.Exist(util.NewStringKey("k")) {
						sim.Failf("lost", "a member of a new hash set is missing")
					}
					silent = "a hash set was made and used"
				case 5:
					what = "building an index"
					var keys []util.IKey
					for i := 1 + w.Choose(6); i > 0; i-- {
						keys = append(keys, util.NewSimpleKey([]byte{byte(i), 1}))
					}
					t := util.MPHBuild(keys, false)
					if !src.fails[nil] && w.EntropyBias == 0 && w.Bool() {
						// the seed must not be one of a few: it is all that differs
						// between indexes of the same keys
						n := 12
						if w.Chance(1, 20) {
							n = 600 // nor one of a few thousand
							keys = keys[:1]
						}
						seen := map[string]bool{}
						for j := 0; j < n; j++ {
							t = util.MPHBuild(keys, false)
							b, err := t.Encode()
							if err != nil {
								sim.Failf("encode", "an index cannot be encoded: %v", err)
							}
							seen[string(b)] = true
						}
						if len(seen) < n-3 {
							sim.Failf("repeated", "%d indexes of the same keys take only %d secret seeds", n, len(seen))
						}
					}
					silent = "an index was built with a secret seed"
				}
			})
			w.Ev("used", kind, src.fails[nil], src.failed[nil], end.Returned, src.got-got)
			if end.Panicked && !src.failed[nil] {
				sim.Failf("panic", "%s: %s", what, end)
			}
			if silent != "" {
				if src.failed[nil] {
					sim.Failf("silent", "the entropy source failed, and yet %s", silent)
				}
				if min := []int{32, 0, 12, 4, 4, 4}[kind]; src.got-got < min {
					sim.Failf("predictable", "%s: %s, from %d bytes of entropy", what, silent, src.got-got)
				}
			}
			if p.Dead || !end.Returned {
				p = w.NewProc("app")
			}
		}
	}
	w.NonTrivial = true
}
