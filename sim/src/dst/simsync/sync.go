// Package simsync stands in for sync: the primitives block in the simulator's
// scheduler instead of the runtime's.
package simsync

import (
	"fmt"

	"dst/sim"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	sim.Point()
	if m.held {
		if sim.Dying() {
			return
		}
		sim.BlockMem("mutex", func() bool { return !m.held })
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held && !sim.Dying() {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
}

func (m *RWMutex) Lock() {
	sim.Point()
	if m.w || m.r > 0 {
		if sim.Dying() {
			return
		}
		m.waiting++
		sim.BlockMem("rwmutex", func() bool { return !m.w && m.r == 0 })
		m.waiting--
	}
	m.w = true
}

func (m *RWMutex) Unlock() {
	if !m.w && !sim.Dying() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	sim.Point()
	if m.w || m.waiting > 0 {
		if sim.Dying() {
			return
		}
		sim.BlockMem("rwmutex(r)", func() bool { return !m.w && m.waiting == 0 })
	}
	m.r++
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 && !sim.Dying() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if g.n > 0 {
		sim.BlockMem("waitgroup", func() bool { return g.n <= 0 })
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sim.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L   Locker
	seq int
	sig int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.L.Unlock()
	c.seq++
	me := c.seq
	sim.BlockMem("cond", func() bool { return c.sig >= me })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if c.sig < c.seq {
		c.sig++
	}
}
func (c *Cond) Broadcast() { c.sig = c.seq }

type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 && !(sim.Active() && sim.Chance(1, 4)) {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map keeps insertion order, so that ranging over it is repeatable.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Clear()                 { m.m, m.keys = nil, nil }
func (m *Map) Swap(k, v any) (any, bool) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.Swap(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

var _ = fmt.Sprint
