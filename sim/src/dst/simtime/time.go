// Package simtime stands in for time: the simulated clock.
package simtime

import (
	"time"

	"dst/sim"
)

// epoch of simulated time
const epoch = 1700000000 * int64(time.Second)

func nowNs() int64 {
	if sim.W == nil {
		return epoch
	}
	return epoch + sim.W.Now() + sim.W.ClockSkew()
}

func Now() time.Time                         { return time.Unix(0, nowNs()).UTC() }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { sim.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	gen  int
	live bool
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) arm(d time.Duration) {
	t.gen++
	g := t.gen
	t.live = true
	p := sim.CurProc()
	sim.W.At(int64(d), func() {
		if t.gen != g || !t.live || p != nil && p.Dead {
			return
		}
		t.live = false
		if t.f != nil {
			sim.W.Spawn(p, p.Name+"+timer", t.f)
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func (t *Timer) Stop() bool { l := t.live; t.live = false; return l }

func (t *Timer) Reset(d time.Duration) bool {
	l := t.live
	t.arm(d)
	return l
}

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	gen  int
	live bool
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.Reset(d)
	return t
}

func (t *Ticker) Reset(d time.Duration) {
	t.gen++
	g := t.gen
	t.live = true
	var tick func()
	tick = func() {
		if t.gen != g || !t.live {
			return
		}
		select {
		case t.c <- Now():
		default:
		}
		sim.W.At(int64(d), tick)
	}
	sim.W.At(int64(d), tick)
}

func (t *Ticker) Stop() { t.live = false }
