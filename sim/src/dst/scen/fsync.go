package scen

import (
	"fmt"

	"dst/sim"
	"dst/simos"
	"dst/vfs"

	"poodle/util"
)

// ---------------------------------------------------------------- C19

// syncFile is what is known of one file of the sync-file helper.
type syncFile struct {
	path   string
	synced int  // bytes promised to survive; -1: nothing is promised
	most   int  // more than was ever in it cannot be there
	bad    bool // a sync failed: what was written before it is not promised by later ones
	f      *simos.File
	size   int // as visible, through this handle
}

type c19run struct {
	w     *sim.World
	fs    *vfs.FS
	files []*syncFile
}

// look: what must be visible while the machine is up, and what after power loss.
func (c *c19run) look(when string) {
	for _, s := range c.files {
		in := c.fs.Peek(s.path)
		if in == nil {
			if s.synced > 0 {
				sim.Failf("lost", "%s: %s is gone; %d bytes of it were synced", when, s.path, s.synced)
			}
			continue
		}
		if len(in.Data) < s.synced {
			sim.Failf("lost", "%s: %s has %d bytes; %d were synced", when, s.path, len(in.Data), s.synced)
		}
		if len(in.Data) > s.most {
			sim.Failf("foreign", "%s: %s has %d bytes; at most %d were written", when, s.path, len(in.Data), s.most)
		}
		for i, b := range in.Data {
			if b != 0 {
				sim.Failf("foreign", "%s: byte %d of %s is %d, not what was written", when, i, s.path, b)
			}
		}
	}
}

func (c *c19run) len(s *syncFile) int {
	if in := c.fs.Peek(s.path); in != nil {
		return len(in.Data)
	}
	return -1
}

func (c *c19run) session(s *syncFile) {
	w := c.w
	steps := 1 + w.Choose(8)
	for i := 0; i < steps; i++ {
		op := w.Choose(8)
		if s.f == nil {
			op = 0
		}
		nf := faults(w)
		before := c.len(s)
		switch {
		case op == 0:
			if s.f != nil {
				util.Close(s.f)
				s.f = nil
			}
			old := s.synced
			s.synced = -1 // it is to be emptied, from some point on
			var f *simos.File
			o := sim.Try(func() { f = util.Open(s.path[5:]) })
			w.Ev("open", s.path, o.Panicked)
			if o.Panicked {
				if faults(w) == nf {
					sim.Failf("panic", "opening %s: %s", s.path, o)
				}
				if n := c.len(s); n != before && n != 0 {
					sim.Failf("corrupted", "opening %s failed, and it has %d bytes, not %d", s.path, n, before)
				} else if n == before {
					s.synced = old
				}
				continue
			}
			if f == nil {
				sim.Failf("silent", "opening %s gave nothing", s.path)
			}
			if n := c.len(s); n != 0 {
				sim.Failf("open", "%s was opened and has %d bytes", s.path, n)
			}
			s.f, s.size, s.bad = f, 0, false
			s.most = max(s.most, before)
		case op < 5:
			n := []int{0, 1, 2, 10, 512, 4096, 5000}[w.Choose(7)]
			if w.Chance(1, 40) {
				n = []int{32768, 65535, 65536, 70000, 1<<20 + 1}[w.Choose(5)]
			}
			s.most = max(s.most, before+n)
			o := sim.Try(func() { util.Write(s.f, n) })
			after := c.len(s)
			w.Ev("write", s.path, n, after, o.Panicked)
			if o.Panicked {
				if faults(w) == nf {
					sim.Failf("panic", "writing %d bytes: %s", n, o)
				}
				if after < before || after > before+n {
					sim.Failf("corrupted", "writing %d bytes to %s failed, and left %d bytes of %d", n, s.path, after, before)
				}
			} else if after != before+n {
				sim.Failf("silent", "writing %d bytes to %s of %d bytes left %d, and was not reported", n, s.path, before, after)
			}
		case op < 7:
			o := sim.Try(func() { util.Sync(s.f) })
			w.Ev("sync", s.path, o.Panicked)
			if o.Panicked {
				if faults(w) == nf {
					sim.Failf("panic", "syncing %s: %s", s.path, o)
				}
				s.bad = true
			} else if !s.bad {
				s.synced = before
			}
			if n := c.len(s); n != before {
				sim.Failf("corrupted", "syncing %s changed its size from %d to %d", s.path, before, n)
			}
		default:
			util.Close(s.f)
			s.f = nil
		}
		c.look("while running")
	}
}

// faults that were injected so far
func faults(w *sim.World) int {
	n := 0
	for _, k := range w.Faults {
		n += k
	}
	return n
}

func c19(w *sim.World) {
	w.LimitSteps(1 << 26)
	c := &c19run{w: w, fs: newMachine(w)}
	n := 1 + w.Choose(2)
	for i := 0; i < n; i++ {
		c.files = append(c.files, &syncFile{path: fmt.Sprintf("/tmp/sync%d.dat", i), synced: -1})
	}
	if w.Chance(1, 4) { // left by someone else
		c.fs.Put(c.files[0].path, make([]byte, 300), 0644)
		c.files[0].most = 300
	}
	epochs := 1 + w.Choose(4)
	for e := 0; e < epochs; e++ {
		p := w.NewProc(fmt.Sprintf("app%d", e))
		c.fs.FaultsOn = w.Chance(1, 2)
		c.fs.FaultRate = []int{3, 6, 12}[w.Choose(3)]
		c.fs.Quota = -1
		if w.Chance(1, 8) {
			c.fs.Quota = w.Choose(12000)
		}
		if w.Chance(2, 3) {
			c.fs.CrashAt = w.Choose(24)
			c.fs.CrashKill = w.Chance(1, 4)
		}
		if n > 1 {
			w.Preemptive(true)
		}
		var ts []*sim.Thread
		for _, s := range c.files {
			s.f = nil
			ts = append(ts, w.Spawn(p, "thread "+s.path, func() { c.session(s) }))
		}
		w.Join(ts...)
		w.Preemptive(false)
		cut := c.fs.Crashed
		for _, t := range ts {
			if !t.Returned && !cut {
				sim.Failf("panic", "the sync-file helper: %s", p.End(t))
			}
		}
		c.fs.CrashAt, c.fs.Crashed, c.fs.FaultsOn = -1, false, false
		if cut && !c.fs.CrashKill {
			c.look("after power loss")
		} else {
			c.look("after the process ended")
			if w.Chance(2, 3) {
				c.fs.PowerOff()
				c.fs.Crashed = false
				c.look("after power loss")
			}
		}
	}
	w.NonTrivial = true
}
