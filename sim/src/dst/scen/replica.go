package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"

	"dst/sim"
	"dst/simos"
	"dst/vfs"

	"poodle/util"
)

// ---------------------------------------------------------------- C13

// Replicas of one value exchange timestamped updates over a faulty network, and
// each keeps the one with the greatest consensus time; what it keeps is on its
// disk. When the network has healed they must all hold the greatest of all.

// ctime is the reference of a consensus time.
type ctime struct {
	raft    bool
	a, b, c uint32
}

func (t ctime) String() string {
	if t.raft {
		return fmt.Sprintf("raft(%d,%d,%d)", t.a, t.b, t.c)
	}
	return fmt.Sprintf("ledger(%d)", t.a)
}

func (t ctime) cmp(o ctime) int {
	for _, p := range [][2]uint32{{t.a, o.a}, {t.b, o.b}, {t.c, o.c}} {
		if p[0] < p[1] {
			return -1
		} else if p[0] > p[1] {
			return 1
		}
	}
	return 0
}

func (t ctime) make() util.IConsensusTime {
	if t.raft {
		return util.NewRaftTime(t.a, t.b, t.c)
	}
	return util.NewLedgerTime(t.a)
}

var ticks = []uint32{0, 1, 2, 255, 256, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, math.MaxUint32, 0x01020304, 0x04030201, 0x10000, 0xffff}

func genTick(w *sim.World, base uint32) uint32 {
	switch w.Choose(4) {
	case 0:
		return base
	case 1:
		return ticks[w.Choose(len(ticks))]
	case 2:
		return base + uint32(w.Choose(5)) - 2
	}
	return binary.BigEndian.Uint32(blob(w, 4))
}

type cupdate struct {
	t       ctime
	payload uint32
}

type c13run struct {
	w       *sim.World
	fs      *vfs.FS
	net     *network
	raft    bool
	nodes   []*c13node
	updates []cupdate
	healed  bool
	done    bool
}

type c13node struct {
	ep   *endpoint
	proc *sim.Proc
	th   *sim.Thread
	gen  int
	mine []cupdate // updates that originate here
	now  ctime     // what it holds, of the reference
	has  bool
}

// compare asks all six, in any order, and checks them against the reference.
func compareAll(w *sim.World, x, y util.IConsensusTime, a, b ctime) {
	type op struct {
		name string
		fn   func(util.IConsensusTime) (bool, error)
		want bool
	}
	c := a.cmp(b)
	ops := []op{
		{"GT", x.GT, c > 0}, {"GE", x.GE, c >= 0}, {"EQ", x.EQ, c == 0},
		{"NE", x.NE, c != 0}, {"LT", x.LT, c < 0}, {"LE", x.LE, c <= 0},
	}
	k := w.Choose(6)
	for i := range ops {
		o := ops[(i+k)%6]
		got, err := o.fn(y)
		if a.raft != b.raft {
			if err == nil {
				sim.Failf("kinds", "%v %s %v gives %v, and no error", a, o.name, b, got)
			}
			continue
		}
		if err != nil {
			sim.Failf("order", "%v %s %v fails: %v", a, o.name, b, err)
		}
		if got != o.want {
			sim.Failf("order", "%v %s %v gives %v", a, o.name, b, got)
		}
	}
}

// newer decides by one of the comparisons, as an application would.
func newer(w *sim.World, in, have util.IConsensusTime) (bool, error) {
	not := func(b bool, err error) (bool, error) { return !b, err }
	switch w.Choose(5) {
	case 0:
		return in.GT(have)
	case 1:
		return have.LT(in)
	case 2:
		return not(in.LE(have))
	case 3:
		return not(have.GE(in))
	}
	ge, err := in.GE(have)
	if err != nil {
		return false, err
	}
	ne, err := in.NE(have)
	return ge && ne, err
}

func c13(w *sim.World) {
	c := &c13run{w: w, fs: newMachine(w), net: newNetwork(w, false), raft: w.Bool()}
	n := w.Range(2, 4)
	base := ctime{c.raft, genTick(w, 5), genTick(w, 7), genTick(w, 9)}
	for i := 0; i < n; i++ {
		c.fs.MkdirAll(fmt.Sprintf("/var/lib/node%d", i))
		c.nodes = append(c.nodes, &c13node{ep: &endpoint{name: fmt.Sprintf("node%d", i)}})
	}
	k := w.Range(1, 8)
	for i := 0; i < k; i++ {
		t := ctime{c.raft, genTick(w, base.a), genTick(w, base.b), genTick(w, base.c)}
		if !c.raft {
			t.b, t.c = 0, 0
		}
		dup := false
		for _, u := range c.updates {
			dup = dup || u.t.cmp(t) == 0
		}
		if dup {
			continue // one update per time
		}
		u := cupdate{t, uint32(1000 + i)}
		c.updates = append(c.updates, u)
		o := c.nodes[w.Choose(n)]
		o.mine = append(o.mine, u)
		w.Ev("update", u.t.String(), o.ep.name)
	}
	if w.Bool() {
		w.Preemptive(true)
	}
	for i := range c.nodes {
		c.start(i)
	}
	for i := w.Choose(4); i > 0; i-- {
		sim.Sleep(ms * int64(1+w.Choose(200)))
		x := w.Choose(n)
		switch w.Choose(3) {
		case 0, 1:
			o := c.nodes[x]
			w.Fault("node killed")
			o.proc.Kill()
			w.Join(o.th)
			o.ep.down, o.ep.inbox = true, nil
			sim.Sleep(ms * int64(1+w.Choose(100)))
			o.ep.down = false
			c.start(x)
		case 2:
			c.net.cut = !c.net.cut
			for _, o := range c.nodes {
				o.ep.group = w.Choose(2)
			}
		}
		c.check()
	}
	sim.Sleep(ms * int64(1+w.Choose(200)))
	c.net.faulty = false
	c.healed = true
	// every node sends what it holds, and what originates there, every 50 ms
	sim.Sleep(c.net.delay + 300*ms)
	c.done = true
	for _, o := range c.nodes {
		w.Join(o.th)
	}
	c.check()
	var best cupdate
	for i, u := range c.updates {
		if i == 0 || u.t.cmp(best.t) > 0 {
			best = u
		}
	}
	for i, o := range c.nodes {
		var data []byte
		if in := c.fs.Peek(c.file(i)); in != nil {
			data = in.Data
		}
		t, p, err := parse13(data)
		if err != nil {
			sim.Failf("stored", "%s holds nothing that can be read: %v", o.ep.name, err)
		}
		if !bytes.Equal(t.Buf(), best.t.make().Buf()) || p != best.payload {
			sim.Failf("diverged", "%s holds %v (payload %d) in the end; the greatest is %v (payload %d)", o.ep.name, o.now, p, best.t, best.payload)
		}
	}
}

func (c *c13run) file(i int) string { return fmt.Sprintf("/var/lib/node%d/state", i) }

func (c *c13run) check() {
	for _, o := range c.nodes {
		if o.proc.Dead && !o.proc.Killed && !o.proc.Exited {
			sim.Failf("panic", "%s: %s", o.ep.name, o.proc.End(o.th))
		}
	}
}

func (c *c13run) start(i int) {
	o := c.nodes[i]
	o.gen++
	o.proc = c.w.NewProc(fmt.Sprintf("node%d.%d", i, o.gen))
	o.th = c.w.Spawn(o.proc, o.proc.Name, func() { c.node(i) })
}

// message: the time, then four bytes.
func parse13(b []byte) (util.IConsensusTime, uint32, error) {
	t, err := util.NewConsensusTime(b)
	if err != nil {
		return nil, 0, err
	}
	n := len(t.Buf())
	if len(b) != n+4 {
		return nil, 0, fmt.Errorf("%d bytes", len(b))
	}
	return t, binary.BigEndian.Uint32(b[n:]), nil
}

func message13(t util.IConsensusTime, p uint32) []byte {
	return binary.BigEndian.AppendUint32(append([]byte(nil), t.Buf()...), p)
}

// byPayload: the reference of what was sent.
func (c *c13run) byPayload(p uint32) *cupdate {
	for i := range c.updates {
		if c.updates[i].payload == p {
			return &c.updates[i]
		}
	}
	return nil
}

func (c *c13run) node(i int) {
	w := c.w
	o := c.nodes[i]
	var have util.IConsensusTime
	var payload uint32
	take := func(t util.IConsensusTime, p uint32, ref ctime) {
		if have != nil {
			n, err := newer(w, t, have)
			if err != nil {
				sim.Failf("order", "%v and %v cannot be compared: %v", ref, o.now, err)
			}
			if w.Chance(1, 3) {
				compareAll(w, t, have, ref, o.now)
				compareAll(w, have, t, o.now, ref)
			}
			if n != (ref.cmp(o.now) > 0) {
				sim.Failf("order", "%v is newer than %v: %v", ref, o.now, n)
			}
			if !n {
				return
			}
		}
		have, payload = t, p
		o.now, o.has = ref, true
		w.Ev("keep", o.ep.name, ref.String())
		tmp := c.file(i) + ".new"
		f, err := simos.OpenFile(tmp, simos.O_WRONLY|simos.O_CREATE|simos.O_TRUNC, 0644)
		if err != nil {
			sim.Harness("open: %v", err)
		}
		f.Write(message13(have, payload))
		f.Close()
		simos.Rename(tmp, c.file(i))
	}
	if f, err := simos.Open(c.file(i)); err == nil {
		data, err := io.ReadAll(f)
		f.Close()
		if err != nil {
			sim.Harness("read: %v", err)
		}
		t, p, err := parse13(data)
		if err != nil {
			sim.Failf("stored", "%s cannot read the time it stored: %v", o.ep.name, err)
		}
		u := c.byPayload(p)
		if u == nil || !bytes.Equal(t.Buf(), u.t.make().Buf()) {
			sim.Failf("stored", "%s reads back another time than it stored: %x", o.ep.name, data)
		}
		compareAll(w, t, u.t.make(), u.t, u.t)
		have, payload = t, p
		o.now, o.has = u.t, true
	}
	for _, u := range o.mine {
		if w.Bool() {
			take(u.t.make(), u.payload, u.t)
		}
	}
	for !c.done {
		// to every other node: what it holds, or what originates here
		for j, q := range c.nodes {
			if j == i {
				continue
			}
			if have != nil {
				c.net.send(o.ep, q.ep, message13(have, payload), o.now)
			}
			for _, u := range o.mine {
				if w.Bool() || c.healed {
					c.net.send(o.ep, q.ep, message13(u.t.make(), u.payload), u.t)
				}
			}
			if w.Chance(1, 8) {
				// of the other kind: it must be seen as not comparable
				x := ctime{!c.raft, genTick(w, 1), 0, 0}
				c.net.send(o.ep, q.ep, message13(x.make(), 7), x)
			}
			if w.Chance(1, 16) {
				// cut short, it is no time at all
				b := message13(ctime{c.raft, 1, 2, 3}.make(), 0)
				b = b[:w.Choose(len(b)-4)]
				c.net.send(o.ep, q.ep, b, nil)
			}
		}
		expired := false
		w.At(50*ms, func() { expired = true })
		for {
			p := c.net.recv(o.ep, func() bool { return expired })
			if p == nil {
				break
			}
			in := append([]byte(nil), p.data...)
			ref, ok := p.note.(ctime)
			t, pl, err := parse13(in)
			if !ok {
				if err == nil {
					sim.Failf("torn", "a message cut short is read as a time: %x", in)
				}
				continue
			}
			if err != nil {
				sim.Failf("lost", "%v does not survive being sent: %v", ref, err)
			}
			if !bytes.Equal(in, p.data) {
				sim.Failf("modified", "reading %v changed the message", ref)
			}
			if !bytes.Equal(t.Buf(), ref.make().Buf()) {
				sim.Failf("content", "%v was received as %x", ref, t.Buf())
			}
			if ref.raft != c.raft {
				if have != nil {
					compareAll(w, t, have, ref, o.now)
					compareAll(w, have, t, o.now, ref)
				}
				continue
			}
			take(t, pl, ref)
		}
	}
	simos.Exit(0)
}
