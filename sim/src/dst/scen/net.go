package scen

import (
	"fmt"

	"dst/sim"
)

// A simulated datagram network. What happens to a packet is decided when it is
// sent; it arrives by an event of the world.

type packet struct {
	data   []byte // as it arrives
	orig   []byte // as it was sent
	note   any    // ground truth of the sender
	fate   string // "" undamaged
	prefix bool   // data is a strict prefix of orig
}

type endpoint struct {
	name  string
	inbox []*packet
	down  bool // packets that arrive are lost
	group int  // of a partition
}

type network struct {
	w       *sim.World
	faulty  bool
	level   int // how bad it is, out of 8
	corrupt bool
	delay   int64 // maximum, ns
	seen    [][]byte
	cut     bool
	sent    int
}

const ms = int64(1e6)

func newNetwork(w *sim.World, corrupt bool) *network {
	return &network{w: w, faulty: true, level: w.Range(1, 5), corrupt: corrupt, delay: ms * int64(1+w.Choose(200))}
}

// send data from one endpoint to another. note is kept with undamaged packets.
func (n *network) send(from, to *endpoint, data []byte, note any) {
	w := n.w
	n.sent++
	data = append([]byte(nil), data...)
	w.Ev("send", from.name, to.name, data)
	if len(n.seen) < 64 {
		n.seen = append(n.seen, data)
	}
	times := 1
	if n.faulty {
		if n.cut && from.group != to.group {
			w.Fault("partitioned")
			return
		}
		if w.Chance(n.level, 24) {
			w.Fault("packet lost")
			return
		}
		for times < 4 && w.Chance(n.level, 24) {
			w.Fault("packet duplicated")
			times++
		}
	}
	for ; times > 0; times-- {
		p := &packet{data: data, orig: data, note: note}
		d := ms
		if n.faulty {
			if w.Chance(n.level, 10) {
				d += int64(w.Choose(int(n.delay)))
				w.Fault("packet delayed")
			}
			if n.corrupt && w.Chance(n.level, 12) {
				n.damage(p)
			}
		}
		w.At(d, func() {
			if to.down {
				w.Fault("packet arrived at a stopped node")
				return
			}
			to.inbox = append(to.inbox, p)
		})
	}
}

func (n *network) damage(p *packet) {
	w := n.w
	d := append([]byte(nil), p.data...)
	if len(d) == 0 {
		return
	}
	kind := w.Choose(8)
	switch kind {
	case 0: // cut short
		d = d[:w.Choose(len(d))]
		p.prefix = true
		p.fate = "truncated"
	case 1, 2: // bits
		for i := 1 + w.Choose(3); i > 0; i-- {
			d[n.place(len(d))] ^= 1 << w.Choose(8)
		}
		p.fate = "bits flipped"
	case 3: // a byte overwritten by an extreme
		d[n.place(len(d))] = []byte{0, 0xff, 0x7f, 0x80, 1, 0xfe}[w.Choose(6)]
		p.fate = "byte overwritten"
	case 4: // bytes missing
		i := n.place(len(d))
		k := 1 + w.Choose(4)
		if i+k > len(d) {
			k = len(d) - i
		}
		d = append(d[:i:i], d[i+k:]...)
		p.fate = "bytes lost"
	case 5: // bytes inserted
		i := n.place(len(d))
		d = append(d[:i:i], append(blob(w, 1+w.Choose(4)), d[i:]...)...)
		p.fate = "bytes inserted"
	case 6: // continues as another packet
		o := n.seen[w.Choose(len(n.seen))]
		i := w.Choose(len(d) + 1)
		j := i
		if w.Bool() || j > len(o) {
			j = w.Choose(len(o) + 1)
		}
		d = append(d[:i:i], o[j:]...)
		p.fate = "spliced"
	case 7: // a stretch zeroed
		i := n.place(len(d))
		k := 1 + w.Choose(40)
		for j := i; j < i+k && j < len(d); j++ {
			d[j] = 0
		}
		p.fate = "stretch zeroed"
	}
	if string(d) == string(p.orig) {
		p.fate, p.prefix = "", false
		return
	}
	p.data = d
	p.note = nil
	w.Fault("packet " + p.fate)
}

// place: the beginning and the end are where the structure is.
func (n *network) place(k int) int {
	w := n.w
	switch w.Choose(4) {
	case 0:
		return w.Choose(min(k, 6))
	case 1:
		return k - 1 - w.Choose(min(k, 70))
	}
	return w.Choose(k)
}

// recv waits for a packet.
func (n *network) recv(e *endpoint, until func() bool) *packet {
	sim.Block("recv "+e.name, func() bool { return len(e.inbox) > 0 || until != nil && until() })
	if len(e.inbox) == 0 {
		return nil
	}
	p := e.inbox[0]
	e.inbox = e.inbox[1:]
	n.w.Ev("recv", e.name, p.data, p.fate)
	return p
}

func (p *packet) String() string {
	if p.fate == "" {
		return fmt.Sprintf("packet of %d bytes", len(p.data))
	}
	return fmt.Sprintf("packet of %d bytes (%s, was %d)", len(p.data), p.fate, len(p.orig))
}
