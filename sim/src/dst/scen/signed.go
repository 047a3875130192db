package scen

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"

	"dst/sim"
	"dst/simos"
	"dst/vfs"

	"poodle/util"
)

// ---------------------------------------------------------------- C10

// A sender signs records with its stored key and sends them until each is
// acknowledged. The receiver accepts what decodes and verifies under the
// sender's stored public key, writes it to its journal, and acknowledges it.

type smsg struct {
	m     *mRec
	enc   []byte
	sum   [8]byte
	acked bool
}

type c10run struct {
	w        *sim.World
	fs       *vfs.FS
	net      *network
	src, dst *endpoint
	msgs     []*smsg
	byBytes  bool // what is signed is the encoding, rather than the content
	stored   map[[8]byte]int
	done     bool
}

const c10journal = "/var/lib/poodle/received"

func sum8(b []byte) (r [8]byte) { copy(r[:], util.SumSHA256(b)); return }

func c10(w *sim.World) {
	c := &c10run{w: w, fs: newMachine(w), stored: map[[8]byte]int{}}
	c.net = newNetwork(w, true)
	c.src, c.dst = &endpoint{name: "sender"}, &endpoint{name: "receiver"}
	c.fs.MkdirAll("/var/lib/poodle")
	c.byBytes = w.Bool()
	var key, other *ecdsa.PrivateKey
	secret := secretPool[w.Choose(len(secretPool))]
	end := w.RunIn(w.NewProc("setup"), func() {
		key, other = util.ECDSAGenerateKey(), util.ECDSAGenerateKey()
		if err := util.LCSaveKeyPair(util.CLS_NODE, "sender", key.X, key.D, secret); err != nil {
			sim.Failf("save", "the key cannot be saved: %v", err)
		}
	})
	if !end.Returned {
		sim.Failf("panic", "saving the key: %s", end)
	}
	if w.Bool() {
		w.Preemptive(true)
	}
	ps := w.NewProc("sender")
	ts := w.Spawn(ps, "sender", func() { c.sender(secret, other) })
	recvs := 1
	pr := w.NewProc("receiver")
	tr := w.Spawn(pr, "receiver", func() { c.receiver() })
	// the receiver may be killed and started again while the network is bad
	kills := w.Choose(3)
	for i := 0; i < kills; i++ {
		sim.Sleep(ms * int64(1+w.Choose(300)))
		if tr.Done() || c.done {
			break
		}
		w.Fault("receiver killed")
		pr.Kill()
		w.Join(tr)
		c.dst.down = true
		c.dst.inbox = nil
		sim.Sleep(ms * int64(1+w.Choose(50)))
		c.dst.down = false
		recvs++
		pr = w.NewProc(fmt.Sprintf("receiver%d", recvs))
		tr = w.Spawn(pr, pr.Name, func() { c.receiver() })
	}
	sim.Sleep(ms * int64(1+w.Choose(300)))
	c.net.faulty = false
	t0 := w.Now()
	sim.Block("progress", func() bool {
		return ts.Done() || tr.Done() && pr.Dead
	})
	if pr.Dead {
		sim.Failf("panic", "the receiver: %s", pr.End(tr))
	}
	if !ts.Returned {
		sim.Failf("panic", "the sender: %s", ps.End(ts))
	}
	if d := w.Now() - t0; d > 20*c.rto()+c.net.delay {
		sim.Failf("progress", "delivery took %d ms after the faults stopped", d/ms)
	}
	c.done = true
	w.Join(tr)
	if pr.Dead && !pr.Exited {
		sim.Failf("panic", "the receiver: %s", pr.End(tr))
	}
	for i, m := range c.msgs {
		if n := c.stored[m.sum]; n != 1 {
			sim.Failf("delivery", "record %d was stored %d times", i, n)
		}
	}
	if len(c.stored) != len(c.msgs) {
		sim.Failf("delivery", "%d records stored, %d sent", len(c.stored), len(c.msgs))
	}
}

func (c *c10run) rto() int64 { return 60 * ms }

// sign returns the encoding of m, signed.
func (c *c10run) sign(priv *ecdsa.PrivateKey, m *mRec) []byte {
	r := buildRec(c.w, m)
	hash := m.digest()
	if c.byBytes {
		if err := r.Encode(nil); err != nil {
			return nil
		}
		hash = util.SumSHA256d(r.Buf())
	}
	a, b, err := util.ECDSASign(priv, hash)
	if err != nil {
		sim.Failf("sign", "signing with the stored key fails: %v", err)
	}
	m.r, m.s = a, b
	r.SetSignature(a, b)
	if err := r.Encode(nil); err != nil {
		return nil
	}
	return append([]byte(nil), r.Buf()...)
}

// verify what was received; the content, if it is authentic.
func (c *c10run) verify(pub *ecdsa.PublicKey, r util.IRecord) (*mRec, string) {
	m, err := readRec(r)
	if err != nil {
		return nil, err.Error()
	}
	if m.r == nil || m.s == nil {
		return nil, "not signed"
	}
	hash := m.digest()
	if c.byBytes {
		// the encoding without the signature
		u := util.NewRecord()
		if r.Key() != nil {
			k, err := r.Key().CopyConstruct()
			if err != nil {
				return nil, err.Error()
			}
			u.SetKey(k.(util.IKey))
		}
		if r.Value() != nil {
			v, err := r.Value().CopyConstruct()
			if err != nil {
				return nil, err.Error()
			}
			u.SetValue(v.(util.IValue))
		}
		if r.Scheme() != nil {
			v, err := r.Scheme().CopyConstruct()
			if err != nil {
				return nil, err.Error()
			}
			u.SetScheme(v.(util.IValue))
		}
		if t := r.Timestamp(); t != nil {
			u.SetTimestamp(t)
		}
		if err := u.Encode(nil); err != nil {
			return nil, err.Error()
		}
		hash = util.SumSHA256d(u.Buf())
	}
	if !util.ECDSAVerify(pub, hash, m.r, m.s) {
		return m, "signature"
	}
	return m, ""
}

func (m *mRec) same(o *mRec) bool {
	var a, b bytes.Buffer
	m.canon(&a, true)
	o.canon(&b, true)
	return bytes.Equal(a.Bytes(), b.Bytes())
}

func (c *c10run) sender(secret []byte, other *ecdsa.PrivateKey) {
	w := c.w
	priv, err := util.LCLoadPrivKey(util.CLS_NODE, "sender", append([]byte(nil), secret...))
	if err != nil {
		sim.Failf("load", "the private key does not load: %v", err)
	}
	n := w.Range(1, 6)
	for i := 0; i < n; i++ {
		m := genRec(w, 2, w.Chance(1, 4))
		m.r, m.s = nil, nil
		// unlike any other
		m.key = append([][]byte{binary.BigEndian.AppendUint16(nil, uint16(i+1))}, m.key...)
		enc := c.sign(priv, m)
		if enc == nil {
			if m.size() < 1000 && m.scheme.size() < 1024 {
				sim.Failf("refused", "%v cannot be encoded", m)
			}
			m = &mRec{key: m.key[:1], val: &mVal{kind: vPrim, data: []byte{1, 2}}}
			if enc = c.sign(priv, m); enc == nil {
				sim.Failf("refused", "%v cannot be encoded", m)
			}
		}
		c.msgs = append(c.msgs, &smsg{m: m, enc: enc, sum: sum8(m.digest())})
		w.Ev("record", m.String(), len(enc))
	}
	if w.Chance(1, 3) {
		c.substitute(priv, other)
	}
	for {
		var left []*smsg
		for _, m := range c.msgs {
			if !m.acked {
				left = append(left, m)
			}
		}
		if len(left) == 0 {
			return
		}
		for i := 0; i < len(left); {
			k := 1
			if w.Chance(1, 3) {
				k = 1 + w.Choose(len(left)-i)
			}
			var p []byte
			for _, m := range left[i : i+k] {
				p = append(p, m.enc...)
			}
			c.net.send(c.src, c.dst, p, append([]*smsg(nil), left[i:i+k]...))
			i += k
		}
		until := w.Now() + c.rto()
		expired := false
		w.At(c.rto(), func() { expired = true })
		for w.Now() < until {
			p := c.net.recv(c.src, func() bool { return expired })
			if p == nil {
				break
			}
			for _, m := range c.msgs {
				if bytes.Equal(p.data, m.sum[:]) {
					m.acked = true
				}
			}
		}
	}
}

// substitute sends records whose signature is not theirs.
func (c *c10run) substitute(priv, other *ecdsa.PrivateKey) {
	w := c.w
	x := c.msgs[w.Choose(len(c.msgs))]
	m := *x.m
	switch w.Choose(5) {
	case 0: // of another record
		y := c.msgs[w.Choose(len(c.msgs))]
		if x == y {
			return
		}
		m.r, m.s = y.m.r, y.m.s
	case 1: // by someone else
		if other.D.Cmp(priv.D) == 0 {
			return
		}
		if c.sign(other, &m) == nil {
			return
		}
	case 2:
		m.r, m.s = m.s, m.r
	case 3: // nothing at all
		m.r, m.s = new(big.Int), new(big.Int)
	case 4: // other content under the same signature
		v := mVal{kind: vPrim, data: []byte("other")}
		m.val = &v
	}
	if m.same(x.m) {
		return
	}
	r := buildRec(w, &m)
	if r.Encode(nil) != nil {
		return
	}
	w.Fault("signature substituted")
	c.net.send(c.src, c.dst, append([]byte(nil), r.Buf()...), nil)
}

func (c *c10run) receiver() {
	w := c.w
	pub, err := util.LCLoadPubKey(util.CLS_NODE, "sender")
	if err != nil {
		sim.Failf("load", "the public key does not load: %v", err)
	}
	have := map[[8]byte]bool{}
	f, err := simos.OpenFile(c10journal, simos.O_RDWR|simos.O_CREATE, 0644)
	if err != nil {
		sim.Harness("open: %v", err)
	}
	data, err := io.ReadAll(f)
	if err != nil {
		sim.Harness("read: %v", err)
	}
	pos := 0
	for pos < len(data) {
		r, n, err := util.NewMappedRecord(data[pos:])
		if err != nil {
			break // the torn last one
		}
		m, why := c.verify(pub, r)
		if why != "" {
			sim.Failf("journal", "a stored record is not authentic any more: %s", why)
		}
		s := sum8(m.digest())
		if have[s] {
			sim.Failf("delivery", "a record was stored twice")
		}
		have[s] = true
		if c.stored[s] == 0 {
			c.stored[s] = 1 // written completely before the receiver was killed
		}
		pos += n
	}
	f.Truncate(int64(pos))
	f.Seek(int64(pos), 0)
	for {
		p := c.net.recv(c.dst, func() bool { return c.done })
		if p == nil {
			return
		}
		in := append([]byte(nil), p.data...)
		want, _ := p.note.([]*smsg)
		orig := c.whole(p)
		pos, i := 0, 0
		for pos < len(in) {
			r, n, err := util.NewMappedRecord(in[pos:])
			if err != nil {
				if want != nil {
					sim.Failf("lost", "record %d of an undamaged packet is rejected: %v", i, err)
				}
				break
			}
			if n <= 0 || pos+n > len(in) {
				sim.Failf("delimit", "a record of %d bytes was read from %d", n, len(in)-pos)
			}
			m, why := c.verify(pub, r)
			if want != nil {
				if why != "" {
					sim.Failf("verify", "an authentic record does not verify: %s", why)
				}
				if i >= len(want) || n != len(want[i].enc) {
					sim.Failf("delimit", "record %d of an undamaged packet was read as %d bytes", i, n)
				}
				if d := diffRec(w, r, want[i].m); d != "" {
					sim.Failf("content", "record %d of an undamaged packet: %s", i, d)
				}
			}
			if p.prefix && i < len(orig) {
				if !m.okSame(orig[i].m) {
					sim.Failf("torn", "from a packet cut to %d of %d bytes, a record that was not sent is read", len(p.data), len(p.orig))
				}
			} else if p.prefix && len(orig) > 0 {
				sim.Failf("torn", "more records in a packet cut short than were sent in it")
			}
			if why == "" {
				// authentic: it must be one that was sent
				var from *smsg
				for _, x := range c.msgs {
					if x.m.same(m) {
						from = x
					}
				}
				if from == nil {
					sim.Failf("forged", "a record that was never sent is accepted (%v)", p)
				}
				s := sum8(m.digest())
				if !have[s] {
					have[s] = true
					if c.byBytes && w.Bool() {
						f.Write(r.Buf())
					} else {
						f.Write(in[pos : pos+n])
					}
					c.stored[s]++
				}
				c.net.send(c.dst, c.src, s[:], nil)
			}
			pos += n
			i++
		}
		if want != nil && i != len(want) {
			sim.Failf("lost", "%d of %d records of an undamaged packet were read", i, len(want))
		}
		if !bytes.Equal(in, p.data) {
			sim.Failf("modified", "decoding changed the packet")
		}
	}
}

func (m *mRec) okSame(o *mRec) bool { return m != nil && m.same(o) }

// whole: the messages of the packet before it was damaged, if that is known.
func (c *c10run) whole(p *packet) []*smsg {
	var r []*smsg
	b := p.orig
next:
	for len(b) > 0 {
		for _, m := range c.msgs {
			if bytes.HasPrefix(b, m.enc) {
				r = append(r, m)
				b = b[len(m.enc):]
				continue next
			}
		}
		return nil
	}
	return r
}
