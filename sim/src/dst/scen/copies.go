package scen

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	"dst/sim"

	"poodle/util"
)

// ---------------------------------------------------------------- C25

// A node receives records, keys, values, schemes and consensus ids over a
// network into one buffer, which the next packet overwrites, and keeps copies
// of what it read. Its workers copy the copies again, build on them, and encode
// them, at the same time. Every copy and every encoding handed out must stay
// what it was, or become what its own owner made of it, and nothing else.

const kindID = 4

var itemKinds = []string{"record", "key", "value", "scheme", "consensus id"}

// kept is something copied, with what it must be.
type kept struct {
	what string
	e    any // util.IEncodable or util.IConsensusID
	it   *item
	id   []byte // of a consensus id
	busy bool
	n    int
}

// heldBuf is an encoding that was handed out.
type heldBuf struct {
	what string
	b    []byte
	was  []byte
}

type copyRun struct {
	w    *sim.World
	kept []*kept
	held []heldBuf
	n    int
	done bool
}

func (it *item) canon() string {
	var b bytes.Buffer
	switch it.kind {
	case 0:
		it.rec.canon(&b, true)
	case 1:
		return keyString(it.key)
	case 2:
		it.val.canon(&b)
	case 3:
		b.Write(it.sch.bytes())
	}
	return b.String()
}

func dup(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// clone shares nothing with the original but numbers.
func (v *mVal) clone() *mVal {
	if v == nil {
		return nil
	}
	c := &mVal{kind: v.kind, data: dup(v.data)}
	for _, x := range v.arr {
		c.arr = append(c.arr, x.clone())
	}
	for _, x := range v.recs {
		c.recs = append(c.recs, x.clone())
	}
	return c
}

func (m *mRec) clone() *mRec {
	c := &mRec{val: m.val.clone(), scheme: m.scheme.clone(), ts: m.ts, r: m.r, s: m.s}
	if m.r != nil {
		c.r, c.s = new(big.Int).Set(m.r), new(big.Int).Set(m.s)
	}
	for _, k := range m.key {
		c.key = append(c.key, dup(k))
	}
	return c
}

func (it *item) clone() *item {
	c := &item{kind: it.kind}
	switch it.kind {
	case 0:
		c.rec = it.rec.clone()
	case 1:
		for _, k := range it.key {
			c.key = append(c.key, dup(k))
		}
	case 2:
		c.val = it.val.clone()
	case 3:
		c.sch = &mScheme{domain: dup(it.sch.domain), tablet: dup(it.sch.tablet)}
		if it.sch.buckets != nil {
			c.sch.buckets = [][]byte{}
		}
		for _, x := range it.sch.buckets {
			c.sch.buckets = append(c.sch.buckets, dup(x))
		}
	}
	return c
}

// readItem turns any object into a model of its own.
func readItem(kind int, e any) (*item, error) {
	it := &item{kind: kind}
	var err error
	switch kind {
	case 0:
		it.rec, err = readRec(e.(util.IRecord))
	case 1:
		k := e.(util.IKey)
		for i := range k.Key() {
			it.key = append(it.key, k.SubKeyAt(i))
		}
	case 2:
		it.val, err = readVal(e.(util.IValue))
	case 3:
		s := e.(util.IScheme)
		it.sch = &mScheme{domain: s.Domain(), tablet: s.Tablet(), buckets: s.Buckets()}
	}
	if err != nil {
		return nil, err
	}
	return it.clone(), nil
}

func (c *copyRun) check(k *kept, when string) {
	if k.it == nil {
		id := k.e.(util.IConsensusID)
		if !bytes.Equal(id.Buf(), k.id) {
			sim.Failf("copy", "%s is %x, not %x, %s", k.what, id.Buf(), k.id, when)
		}
		return
	}
	got, err := readItem(k.it.kind, k.e)
	if err != nil {
		sim.Failf("copy", "%s cannot be read %s: %v", k.what, when, err)
	}
	if got.canon() != k.it.canon() {
		sim.Failf("copy", "%s is %s (%s), not %s (%s), %s", k.what, got, shortStr(got.canon()), k.it, shortStr(k.it.canon()), when)
	}
}

func shortStr(s string) string { return short([]byte(s)) }

func (c *copyRun) keep(what string, e any, it *item, id []byte) {
	if len(c.kept) >= 24 {
		return
	}
	c.n++
	k := &kept{what: fmt.Sprintf("%s (copy %d)", what, c.n), e: e, it: it, id: id, n: c.n}
	c.w.Ev("keep", k.what)
	c.kept = append(c.kept, k)
}

// copyOf copies e, in one of the two ways.
func (c *copyRun) copyOf(what string, e util.IEncodable) (util.IEncodable, string) {
	if c.w.Bool() {
		return e.Copy(), "a copy of " + what
	}
	x, err := e.CopyConstruct()
	if err != nil {
		return nil, ""
	}
	return x, "a modifiable copy of " + what
}

// take makes a copy of e, or of a part of it, knowing what it must be.
func (c *copyRun) take(what string, e util.IEncodable, it *item) {
	w := c.w
	if w.Chance(1, 3) {
		// of a part
		switch it.kind {
		case 0:
			r := e.(util.IRecord)
			switch w.Choose(3) {
			case 0:
				if r.Key() != nil {
					c.take("the key of "+what, r.Key(), &item{kind: 1, key: it.rec.key})
				}
			case 1:
				if r.Value() != nil {
					c.take("the value of "+what, r.Value(), &item{kind: 2, val: it.rec.val})
				}
			case 2:
				if r.Scheme() != nil {
					c.take("the scheme of "+what, r.Scheme(), &item{kind: 2, val: it.rec.scheme})
				}
			}
			return
		case 2:
			v := e.(util.IValue)
			if it.val.isNil() {
				break
			}
			if n := len(it.val.arr); n > 0 {
				i := w.Choose(n)
				x, err := v.ValueAt(uint16(i))
				if err != nil {
					sim.Failf("copy", "element %d of %s cannot be read: %v", i, what, err)
				}
				c.take(fmt.Sprintf("element %d of %s", i, what), x, &item{kind: 2, val: it.val.arr[i]})
				return
			}
			if n := len(it.val.recs); n > 0 {
				i := w.Choose(n)
				x, err := v.RecordAt(uint16(i))
				if err != nil {
					sim.Failf("copy", "record %d of %s cannot be read: %v", i, what, err)
				}
				c.take(fmt.Sprintf("record %d of %s", i, what), x, &item{kind: 0, rec: it.val.recs[i]})
				return
			}
		}
	}
	x, name := c.copyOf(what, e)
	if x == nil {
		// everything in it was read before
		sim.Failf("copy", "%s cannot be copied", what)
	}
	c.keep(name, x, it.clone(), nil)
}

// packet: items after each other, each with a byte that tells its kind.
func (c *copyRun) packet() []byte {
	w := c.w
	var b []byte
	for i := w.Range(1, 4); i > 0; i-- {
		kind := w.Choose(5)
		if kind == kindID {
			id, _ := valid(w, dID)
			b = append(append(b, kindID), id...)
			continue
		}
		it := genItem(w, kind, w.Chance(1, 12))
		if kind == 3 {
			b = append(append(b, 3), it.sch.bytes()...)
			continue
		}
		// handed out: it may change no more
		e := it.object(w)
		if e.Encode(nil) != nil {
			continue
		}
		c.hold("the encoding of a "+itemKinds[kind], e.Buf())
		b = append(append(b, byte(kind)), e.Buf()...)
		if w.Chance(1, 3) {
			c.keep("a "+itemKinds[kind]+" that was sent", e, it.clone(), nil)
		}
	}
	return b
}

func (it *item) object(w *sim.World) util.IEncodable {
	switch it.kind {
	case 0:
		return buildRec(w, it.rec)
	case 1:
		return buildKey(w, it.key)
	}
	return buildVal(w, it.val)
}

func (c *copyRun) hold(what string, b []byte) {
	if len(c.held) < 16 {
		c.held = append(c.held, heldBuf{what, b, append([]byte(nil), b...)})
	}
}

func (c *copyRun) checkHeld() {
	for _, h := range c.held {
		if !bytes.Equal(h.b, h.was) {
			sim.Failf("encoding", "%s has changed since it was handed out: %s, was %s", h.what, short(h.b), short(h.was))
		}
	}
}

// receive reads everything in the buffer and keeps some copies.
func (c *copyRun) receive(page []byte) {
	w := c.w
	for pos := 0; pos < len(page); {
		kind := int(page[pos])
		in := page[pos+1:]
		pos++
		if kind == kindID {
			id, err := util.NewMappedConsensusID(in)
			if err != nil {
				return
			}
			own := append([]byte(nil), id.Buf()...)
			c.keep("a copy of a received consensus id", id.Copy(), nil, own)
			pos += len(own)
			continue
		}
		if kind > 3 {
			return
		}
		e, n, err := decodeItem(kind, in)
		if err != nil {
			return
		}
		// what it says is read from other memory
		p, m, err := decodeItem(kind, append([]byte(nil), in...))
		if err != nil || m != n {
			sim.Failf("stable", "a received %s decodes to %d bytes once, and then to %d (%v)", itemKinds[kind], n, m, err)
		}
		it, err := readItem(kind, p)
		pos += n
		if err != nil {
			continue // damaged inside
		}
		for i := w.Range(1, 2); i > 0; i-- {
			if w.Chance(1, 3) {
				// after reading some of it
				if _, err := readItem(kind, e); err != nil {
					sim.Failf("stable", "a received %s cannot be read: %v", itemKinds[kind], err)
				}
			}
			c.take("a received "+itemKinds[kind], e, it)
		}
	}
}

// edit changes a modifiable object; its model follows. What the edit adds is the
// editor's own.
func (c *copyRun) edit(k *kept) string {
	w := c.w
	if w.Chance(1, 3) {
		if k.it.kind == 0 && inRec(w, k.e, k.it.rec) || k.it.kind == 2 && inVal(w, k.e, k.it.val) {
			return "something inside changed"
		}
	}
	switch o := k.e.(type) {
	case *util.Key:
		x := blob(w, 1+w.Choose(9))
		o.Add(dup(x))
		k.it.key = append(k.it.key, x)
		return "a subkey added"
	case *util.ValueArray:
		v := k.it.val
		if v.kind != vArr {
			v = &mVal{kind: vArr}
		}
		if len(v.arr) > 0 && w.Bool() {
			i := w.Choose(len(v.arr))
			o.DeleteAt(uint16(i))
			v.arr = append(v.arr[:i:i], v.arr[i+1:]...)
			k.it.val = v
			return "an element taken out"
		}
		x := genVal(w, 1, false)
		o.Append(buildVal(w, x))
		v.arr = append(v.arr, x)
		k.it.val = v
		return "an element added"
	case *util.RecordList:
		v := k.it.val
		if v.kind != vList {
			v = &mVal{kind: vList}
		}
		if len(v.recs) > 0 && w.Bool() {
			i := w.Choose(len(v.recs))
			o.DeleteAt(uint16(i))
			v.recs = append(v.recs[:i:i], v.recs[i+1:]...)
			k.it.val = v
			return "a record taken out"
		}
		x := genRec(w, 1, false)
		o.Append(buildRec(w, x))
		v.recs = append(v.recs, x)
		k.it.val = v
		return "a record added"
	case *util.Record:
		m := k.it.rec
		switch w.Choose(6) {
		case 0:
			x := blob(w, 1+w.Choose(9))
			o.SetK(dup(x))
			m.key = [][]byte{x}
			return "the key set"
		case 1:
			m.val = genVal(w, 1, false)
			o.SetValue(buildVal(w, m.val))
			return "the value set"
		case 2:
			m.scheme = &mVal{kind: vPrim, data: blob(w, 1+w.Choose(9))}
			o.SetS(dup(m.scheme.data))
			return "the scheme set"
		case 3:
			n := stamps[w.Choose(len(stamps))]
			t := time.Unix(0, n)
			m.ts = &n
			o.SetTimestamp(&t)
			return "the time set"
		case 4:
			m.r, m.s = genInt(w), genInt(w)
			o.SetSignature(new(big.Int).Set(m.r), new(big.Int).Set(m.s))
			return "the signature set"
		}
		// the key or the value it has, changed
		if key, ok := o.Key().(*util.Key); ok && w.Bool() {
			x := blob(w, 1+w.Choose(9))
			key.Add(dup(x))
			o.SetKey(key)
			m.key = append(m.key, x)
			return "the key extended"
		}
		if a, ok := o.Value().(*util.ValueArray); ok && m.val != nil && m.val.kind == vArr {
			x := genVal(w, 0, false)
			a.Append(buildVal(w, x))
			o.SetValue(a)
			m.val.arr = append(m.val.arr, x)
			return "the value extended"
		}
	}
	return ""
}

// inVal changes something inside a value, where it lies: nobody tells the value.
func inVal(w *sim.World, e any, v *mVal) bool {
	if v == nil {
		return false
	}
	switch o := e.(type) {
	case *util.ValueArray:
		if v.kind != vArr || len(v.arr) == 0 || int(o.Size()) != len(v.arr) {
			return false
		}
		i := w.Choose(len(v.arr))
		x, err := o.ValueAt(uint16(i))
		if err != nil {
			sim.Failf("copy", "element %d cannot be read: %v", i, err)
		}
		if a, ok := x.(*util.ValueArray); ok && v.arr[i] != nil && v.arr[i].kind == vArr && w.Bool() {
			y := &mVal{kind: vPrim, data: blob(w, 1+w.Choose(9))}
			a.Append(buildVal(w, y))
			v.arr[i].arr = append(v.arr[i].arr, y)
			return true
		}
		return inVal(w, x, v.arr[i])
	case *util.RecordList:
		if v.kind != vList || len(v.recs) == 0 || int(o.Size()) != len(v.recs) {
			return false
		}
		i := w.Choose(len(v.recs))
		x, err := o.RecordAt(uint16(i))
		if err != nil {
			sim.Failf("copy", "record %d cannot be read: %v", i, err)
		}
		if r, ok := x.(*util.Record); ok && w.Bool() {
			y := blob(w, 1+w.Choose(9))
			r.SetK(dup(y))
			v.recs[i].key = [][]byte{y}
			return true
		}
		return inRec(w, x, v.recs[i])
	}
	return false
}

// inRec changes something inside a record, where it lies.
func inRec(w *sim.World, e any, m *mRec) bool {
	o, ok := e.(*util.Record)
	if !ok {
		return false
	}
	switch w.Choose(3) {
	case 0:
		if key, ok := o.Key().(*util.Key); ok && key != nil {
			x := blob(w, 1+w.Choose(9))
			key.Add(dup(x))
			m.key = append(m.key, x)
			return true
		}
	case 1:
		if a, ok := o.Value().(*util.ValueArray); ok && m.val != nil && m.val.kind == vArr && w.Bool() {
			x := genVal(w, 0, false)
			a.Append(buildVal(w, x))
			m.val.arr = append(m.val.arr, x)
			return true
		}
		return inVal(w, o.Value(), m.val)
	case 2:
		return inVal(w, o.Scheme(), m.scheme)
	}
	return false
}

// spoil overwrites the bytes that a made object lies in: they are whose who made
// it, and who may use the memory again once the object is dropped.
func spoil(e any) {
	over := func(b []byte) {
		for i := range b {
			b[i] ^= 0x55
		}
	}
	switch o := e.(type) {
	case *util.Key:
		for _, b := range o.Key() {
			over(b)
		}
	case *util.Primitive:
		over(o.Value())
	case *util.ValueArray:
		for i := 0; i < int(o.Size()); i++ {
			if x, err := o.ValueAt(uint16(i)); err == nil {
				spoil(x)
			}
		}
	case *util.RecordList:
		for i := 0; i < int(o.Size()); i++ {
			if x, err := o.RecordAt(uint16(i)); err == nil {
				spoil(x)
			}
		}
	case *util.Record:
		spoil(o.Key())
		spoil(o.Value())
		spoil(o.Scheme())
	}
}

// within changes something inside e, and tells whether there was something.
func (c *copyRun) within(e any) bool {
	w := c.w
	switch o := e.(type) {
	case *util.ValueArray:
		if n := int(o.Size()); n > 0 {
			x, err := o.ValueAt(uint16(w.Choose(n)))
			if err != nil {
				sim.Failf("copy", "an element cannot be read: %v", err)
			}
			switch y := x.(type) {
			case *util.ValueArray:
				y.Append(util.NewPrimitive([]byte("within")))
			case *util.RecordList:
				return c.within(y)
			default:
				return false
			}
			return true
		}
	case *util.RecordList:
		if n := int(o.Size()); n > 0 {
			x, err := o.RecordAt(uint16(w.Choose(n)))
			if err != nil {
				sim.Failf("copy", "a record cannot be read: %v", err)
			}
			if r, ok := x.(*util.Record); ok {
				r.SetK([]byte("within"))
				return true
			}
		}
	case *util.Record:
		if w.Bool() {
			return c.within(o.Value())
		}
		if k, ok := o.Key().(*util.Key); ok {
			k.Add([]byte("within"))
			return true
		}
	}
	return false
}

func (c *copyRun) drop(k *kept) {
	for i, x := range c.kept {
		if x == k {
			c.kept = append(c.kept[:i:i], c.kept[i+1:]...)
			return
		}
	}
}

// use: a worker does something with something kept.
func (c *copyRun) use() {
	w := c.w
	if len(c.kept) == 0 {
		return
	}
	k := c.kept[w.Choose(len(c.kept))]
	if k.busy {
		return
	}
	k.busy = true
	defer func() { k.busy = false }()
	if k.it == nil {
		c.check(k, "later")
		if w.Chance(1, 3) {
			c.keep("a copy of "+k.what, k.e.(util.IConsensusID).Copy(), nil, k.id)
		}
		return
	}
	e := k.e.(util.IEncodable)
	switch w.Choose(7) {
	case 6: // this one is given up, and changed in a way of which the copies know nothing
		c.check(k, "before it was given up")
		c.drop(k)
		switch {
		case w.Bool():
			w.Ev("spoil", k.what)
			w.Probe("spoiled")
			spoil(k.e)
			for _, h := range c.held {
				if !bytes.Equal(h.b, h.was) {
					sim.Failf("encoding", "%s changes with the bytes of %s", h.what, k.what)
				}
			}
		case c.within(k.e):
			w.Ev("changed within", k.what)
			w.Probe("changed within")
		}
	case 0:
		c.check(k, "later")
	case 1, 2:
		if k.it.kind == 3 || w.Chance(3, 4) {
			c.take(k.what, e, k.it)
			return
		}
		c.check(k, "before it was encoded")
		fallthrough
	case 3:
		if o, ok := e.(*util.Scheme); ok && o == nil {
			return
		}
		if e.Encode(nil) != nil && !e.IsEncoded() {
			return // too big, or all there ever was
		}
		b := e.Buf()
		x, _, err := decodeItem(k.it.kind, append([]byte(nil), b...))
		if err != nil {
			sim.Failf("copy", "%s is encoded as %s, which cannot be decoded: %v", k.what, short(b), err)
		}
		got, err := readItem(k.it.kind, x)
		if err != nil || got.canon() != k.it.canon() {
			sim.Failf("copy", "%s is encoded as %s, which says %v (%v), not %v", k.what, short(b), got, err, k.it)
		}
		c.hold("the encoding of "+k.what, b)
	default:
		if what := c.edit(k); what != "" {
			w.Ev("edit", k.what, what)
			w.Probe(what)
			c.check(k, "with "+what)
		}
	}
}

func c25(w *sim.World) {
	w.LimitSteps(1 << 27)
	newMachine(w)
	c := &copyRun{w: w}
	net := newNetwork(w, w.Choose(3) > 0)
	src, dst := &endpoint{name: "sender"}, &endpoint{name: "receiver"}
	p := w.NewProc("node")
	var ts []*sim.Thread
	packets := w.Range(1, 5)
	// the buffer, as long as the longest packet so far
	page := make([]byte, 0, 64)
	stop := false
	ts = append(ts, w.Spawn(p, "network", func() {
		for {
			pk := net.recv(dst, func() bool { return stop })
			if pk == nil {
				return
			}
			n := len(pk.data)
			if n > cap(page) {
				page = make([]byte, n)
			}
			// what the last packet left behind lies after this one
			page = page[:cap(page)]
			copy(page, pk.data)
			c.receive(page[:n])
			if w.Chance(1, 4) {
				for i := range page { // given back to whom it was borrowed from
					page[i] = 0xee
				}
			}
		}
	}))
	for i := w.Range(1, 2); i > 0; i-- {
		ts = append(ts, w.Spawn(p, fmt.Sprintf("worker%d", i), func() {
			for k := w.Range(3, 14); k > 0; k-- {
				if len(c.kept) == 0 && !stop {
					sim.Block("something kept", func() bool { return len(c.kept) > 0 || stop })
				}
				c.use()
			}
		}))
	}
	w.Preemptive(w.Bool())
	for i := 0; i < packets; i++ {
		if end := w.RunIn(p, func() { net.send(src, dst, c.packet(), nil) }); !end.Returned {
			sim.Failf("panic", "encoding: %s", end)
		}
		sim.Sleep(ms * int64(1+w.Choose(100)))
	}
	sim.Sleep(net.delay + 2*ms)
	stop = true
	w.Join(ts...)
	w.Preemptive(false)
	for _, t := range ts {
		if !t.Returned {
			sim.Failf("panic", "keeping copies: %s", p.End(t))
		}
	}
	end := w.RunIn(p, func() {
		for i := range page {
			page[i] = 0x11
		}
		for _, k := range c.kept {
			c.check(k, "in the end")
		}
		c.checkHeld()
		if len(c.kept) > 1 {
			w.Probe("copies kept")
		}
	})
	if !end.Returned {
		sim.Failf("panic", "reading the copies: %s", end)
	}
}
