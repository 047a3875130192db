package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"dst/sim"

	"poodle/collection"
	"poodle/util"
)

// ---------------------------------------------------------------- C12

// What a decoder makes of some bytes is explored through probes: a probe calls
// one accessor and describes its outcome, and must describe it the same way
// however often and in whatever order the probes are called.

type probe struct {
	name string
	fn   func(depth int) string
}

const (
	dKey = iota
	dStd
	dSimple
	dRec
	dScheme
	dTime
	dID
	dMPH
	dVarchar
	dVarint
	dUvarint
	dKinds
)

var dNames = []string{"key", "value", "simple value", "record", "scheme", "consensus time", "consensus id", "index table", "varchar", "varint", "uvarint"}

// guard bounds each call into the code under test. Calls may nest: what an
// inner one takes does not count for the outer one.
type guard struct {
	w      *sim.World
	n      int // input bytes
	what   string
	shared bool  // with other threads: only reads, of any length
	steps  int64 // taken by inner calls
	allocs int64
}

func (g *guard) call(name string, fn func()) {
	w := g.w
	s0, a0 := w.Steps(), sim.Alloc
	is, ia := g.steps, g.allocs
	g.steps, g.allocs = 0, 0
	o := sim.Try(fn)
	if o.Panicked {
		sim.Failf("panic", "%s of %s: %v [%s]", name, g.what, o.Val, sim.Trim(o.Stack))
	}
	if g.shared {
		return
	}
	ds, da := w.Steps()-s0, sim.Alloc-a0
	if n := ds - g.steps; n > int64(60000+600*g.n+8*g.n*g.n) {
		sim.Failf("hang", "%s of %s (%d bytes) took %d steps", name, g.what, g.n, n)
	}
	if n := da - g.allocs; n > int64(160000+100*g.n) {
		sim.Failf("alloc", "%s of %s (%d bytes) allocated %d elements", name, g.what, g.n, n)
	}
	g.steps, g.allocs = is+ds, ia+da
}

func hx(b []byte) string {
	if b == nil {
		return "[]"
	}
	return fmt.Sprintf("[%x]", b)
}

func errs(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

func hx2(b [][]byte) string {
	var s []string
	for _, x := range b {
		s = append(s, hx(x))
	}
	return strings.Join(s, ",")
}

func keyProbes(k util.IKey) []probe {
	return []probe{
		{"Print", func(int) string {
			var b bytes.Buffer
			k.Print(&b, 0)
			return fmt.Sprintf("%x", sum8([]byte(b.String()+k.ToString())))
		}},
		{"IsEmpty", func(int) string { return fmt.Sprint(k.IsEmpty()) }},
		{"Key", func(int) string { return hx2(k.Key()) }},
		{"SubKeyAt", func(int) string {
			s := ""
			for i := len(k.Key()) - 1; i >= 0; i-- {
				s += hx(k.SubKeyAt(i))
			}
			return s
		}},
		{"Buf", func(int) string {
			if !k.IsEncoded() {
				return "not encoded"
			}
			return hx(k.Buf())
		}},
		{"EstBufSize", func(int) string { return fmt.Sprint(k.EstBufSize()) }},
		{"Encoded", func(int) string { return fmt.Sprint(k.IsEncoded(), k.IsDecoded()) }},
		{"Decode", func(int) string {
			n, err := k.Decode(nil)
			if err == nil && !k.IsDecoded() {
				sim.Failf("unstable", "what has been decoded says that it is not")
			}
			return fmt.Sprint(n, errs(err))
		}},
		{"Copy", func(int) string {
			c := k.Copy().(util.IKey)
			return fmt.Sprint(hx2(c.Key()), k.Equal(c), c.Equal(k), k.Compare(c), c.Compare(k))
		}},
		{"CopyConstruct", func(int) string {
			c, err := k.CopyConstruct()
			if err != nil {
				return "error"
			}
			x := c.(util.IKey)
			s := fmt.Sprint(hx2(x.Key()), k.Equal(x), x.Equal(k))
			if c.Encode(nil) != nil {
				return s + " error"
			}
			return s + hx(c.Buf())
		}},
		{"Hash", func(int) string { return fmt.Sprint(k.HashUint32(collection.MurmurSeed(3).Hash)) }},
		{"Compare", func(int) string {
			o := util.NewStringKey("m")
			return fmt.Sprint(k.Compare(o), k.Equal(o), k.Equal(nil), o.Compare(k), o.Equal(k))
		}},
	}
}

func valProbes(g *guard, v util.IValue) []probe {
	return []probe{
		{"Kind", func(int) string {
			return fmt.Sprint(v.IsNil(), v.IsPrimitive(), v.IsValueArray(), v.IsRecordList())
		}},
		{"Size", func(int) string {
			n := int(v.Size())
			if !g.shared && n > len(v.Buf()) {
				sim.Failf("alloc", "a value of %d bytes says it has %d elements", len(v.Buf()), n)
			}
			return fmt.Sprint(n)
		}},
		{"Value", func(int) string { return hx(v.Value()) }},
		{"Magic", func(int) string {
			if g.shared && !v.IsEncoded() {
				return "not encoded"
			}
			return fmt.Sprint(v.ValueMagic())
		}},
		{"Buf", func(int) string {
			if g.shared && !v.IsEncoded() {
				return "not encoded"
			}
			return hx(v.Buf())
		}},
		{"EstBufSize", func(int) string { return fmt.Sprint(v.EstBufSize()) }},
		{"Encoded", func(int) string { return fmt.Sprint(v.IsEncoded(), v.IsDecoded()) }},
		{"Encoders", func(int) string { return fmt.Sprint(v.LookupEncoder() == nil, v.CompressEncoder() == nil) }},
		{"Encode", func(int) string { return errs(v.Encode(nil)) }},
		{"Decode", func(int) string {
			n, err := v.Decode(nil)
			if err == nil && !v.IsDecoded() {
				sim.Failf("unstable", "what has been decoded says that it is not")
			}
			return fmt.Sprint(n, errs(err))
		}},
		{"Copy", func(d int) string {
			c := v.Copy().(util.IValue)
			if g.shared {
				c.Encode(nil)
			}
			return fmt.Sprint(c.Size(), hx(c.Buf()), hx(c.Value()))
		}},
		{"CopyConstruct", func(int) string {
			c, err := v.CopyConstruct()
			if err != nil {
				return "error"
			}
			if c.Encode(nil) != nil {
				return "unencodable"
			}
			return hx(c.Buf())
		}},
		{"PastEnd", func(int) string {
			_, e1 := v.ValueAt(v.Size())
			_, e2 := v.RecordAt(v.Size())
			_, e3 := v.ValueAt(65535)
			_, e4 := v.RecordAt(65535)
			return errs(e1) + errs(e2) + errs(e3) + errs(e4)
		}},
		{"Elements", func(d int) string { return elements(g, v, d, false) }},
		{"ElementsBackward", func(d int) string { return elements(g, v, d, true) }},
		{"RandomElement", func(d int) string {
			// looked at in passing, so that some are decoded before others
			if n := int(v.Size()); n > 0 && d < 4 {
				i := g.w.Choose(n)
				v.ValueAt(uint16(i))
				v.RecordAt(uint16(i))
			}
			return ""
		}},
	}
}

func elements(g *guard, v util.IValue, depth int, backward bool) string {
	n := int(v.Size())
	if n > 40 {
		n = 40
	}
	out := make([]string, n)
	for j := range out {
		i := j
		if backward {
			i = n - 1 - j
		}
		var x util.IValue
		var y util.IRecord
		var e1, e2 error
		g.call("ValueAt", func() { x, e1 = v.ValueAt(uint16(i)) })
		g.call("RecordAt", func() { y, e2 = v.RecordAt(uint16(i)) })
		s := errs(e1) + errs(e2)
		if e1 == nil {
			if x == nil {
				sim.Failf("nil", "element %d of %s is neither there nor an error", i, g.what)
			}
			s += shallow(g, depth+1, valProbes(g, x))
		}
		if e2 == nil {
			if y == nil {
				sim.Failf("nil", "record %d of %s is neither there nor an error", i, g.what)
			}
			s += shallow(g, depth+1, recProbes(g, y))
		}
		out[i] = s
	}
	return strings.Join(out, "; ")
}

func recProbes(g *guard, r util.IRecord) []probe {
	return []probe{
		{"Key", func(d int) string {
			if r.Key() == nil {
				return "none"
			}
			return shallow(g, d+1, keyProbes(r.Key()))
		}},
		{"Value", func(d int) string {
			if r.Value() == nil {
				return "none"
			}
			return shallow(g, d+1, valProbes(g, r.Value()))
		}},
		{"Scheme", func(d int) string {
			if r.Scheme() == nil {
				return "none"
			}
			return shallow(g, d+1, valProbes(g, r.Scheme()))
		}},
		{"Timestamp", func(int) string {
			if r.Timestamp() == nil {
				return "none"
			}
			return fmt.Sprint(r.Timestamp().UnixNano())
		}},
		{"Signature", func(int) string { a, b := r.Signature(); return fmt.Sprint(a, b) }},
		{"Magic", func(int) string { return fmt.Sprint(r.RecordMagic()) }},
		{"Buf", func(int) string {
			if g.shared && !r.IsEncoded() {
				return "not encoded"
			}
			return hx(r.Buf())
		}},
		{"EstBufSize", func(int) string { return fmt.Sprint(r.EstBufSize()) }},
		{"Encoded", func(int) string { return fmt.Sprint(r.IsEncoded(), r.IsDecoded()) }},
		{"Encode", func(int) string { return errs(r.Encode(nil)) }},
		{"Decode", func(int) string {
			n, err := r.Decode(nil)
			if err == nil && !r.IsDecoded() {
				sim.Failf("unstable", "what has been decoded says that it is not")
			}
			return fmt.Sprint(n, errs(err))
		}},
		{"Copy", func(int) string {
			c := r.Copy().(util.IRecord)
			if g.shared {
				c.Encode(nil)
			}
			return hx(c.Buf())
		}},
		{"CopyConstruct", func(int) string {
			c, err := r.CopyConstruct()
			if err != nil {
				return "error"
			}
			if c.Encode(nil) != nil {
				return "unencodable"
			}
			return hx(c.Buf())
		}},
	}
}

// shallow calls every probe once, in an order that is drawn at the upper
// levels, and gives a digest of all outcomes.
func shallow(g *guard, depth int, ps []probe) string {
	if depth > 4 {
		return "deep"
	}
	out := make([]string, len(ps))
	var o []int
	if depth < 3 {
		o = order(g.w, len(ps))
	} else {
		for i := range ps {
			o = append(o, i)
		}
	}
	for _, i := range o {
		if depth > 1 && strings.HasPrefix(ps[i].name, "ElementsB") {
			continue
		}
		if g.shared && (ps[i].name == "Encode" || ps[i].name == "Decode") {
			continue
		}
		g.call(ps[i].name, func() { out[i] = ps[i].name + "=" + ps[i].fn(depth) })
	}
	return fmt.Sprintf("{%x}", sum8([]byte(strings.Join(out, " "))))
}

func schemeProbes(s util.IScheme, decoded bool) []probe {
	ps := []probe{
		{"Decode", func(int) string {
			n, err := s.Decode(nil)
			if err == nil && !s.IsDecoded() {
				sim.Failf("unstable", "what has been decoded says that it is not")
			}
			return fmt.Sprint(n, errs(err))
		}},
		{"IsDecoded", func(int) string { return fmt.Sprint(s.IsDecoded()) }},
		{"Buf", func(int) string { return hx(s.Buf()) }},
		{"Encode", func(int) string { return fmt.Sprint(s.IsEncoded(), errs(s.Encode(nil))) }},
	}
	if !decoded {
		return ps
	}
	return append(ps,
		probe{"Domain", func(int) string { return hx(s.Domain()) + s.DomainName() }},
		probe{"Tablet", func(int) string { return hx(s.Tablet()) + s.TabletName() }},
		probe{"Buckets", func(int) string {
			r := hx2(s.Buckets())
			for i := range s.Buckets() {
				r += hx(s.BucketAt(i))
			}
			return r
		}},
		probe{"Magic", func(int) string { return fmt.Sprint(s.SchemeMagic()) }},
		probe{"EstBufSize", func(int) string { return fmt.Sprint(s.EstBufSize()) }},
		probe{"Copy", func(int) string {
			c := s.Copy().(util.IScheme)
			r := schemeText(c)
			if r != schemeText(s) {
				sim.Failf("copy", "the copy of the scheme %s is %s", schemeText(s), r)
			}
			if c.Encode(nil) != nil {
				return r + "unencodable"
			}
			r += hx(c.Buf()) + fmt.Sprint(c.SchemeMagic(), c.IsEncoded(), c.IsDecoded(), c.EstBufSize())
			// a copy of the copy, and what it is encoded as, say the same
			for i, x := range []util.IEncodable{c.Copy(), again(c)} {
				d, ok := x.(util.IScheme)
				if !ok || schemeText(d) != schemeText(s) {
					sim.Failf("copy", "a copy (%d) of a copy of the scheme %s is %s", i, schemeText(s), schemeText(d))
				}
			}
			return r
		}},
		probe{"CopyConstruct", func(int) string {
			c, err := s.CopyConstruct()
			if err != nil || c.Encode(nil) != nil {
				return "error"
			}
			return hx(c.Buf())
		}},
	)
}

func schemeText(s util.IScheme) string {
	if s == nil {
		return "none"
	}
	r := hx(s.Domain()) + s.DomainName() + hx(s.Tablet()) + s.TabletName() + hx2(s.Buckets())
	for i := range s.Buckets() {
		r += hx(s.BucketAt(i))
	}
	return r
}

// again decodes what a scheme is encoded as.
func again(s util.IScheme) util.IEncodable {
	d := util.NewMappedSchemd(append([]byte(nil), s.Buf()...))
	if n, err := d.Decode(nil); err != nil || n != len(s.Buf()) {
		sim.Failf("copy", "a scheme encoded as %s does not decode: %d %v", hx(s.Buf()), n, err)
	}
	return d
}

func timeProbes(t util.IConsensusTime) []probe {
	all := func(o util.IConsensusTime) string {
		s := ""
		for _, f := range []func(util.IConsensusTime) (bool, error){t.GT, t.GE, t.EQ, t.NE, t.LT, t.LE} {
			b, err := f(o)
			s += fmt.Sprint(b, errs(err))
		}
		return s
	}
	return []probe{
		{"Buf", func(int) string { return hx(t.Buf()) }},
		{"Self", func(int) string { return all(t) }},
		{"Ledger", func(int) string { return all(util.NewLedgerTime(5)) }},
		{"Raft", func(int) string { return all(util.NewRaftTime(5, 6, 7)) }},
		{"Again", func(int) string {
			o, err := util.NewConsensusTime(t.Buf())
			if err != nil {
				return "error"
			}
			return all(o) + hx(o.Buf())
		}},
	}
}

func idProbes(c util.IConsensusID) []probe {
	return []probe{
		{"Magic", func(int) string { return fmt.Sprint(c.ConsensusMagic()) }},
		{"Buf", func(int) string { return hx(c.Buf()) }},
		{"Copy", func(int) string { x := c.Copy(); return fmt.Sprint(x.ConsensusMagic(), hx(x.Buf())) }},
	}
}

func tableProbes(t *util.MPHTable, keys []util.IKey) []probe {
	ps := []probe{
		{"Encode", func(int) string {
			b, err := t.Encode()
			if err != nil {
				return "error"
			}
			return hx(b)
		}},
	}
	for i := range keys {
		k := keys[i]
		ps = append(ps, probe{fmt.Sprintf("Lookup%d", i), func(int) string { n, ok := t.Lookup(k); return fmt.Sprint(n, ok) }})
	}
	return ps
}

// open decodes b as kind; the probes of what came out, or nil.
func open(g *guard, kind int, b []byte, keys []util.IKey) (out string, n int, ps []probe) {
	var err error
	switch kind {
	case dKey:
		var k *util.MappedKey
		if k, n, err = util.NewMappedKey(b); err == nil {
			ps = keyProbes(k)
		}
	case dStd:
		var v *util.StandardMappedValue
		if v, n, err = util.NewStandardMappedValue(b); err == nil {
			ps = valProbes(g, v)
		}
	case dSimple:
		var v *util.SimpleMappedValue
		if v, n, err = util.NewSimpleMappedValue(b); err == nil {
			ps = valProbes(g, v)
		}
	case dRec:
		var r *util.MappedRecord
		if r, n, err = util.NewMappedRecord(b); err == nil {
			ps = recProbes(g, r)
		}
	case dScheme:
		s := util.NewMappedSchemd(b)
		n, err = s.Decode(nil)
		ps = schemeProbes(s, err == nil)
		if err != nil {
			return "error", 0, ps
		}
	case dTime:
		var t util.IConsensusTime
		if t, err = util.NewConsensusTime(b); err == nil {
			ps = timeProbes(t)
			n = len(t.Buf())
			if !bytes.HasPrefix(b, t.Buf()) {
				sim.Failf("misread", "%s is read as the consensus time %s", short(b), hx(t.Buf()))
			}
		}
	case dID:
		var c *util.MappedConsensusID
		if c, err = util.NewMappedConsensusID(b); err == nil {
			ps = idProbes(c)
			n = len(c.Buf())
			if !bytes.HasPrefix(b, c.Buf()) || c.ConsensusMagic() != b[0] {
				sim.Failf("misread", "%s is read as the consensus id %x %s", short(b), c.ConsensusMagic(), hx(c.Buf()))
			}
		}
	case dMPH:
		var t *util.MPHTable
		if t, n, err = util.NewMPHTable(b); err == nil {
			ps = tableProbes(t, keys)
		}
	case dVarchar:
		var d []byte
		if d, n, err = util.DecodeVarchar(b); err == nil {
			out = hx(d)
		}
	case dVarint:
		var i int64
		if i, n, err = util.DecodeVarint64(b); err == nil {
			out = fmt.Sprint(i)
		}
	case dUvarint:
		var i uint64
		if i, n, err = util.DecodeUvarint64(b); err == nil {
			out = fmt.Sprint(i)
		}
	}
	if err != nil {
		return "error", 0, nil
	}
	return out, n, ps
}

// valid makes a proper encoding of kind.
func valid(w *sim.World, kind int) ([]byte, []util.IKey) {
	enc := func(it *item) []byte {
		if b := it.encode(w); b != nil {
			return b
		}
		return []byte{0}
	}
	big := w.Chance(1, 8)
	switch kind {
	case dKey:
		return enc(&item{kind: 1, key: genKey(w, big)}), nil
	case dStd:
		return enc(&item{kind: 2, val: genVal(w, 3, big)}), nil
	case dSimple:
		return util.EncodeVarchar(blob(w, w.Choose(40))), nil
	case dRec:
		return enc(&item{kind: 0, rec: genRec(w, 3, big)}), nil
	case dScheme:
		m := byte(w.Choose(8)) << 5
		b := []byte{m}
		if m&0x80 != 0 {
			b = append(b, util.EncodeVarchar(blob(w, w.Choose(12)))...)
		}
		if m&0x40 != 0 {
			b = append(b, util.EncodeVarchar(blob(w, w.Choose(12)))...)
		}
		if m&0x20 != 0 {
			n := w.Choose(5)
			b = append(b, util.EncodeUvarint64(uint64(n))...)
			for i := 0; i < n; i++ {
				b = append(b, util.EncodeVarchar(blob(w, w.Choose(6)))...)
			}
		}
		return b, nil
	case dTime:
		if w.Bool() {
			return util.NewLedgerTime(uint32(w.Choose(1 << 30))).Buf(), nil
		}
		return util.NewRaftTime(uint32(w.Choose(9)), uint32(w.Choose(9)), uint32(w.Choose(9))).Buf(), nil
	case dID:
		m := byte(w.Range(1, 31)) << 3
		n := 0
		for i := 4; i < 8; i++ {
			n += 32 * int(m>>i&1)
		}
		n += 64 * int(m>>3&1)
		return append([]byte{m}, blob(w, n)...), nil
	case dMPH:
		var keys []util.IKey
		seen := map[string]bool{}
		for i := w.Choose(9); i > 0; i-- {
			k := genKey(w, false)
			if s := hx2(k); !seen[s] {
				seen[s] = true
				keys = append(keys, buildKey(w, k))
			}
		}
		w.Ev("index of", len(keys), fmt.Sprint(sim.SortedKeys(seen)))
		b, err := util.MPHBuild(keys, w.Bool()).Encode()
		if err != nil {
			sim.Failf("refused", "an index of %d keys cannot be encoded: %v", len(keys), err)
		}
		return b, keys
	case dVarchar:
		return util.EncodeVarchar(blob(w, w.Choose(300))), nil
	case dVarint:
		return util.EncodeVarint64(stamps[w.Choose(len(stamps))]), nil
	}
	return util.EncodeUvarint64(uint64(stamps[w.Choose(len(stamps))])), nil
}

// hurt damages an encoding.
func hurt(w *sim.World, b []byte) []byte {
	b = append([]byte(nil), b...)
	n := w.Choose(4)
	for ; n > 0; n-- {
		if len(b) == 0 {
			return b
		}
		at := w.Choose(len(b))
		if w.Bool() {
			at = w.Choose(min(len(b), 12))
		}
		kind := w.Choose(9)
		switch kind {
		case 0:
			b[at] ^= 1 << w.Choose(8)
		case 1:
			b[at] = []byte{0, 0xff, 0x7f, 0x80, 1, 0xfe}[w.Choose(6)]
		case 2:
			b = b[:w.Choose(len(b)+1)]
		case 3:
			k := min(1+w.Choose(4), len(b)-at)
			b = append(b[:at:at], b[at+k:]...)
		case 4:
			b = append(b[:at:at], append(blob(w, 1+w.Choose(4)), b[at:]...)...)
		case 5: // a huge length
			h := [][]byte{
				{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
				{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
				{0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0xff, 0x07}, {0xff, 0xff, 0x03},
				{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
				{0xff, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0x40, 0, 0, 0}, {0xff, 0xff}, {0x80, 0x80, 0x80},
			}[w.Choose(11)]
			if w.Bool() {
				b = append(b[:at:at], append(append([]byte(nil), h...), b[min(len(b), at+len(h)):]...)...)
			} else {
				b = append(b[:at:at], append(append([]byte(nil), h...), b[at+1:]...)...)
			}
		case 6:
			for j := at; j < len(b) && j < at+1+w.Choose(30); j++ {
				b[j] = 0
			}
		case 7: // a stretch repeated
			k := min(1+w.Choose(20), len(b)-at)
			b = append(b[:at+k:at+k], append(append([]byte(nil), b[at:at+k]...), b[at+k:]...)...)
		case 8: // a count one more or less
			if w.Bool() {
				b[at]++
			} else {
				b[at]--
			}
		}
		w.Fault("encoding damaged: " + []string{"bit", "byte", "truncated", "bytes lost", "bytes inserted", "huge length", "zeroed", "repeated", "off by one"}[kind])
	}
	return b
}

// bomb makes input that asks for far more than it holds.
func bomb(w *sim.World) []byte {
	switch w.Choose(5) {
	case 0: // arrays that say they hold many elements
		var b []byte
		for i := 1 + w.Choose(8); i > 0; i-- {
			b = append(b, 0x82, 0xff, 0xff, 0, byte(w.Choose(12)))
		}
		return b
	case 1: // arrays in arrays, each just big enough
		b := []byte{0}
		for i := 1 + w.Choose(60); i > 0; i-- {
			h := []byte{0x42, 1}
			h = binary.BigEndian.AppendUint16(h, uint16(len(b)))
			b = append(h, b...)
		}
		return b
	case 2: // lists of records in records
		b := []byte{0}
		for i := 1 + w.Choose(60); i > 0; i-- {
			h := []byte{0x20, 0x12, 1}
			h = binary.BigEndian.AppendUint16(h, uint16(len(b)))
			b = append(h, b...)
		}
		if w.Bool() {
			return b[1:]
		}
		return b
	case 3: // an array of many empty elements
		n := 1 + w.Choose(1000)
		b := []byte{0x82}
		b = binary.BigEndian.AppendUint16(b, uint16(n))
		b = binary.BigEndian.AppendUint16(b, uint16(n))
		return append(b, make([]byte, n)...)
	}
	// a key of many empty parts
	n := 1 + w.Choose(1000)
	b := util.EncodeUvarint64(uint64(n))
	return append(b, make([]byte, n)...)
}

func c12(w *sim.World) {
	w.LimitSteps(1 << 27)
	newMachine(w)
	p := w.NewProc("reader")
	end := w.RunIn(p, func() {
		for i := w.Range(1, 5); i > 0; i-- {
			decodeOne(w)
		}
	})
	if !end.Returned {
		sim.Failf("panic", "reader: %s", end)
	}
}

func decodeOne(w *sim.World) {
	kind := w.Choose(dKinds)
	var b, proper []byte
	keys := []util.IKey{util.NewStringKey("a"), util.NewKey(), util.NewKey().Add([]byte{1}).Add([]byte{2, 3})}
	switch src := w.Choose(10); src {
	case 0:
		b = blob(w, w.Choose(60))
		w.Fault("garbage")
	case 1:
		b, _ = valid(w, w.Choose(dKinds))
		b = hurt(w, b)
		w.Fault("an encoding of something else")
	case 2:
		b = hurt(w, bomb(w))
		w.Fault("input that asks for more than it holds")
	default:
		var ks []util.IKey
		proper, ks = valid(w, kind)
		keys = append(keys, ks...)
		b = hurt(w, proper)
	}
	g := &guard{w: w, n: len(b), what: fmt.Sprintf("%s %s", dNames[kind], short(b))}
	w.Ev("decode", kind, b)
	// the bytes lie in a larger buffer: what follows them is not theirs
	outer := append(append([]byte(nil), b...), blob(w, 70)...)
	in := outer[:len(b):len(b)]
	if w.Bool() {
		in = outer[:len(b)]
	}
	was := append([]byte(nil), outer...)
	var out string
	var n int
	var ps []probe
	g.call("decoding", func() { out, n, ps = open(g, kind, in, keys) })
	if n < 0 || n > len(in) {
		sim.Failf("length", "decoding %s of %d bytes took %d", g.what, len(in), n)
	}
	w.Ev("decoded", out, n)
	if proper != nil && bytes.Equal(b, proper) {
		w.Probe("undamaged " + dNames[kind])
		if out == "error" || n != len(b) {
			sim.Failf("refused", "undamaged %s of %d bytes decodes to %s, %d bytes taken", g.what, len(b), clip(out), n)
		}
	}
	first := map[string]string{}
	look := func(ps []probe, who string) {
		for _, i := range order(w, len(ps)) {
			p := ps[i]
			var s string
			g.call(p.name, func() { s = p.fn(0) })
			if o, ok := first[p.name]; !ok {
				first[p.name] = s
			} else if o != s {
				sim.Failf("stable", "%s of %s gives %s, and %s gives %s", p.name, g.what, clip(o), who, clip(s))
			}
		}
	}
	if len(ps) > 0 {
		w.Probe("accepted " + dNames[kind])
	}
	for i := 1 + w.Choose(3); i > 0; i-- {
		look(ps, "later")
	}
	// again, from the same bytes, in another place, and in another order
	for i := 1 + w.Choose(2); i > 0; i-- {
		var o2 string
		var n2 int
		var ps2 []probe
		cp := append([]byte(nil), b...)
		cp = cp[:len(cp):len(cp)]
		g.call("decoding again", func() { o2, n2, ps2 = open(g, kind, cp, keys) })
		if o2 != out || n2 != n || len(ps2) != len(ps) {
			sim.Failf("stable", "%s decoded again gives %s (%d bytes), not %s (%d)", g.what, clip(o2), n2, clip(out), n)
		}
		look(ps2, "decoding again")
	}
	if out != "error" && kind != dScheme && n > 0 && n < len(b) {
		// what was accepted is all there is to it
		var o2 string
		var n2 int
		var ps2 []probe
		g.call("decoding what was accepted", func() { o2, n2, ps2 = open(g, kind, append([]byte(nil), b[:n]...), keys) })
		if o2 != out || n2 != n || len(ps2) != len(ps) {
			sim.Failf("stable", "what was accepted of %s decodes to %s (%d bytes), not %s (%d)", g.what, clip(o2), n2, clip(out), n)
		}
		look(ps2, "decoding what was accepted")
	}
	if out != "error" && n > 1 {
		// and nothing less of it is taken for the whole
		k := 1 + w.Choose(n-1)
		var o2 string
		g.call("decoding less", func() { o2, _, _ = open(g, kind, append([]byte(nil), b[:k]...), keys) })
		if o2 != "error" {
			sim.Failf("cut", "the first %d of the %d bytes of %s are accepted", k, n, g.what)
		}
	}
	if !bytes.Equal(outer, was) {
		sim.Failf("modified", "reading %s changed the input", g.what)
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}
