package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/big"
	"time"

	"dst/sim"
	"dst/simos"
	"dst/vfs"

	"poodle/util"
)

// ---------------------------------------------------------------- C11

// item is one element of a journal.
type item struct {
	kind int // 0 record, 1 key, 2 value, 3 scheme, 4 and on parts
	rec  *mRec
	key  [][]byte
	val  *mVal
	sch  *mScheme
	part *part
	enc  []byte
}

// part is what encodings are made of: a number or a string that says how long
// it is. It is immutable, and dressed up as an object to be journalled.
type part struct {
	kind int // pVarint ...
	num  uint64
	str  []byte
	buf  []byte
}

const (
	pVarint = 4 + iota
	pUvarint
	pVarchar
)

func (p *part) String() string {
	switch p.kind {
	case pVarint:
		return fmt.Sprintf("varint %d", int64(p.num))
	case pUvarint:
		return fmt.Sprintf("uvarint %d", p.num)
	}
	return fmt.Sprintf("string of %d", len(p.str))
}

func (p *part) Encode(util.IContext) error {
	switch p.kind {
	case pVarint:
		p.buf = util.EncodeVarint64(int64(p.num))
	case pUvarint:
		p.buf = util.EncodeUvarint64(p.num)
	default:
		p.buf = util.EncodeVarchar(p.str)
	}
	return nil
}

func (p *part) IsEncoded() bool                         { return p.buf != nil }
func (p *part) IsDecoded() bool                         { return true }
func (p *part) Decode(util.IContext) (int, error)       { return 0, nil }
func (p *part) Copy() util.IEncodable                   { c := *p; return &c }
func (p *part) CopyConstruct() (util.IEncodable, error) { c := *p; c.buf = nil; return &c, nil }
func (p *part) Buf() []byte                             { return p.buf }
func (p *part) EstBufSize() int                         { return len(p.buf) }

func (p *part) diff(q *part) string {
	if p.kind == q.kind && p.num == q.num && bytes.Equal(p.str, q.str) {
		return ""
	}
	return fmt.Sprintf("it is %v %s, not %v %s", p, short(p.str), q, short(q.str))
}

func genPart(w *sim.World, kind int, big bool) *part {
	p := &part{kind: kind}
	switch {
	case kind == pVarchar:
		n := w.Choose(12)
		if big && w.Bool() {
			n = []int{127, 128, 129, 255, 256, 16383, 16384, 70000}[w.Choose(8)]
		}
		p.str = blob(w, n)
	case w.Bool():
		p.num = uint64(stamps[w.Choose(len(stamps))])
	default: // near a power of two
		p.num = 1<<w.Choose(64) + uint64(w.Choose(3)) - 1
		if w.Bool() {
			p.num = -p.num
		}
	}
	return p
}

func decodePart(kind int, b []byte) (*part, int, error) {
	p := &part{kind: kind}
	var n int
	var err error
	switch kind {
	case pVarint:
		var x int64
		x, n, err = util.DecodeVarint64(b)
		p.num = uint64(x)
	case pUvarint:
		p.num, n, err = util.DecodeUvarint64(b)
	default:
		p.str, n, err = util.DecodeVarchar(b)
	}
	if err == nil && n >= 0 && n <= len(b) {
		p.buf = b[:n]
	}
	return p, n, err
}

// mScheme is a scheme: what it does not have is nil.
type mScheme struct {
	domain, tablet []byte
	buckets        [][]byte
}

// bytes is the reference encoding.
func (m *mScheme) bytes() []byte {
	str := func(b []byte) []byte { return append(binary.AppendUvarint(nil, uint64(len(b))), b...) }
	b := []byte{0}
	if m.domain != nil {
		b[0] |= 0x80
		b = append(b, str(m.domain)...)
	}
	if m.tablet != nil {
		b[0] |= 0x40
		b = append(b, str(m.tablet)...)
	}
	if m.buckets != nil {
		b[0] |= 0x20
		b = binary.AppendUvarint(b, uint64(len(m.buckets)))
		for _, x := range m.buckets {
			b = append(b, str(x)...)
		}
	}
	return b
}

func (m *mScheme) String() string {
	return fmt.Sprintf("scheme(%d, %d, %d)", len(m.domain), len(m.tablet), len(m.buckets))
}

func genScheme(w *sim.World, big bool) *mScheme {
	m := &mScheme{}
	size := func() int {
		if big && w.Chance(1, 6) {
			return []int{127, 128, 129, 255, 256, 500, 1018}[w.Choose(7)]
		}
		return 1 + w.Choose(12)
	}
	if w.Bool() {
		m.domain = blob(w, size())
	}
	if w.Bool() {
		m.tablet = blob(w, size())
	}
	if w.Bool() {
		n := 1 + w.Choose(4)
		if big && w.Chance(1, 8) {
			n = []int{126, 127, 128, 129, 200}[w.Choose(5)]
			x := blob(w, 1+w.Choose(3))
			for ; n > 0; n-- {
				m.buckets = append(m.buckets, x)
			}
		} else {
			for ; n > 0; n-- {
				m.buckets = append(m.buckets, blob(w, size()))
			}
		}
	}
	return m
}

func diffScheme(s util.IScheme, m *mScheme) string {
	if !bytes.Equal(s.Domain(), m.domain) || s.DomainName() != string(m.domain) {
		return fmt.Sprintf("domain is %x (%q), not %x", s.Domain(), s.DomainName(), m.domain)
	}
	if !bytes.Equal(s.Tablet(), m.tablet) || s.TabletName() != string(m.tablet) {
		return fmt.Sprintf("tablet is %x (%q), not %x", s.Tablet(), s.TabletName(), m.tablet)
	}
	if len(s.Buckets()) != len(m.buckets) {
		return fmt.Sprintf("there are %d buckets, not %d", len(s.Buckets()), len(m.buckets))
	}
	for i, b := range m.buckets {
		if !bytes.Equal(s.Buckets()[i], b) || !bytes.Equal(s.BucketAt(i), b) {
			return fmt.Sprintf("bucket %d is %x, not %x", i, s.BucketAt(i), b)
		}
	}
	return ""
}

func (it *item) String() string {
	switch it.kind {
	case 0:
		return it.rec.String()
	case 1:
		return fmt.Sprintf("key of %d parts", len(it.key))
	case 3:
		return it.sch.String()
	case pVarint, pUvarint, pVarchar:
		return it.part.String()
	}
	return it.val.String()
}

func genItem(w *sim.World, kind int, big bool) *item {
	it := &item{kind: kind}
	switch kind {
	case 0:
		it.rec = genRec(w, 2, big)
	case 1:
		if w.Choose(12) > 0 {
			it.key = genKey(w, big)
		}
	case 2:
		it.val = genVal(w, 2, big)
	case 3:
		it.sch = genScheme(w, big)
	case pVarint, pUvarint, pVarchar:
		it.part = genPart(w, kind, big)
	}
	return it
}

// encode the item with the code under test; nil if it is too big for it.
func (it *item) encode(w *sim.World) []byte {
	var e util.IEncodable
	small := false
	switch it.kind {
	case 0:
		if w.Chance(1, 20) {
			unfit(w, it.rec)
		}
		e = buildRec(w, it.rec)
		small = keySize(it.rec.key) < 4096 && it.rec.val.size() < 56*1024 && it.rec.scheme.size() < 1024
	case 1:
		e = buildKey(w, it.key)
		small = keySize(it.key) < 4096
	case 2:
		e = buildVal(w, it.val)
		small = it.val.size() < 65536
	case pVarint, pUvarint, pVarchar:
		e, small = it.part, true
	case 3:
		// a scheme is only made by copying one that was read
		raw := it.sch.bytes()
		small = len(raw) <= util.MAX_SCHEME_LENGTH
		d := util.NewMappedSchemd(raw)
		if n, err := d.Decode(nil); err != nil || n != len(raw) {
			if small {
				sim.Failf("refused", "%v cannot be decoded: %d %v", it, n, err)
			}
			return nil
		}
		if w.Bool() {
			e = d.Copy()
		} else {
			var err error
			if e, err = d.CopyConstruct(); err != nil {
				sim.Failf("refused", "%v cannot be copied: %v", it, err)
			}
		}
		if x := diffScheme(e.(util.IScheme), it.sch); x != "" {
			sim.Failf("content", "copy of %v: %s", it, x)
		}
	}
	if err := e.Encode(nil); err != nil {
		if small && !tooBigInside(it) {
			sim.Failf("refused", "%v cannot be encoded: %v", it, err)
		}
		return nil
	}
	b := append([]byte(nil), e.Buf()...)
	if !e.IsEncoded() {
		sim.Failf("stable", "an encoded object says it is not")
	}
	if w.Chance(1, 3) {
		// encoding again gives the same
		if err := e.Encode(nil); err != nil || !bytes.Equal(b, e.Buf()) {
			sim.Failf("stable", "encoding %v again gives %s, not %s (%v)", it, short(e.Buf()), short(b), err)
		}
	}
	return b
}

// unfit: a record that says what its encoding may not be able to hold is
// encoded to something that says exactly that, or not at all.
func unfit(w *sim.World, m *mRec) {
	if w.Choose(4) == 0 { // a key read from somewhere
		sub := w.Bytes(4060 + w.Choose(60))
		b := append(util.EncodeUvarint64(1), util.EncodeVarchar(sub)...)
		key, _, err := util.NewMappedKey(b)
		if err != nil {
			return
		}
		r := util.NewRecord().SetKey(key).SetV([]byte("unfit"))
		w.Probe("record that may not fit")
		if r.Encode(nil) != nil {
			return
		}
		if x, n, err := util.NewMappedRecord(r.Buf()); err != nil || n != len(r.Buf()) || !x.Key().Equal(key) {
			sim.Failf("lost", "a record with a key of %d bytes was encoded to %d bytes which do not decode: %d, %v", len(b), len(r.Buf()), n, err)
		}
		return
	}
	r := util.NewRecord().SetK([]byte("unfit"))
	far := new(big.Int).Lsh(big.NewInt(int64(1+w.Choose(300))), 256)
	num := func() *big.Int {
		x := genInt(w)
		switch w.Choose(3) {
		case 0:
			return x.Add(x, far)
		case 1:
			return x.Neg(x)
		}
		return x
	}
	var ts time.Time
	var a, b *big.Int
	if w.Bool() {
		a, b = num(), num()
		if w.Choose(8) == 0 { // half of one
			if w.Bool() {
				a, b = nil, a
			} else {
				b = nil
			}
		}
		r.SetSignature(a, b)
	} else {
		switch w.Choose(4) {
		case 0: // the zero time
		case 1:
			ts = time.Date(1+w.Choose(4000), 1, 2, 3, 4, 5, 6, time.UTC)
		case 2: // just out of range, or in it
			ts = time.Unix(0, math.MaxInt64).Add(time.Duration(w.Choose(3)))
		case 3:
			ts = time.Unix(0, math.MinInt64).Add(-time.Duration(w.Choose(3)))
		}
		r.SetTimestamp(&ts)
	}
	if w.Bool() && m.val != nil {
		r.SetValue(buildVal(w, m.val))
	}
	w.Probe("record that may not fit")
	if r.Encode(nil) != nil {
		return
	}
	x, n, err := util.NewMappedRecord(r.Buf())
	if err != nil || n != len(r.Buf()) {
		sim.Failf("lost", "a record was encoded to %d bytes which do not decode: %d, %v", len(r.Buf()), n, err)
	}
	if a != nil || b != nil {
		c, d := x.Signature()
		if a == nil || b == nil || c == nil || d == nil || c.Cmp(a) != 0 || d.Cmp(b) != 0 {
			sim.Failf("content", "a record signed (%x, %x) is read back signed (%x, %x)", a, b, c, d)
		}
	} else if t := x.Timestamp(); t == nil || !t.Equal(ts) {
		sim.Failf("content", "a record of %v is read back as of %v", ts, t)
	}
}

// tooBigInside: a record inside is over a limit of its own.
func tooBigInside(it *item) bool {
	var val func(v *mVal) bool
	rec := func(m *mRec) bool {
		return keySize(m.key) >= 4096 || m.val.size() >= 56*1024 || m.scheme.size() >= 1024 || val(m.val) || val(m.scheme)
	}
	val = func(v *mVal) bool {
		if v == nil {
			return false
		}
		if v.size() >= 65536 {
			return true
		}
		for _, x := range v.arr {
			if val(x) {
				return true
			}
		}
		for _, x := range v.recs {
			if rec(x) {
				return true
			}
		}
		return false
	}
	switch it.kind {
	case 0:
		return rec(it.rec)
	case 2:
		return val(it.val)
	}
	return false
}

// decode one item of kind at the beginning of b.
func decodeItem(kind int, b []byte) (util.IEncodable, int, error) {
	switch kind {
	case 0:
		r, n, err := util.NewMappedRecord(b)
		if err != nil {
			return nil, n, err
		}
		return r, n, nil
	case 1:
		k, n, err := util.NewMappedKey(b)
		if err != nil {
			return nil, n, err
		}
		return k, n, nil
	}
	if kind > 3 {
		return decodePart(kind, b)
	}
	if kind == 3 {
		s := util.NewMappedSchemd(b)
		n, err := s.Decode(nil)
		if err != nil {
			return nil, n, err
		}
		return s, n, nil
	}
	v, n, err := util.NewStandardMappedValue(b)
	if err != nil {
		return nil, n, err
	}
	return v, n, nil
}

func (it *item) diff(w *sim.World, e util.IEncodable) string {
	switch it.kind {
	case 0:
		return diffRec(w, e.(util.IRecord), it.rec)
	case 1:
		return diffKey(e.(util.IKey), it.key)
	case 3:
		return diffScheme(e.(util.IScheme), it.sch)
	case pVarint, pUvarint, pVarchar:
		return e.(*part).diff(it.part)
	}
	return diffVal(w, e.(util.IValue), it.val)
}

func c11(w *sim.World) {
	fs := newMachine(w)
	fs.MkdirAll("/var/lib/poodle")
	const path = "/var/lib/poodle/journal"
	only := w.Choose(8) // one kind only, or a mixture
	large := w.Chance(1, 6)
	var items []*item // complete, as known
	pos := 0
	epochs := w.Range(1, 3)
	for e := 0; e < epochs; e++ {
		n := w.Range(1, 6)
		var added []*item
		p := w.NewProc(fmt.Sprintf("writer%d", e))
		sync := w.Choose(3)
		end := w.RunIn(p, func() {
			f, err := simos.OpenFile(path, simos.O_WRONLY|simos.O_CREATE|simos.O_APPEND, 0644)
			if err != nil {
				sim.Harness("open: %v", err)
			}
			for i := 0; i < n; i++ {
				k := only
				if k > 4 {
					k = w.Choose(5)
				}
				if k == 4 {
					k += w.Choose(3)
				}
				it := genItem(w, k, large)
				it.enc = it.encode(w)
				if it.enc == nil {
					w.Probe("item too big")
					continue
				}
				if len(it.enc) == 0 {
					sim.Failf("delimit", "%v is encoded as nothing", it)
				}
				added = append(added, it)
				w.Ev("append", it.String(), len(it.enc))
				f.Write(it.enc)
				if sync == 1 || sync == 2 && w.Bool() {
					f.Sync()
				}
			}
			f.Close()
		})
		if end.Panicked {
			sim.Failf("panic", "encoding: %s", end)
		}
		all := append(append([]*item(nil), items...), added...)
		var whole []byte
		for _, it := range all {
			whole = append(whole, it.enc...)
		}
		// the crash, and the bytes that are left
		left := len(whole)
		switch w.Choose(3) {
		case 0:
			fs.PowerOff()
			got := []byte{}
			if in := fs.Peek(path); in != nil {
				got = in.Data
			}
			left = 0
			for left < len(got) && left < len(whole) && got[left] == whole[left] {
				left++
			}
			if left < pos {
				left = pos // synced before
			}
		case 1:
			if left > pos {
				left = pos + w.Choose(left-pos+1)
			}
			w.Fault("torn tail")
		}
		fs.Put(path, append([]byte(nil), whole[:left]...), 0644)
		// recovery, by another process
		items = recoverJournal(w, fs, path, all, whole, left)
		pos = 0
		for _, it := range items {
			pos += len(it.enc)
		}
		fs.Put(path, append([]byte(nil), whole[:pos]...), 0644) // the torn tail is cut off
	}
}

func recoverJournal(w *sim.World, fs *vfs.FS, path string, all []*item, whole []byte, left int) []*item {
	var got []*item
	short1 := w.Bool()
	end := w.RunIn(w.NewProc("recovery"), func() {
		f, err := simos.Open(path)
		if err != nil {
			sim.Harness("open: %v", err)
		}
		fs.ShortRead = short1
		data, err := io.ReadAll(f)
		fs.ShortRead = false
		if err != nil || !bytes.Equal(data, whole[:left]) {
			sim.Harness("journal read: %v", err)
		}
		orig := append([]byte(nil), data...)
		p := 0
		type dec struct {
			it *item
			e  util.IEncodable
		}
		var ds []dec
		for _, it := range all {
			rest := data[p:]
			if len(rest) == 0 {
				break
			}
			e, n, err := decodeItem(it.kind, rest)
			if len(rest) < len(it.enc) {
				if err == nil {
					sim.Failf("torn", "%v cut to %d of %d bytes is read as a complete one of %d bytes", it, len(rest), len(it.enc), n)
				}
				w.Ev("torn", it.String(), len(rest))
				break
			}
			if err != nil {
				sim.Failf("lost", "%v does not decode: %v (%s)", it, err, short(it.enc))
			}
			if n != len(it.enc) {
				sim.Failf("delimit", "%v takes %d bytes, and was read as %d", it, len(it.enc), n)
			}
			ds = append(ds, dec{it, e})
			got = append(got, it)
			p += n
		}
		// what was decoded stays right however it is read later
		for _, i := range order(w, len(ds)) {
			d := ds[i]
			again := 1 + w.Choose(2)
			for j := 0; j < again; j++ {
				if x := d.it.diff(w, d.e); x != "" {
					sim.Failf("content", "%v read back: %s", d.it, x)
				}
			}
			if b := d.e.Buf(); d.it.kind == 3 && len(b) >= len(d.it.enc) && bytes.Equal(b[:len(d.it.enc)], d.it.enc) {
				// a scheme holds on to all that follows it as well
			} else if !bytes.Equal(b, d.it.enc) {
				sim.Failf("reencode", "%v read back holds %s, was written as %s", d.it, short(d.e.Buf()), short(d.it.enc))
			}
			c, err := d.e.CopyConstruct()
			if err != nil {
				sim.Failf("reencode", "%v read back cannot be copied: %v", d.it, err)
			}
			if err := c.Encode(nil); err != nil {
				sim.Failf("reencode", "a copy of %v cannot be encoded: %v", d.it, err)
			}
			if !bytes.Equal(c.Buf(), d.it.enc) {
				sim.Failf("reencode", "%v read back is encoded as %s, was %s", d.it, short(c.Buf()), short(d.it.enc))
			}
			cp := d.e.Copy()
			if x := d.it.diff(w, cp); x != "" {
				sim.Failf("content", "copy of %v: %s", d.it, x)
			}
		}
		if !bytes.Equal(data, orig) {
			sim.Failf("modified", "reading the journal changed it")
		}
	})
	if end.Panicked {
		sim.Failf("panic", "recovery: %s", end)
	}
	return got
}
