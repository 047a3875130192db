package scen

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"time"

	"dst/sim"

	"poodle/util"
)

// Reference model of keys, values and records: plain trees.

type mVal struct {
	kind int // vNil, vPrim, vArr, vList
	data []byte
	arr  []*mVal
	recs []*mRec
}

const (
	vNil = iota
	vPrim
	vArr
	vList
)

type mRec struct {
	key    [][]byte
	val    *mVal
	scheme *mVal
	ts     *int64
	r, s   *big.Int
}

func (v *mVal) String() string {
	if v == nil {
		return "none"
	}
	switch v.kind {
	case vPrim:
		return fmt.Sprintf("prim(%d)", len(v.data))
	case vArr:
		return fmt.Sprintf("array(%d)", len(v.arr))
	case vList:
		return fmt.Sprintf("list(%d)", len(v.recs))
	}
	return "nil"
}

func (m *mRec) String() string {
	return fmt.Sprintf("record(key %d parts, %v, scheme %v, time %v, signed %v)", len(m.key), m.val, m.scheme, m.ts != nil, m.r != nil)
}

func (v *mVal) isNil() bool {
	return v == nil || v.kind == vNil || v.kind == vPrim && len(v.data) == 0 || v.kind == vArr && len(v.arr) == 0 || v.kind == vList && len(v.recs) == 0
}

// size is an upper bound of the encoded size.
func (v *mVal) size() int {
	if v.isNil() {
		return 1
	}
	n := 5 + len(v.data)
	for _, x := range v.arr {
		n += x.size()
	}
	for _, x := range v.recs {
		n += x.size()
	}
	return n
}

func keySize(k [][]byte) int {
	n := 2
	for _, s := range k {
		n += 2 + len(s)
		if len(s) >= 1<<14 {
			n++
		}
	}
	return n
}

// what is absent takes no room
func (m *mRec) size() int {
	n := 1
	if len(m.key) > 0 {
		n += keySize(m.key)
	}
	if !m.val.isNil() {
		n += m.val.size()
	}
	if !m.scheme.isNil() {
		n += m.scheme.size()
	}
	if m.ts != nil {
		n += 8
	}
	if m.r != nil || m.s != nil {
		n += 64
	}
	return n
}

// blob makes data of n bytes: the size matters, and what bytes are in it only a
// little, so long ones take few choices.
func blob(w *sim.World, n int) []byte {
	if n <= 4 {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(w.Choose(256))
		}
		return b
	}
	b := make([]byte, n)
	sim.NewRng(uint64(w.Choose(1 << 16))).Fill(b)
	if w.Chance(1, 4) {
		c := []byte{0, 0xff, 1, 0x80}[w.Choose(4)]
		for i := range b {
			b[i] = c
		}
	}
	return b
}

func genKey(w *sim.World, big bool) [][]byte {
	if big && w.Chance(1, 20) {
		// around the limit of a key, and of the length of a varint
		return [][]byte{blob(w, []int{127, 128, 129, 255, 256, 4090, 4093, 4094, 4200}[w.Choose(9)])}
	}
	n := []int{1, 1, 1, 2, 3, 5}[w.Choose(6)]
	var k [][]byte
	for i := 0; i < n; i++ {
		if w.Chance(1, 3) && i > 0 {
			k = append(k, k[w.Choose(i)])
			continue
		}
		k = append(k, blob(w, w.Range(1, 8)))
	}
	if big && w.Chance(1, 60) {
		k = nil
		for i, n := 0, []int{126, 127, 128, 200}[w.Choose(4)]; i < n; i++ {
			k = append(k, []byte{byte(i), 7}[:1+i%2])
		}
	}
	return k
}

func genVal(w *sim.World, depth int, big bool) *mVal {
	k := w.Choose(8)
	switch {
	case k == 0:
		return &mVal{kind: vNil}
	case k <= 4 || depth <= 0:
		n := w.Choose(12)
		if w.Chance(1, 8) {
			n = []int{127, 128, 252, 253, 254, 255, 256, 257, 300}[w.Choose(9)]
		}
		if big && w.Chance(1, 25) {
			n = []int{1020, 1021, 1022, 4096, 57340, 57341, 57342, 65532, 65535, 65536}[w.Choose(10)]
		}
		if n == 0 {
			return &mVal{kind: vNil}
		}
		return &mVal{kind: vPrim, data: blob(w, n)}
	case k <= 6:
		v := &mVal{kind: vArr}
		n := w.Choose(5)
		if big && w.Chance(1, 12) {
			n = []int{84, 85, 127, 254, 255, 256, 257}[w.Choose(7)]
			e := genVal(w, 0, false)
			if w.Chance(1, 40) { // as many as can be counted
				n = []int{32767, 32768, 40000, 65000}[w.Choose(4)]
				e = &mVal{kind: vNil}
			}
			for i := 0; i < n; i++ {
				v.arr = append(v.arr, e)
			}
			return v
		}
		for i := 0; i < n; i++ {
			v.arr = append(v.arr, genVal(w, depth-1, false))
		}
		return v
	default:
		v := &mVal{kind: vList}
		n := w.Choose(4)
		if big && w.Chance(1, 15) {
			n = []int{50, 254, 255, 256, 257}[w.Choose(5)]
			e := &mRec{key: [][]byte{{9}}}
			if w.Chance(1, 40) {
				n = []int{32767, 32768, 40000, 65000}[w.Choose(4)]
				e = &mRec{}
			}
			for i := 0; i < n; i++ {
				v.recs = append(v.recs, e)
			}
			return v
		}
		for i := 0; i < n; i++ {
			v.recs = append(v.recs, genRec(w, depth-1, false))
		}
		return v
	}
}

var stamps = []int64{0, 1, -1, 1700000000123456789, math.MaxInt64, math.MinInt64, 1 << 32, -(1 << 40), 0x0102030405060708}

func genRec(w *sim.World, depth int, big bool) *mRec {
	m := &mRec{}
	if w.Choose(10) > 0 {
		m.key = genKey(w, big)
	}
	if w.Choose(6) > 0 {
		m.val = genVal(w, depth, big)
	}
	if w.Choose(3) == 0 {
		m.scheme = genVal(w, depth-1, false)
		if big && w.Chance(1, 6) {
			// around the limit of a scheme
			m.scheme = &mVal{kind: vPrim, data: blob(w, []int{1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2000}[w.Choose(9)])}
		}
	}
	if w.Bool() {
		t := stamps[w.Choose(len(stamps))]
		if w.Bool() {
			t = int64(binary.BigEndian.Uint64(append(blob(w, 4), blob(w, 4)...)))
		}
		m.ts = &t
	}
	if w.Choose(3) == 0 {
		m.r, m.s = genInt(w), genInt(w)
	}
	return m
}

func genInt(w *sim.World) *big.Int {
	switch w.Choose(5) {
	case 0:
		return big.NewInt(int64(w.Choose(3)))
	case 1:
		b := blob(w, 31)
		return new(big.Int).SetBytes(b)
	case 2:
		b := bytes.Repeat([]byte{0xff}, 32)
		return new(big.Int).SetBytes(b)
	}
	return new(big.Int).SetBytes(blob(w, 32))
}

// ---------------------------------------------------------------- building

func buildKey(w *sim.World, k [][]byte) util.IKey {
	if len(k) == 0 {
		if w.Bool() {
			return util.NewEmptyKey()
		}
		return util.NewKey()
	}
	if len(k) == 1 && w.Bool() {
		if w.Bool() {
			return util.NewStringKey(string(k[0]))
		}
		return util.NewSimpleKey(append([]byte(nil), k[0]...))
	}
	r := util.NewKey()
	edit := w.Chance(1, 6)
	for _, s := range k {
		r.Add(append([]byte(nil), s...))
		if edit {
			stale(r, "a key after Add")
			passing(w, r)
		}
	}
	return r
}

func buildVal(w *sim.World, v *mVal) util.IValue {
	switch v.kind {
	case vPrim:
		return util.NewPrimitive(append([]byte(nil), v.data...))
	case vArr:
		a := util.NewValueArray()
		edit := len(v.arr) < 20 && w.Chance(1, 4)
		for i := 0; i <= len(v.arr); i++ {
			if edit && w.Chance(1, 3) {
				// put in, perhaps encoded, and taken out again
				a.Append(buildVal(w, genVal(w, 0, false)))
				if w.Bool() {
					passing(w, a)
				}
				a.DeleteAt(uint16(i))
				stale(a, "a value array after DeleteAt")
			}
			if i < len(v.arr) {
				a.Append(buildVal(w, v.arr[i]))
				if edit {
					stale(a, "a value array after Append")
				}
			}
		}
		if edit && len(v.arr) > 0 && w.Bool() {
			// one more at the front: all in a row again
			b := util.NewValueArray().Append(util.NewPrimitive([]byte("gone")))
			for i := range v.arr {
				x, err := a.ValueAt(uint16(i))
				if err != nil {
					sim.Failf("content", "element %d of %d of an array: %v", i, len(v.arr), err)
				}
				b.Append(x)
			}
			if w.Bool() {
				passing(w, b)
			}
			b.DeleteAt(0)
			stale(b, "a value array after DeleteAt")
			a = b
		}
		return a
	case vList:
		l := util.NewRecordList()
		edit := len(v.recs) < 20 && w.Chance(1, 4)
		for i := 0; i <= len(v.recs); i++ {
			if edit && w.Chance(1, 3) {
				l.Append(buildRec(w, genRec(w, 0, false)))
				if w.Bool() {
					passing(w, l)
				}
				l.DeleteAt(uint16(i))
				stale(l, "a record list after DeleteAt")
			}
			if i < len(v.recs) {
				l.Append(buildRec(w, v.recs[i]))
				if edit {
					stale(l, "a record list after Append")
				}
			}
		}
		if edit && len(v.recs) > 0 && w.Bool() {
			b := util.NewRecordList().Append(util.NewRecord().SetK([]byte("gone")))
			for i := range v.recs {
				x, err := l.RecordAt(uint16(i))
				if err != nil {
					sim.Failf("content", "record %d of %d of a list: %v", i, len(v.recs), err)
				}
				b.Append(x)
			}
			if w.Bool() {
				passing(w, b)
			}
			b.DeleteAt(0)
			stale(b, "a record list after DeleteAt")
			l = b
		}
		return l
	}
	switch w.Choose(3) {
	case 0:
		return util.NewPrimitive(nil)
	case 1:
		return util.NewPrimitive([]byte{})
	}
	return util.NewValueArray()
}

// passing: an object is encoded before it has its final content.
func passing(w *sim.World, e util.IEncodable) {
	if err := e.Encode(nil); err == nil {
		e.Buf()
		w.Probe("encoded in passing")
	}
}

// stale: an object that has just been changed does not pass off what it was
// encoded as before as its encoding.
func stale(e util.IEncodable, what string) {
	if !e.IsEncoded() {
		return
	}
	b := append([]byte(nil), e.Buf()...)
	if err := e.Encode(nil); err != nil || !bytes.Equal(b, e.Buf()) {
		sim.Failf("stale", "%s says it is encoded, as %s, and is encoded as %s (%v)", what, short(b), short(e.Buf()), err)
	}
}

func buildRec(w *sim.World, m *mRec) *util.Record {
	r := util.NewRecord()
	edit := w.Chance(1, 5)
	if edit {
		// a history: other content first, and encodings of that
		if m.key != nil && w.Bool() {
			r.SetKey(buildKey(w, genKey(w, false)))
		}
		if m.val != nil && w.Bool() {
			r.SetValue(buildVal(w, genVal(w, 0, false)))
		}
		if m.scheme != nil && w.Bool() {
			r.SetS(blob(w, 1+w.Choose(9)))
		}
		if m.ts != nil && w.Bool() {
			t := time.Unix(0, stamps[w.Choose(len(stamps))])
			r.SetTimestamp(&t)
		}
		if m.r != nil && w.Bool() {
			r.SetSignature(genInt(w), genInt(w))
		}
		passing(w, r)
	}
	done := func(what string) {
		if edit {
			stale(r, "a record after "+what)
			if w.Chance(1, 3) {
				passing(w, r)
			}
		}
	}
	var steps []func()
	if m.key != nil {
		steps = append(steps, func() {
			if len(m.key) == 1 && w.Bool() {
				r.SetK(append([]byte(nil), m.key[0]...))
				done("SetK")
			} else {
				r.SetKey(buildKey(w, m.key))
				done("SetKey")
			}
		})
	} else if w.Bool() {
		r.SetKey(util.NewKey())
	}
	if m.val != nil {
		steps = append(steps, func() {
			if m.val.kind == vPrim && w.Bool() {
				r.SetV(append([]byte(nil), m.val.data...))
				done("SetV")
			} else {
				r.SetValue(buildVal(w, m.val))
				done("SetValue")
			}
		})
	}
	if m.scheme != nil {
		steps = append(steps, func() {
			if m.scheme.kind == vPrim && w.Bool() {
				r.SetS(append([]byte(nil), m.scheme.data...))
				done("SetS")
			} else {
				r.SetScheme(buildVal(w, m.scheme))
				done("SetScheme")
			}
		})
	}
	if m.ts != nil {
		steps = append(steps, func() {
			t := time.Unix(0, *m.ts)
			if w.Bool() {
				t = t.UTC()
			}
			r.SetTimestamp(&t)
			done("SetTimestamp")
		})
	} else if edit && w.Chance(1, 4) { // had one, which was taken away
		t := time.Unix(0, stamps[w.Choose(len(stamps))])
		r.SetTimestamp(&t)
		passing(w, r)
		steps = append(steps, func() {
			r.SetTimestamp(nil)
			done("SetTimestamp(nil)")
		})
	}
	if m.r != nil {
		steps = append(steps, func() {
			r.SetSignature(new(big.Int).Set(m.r), new(big.Int).Set(m.s))
			done("SetSignature")
		})
	} else if edit && w.Chance(1, 4) { // was signed, and is to be signed anew
		r.SetSignature(genInt(w), genInt(w))
		passing(w, r)
		steps = append(steps, func() {
			r.SetSignature(nil, nil)
			done("SetSignature(nil, nil)")
		})
	}
	if edit {
		for _, i := range order(w, len(steps)) {
			steps[i]()
		}
	} else {
		for _, f := range steps {
			f()
		}
	}
	return r
}

// ---------------------------------------------------------------- comparing

func diffKey(k util.IKey, m [][]byte) string {
	if k == nil {
		return "no key object"
	}
	if k.IsEmpty() != (len(m) == 0) {
		return fmt.Sprintf("key with %d parts is empty: %v", len(m), k.IsEmpty())
	}
	got := k.Key()
	if len(got) != len(m) {
		return fmt.Sprintf("key has %d parts, not %d", len(got), len(m))
	}
	for i := range m {
		if !bytes.Equal(got[i], m[i]) || !bytes.Equal(k.SubKeyAt(i), m[i]) {
			return fmt.Sprintf("part %d of the key is %x, not %x", i, got[i], m[i])
		}
	}
	return ""
}

func diffVal(w *sim.World, v util.IValue, m *mVal) string {
	if v == nil {
		return "no value object"
	}
	if m.isNil() {
		if !v.IsNil() {
			return fmt.Sprintf("value is not nil: %x", v.Value())
		}
		if len(v.Value()) != 0 || v.Size() != 0 {
			return "nil value has content"
		}
		return ""
	}
	if v.IsNil() {
		return fmt.Sprintf("%v became nil", m)
	}
	switch m.kind {
	case vPrim:
		if !v.IsPrimitive() || v.IsValueArray() || v.IsRecordList() {
			return "a primitive became something else"
		}
		if !bytes.Equal(v.Value(), m.data) {
			return fmt.Sprintf("value is %s, not %s", short(v.Value()), short(m.data))
		}
		if _, err := v.ValueAt(0); err == nil {
			return "a primitive has elements"
		}
	case vArr:
		if !v.IsValueArray() || v.IsPrimitive() || v.IsRecordList() {
			return "an array became something else"
		}
		if int(v.Size()) != len(m.arr) {
			return fmt.Sprintf("array has %d elements, not %d", v.Size(), len(m.arr))
		}
		for _, i := range order(w, len(m.arr)) {
			x, err := v.ValueAt(uint16(i))
			if err != nil {
				return fmt.Sprintf("element %d: %v", i, err)
			}
			if d := diffVal(w, x, m.arr[i]); d != "" {
				return fmt.Sprintf("element %d: %s", i, d)
			}
		}
		if _, err := v.ValueAt(uint16(len(m.arr))); err == nil {
			return "array has an element past its end"
		}
	case vList:
		if !v.IsRecordList() || v.IsPrimitive() || v.IsValueArray() {
			return "a record list became something else"
		}
		if int(v.Size()) != len(m.recs) {
			return fmt.Sprintf("list has %d records, not %d", v.Size(), len(m.recs))
		}
		for _, i := range order(w, len(m.recs)) {
			x, err := v.RecordAt(uint16(i))
			if err != nil {
				return fmt.Sprintf("record %d: %v", i, err)
			}
			if d := diffRec(w, x, m.recs[i]); d != "" {
				return fmt.Sprintf("record %d: %s", i, d)
			}
		}
		if _, err := v.RecordAt(uint16(len(m.recs))); err == nil {
			return "list has a record past its end"
		}
	}
	return ""
}

// order in which elements are read
func order(w *sim.World, n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	if n < 2 {
		return o
	}
	switch w.Choose(4) {
	case 1:
		for i := range o {
			o[i] = n - 1 - i
		}
	case 2, 3:
		k := w.Choose(n)
		o = append(o[k:], o[:k]...)
		if n < 8 {
			for i := n - 1; i > 0; i-- {
				j := w.Choose(i + 1)
				o[i], o[j] = o[j], o[i]
			}
		}
	}
	return o
}

func short(b []byte) string {
	if len(b) > 20 {
		return fmt.Sprintf("%x...(%d)", b[:20], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func diffRec(w *sim.World, r util.IRecord, m *mRec) string {
	if r == nil {
		return "no record object"
	}
	if r.Key() == nil {
		if len(m.key) != 0 {
			return "the key is missing"
		}
	} else if d := diffKey(r.Key(), m.key); d != "" {
		return d
	}
	if r.Value() == nil {
		if !m.val.isNil() {
			return "the value is missing"
		}
	} else if d := diffVal(w, r.Value(), m.val); d != "" {
		return "value: " + d
	}
	if r.Scheme() == nil {
		if !m.scheme.isNil() {
			return "the scheme is missing"
		}
	} else if d := diffVal(w, r.Scheme(), m.scheme); d != "" {
		return "scheme: " + d
	}
	t := r.Timestamp()
	if (t != nil) != (m.ts != nil) {
		return fmt.Sprintf("timestamp %v", t)
	}
	if t != nil && t.UnixNano() != *m.ts {
		return fmt.Sprintf("timestamp is %d, not %d", t.UnixNano(), *m.ts)
	}
	a, b := r.Signature()
	if (a != nil) != (m.r != nil) || (b != nil) != (m.r != nil) {
		return "signature there or not"
	}
	if a != nil && (a.Cmp(m.r) != 0 || b.Cmp(m.s) != 0) {
		return fmt.Sprintf("signature is %x %x, not %x %x", a, b, m.r, m.s)
	}
	return ""
}

// ---------------------------------------------------------------- digest

// canonical bytes of what a record says, without its signature: what is signed.
func (v *mVal) canon(b *bytes.Buffer) {
	num := func(n int) { b.Write(binary.BigEndian.AppendUint32(nil, uint32(n))) }
	if v.isNil() {
		num(vNil)
		return
	}
	num(v.kind)
	num(len(v.data))
	b.Write(v.data)
	num(len(v.arr))
	for _, x := range v.arr {
		x.canon(b)
	}
	num(len(v.recs))
	for _, x := range v.recs {
		x.canon(b, true)
	}
}

func (m *mRec) canon(b *bytes.Buffer, signed bool) {
	num := func(n int) { b.Write(binary.BigEndian.AppendUint32(nil, uint32(n))) }
	num(len(m.key))
	for _, k := range m.key {
		num(len(k))
		b.Write(k)
	}
	m.val.canon(b)
	m.scheme.canon(b)
	if m.ts != nil {
		fmt.Fprintf(b, "t%d", *m.ts)
	}
	if signed && m.r != nil {
		fmt.Fprintf(b, "s%x,%x", m.r, m.s)
	}
}

func (m *mRec) digest() []byte {
	var b bytes.Buffer
	m.canon(&b, false)
	h := sha256.Sum256(b.Bytes())
	return h[:]
}

// readRec turns what was decoded into a model, reading everything.
func readRec(r util.IRecord) (*mRec, error) {
	m := &mRec{}
	if r.Key() != nil {
		for i := range r.Key().Key() {
			m.key = append(m.key, r.Key().SubKeyAt(i))
		}
	}
	var err error
	if m.val, err = readVal(r.Value()); err != nil {
		return nil, err
	}
	if m.scheme, err = readVal(r.Scheme()); err != nil {
		return nil, err
	}
	if t := r.Timestamp(); t != nil {
		n := t.UnixNano()
		m.ts = &n
	}
	m.r, m.s = r.Signature()
	return m, nil
}

func readVal(v util.IValue) (*mVal, error) {
	if v == nil || v.IsNil() {
		return &mVal{kind: vNil}, nil
	}
	switch {
	case v.IsPrimitive():
		return &mVal{kind: vPrim, data: v.Value()}, nil
	case v.IsValueArray():
		m := &mVal{kind: vArr}
		for i := 0; i < int(v.Size()); i++ {
			x, err := v.ValueAt(uint16(i))
			if err != nil {
				return nil, err
			}
			y, err := readVal(x)
			if err != nil {
				return nil, err
			}
			m.arr = append(m.arr, y)
		}
		return m, nil
	case v.IsRecordList():
		m := &mVal{kind: vList}
		for i := 0; i < int(v.Size()); i++ {
			x, err := v.RecordAt(uint16(i))
			if err != nil {
				return nil, err
			}
			y, err := readRec(x)
			if err != nil {
				return nil, err
			}
			m.recs = append(m.recs, y)
		}
		return m, nil
	}
	return nil, fmt.Errorf("value of no kind")
}
