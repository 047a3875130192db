package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"dst/sim"
	"dst/simos"
	"dst/vfs"

	"poodle/util"
)

// ---------------------------------------------------------------- C17

type c17run struct {
	w     *sim.World
	fs    *vfs.FS
	keys  [][][]byte
	other [][][]byte // not in the set
	exact bool
	many  int // so many foreign keys are looked up once

	looked map[string]bool // what was looked up in full
}

func keyString(k [][]byte) string {
	s := ""
	for _, p := range k {
		s += fmt.Sprintf("%d:%s", len(p), p)
	}
	return s
}

// someKeys makes n distinct keys (fewer if there are none left), and others.
func someKeys(w *sim.World, n, others int) (keys, rest [][][]byte) {
	seen := map[string]bool{}
	style := w.Choose(6)
	alpha := [][]byte{{'a'}, {'b'}, {'a', 'b'}, {0}, {0, 0}, {0xff}}
	rng := sim.NewRng(uint64(w.Choose(1 << 16)))
	if n > 3000 {
		style = 0
	}
	prefix := blob(w, w.Choose(6))
	for try := 0; len(keys)+len(rest) < n+others && try < 4*(n+others)+20; try++ {
		var k [][]byte
		switch style {
		case 0: // of all sizes
			if n < 40 {
				k = genKey(w, true)
			} else {
				for i := 1 + rng.Intn(4); i > 0; i-- {
					b := make([]byte, 1+rng.Intn(9))
					rng.Fill(b)
					k = append(k, b)
				}
			}
		case 1: // counted
			k = [][]byte{binary.BigEndian.AppendUint16(append([]byte(nil), prefix...), uint16(try))}
		case 2: // counted, in parts
			k = [][]byte{append([]byte{1}, prefix...), {byte(try >> 8), 1}, {byte(try)}}
		case 3: // few parts, in any order and number
			for i := rng.Intn(5); i > 0; i-- {
				k = append(k, alpha[rng.Intn(len(alpha))])
			}
		case 4: // one part repeated
			p := alpha[rng.Intn(len(alpha))]
			for i := rng.Intn(20); i > 0; i-- {
				k = append(k, p)
			}
		case 5: // rows and columns
			for i := 1 + rng.Intn(3); i > 0; i-- {
				k = append(k, []byte{byte('a' + rng.Intn(3))})
			}
		}
		if s := keyString(k); !seen[s] {
			seen[s] = true
			if len(keys) < n {
				keys = append(keys, k)
			} else {
				rest = append(rest, k)
			}
		}
	}
	return
}

// keyObject: any object for the key.
func keyObject(w *sim.World, k [][]byte) util.IKey {
	enc := util.EncodeUvarint64(uint64(len(k)))
	for _, p := range k {
		enc = append(enc, util.EncodeVarchar(p)...)
	}
	if w.Chance(1, 3) {
		if len(k) == 1 && w.Bool() {
			return util.NewSimpleKey(append([]byte(nil), k[0]...))
		}
		m, _, err := util.NewMappedKey(enc)
		if err != nil {
			sim.Failf("refused", "a key of %d parts cannot be read: %v", len(k), err)
		}
		if w.Bool() {
			return m
		}
		c, err := m.CopyConstruct()
		if err != nil {
			sim.Failf("refused", "a key of %d parts cannot be copied: %v", len(k), err)
		}
		return c.(util.IKey)
	}
	return buildKey(w, k)
}

func c17(w *sim.World) {
	c := &c17run{w: w, fs: newMachine(w), exact: w.Bool()}
	c.fs.MkdirAll("/var/lib/poodle")
	w.EntropyBias = w.Choose(4)
	n := w.Choose(14)
	if w.Chance(1, 6) {
		n = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 256, 257}[w.Choose(15)]
	} else if w.Chance(1, 150) {
		n = []int{500, 512, 1000, 1023, 1024, 1025, 2048}[w.Choose(7)]
	} else if w.Chance(1, 4000) {
		// more than 16 bits number, or than 16 bits of seeds are tried for the last
		n = []int{20000, 66000, 65536, 131072, 270000}[w.Choose(5)]
		w.Probe("index of more than 16 bits of keys")
	}
	c.keys, c.other = someKeys(w, n, 6)
	n = len(c.keys)
	if !c.exact && n < 20 && w.Chance(1, 2000) {
		c.many = 150000
	}
	w.Ev("keys", n, len(c.other), c.exact, fmt.Sprintf("%q", c.keys))
	pb := w.NewProc("builder")
	var enc []byte
	threads := 1
	if n < 20 && w.Chance(1, 5) {
		threads = 2 // of the same keys, at the same time
		w.Preemptive(true)
	}
	var objs []util.IKey
	var ts []*sim.Thread
	saved := 0
	w.LimitSteps(int64(threads)*100*(4000000+40000*int64(n)) + 10000*int64(c.many))
	for i := 0; i < threads; i++ {
		ts = append(ts, w.Spawn(pb, fmt.Sprintf("builder%d", i), func() {
			if objs == nil {
				var o []util.IKey
				for _, k := range c.keys {
					o = append(o, keyObject(w, k))
				}
				if objs == nil {
					objs = o
				}
			}
			mine := append([]util.IKey(nil), objs...)
			t := util.MPHBuild(mine, c.exact)
			if w.Chance(1, 4) {
				for j := range mine {
					mine[j] = nil // the list was only lent
				}
			}
			c.lookups(t, "the new index")
			if c.many > 0 {
				c.width(t)
			}
			b, err := t.Encode()
			if err != nil {
				if c.exact && c.tooBig() {
					return
				}
				sim.Failf("refused", "an index of %d keys cannot be encoded: %v", n, err)
			}
			b2, err := t.Encode()
			if err != nil || !bytes.Equal(b, b2) {
				sim.Failf("stable", "encoding the index again gives something else")
			}
			if w.Bool() {
				c.lookups(t, "the encoded index")
			}
			f, err := simos.OpenFile("/var/lib/poodle/index", simos.O_RDWR|simos.O_CREATE|simos.O_TRUNC, 0644)
			if err != nil {
				sim.Harness("open: %v", err)
			}
			f.WriteAt(b, 0)
			f.Sync()
			f.Close()
			enc = b
			saved++
		}))
	}
	w.Join(ts...)
	w.Preemptive(false)
	for _, t := range ts {
		if !t.Returned {
			sim.Failf("panic", "building an index of %d keys: %s", n, pb.End(t))
		}
	}
	if saved == 0 {
		return
	}
	c.fs.Settle()
	if threads > 1 {
		c.fs.Peek("/var/lib/poodle/index").Corrupt(enc) // of the last one
	}
	if w.Bool() {
		c.fs.PowerOff()
	}
	w.LimitSteps(1<<26 + 20000*int64(n))
	end := w.RunIn(w.NewProc("reader"), func() {
		b := c.read()
		if w.Chance(1, 3) {
			b = append(b, blob(w, 1+w.Choose(9))...) // whatever follows it
		}
		was := append([]byte(nil), b...)
		t, used, err := util.NewMPHTable(b)
		if err != nil {
			sim.Failf("lost", "an index of %d keys cannot be loaded: %v", n, err)
		}
		if used != len(enc) {
			sim.Failf("length", "an index of %d bytes was read as %d", len(enc), used)
		}
		c.lookups(t, "the loaded index")
		e2, err := t.Encode()
		if err != nil || !bytes.Equal(e2, enc) {
			sim.Failf("stable", "encoding the loaded index gives something else (%v)", err)
		}
		c.lookups(t, "the loaded index")
		if !bytes.Equal(was, b) {
			sim.Failf("modified", "looking up changed the stored index")
		}
	})
	if !end.Returned {
		sim.Failf("panic", "loading the index: %s", end)
	}
	for i := w.Choose(4); i > 0; i-- {
		w.LimitSteps(1<<24 + 20000*int64(n))
		in := c.fs.Peek("/var/lib/poodle/index")
		in.Corrupt(hurt(w, enc))
		end := w.RunIn(w.NewProc("reader"), func() { c.damaged() })
		if !end.Returned {
			sim.Failf("panic", "a damaged index: %s", end)
		}
	}
}

func (c *c17run) tooBig() bool {
	for _, k := range c.keys {
		if keySize(k) > 4090 {
			return true
		}
	}
	return false
}

func (c *c17run) read() []byte {
	f, err := simos.Open("/var/lib/poodle/index")
	if err != nil {
		sim.Harness("open: %v", err)
	}
	b, err := io.ReadAll(f)
	if err != nil {
		sim.Harness("read: %v", err)
	}
	f.Close()
	return b
}

// lookups: of every key, and of others.
func (c *c17run) lookups(t *util.MPHTable, what string) {
	w := c.w
	all := order(w, len(c.keys))
	if len(all) > 3000 { // all of them once in the index that was built, and once in the loaded one
		if c.looked[what] {
			all = all[:1000]
		}
		if c.looked == nil {
			c.looked = map[string]bool{}
		}
		c.looked[what] = true
		c.looked["the encoded index"] = true
	}
	for _, i := range all {
		n, ok := t.Lookup(keyObject(w, c.keys[i]))
		if !ok || int(n) != i {
			sim.Failf("lookup", "key %d of %d is found in %s at %d (%v)", i, len(c.keys), what, n, ok)
		}
	}
	// without exact verification a foreign key is found once in 2^32 times;
	// twice in one run would be no chance
	byHash := map[string]bool{}
	for i, k := range c.other {
		n, ok := t.Lookup(keyObject(w, k))
		if ok && c.exact {
			sim.Failf("foreign", "a key that is not among the %d is found in %s at %d", len(c.keys), what, n)
		}
		if ok && int(n) >= len(c.keys) {
			sim.Failf("foreign", "a key that is not among the %d is found in %s at %d", len(c.keys), what, n)
		}
		if ok {
			w.Probe("found by hash only")
			byHash[keyString(k)] = true
			if len(byHash) > 1 {
				sim.Failf("foreign", "%d of %d keys that are not among the %d are found in %s", len(byHash), i+1, len(c.keys), what)
			}
		}
		// part of a key is not the key
		if i < len(c.keys) && c.exact {
			if k := c.keys[i]; len(k) > 1 && !c.has(k[:len(k)-1]) {
				if n, ok := t.Lookup(keyObject(w, k[:len(k)-1])); ok {
					sim.Failf("foreign", "the beginning of key %d is found in %s at %d", i, what, n)
				}
			}
		}
	}
}

// width: verification by hash tells apart all but one foreign key in 2^32. Two
// among 150000 would happen once in 10^9 times; a hash of 16 bits shows four.
func (c *c17run) width(t *util.MPHTable) {
	w := c.w
	n := c.many
	c.many = 0
	base := uint64(w.Choose(1<<16)) << 32
	found := 0
	for i := 0; i < n; i++ {
		k := binary.BigEndian.AppendUint64(nil, base+uint64(i))
		if c.has([][]byte{k}) {
			continue
		}
		if _, ok := t.Lookup(util.NewSimpleKey(k)); ok {
			found++
		}
	}
	w.Probe("many foreign keys looked up")
	if found > 1 {
		sim.Failf("foreign", "%d of %d keys that are not among the %d are found", found, n, len(c.keys))
	}
}

func (c *c17run) has(k [][]byte) bool {
	s := keyString(k)
	for _, x := range c.keys {
		if keyString(x) == s {
			return true
		}
	}
	return false
}

func (c *c17run) damaged() {
	w := c.w
	b := c.read()
	g := &guard{w: w, n: len(b), what: "a damaged index"}
	var t *util.MPHTable
	var err error
	var used int
	g.call("loading", func() { t, used, err = util.NewMPHTable(b) })
	if err != nil {
		w.Probe("damaged index rejected")
		return
	}
	w.Probe("damaged index accepted")
	if used < 0 || used > len(b) {
		sim.Failf("length", "a damaged index of %d bytes was read as %d", len(b), used)
	}
	some := append(append([][][]byte(nil), c.keys...), c.other...)
	if len(some) > 3000 {
		some = some[len(some)-1000:]
	}
	look := func() string {
		s := ""
		for _, k := range some {
			var n uint32
			var ok bool
			g.n = len(b) + keySize(k)
			g.call("look-up", func() { n, ok = t.Lookup(keyObject(w, k)) })
			if ok {
				s += fmt.Sprint(n, " ")
			} else {
				s += "- "
			}
		}
		return s
	}
	a := look()
	if look() != a {
		sim.Failf("stable", "look-ups in a damaged index change")
	}
}
