package scen

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"strings"

	"dst/sim"
	"dst/vfs"

	"poodle/util"
)

// ---------------------------------------------------------------- key pool

// poolKey is a key pair made without the code under test.
type poolKey struct {
	n int
	D *big.Int
	X *big.Int
}

var pool []*poolKey

func init() {
	c := elliptic.P256()
	add := func(d *big.Int) *poolKey {
		x, _ := c.ScalarBaseMult(d.FillBytes(make([]byte, 32)))
		k := &poolKey{len(pool), d, x}
		pool = append(pool, k)
		return k
	}
	for i := 0; i < 24; i++ {
		h := sha256.Sum256([]byte{byte(i), 'k'})
		add(new(big.Int).Mod(new(big.Int).SetBytes(h[:]), c.Params().N))
	}
	// private keys with leading zero bytes
	for i := 0; i < 4; i++ {
		h := sha256.Sum256([]byte{byte(i), 'z'})
		add(new(big.Int).SetBytes(h[i+1:]))
	}
	// public keys with leading zero bytes
	for i, got := 0, 0; got < 4 && i < 5000; i++ {
		h := sha256.Sum256([]byte{byte(i), byte(i >> 8), 'x'})
		d := new(big.Int).Mod(new(big.Int).SetBytes(h[:]), c.Params().N)
		x, _ := c.ScalarBaseMult(d.FillBytes(make([]byte, 32)))
		if x.BitLen() <= 248 {
			pool = append(pool, &poolKey{len(pool), d, x})
			got++
		}
	}
}

var classes = []int{util.CLS_NODE, util.CLS_CLUSTER, util.CLS_UNIVERSE, util.CLS_SERVICE, util.CLS_FEDERATION}

var slotIDs = []string{"n1", "n2", "0123456789abcdef", "a.b", "N1", "n10", "n1 ", "n1%d",
	"67fc9ca76b80e4d4e0fd35f3f0a0b2fbd3b0b7b2ad3f8d1c6b1f1a7c0e5d9b13", "c0ffee.tmp"}

var secretPool [][]byte

func init() {
	for i := 0; i < 12; i++ {
		h := sha256.Sum256([]byte{byte(i), 's'})
		n := []int{16, 16, 24, 32}[i%4]
		secretPool = append(secretPool, append([]byte(nil), h[:n]...))
	}
	p := make([]byte, 16) // as pkeygen pads a passphrase
	copy(p, "passphrase")
	secretPool = append(secretPool, p)
}

// kval is one value a save wrote.
type kval struct {
	key    *poolKey
	secret []byte
	n      int
}

func (v *kval) String() string {
	if v == nil {
		return "absent"
	}
	return fmt.Sprintf("save%d(key%d)", v.n, v.key.n)
}

// slot is one class and id with the values each half may have now.
type slot struct {
	cls   int
	id    string
	pub   []*kval // nil in it: may be absent
	priv  []*kval
	tried []*kval // every value ever given to a save
	acked bool
}

func (s *slot) String() string { return fmt.Sprintf("%d/%s", s.cls, s.id) }

type store struct {
	w     *sim.World
	fs    *vfs.FS
	slots []*slot
	nsave int
	proc  *sim.Proc
	prop  string
	nproc int
}

func newMachine(w *sim.World) *vfs.FS {
	fs := vfs.New(w)
	fs.Ordered = w.Bool()
	if w.Bool() {
		fs.MountTmp()
	}
	return fs
}

func newStore(w *sim.World, prop string, nslots int) *store {
	st := &store{w: w, fs: newMachine(w), prop: prop}
	switch w.Choose(3) {
	case 1:
		st.fs.MkdirAll("/etc/poodle/node")
	case 2:
		for _, c := range []string{"node", "cluster", "universe", "service", "federation"} {
			st.fs.MkdirAll("/etc/poodle/" + c)
		}
	}
	used := map[string]bool{}
	cls := classes[w.Choose(len(classes))]
	for i := 0; i < nslots; i++ {
		s := &slot{cls: cls, id: slotIDs[i%len(slotIDs)], pub: []*kval{nil}, priv: []*kval{nil}}
		if w.Chance(1, 4) {
			s.id = slotIDs[w.Choose(len(slotIDs))]
		}
		if w.Chance(1, 3) { // the same id of another class, or another of another
			s.cls = classes[w.Choose(len(classes))]
			if i > 0 && w.Bool() {
				s.id = st.slots[0].id
			}
		}
		for j := 0; used[s.String()]; j++ {
			s.id = slotIDs[j]
		}
		used[s.String()] = true
		st.slots = append(st.slots, s)
	}
	return st
}

// in runs fn in a process: the current one, or a new one if that is dead.
func (st *store) in(fn func()) sim.End {
	if st.proc == nil || st.proc.Dead || st.w.Chance(1, 3) {
		st.nproc++
		st.proc = st.w.NewProc(fmt.Sprintf("node%d", st.nproc))
	}
	return st.w.RunIn(st.proc, fn)
}

func (st *store) newVal() *kval {
	st.nsave++
	return &kval{pool[st.w.Choose(len(pool))], secretPool[st.w.Choose(len(secretPool))], st.nsave}
}

func addVal(l []*kval, v *kval) []*kval {
	for _, x := range l {
		if x == v {
			return l
		}
	}
	return append(l[:len(l):len(l)], v)
}

// save runs one save; the model follows what it reported.
func (st *store) save(s *slot, v *kval) (error, sim.End) {
	var err error
	s.tried = append(s.tried, v)
	s.pub = addVal(s.pub, v)
	s.priv = addVal(s.priv, v)
	st.w.Ev("save", s.String(), v.String())
	returned := false
	end := st.in(func() {
		err = util.LCSaveKeyPair(s.cls, s.id, v.key.X, v.key.D, v.secret)
		returned = true
	})
	if returned && err == nil {
		s.pub = []*kval{v}
		s.priv = []*kval{v}
		s.acked = true
		st.w.Ev("saved", s.String(), v.String())
	} else if end.Killed {
		st.w.Ev("save cut short", s.String())
	} else if end.Panicked {
		sim.Failf("panic", "saving %s: %s", s, end)
	} else {
		st.w.Ev("save failed", s.String(), err)
		if err == nil {
			sim.Failf("exit", "saving %s: %s", s, end)
		}
	}
	if returned && end.Killed {
		// cut down after it had reported
		err = nil
	}
	return err, end
}

// look is what a load of each half gives.
type look struct {
	pub, priv       *kval
	pubErr, privErr error
	pubAbs, privAbs bool
}

// observe loads both halves of s (no faults) and classifies what is found.
// cands are the values that may be found.
func (st *store) observe(s *slot) look {
	var lk look
	w := st.w
	was := st.fs.FaultsOn
	st.fs.FaultsOn = false
	end := st.w.RunIn(w.NewProc("reader"), func() {
		pub, err := util.LCLoadPubKey(s.cls, s.id)
		ex := util.LCExistPubKey(s.cls, s.id)
		if err != nil {
			lk.pubErr = err
			lk.pubAbs = !ex
		} else {
			if pub == nil {
				sim.Failf("wrong-key", "loading public key of %s gave neither key nor error", s)
			}
			lk.pub = st.whichPub(s, pub.X)
			if !ex {
				sim.Failf("exist", "public key of %s loads but is said not to exist", s)
			}
		}
		pex := util.LCExistPrivKey(s.cls, s.id)
		if !pex {
			lk.privAbs = true
		}
		seen := map[string]bool{}
		for _, v := range append([]*kval{{nil, secretPool[0], 0}}, s.tried...) {
			if seen[string(v.secret)] {
				continue
			}
			seen[string(v.secret)] = true
			k, err := util.LCLoadPrivKey(s.cls, s.id, append([]byte(nil), v.secret...))
			if err != nil {
				lk.privErr = err
				continue
			}
			if k == nil {
				sim.Failf("wrong-key", "loading private key of %s gave neither key nor error", s)
			}
			got := st.whichPriv(s, k, v.secret)
			if lk.priv != nil {
				sim.Failf("secret", "private key of %s opens with two different secrets", s)
			}
			lk.priv = got
			if !pex {
				sim.Failf("exist", "private key of %s loads but is said not to exist", s)
			}
		}
	})
	if end.Panicked {
		sim.Failf("panic", "loading %s: %s", s, end)
	}
	st.fs.FaultsOn = was
	w.Ev("observe", s.String(), lk.pub.String(), lk.pubErr, lk.priv.String(), lk.privAbs)
	return lk
}

func (st *store) whichPub(s *slot, x *big.Int) *kval {
	// several saves may have written the same key: prefer one that is allowed
	for _, v := range s.pub {
		if v != nil && v.key.X.Cmp(x) == 0 {
			return v
		}
	}
	for _, v := range s.tried {
		if v.key.X.Cmp(x) == 0 {
			return v
		}
	}
	sim.Failf("wrong-key", "loading public key of %s gave %x, which was never saved there", s, x)
	return nil
}

func (st *store) whichPriv(s *slot, k *ecdsa.PrivateKey, secret []byte) *kval {
	for _, l := range [][]*kval{s.priv, s.tried} {
		for _, v := range l {
			if v != nil && v.key.D.Cmp(k.D) == 0 && bytes.Equal(v.secret, secret) {
				if k.X == nil || k.X.Cmp(v.key.X) != 0 {
					sim.Failf("wrong-key", "private key of %s loaded with a public half that does not match", s)
				}
				return v
			}
		}
	}
	sim.Failf("wrong-key", "loading private key of %s gave a key that was never saved there with that secret", s)
	return nil
}

func allowed(l []*kval, v *kval) bool {
	for _, x := range l {
		if x == v || x != nil && v != nil && x.key == v.key && bytes.Equal(x.secret, v.secret) {
			return true
		}
	}
	return false
}

func allowedPub(l []*kval, v *kval) bool {
	for _, x := range l {
		if x == v || x != nil && v != nil && x.key == v.key {
			return true
		}
	}
	return false
}

// verify checks that each half is one of the values it may have; class names
// the violation.
func (st *store) verify(s *slot, class string) look {
	lk := st.observe(s)
	switch {
	case lk.pub != nil:
		if !allowedPub(s.pub, lk.pub) {
			sim.Failf(class, "public key of %s is that of %v, may only be %v", s, lk.pub, s.pub)
		}
	case lk.pubAbs:
		if !allowedPub(s.pub, nil) {
			sim.Failf(class, "public key of %s is gone (%v), must be %v", s, lk.pubErr, s.pub)
		}
	default:
		sim.Failf(class, "public key of %s does not load: %v; must be %v", s, lk.pubErr, s.pub)
	}
	switch {
	case lk.priv != nil:
		if !allowed(s.priv, lk.priv) {
			sim.Failf(class, "private key of %s is that of %v, may only be %v", s, lk.priv, s.priv)
		}
	case lk.privAbs:
		if !allowed(s.priv, nil) {
			sim.Failf(class, "private key of %s is gone, must be %v", s, s.priv)
		}
	default:
		sim.Failf(class, "private key of %s does not load: %v; must be %v", s, lk.privErr, s.priv)
	}
	return lk
}

// collapse: after a power failure what is found is what is durable.
func (st *store) collapse(s *slot, lk look) {
	s.pub = []*kval{lk.pub}
	s.priv = []*kval{lk.priv}
}

func (st *store) verifyAll(class string, collapse bool) {
	for _, s := range st.slots {
		lk := st.verify(s, class)
		if collapse {
			st.collapse(s, lk)
		}
	}
}

// mustSave: with no faults left, a save must succeed.
func (st *store) mustSave(s *slot, class string) {
	st.fs.FaultsOn = false
	st.fs.Quota = -1
	st.fs.CrashAt = -1
	v := st.newVal()
	err, end := st.save(s, v)
	if err != nil || !end.Returned {
		sim.Failf(class, "a save of %s with no fault fails: %v (%s)", s, err, end)
	}
	st.verify(s, class)
}

// ---------------------------------------------------------------- C01

func c01(w *sim.World) {
	st := newStore(w, "C01", w.Range(1, 3))
	fs := st.fs
	faults := w.Chance(1, 4)
	fs.FaultRate = []int{10, 25, 60}[w.Choose(3)]
	epochs := w.Range(1, 3)
	for e := 0; e < epochs; e++ {
		n := w.Range(1, 4)
		for i := 0; i < n; i++ {
			s := st.slots[w.Choose(len(st.slots))]
			fs.FaultsOn = faults
			fs.Crashed = false // an earlier one may have been a kill
			cut := w.Chance(1, 4)
			if cut {
				fs.CrashAt = w.Choose(60)
				fs.CrashKill = w.Bool()
			}
			st.save(s, st.newVal())
			fs.CrashAt = -1
			fs.FaultsOn = false
			if fs.Crashed && !fs.CrashKill {
				break
			}
			if w.Chance(1, 6) {
				// a reader in between changes nothing
				st.verify(st.slots[w.Choose(len(st.slots))], "acked-lost")
			}
		}
		w.Advance(int64(w.Choose(30)) * 1e9)
		if !(fs.Crashed && !fs.CrashKill) {
			if w.Bool() {
				w.Probe("power-off right after acknowledgement")
			}
			fs.PowerOff()
		}
		fs.Crashed = false
		st.checkAcked()
	}
}

// checkAcked: pairs whose last save was acknowledged must be there exactly.
func (st *store) checkAcked() {
	for _, s := range st.slots {
		lk := st.verify(s, "acked-lost")
		st.collapse(s, lk)
	}
}

// ---------------------------------------------------------------- C02

func c02(w *sim.World) {
	st := newStore(w, "C02", w.Range(1, 2))
	fs := st.fs
	if w.Chance(1, 8) {
		fs.FaultsOn = true
		fs.FaultRate = 30
	}
	faults := fs.FaultsOn
	epochs := w.Range(1, 4)
	for e := 0; e < epochs; e++ {
		s := st.slots[w.Choose(len(st.slots))]
		// perhaps saved before, undisturbed
		if w.Choose(3) > 0 {
			fs.FaultsOn = false
			st.save(s, st.newVal())
			if w.Bool() {
				fs.Settle()
			}
		}
		fs.FaultsOn = faults
		fs.CrashAt = w.Choose(50)
		fs.CrashKill = w.Chance(1, 3)
		fs.Crashed = false
		st.save(s, st.newVal())
		fs.CrashAt = -1
		fs.FaultsOn = false
		if fs.Crashed && fs.CrashKill && w.Bool() {
			// the machine loses power later
			st.verifyAll("torn-key", false)
			fs.PowerOff()
			st.verifyAll("torn-key", true)
		} else if fs.Crashed && fs.CrashKill {
			st.verifyAll("torn-key", false)
		} else if fs.Crashed {
			w.Probe("power-off inside save")
			st.verifyAll("torn-key", true)
		} else {
			fs.PowerOff()
			st.verifyAll("torn-key", true)
		}
		if w.Bool() {
			st.mustSave(s, "retry")
		}
	}
}

// ---------------------------------------------------------------- C03

func c03(w *sim.World) {
	st := newStore(w, "C03", w.Range(1, 3))
	fs := st.fs
	// other ids already there
	for _, s := range st.slots[1:] {
		st.save(s, st.newVal())
	}
	s := st.slots[0]
	v := st.newVal()
	s.tried = append(s.tried, v)
	s.pub = []*kval{nil, v}
	s.priv = []*kval{nil, v}
	saver := w.NewProc("saver")
	observers := w.Range(1, 2)
	w.Preemptive(true)
	w.SwitchRate = w.Range(2, 5)
	if w.Bool() {
		fs.CrashAt = w.Choose(50)
		fs.CrashProc = saver
		fs.CrashKill = w.Bool()
	}
	var err error
	done := false
	ts := []*sim.Thread{w.Spawn(saver, "saver", func() {
		err = util.LCSaveKeyPair(s.cls, s.id, v.key.X, v.key.D, v.secret)
		done = true
		w.Ev("saved", err)
	})}
	for i := 0; i < observers; i++ {
		p := w.NewProc(fmt.Sprintf("observer%d", i))
		n := w.Range(1, 6)
		mode := w.Choose(2)
		ts = append(ts, w.Spawn(p, p.Name, func() {
			for j := 0; j < n; j++ {
				if mode == 1 && len(st.slots) > 1 && w.Chance(1, 3) {
					o := st.slots[1+w.Choose(len(st.slots)-1)]
					ov := o.pub[0]
					pk, e1 := util.LCLoadPubKey(o.cls, o.id)
					if e1 != nil || pk.X.Cmp(ov.key.X) != 0 {
						sim.Failf("other-id", "while %s is saved, public key of %s is no longer readable as saved: %v", s, o, e1)
					}
					sk, e2 := util.LCLoadPrivKey(o.cls, o.id, ov.secret)
					if e2 != nil || sk.D.Cmp(ov.key.D) != 0 {
						sim.Failf("other-id", "while %s is saved, private key of %s is no longer readable as saved: %v", s, o, e2)
					}
					continue
				}
				var vis bool
				how := "exists"
				if w.Bool() {
					vis = util.LCExistPubKey(s.cls, s.id)
				} else {
					pk, e := util.LCLoadPubKey(s.cls, s.id)
					vis = e == nil
					how = "loads"
					if e == nil && pk.X.Cmp(v.key.X) != 0 {
						sim.Failf("wrong-key", "public key of %s loads as something never saved", s)
					}
				}
				w.Ev("look", vis)
				if vis {
					w.Probe("public key seen by observer")
					sk, e := util.LCLoadPrivKey(s.cls, s.id, v.secret)
					if e != nil {
						sim.Failf("pub-without-priv", "public key of %s %s but its private key does not load: %v", s, how, e)
					}
					if sk.D.Cmp(v.key.D) != 0 {
						sim.Failf("wrong-key", "private key of %s is not the saved one", s)
					}
				}
			}
		}))
	}
	w.Join(ts...)
	fs.CrashAt = -1
	if saver.PanicVal != nil {
		sim.Failf("panic", "saving: %v", saver.PanicVal)
	}
	if done && err != nil && !fs.Crashed {
		sim.Failf("retry", "save with no fault fails: %v", err)
	}
	if done && err == nil {
		s.pub, s.priv = []*kval{v}, []*kval{v}
	}
	check := func(when string) {
		for _, x := range st.slots {
			lk := st.verify(x, "other-id")
			if lk.pub != nil && (lk.priv == nil || lk.priv.key != lk.pub.key) {
				sim.Failf("pub-without-priv", "%s, public key of %s loads but not the matching private key (%v)", when, x, lk.privErr)
			}
			if lk.pub != nil && !done {
				w.Probe("public key survived an unfinished save")
			}
		}
	}
	check("after the save")
	if !(fs.Crashed && !fs.CrashKill) {
		fs.PowerOff()
	}
	check("after power loss")
}

// ---------------------------------------------------------------- C04

func c04(w *sim.World) {
	st := newStore(w, "C04", 1)
	fs := st.fs
	s := st.slots[0]
	v := st.newVal()
	if err, _ := st.save(s, v); err != nil {
		sim.Failf("retry", "save with no fault fails: %v", err)
	}
	fs.Settle()
	// a second pair, source of foreign bytes
	other := &kval{pool[(v.key.n+1)%len(pool)], v.secret, 99}
	st.proc = nil
	var oerr error
	w.RunIn(w.NewProc("other"), func() {
		oerr = util.LCSaveKeyPair(s.cls, "other", other.key.X, other.key.D, other.secret)
	})
	if oerr != nil {
		sim.Failf("retry", "save with no fault fails: %v", oerr)
	}
	fs.Settle()
	dir, pubFile, privFile := st.findFiles(s)
	rounds := w.Range(1, 4)
	for r := 0; r < rounds; r++ {
		restore := fs.Fork()
		half := w.Choose(2)
		file := privFile
		if half == 1 {
			file = pubFile
		}
		in := fs.Peek(file)
		kind := ""
		switch w.Choose(8) {
		case 5: // the entry is something else
			fs.Delete(file)
			switch w.Choose(5) {
			case 0:
				kind = "directory"
				fs.MkdirAll(file)
			case 1:
				kind = "dangling link"
				fs.PutLink(file, "/nowhere/else")
			case 2:
				kind = "link loop"
				fs.PutLink(file, file)
			case 3:
				kind = "link to directory"
				fs.PutLink(file, dir)
			case 4:
				kind = "missing"
			}
		case 6: // cannot be read
			kind = "unreadable"
			fs.FaultsOn = true
			fs.FaultRate = w.Range(1, 4)
			fs.FaultFor = func(k, p string) bool { return strings.HasPrefix(p, dir) }
			fs.ShortRead = w.Bool()
		default:
			data := append([]byte(nil), in.Data...)
			n := 1 + w.Choose(2)
			for i := 0; i < n; i++ {
				var k string
				data, k = damage(w, data, fs.Peek(pubFile).Data, fs.Peek(privFile).Data, half)
				kind += k + " "
			}
			in.Corrupt(data)
		}
		w.Fault("damage " + strings.Trim(strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' {
				return -1
			}
			return r
		}, strings.Fields(kind + " x")[0]), "-"))
		w.Ev("damage", half, kind)
		p := w.NewProc("loader")
		start := w.Steps()
		w.LimitSteps(1 << 22)
		end := w.RunIn(p, func() {
			for j := 0; j < 2; j++ {
				pub, err := util.LCLoadPubKey(s.cls, s.id)
				if err == nil {
					if pub == nil || pub.X == nil || pub.X.Cmp(v.key.X) != 0 {
						sim.Failf("misread", "public key of %s loads as a different key after: %s", s, kind)
					}
					if pub.Y == nil || !pub.Curve.IsOnCurve(pub.X, pub.Y) {
						sim.Failf("misread", "public key of %s loads as no point of the curve after: %s", s, kind)
					}
				} else if half == 0 && kind != "unreadable" {
					sim.Failf("collateral", "public key of %s does not load after damage to the private key file only: %v", s, err)
				}
				w.Ev("pub", err)
				priv, err := util.LCLoadPrivKey(s.cls, s.id, v.secret)
				if err == nil {
					if priv == nil || priv.D == nil || priv.D.Cmp(v.key.D) != 0 || priv.X.Cmp(v.key.X) != 0 {
						sim.Failf("misread", "private key of %s loads as a different key after: %s", s, kind)
					}
				} else if half == 1 && kind != "unreadable" {
					sim.Failf("collateral", "private key of %s does not load after damage to the public key file only: %v", s, err)
				}
				w.Ev("priv", err)
				util.LCExistPubKey(s.cls, s.id)
				util.LCExistPrivKey(s.cls, s.id)
			}
		})
		if end.Panicked || end.Exited {
			sim.Failf("panic", "loading %s after: %s: %s", s, kind, end)
		}
		if n := w.Steps() - start; n > 500000+1000*int64(len(in.Data)) {
			sim.Failf("slow", "loading %s took %d steps after: %s", s, n, kind)
		}
		w.LimitSteps(1 << 26)
		fs.FaultsOn = false
		fs.FaultFor = nil
		fs.ShortRead = false
		restore()
	}
	// undamaged again: loads again
	s.pub, s.priv = []*kval{v}, []*kval{v}
	st.verify(s, "misread")
}

// findFiles locates the files of a slot without assuming their names: the
// files of its directory, told apart by which one the public key is in.
func (st *store) findFiles(s *slot) (dir, pub, priv string) {
	ps, ins := st.fs.Files()
	for i, p := range ps {
		if ins[i].Kind == vfs.KFile && strings.Contains(p, "/"+s.id+"/") {
			if strings.HasSuffix(p, ".pub") {
				pub = p
			} else if priv == "" {
				priv = p
			}
		}
	}
	if pub == "" || priv == "" {
		sim.Harness("key files of %s not found", s)
	}
	return pub[:strings.LastIndex(pub, "/")], pub, priv
}

// damage changes a file's bytes as storage does.
func damage(w *sim.World, d, pub, priv []byte, half int) ([]byte, string) {
	d = append([]byte(nil), d...)
	switch w.Choose(12) {
	case 0: // truncated
		n := w.Choose(len(d) + 1)
		return d[:n], fmt.Sprintf("truncated-to-%d", n)
	case 1: // bit flips
		k := w.Range(1, 3)
		for i := 0; i < k && len(d) > 0; i++ {
			j := w.Choose(len(d))
			d[j] ^= 1 << w.Choose(8)
		}
		return d, "bit-flips"
	case 2: // one byte
		if len(d) > 0 {
			d[w.Choose(len(d))] = byte(w.Choose(256))
		}
		return d, "byte-changed"
	case 3: // another hex digit
		if len(d) > 0 {
			d[w.Choose(len(d))] = "0123456789ABCDEFabcdef"[w.Choose(22)]
		}
		return d, "digit-changed"
	case 4: // extended
		n := w.Range(1, 64)
		x := byte("0Ff\x00\n"[w.Choose(5)])
		return append(d, bytes.Repeat([]byte{x}, n)...), fmt.Sprintf("extended-by-%d", n)
	case 5: // zero-filled region (bytes 0)
		if len(d) > 0 {
			a := w.Choose(len(d))
			b := a + w.Choose(len(d)-a) + 1
			for i := a; i < b; i++ {
				d[i] = 0
			}
		}
		return d, "zeroed"
	case 6: // region of digit 0
		if len(d) > 0 {
			a := w.Choose(len(d))
			b := a + w.Choose(len(d)-a) + 1
			for i := a; i < b; i++ {
				d[i] = '0'
			}
		}
		return d, "filled-with-0"
	case 7: // the other half's content
		if half == 1 {
			return append([]byte(nil), priv...), "content-of-private-file"
		}
		return append([]byte(nil), pub...), "content-of-public-file"
	case 8: // short content whose checksum matches
		n := []int{0, 1, 4, 8, 11, 12, 13, 27, 28, 31, 33, 48, 64}[w.Choose(13)]
		raw := w.Bytes(n)
		if w.Bool() {
			raw = make([]byte, n)
		}
		return frame(raw), fmt.Sprintf("%d-bytes-with-checksum", n)
	case 9: // cut at a byte boundary and re-framed (lost tail of the payload)
		raw := make([]byte, hex.DecodedLen(len(d)))
		n, err := hex.Decode(raw, d)
		if err != nil || n < 5 {
			return d[:len(d)/2], "halved"
		}
		raw = raw[:n-4]
		if half == 1 {
			if w.Chance(1, 3) && len(raw) == 32 {
				// no point of the curve, whatever the checksum says
				c := append([]byte{2}, raw...)
				if w.Chance(1, 4) {
					for i := 1; i < 9; i++ {
						c[i] = 0xff
					}
				}
				for i := 0; i < 64; i++ {
					c[1+w.Choose(32)] ^= 1 << w.Choose(8)
					if x, _ := elliptic.UnmarshalCompressed(elliptic.P256(), c); x == nil {
						return frame(c[1:]), "off-the-curve"
					}
				}
			}
			k := w.Choose(len(raw))
			if k == 32 { // a whole other key is not damage
				k = 31
			}
			return frame(raw[:k]), fmt.Sprintf("payload-cut-to-%d", k)
		}
		// private: any change must be noticed, whatever the checksum says
		switch w.Choose(3) {
		case 0:
			k := w.Choose(len(raw))
			return frame(raw[:k]), fmt.Sprintf("payload-cut-to-%d", k)
		case 1:
			raw[w.Choose(len(raw))] ^= 1 << w.Choose(8)
			return frame(raw), "payload-bit-flip"
		default:
			return frame(append(raw, w.Bytes(w.Range(1, 20))...)), "payload-extended"
		}
	case 10: // blocks swapped
		if len(d) > 8 {
			k := 1 + w.Choose(len(d)-1)
			d = append(append([]byte(nil), d[k:]...), d[:k]...)
		}
		return d, "rotated"
	default:
		return w.Bytes(w.Choose(200)), "garbage"
	}
}

// frame is the on-disk form: upper case hex with CRC32 at the end.
func frame(raw []byte) []byte {
	c := crc32IEEE(raw)
	b := append(append([]byte(nil), raw...), byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	return []byte(strings.ToUpper(hex.EncodeToString(b)))
}

func crc32IEEE(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x)
		for i := 0; i < 8; i++ {
			if c&1 == 1 {
				c = c>>1 ^ 0xedb88320
			} else {
				c >>= 1
			}
		}
	}
	return ^c
}

// ---------------------------------------------------------------- C05

func c05(w *sim.World) {
	st := newStore(w, "C05", w.Range(1, 2))
	fs := st.fs
	rounds := w.Range(1, 4)
	for r := 0; r < rounds; r++ {
		s := st.slots[w.Choose(len(st.slots))]
		if w.Bool() {
			st.mustSave(s, "healthy")
		}
		// what fails this time
		fs.FaultsOn = true
		fs.FaultRate = []int{40, 20, 8, 3}[w.Choose(4)]
		fs.FaultMask = nil
		if w.Bool() {
			ks := sim.SortedKeys(allKinds)
			fs.FaultMask = map[string]bool{ks[w.Choose(len(ks))]: true, ks[w.Choose(len(ks))]: true}
			fs.FaultRate = w.Range(1, 6)
		}
		if w.Chance(1, 4) {
			fs.FaultsOn = false
			fs.Quota = w.Choose(250)
		}
		if w.Chance(1, 4) {
			fs.ShortRead = true
		}
		n := w.Range(1, 3)
		for i := 0; i < n; i++ {
			before := faultCount(w)
			v := st.newVal()
			err, end := st.save(s, v)
			if end.Exited {
				sim.Failf("exit", "saving %s ended the process: %s", s, end)
			}
			if err != nil && faultCount(w) == before {
				sim.Failf("spurious", "save of %s fails although no storage call did: %v", s, err)
			}
			if w.Chance(1, 3) {
				// loads under faults: an error or an allowed key
				st.loadUnderFaults(s)
			}
			if w.Chance(1, 6) {
				st.unusableSave(s)
			}
			if w.Chance(1, 5) {
				st.promptSave(s)
			}
		}
		fs.FaultsOn = false
		fs.FaultMask = nil
		fs.ShortRead = false
		// whatever was reported, the keys are old or new, and readable
		st.verifyAll("destroyed", false)
		if w.Chance(1, 3) {
			fs.PowerOff()
			st.verifyAll("destroyed", true)
		}
		fs.Quota = -1
		if w.Bool() {
			st.mustSave(s, "retry")
		}
	}
}

// promptSave is a save whose secret is asked for at the terminal, which may be
// gone, or give no passphrase.
func (st *store) promptSave(s *slot) {
	w := st.w
	v := st.newVal()
	q := []byte("a passphrase of its own")[:w.Range(8, 23)]
	q[w.Choose(8)] = byte('0' + w.Choose(10))
	typed := typing(w, q)
	good := false
	switch w.Choose(7) {
	case 0:
		typed = nil
	case 1: // too short
		q = q[:w.Choose(8)]
		typed = append(append([]byte(nil), q...), '\n')
	case 2: // the terminal goes away
		q = q[:w.Choose(len(q)+1)]
		typed = append([]byte(nil), q...)
	case 3: // interrupted
		typed = append(append([]byte(nil), q[:w.Choose(len(q)+1)]...), 3)
	default:
		good = true
	}
	v.secret = padPass(q)
	before := faultCount(w)
	p := w.NewProc("prompted")
	if len(typed) > 0 {
		p.Stdin = [][]byte{typed}
	}
	was := [2][]*kval{s.pub, s.priv}
	s.tried = append(s.tried, v)
	if good {
		s.pub, s.priv = addVal(s.pub, v), addVal(s.priv, v)
	}
	var err error
	end := w.RunIn(p, func() { err = util.LCSaveKeyPairPrompt(s.cls, s.id, v.key.X, v.key.D) })
	w.Ev("save at the prompt", s.String(), v.String(), good, err)
	if !end.Returned {
		sim.Failf("exit", "a save at the prompt: %s", end)
	}
	switch {
	case err == nil && good:
		s.pub, s.priv, s.acked = []*kval{v}, []*kval{v}, true
		w.Probe("saved at the prompt")
	case err == nil:
		sim.Failf("unreported", "a save at the prompt of %s is reported successful, when %q was all that was typed", s, typed)
	case good && faultCount(w) == before:
		sim.Failf("spurious", "a save at the prompt of %s fails although nothing did: %v", s, err)
	case !good:
		s.pub, s.priv = was[0], was[1]
	}
	sr := st.fs.ShortRead
	st.fs.ShortRead = false
	st.verify(s, "destroyed")
	st.fs.ShortRead = sr
}

// unusableSave is a save that cannot be done whatever the storage does: the
// secret is no cipher key, or the place of the directory is taken by a file.
// It must say so and take nothing away.
func (st *store) unusableSave(s *slot) {
	w := st.w
	v := st.newVal()
	id, secret, why := s.id, v.secret, "a file is in the way"
	x, d := v.key.X, v.key.D
	switch w.Choose(3) {
	case 2:
		w.Probe("save of an unusable key")
		more := new(big.Int).Lsh(big.NewInt(int64(1+w.Choose(300))), 256)
		switch w.Choose(6) {
		case 0:
			d, why = new(big.Int).Add(d, more), "the private number is too long"
		case 1:
			x, why = new(big.Int).Add(x, more), "the public number is too long"
		case 2:
			d, why = new(big.Int).Neg(d), "the private number is negative"
		case 3:
			x, why = new(big.Int).Neg(x), "the public number is negative"
		case 4: // half of all numbers belong to no point
			why = "the public number is no point of the curve"
			x = new(big.Int).Set(x)
			for onCurve(x) {
				x.Add(x, big.NewInt(1))
			}
		case 5:
			d, why = nil, "there is no private number"
			if w.Bool() {
				x, d, why = nil, v.key.D, "there is no public number"
			}
		}
	case 1:
		secret = w.Bytes([]int{0, 1, 8, 15, 17, 31, 33, 64}[w.Choose(8)])
		why = "the secret is no cipher key"
		w.Probe("save with an unusable secret")
	case 0:
		id = "taken" // no key was ever saved there
		dir := util.LCGetEtcDir(s.cls)
		st.fs.MkdirAll(dir)
		if st.fs.PeekL(dir+"/"+id) == nil {
			st.fs.Put(dir+"/"+id, []byte("not a directory"), 0644)
		}
		w.Probe("save where a file is in the way")
	}
	var err error
	end := st.in(func() { err = util.LCSaveKeyPair(s.cls, id, x, d, secret) })
	w.Ev("unusable save", id, len(secret), err)
	if !end.Returned || err == nil {
		sim.Failf("unreported", "saving %d/%s, where %s: error %v (%s)", s.cls, id, why, err, end)
	}
	sr := st.fs.ShortRead
	st.fs.ShortRead = false
	st.verify(s, "destroyed")
	st.fs.ShortRead = sr
}

// onCurve tells whether x is that of a point of the curve.
func onCurve(x *big.Int) bool {
	p := elliptic.P256().Params()
	if x.Cmp(p.P) >= 0 {
		return false
	}
	y := new(big.Int).Exp(x, big.NewInt(3), p.P)
	y.Sub(y, new(big.Int).Mul(x, big.NewInt(3)))
	y.Add(y, p.B)
	y.Mod(y, p.P)
	return big.Jacobi(y, p.P) >= 0
}

var allKinds = map[string]bool{"open": true, "opendir": true, "create": true, "read": true, "write": true, "fsync": true,
	"syncdir": true, "close": true, "stat": true, "chmod": true, "mkdir": true, "rename": true, "unlink": true}

func faultCount(w *sim.World) int {
	n := 0
	for _, c := range w.Faults {
		n += c
	}
	return n
}

func (st *store) loadUnderFaults(s *slot) {
	w := st.w
	end := w.RunIn(w.NewProc("reader"), func() {
		pub, err := util.LCLoadPubKey(s.cls, s.id)
		w.Ev("load pub", err)
		if err == nil {
			if v := st.whichPub(s, pub.X); !allowedPub(s.pub, v) {
				sim.Failf("destroyed", "public key of %s is that of %v, may only be %v", s, v, s.pub)
			}
		}
		for _, v := range s.tried {
			k, err := util.LCLoadPrivKey(s.cls, s.id, v.secret)
			w.Ev("load priv", err)
			if err == nil {
				if g := st.whichPriv(s, k, v.secret); !allowed(s.priv, g) {
					sim.Failf("destroyed", "private key of %s is that of %v, may only be %v", s, g, s.priv)
				}
			}
		}
	})
	if end.Panicked || end.Exited {
		sim.Failf("panic", "loading %s under storage errors: %s", s, end)
	}
}

// ---------------------------------------------------------------- C06

// leakWatch looks at everything that is stored or printed.
type leakWatch struct {
	w       *sim.World
	pats    []pat
	secrets []*kval
	// contents whose mode the operator has loosened: not the system's doing
	loosened map[string]bool
}

type pat struct {
	what string
	b    []byte
}

func (l *leakWatch) add(v *kval) {
	for _, s := range l.secrets {
		if s.key == v.key && bytes.Equal(s.secret, v.secret) {
			return
		}
	}
	l.secrets = append(l.secrets, v)
	l.addBytes("the private key", v.key.D.Bytes())
	l.pats = append(l.pats, pat{"the private key in decimal", []byte(v.key.D.String())})
	l.addBytes("the secret", bytes.TrimRight(v.secret, "\x00"))
}

func (l *leakWatch) addBytes(what string, b []byte) {
	l.pats = append(l.pats, pat{what, b}, pat{what + " in hex", []byte(hex.EncodeToString(b))},
		pat{what + " in hex", []byte(strings.ToUpper(hex.EncodeToString(b)))},
		pat{what + " in base64", []byte(strings.TrimRight(base64.StdEncoding.EncodeToString(b), "="))},
		pat{what + " reversed", rev(b)})
}

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i, c := range b {
		r[len(b)-1-i] = c
	}
	return r
}

func (l *leakWatch) scan(where string, b []byte) {
	for _, p := range l.pats {
		if len(p.b) >= 8 && bytes.Contains(b, p.b) {
			sim.Failf("leak", "%s holds %s", where, p.what)
		}
	}
}

// onOp is called after every change to the file system.
func (l *leakWatch) onOp(kind, p string, in *vfs.Inode) {
	l.scan("the path "+p, []byte(p))
	if in == nil {
		return
	}
	if in.Kind == vfs.KLink {
		l.scan("the link "+p, []byte(in.Target))
		return
	}
	if in.Kind != vfs.KFile || len(in.Data) == 0 {
		return
	}
	l.scan("the file "+p, in.Data)
	if in.Mode&077 != 0 && !l.loosened[string(in.Data)] && l.encrypted(in.Data) {
		sim.Failf("mode", "%s holds the encrypted private key with mode %04o after %s", p, in.Mode, kind)
	}
}

// encrypted: does d hold (the beginning of) an encrypted private key, hex or
// raw, nonce first?
func (l *leakWatch) encrypted(d []byte) bool {
	raws := [][]byte{d}
	n := len(d) &^ 1
	for n > 0 {
		h := make([]byte, n/2)
		k, err := hex.Decode(h, d[:n])
		if err == nil || k >= 20 {
			raws = append(raws, h[:k])
		}
		break
	}
	for _, r := range raws {
		if len(r) < 12+8 {
			continue
		}
		for _, v := range l.secrets {
			pt := ctr(v.secret, r[:12], r[12:])
			db := v.key.D.FillBytes(make([]byte, 32))
			if len(pt) > 32 {
				pt = pt[:32]
			}
			if bytes.Equal(pt, db[:len(pt)]) || bytes.Equal(pt, v.key.D.Bytes()[:min(len(pt), len(v.key.D.Bytes()))]) {
				return true
			}
		}
	}
	return false
}

func c06(w *sim.World) {
	st := newStore(w, "C06", w.Range(1, 2))
	fs := st.fs
	l := &leakWatch{w: w, loosened: map[string]bool{}}
	fs.OnOp = l.onOp
	nonces := map[string]*kval{}
	var drawn [][]byte
	files := map[string]*kval{}
	faults := w.Chance(1, 3)
	fs.FaultRate = 15
	nk := w.Range(1, 3) // few distinct pairs, saved again and again
	var vals []*kval
	for i := 0; i < nk; i++ {
		vals = append(vals, st.newVal())
	}
	rounds := w.Range(2, 6)
	for r := 0; r < rounds; r++ {
		s := st.slots[w.Choose(len(st.slots))]
		b := vals[w.Choose(len(vals))]
		st.nsave++
		v := &kval{b.key, b.secret, st.nsave}
		l.add(v)
		w.EntropyFail = nil
		noEntropy := w.Chance(1, 6)
		entropyUsed := false
		if noEntropy {
			part := w.Choose(12)
			w.EntropyFail = func(n int) (int, error, bool) {
				w.Fault("entropy failure")
				entropyUsed = true
				k := part
				if k >= n {
					k = 0
				}
				return k, fmt.Errorf("entropy source failed"), true
			}
		}
		fs.FaultsOn = faults
		if w.Chance(1, 5) {
			fs.CrashAt = w.Choose(50)
			fs.CrashKill = w.Bool()
		}
		before := privContent(fs, st, s)
		if before != nil && w.Chance(1, 6) {
			// an operator (or a restored backup) has made the old file readable
			in := privInode(fs, st, s)
			in.SetMode([]uint32{0644, 0640, 0666, 0604}[w.Choose(4)])
			l.loosened[string(before)] = true
			w.Ev("mode loosened", s.String())
			w.Fault("key file mode loosened")
		}
		var err error
		s.tried = append(s.tried, v)
		s.pub, s.priv = addVal(s.pub, v), addVal(s.priv, v)
		w.Ev("save", s.String(), v.String(), noEntropy)
		returned := false
		if st.proc == nil || st.proc.Dead || w.Bool() {
			st.proc = w.NewProc(fmt.Sprintf("node%d", r))
			w.RunIn(st.proc, func() {
				if w.Bool() {
					util.LCSetLoggerFileTmp()
				}
			})
		}
		end := w.RunIn(st.proc, func() {
			err = util.LCSaveKeyPair(s.cls, s.id, v.key.X, v.key.D, append([]byte(nil), v.secret...))
			returned = true
		})
		fs.CrashAt = -1
		fs.FaultsOn = false
		w.EntropyFail = nil
		cut := fs.Crashed && !fs.CrashKill
		fs.Crashed = false
		if returned && err == nil {
			s.pub, s.priv = []*kval{v}, []*kval{v}
			if noEntropy {
				if !entropyUsed {
					sim.Failf("nonce", "a save asked the entropy source for nothing")
				}
				sim.Failf("nonce", "a save succeeded although the entropy source failed")
			}
		} else if end.Panicked && !noEntropy {
			sim.Failf("panic", "saving %s: %s", s, end)
		}
		after := privContent(fs, st, s)
		if cut {
			// what was there before may have come back
		} else if after != nil && !bytes.Equal(before, after) {
			if o := files[string(after)]; o != nil {
				sim.Failf("nonce", "two saves (%v, %v) stored the same bytes", o, v)
			}
			files[string(after)] = v
			raw := make([]byte, hex.DecodedLen(len(after)))
			if n, err := hex.Decode(raw, after); err == nil && n > 12+32 && returned {
				nc := string(raw[:12])
				if o := nonces[nc]; o != nil {
					sim.Failf("nonce", "two saves (%v, %v) used the same nonce %x", o, v, nc)
				}
				nonces[nc] = v
				drawn = append(drawn, raw[:12])
				if k := len(drawn) - 1; k > 0 {
					// bytes that are the same in all so far, by chance once in 2^60
					if c := sameBytes(drawn); 8*c*k >= 60 {
						sim.Failf("nonce", "the %d nonces so far agree in %d of 12 bytes: the last is %x", k+1, c, nc)
					}
				}
				if distinctBytes(raw[:12]) < 4 {
					sim.Failf("nonce", "nonce %x is not random", nc)
				}
			}
		} else if returned && err == nil {
			sim.Failf("nonce", "a save of %s left the private key file as it was", s)
		}
		// wrong secrets are refused
		if returned && err == nil {
			st.wrongSecrets(s, v)
		}
		if w.Chance(1, 5) {
			fs.PowerOff()
			// remnants after the crash
			ps, ins := fs.Files()
			for i, p := range ps {
				l.onOp("power-off", p, ins[i])
			}
			for _, x := range st.slots {
				lk := st.observe(x)
				st.collapse(x, lk)
			}
		}
	}
	for _, p := range w.Procs() {
		l.scan("standard output", p.Out.Bytes())
		l.scan("standard error", p.Err.Bytes())
	}
	ps, ins := fs.Files()
	for i, p := range ps {
		l.onOp("end", p, ins[i])
	}
}

func sameBytes(l [][]byte) (n int) {
next:
	for i := range l[0] {
		for _, b := range l {
			if b[i] != l[0][i] {
				continue next
			}
		}
		n++
	}
	return
}

func distinctBytes(b []byte) int {
	m := map[byte]bool{}
	for _, c := range b {
		m[c] = true
	}
	return len(m)
}

func privContent(fs *vfs.FS, st *store, s *slot) []byte {
	if in := privInode(fs, st, s); in != nil {
		return append([]byte(nil), in.Data...)
	}
	return nil
}

func privInode(fs *vfs.FS, st *store, s *slot) *vfs.Inode {
	ps, ins := fs.Files()
	for i, p := range ps {
		if ins[i].Kind == vfs.KFile && strings.Contains(p, "/"+s.id+"/") && strings.HasSuffix(p, "_id") && strings.Contains(p, clsName(s.cls)) {
			return ins[i]
		}
	}
	return nil
}

func clsName(c int) string {
	switch c {
	case util.CLS_NODE:
		return "/node/"
	case util.CLS_CLUSTER:
		return "/cluster/"
	case util.CLS_UNIVERSE:
		return "/universe/"
	case util.CLS_SERVICE:
		return "/service/"
	}
	return "/federation/"
}

func (st *store) wrongSecrets(s *slot, v *kval) {
	w := st.w
	n := w.Range(1, 3)
	end := w.RunIn(w.NewProc("intruder"), func() {
		for i := 0; i < n; i++ {
			x := append([]byte(nil), v.secret...)
			switch w.Choose(6) {
			case 0:
				x[w.Choose(len(x))] ^= 1 << w.Choose(8)
			case 1:
				x[len(x)-1-w.Choose(min(len(x), 4))] ^= byte(1 + w.Choose(255))
			case 2:
				x = w.Bytes([]int{16, 24, 32}[w.Choose(3)])
			case 3:
				x = x[:w.Choose(len(x))]
			case 4:
				x = append(x, make([]byte, []int{1, 8, 16}[w.Choose(3)])...)
			case 5:
				x = make([]byte, []int{0, 16, 32}[w.Choose(3)])
			}
			if bytes.Equal(x, v.secret) {
				continue
			}
			k, err := util.LCLoadPrivKey(s.cls, s.id, x)
			w.Ev("wrong secret", len(x), err)
			if err == nil {
				sim.Failf("secret", "private key of %s opens with a secret other than the one saved (%d instead of %d bytes): key %v", s, len(x), len(v.secret), k != nil)
			}
		}
	})
	if end.Panicked || end.Exited {
		sim.Failf("panic", "loading with a wrong secret: %s", end)
	}
}

var _ = os.Getenv
