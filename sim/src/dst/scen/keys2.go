package scen

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"dst/sim"
	"dst/vfs"

	"poodle/pkeygen"
	"poodle/util"
)

// ---------------------------------------------------------------- C07

func c07(w *sim.World) {
	st := newStore(w, "C07", 1)
	fs := st.fs
	w.EntropyBias = w.Choose(4)
	if w.EntropyBias != 0 {
		w.Probe("biased entropy")
		w.NonTrivial = true
	}
	n := w.Range(1, 3)
	var prev *ecdsa.PublicKey
	for i := 0; i < n; i++ {
		cls := classes[w.Choose(len(classes))]
		secret := secretPool[w.Choose(len(secretPool))]
		var gen *ecdsa.PrivateKey
		var id string
		must := func(end sim.End, what string) {
			if !end.Returned {
				sim.Failf("panic", "%s: %s", what, end)
			}
		}
		shortID := w.Bool()
		must(st.in(func() {
			gen = util.ECDSAGenerateKey()
			if gen == nil || gen.D == nil || gen.X == nil || gen.Y == nil {
				sim.Failf("generate", "no key was generated")
			}
			if gen.X.BitLen() <= 248 {
				w.Probe("public key with leading zeros")
			}
			if gen.D.BitLen() <= 248 {
				w.Probe("private key with leading zeros")
			}
			id = fmt.Sprintf("%x", gen.X.Bytes())
			if shortID {
				id = "n1"
			}
			if err := util.LCSaveKeyPair(cls, id, gen.X, gen.D, append([]byte(nil), secret...)); err != nil {
				sim.Failf("save", "a generated key cannot be saved: %v", err)
			}
		}), "generating and saving")
		checkKey(gen)
		if w.Choose(3) == 0 {
			fs.PowerOff()
			st.proc = nil
		}
		signer := w.NewProc("signer")
		verifier := w.NewProc("verifier")
		k := w.Range(1, 2)
		for j := 0; j < k; j++ {
			msg := w.Bytes(w.Range(1, 90))
			other := append([]byte(nil), msg...)
			switch w.Choose(4) {
			case 0:
				other[len(other)-1] ^= 1
			case 1:
				other[0] ^= 0x80
			case 2:
				other = append(other, 0)
			case 3:
				other = other[:len(other)-1]
			}
			sum := []func([]byte) []byte{util.SumSHA256, util.SumSHA256d}[w.Choose(2)]
			var r, s *big.Int
			must(w.RunIn(signer, func() {
				priv, err := util.LCLoadPrivKey(cls, id, append([]byte(nil), secret...))
				if err != nil || priv == nil {
					sim.Failf("load", "the private key of a generated pair does not load: %v", err)
				}
				if priv.D.Cmp(gen.D) != 0 || priv.X.Cmp(gen.X) != 0 {
					sim.Failf("load", "the private key loaded is not the one generated: %x, not %x", priv.D, gen.D)
				}
				r, s, err = util.ECDSASign(priv, sum(msg))
				if err != nil || r == nil || s == nil {
					sim.Failf("sign", "signing with a loaded key fails: %v", err)
				}
				if !util.ECDSAVerify(&priv.PublicKey, sum(msg), r, s) {
					sim.Failf("verify", "a signature is not accepted under the public half of the loaded private key")
				}
			}), "loading and signing")
			must(w.RunIn(verifier, func() {
				pub, err := util.LCLoadPubKey(cls, id)
				if err != nil || pub == nil {
					sim.Failf("load", "the public key of a generated pair does not load: %v", err)
				}
				if pub.X.Cmp(gen.X) != 0 {
					sim.Failf("load", "the public key loaded is not the one generated")
				}
				if !util.ECDSAVerify(pub, sum(msg), r, s) {
					sim.Failf("verify", "a signature made with the loaded private key is not accepted under the loaded public key (D %x X %x)", gen.D, gen.X)
				}
				if p2 := util.ECDSAGetPublicKey(pub.X.Bytes()); !util.ECDSAVerify(p2, sum(msg), r, s) {
					sim.Failf("verify", "a signature is not accepted under the public key rebuilt from its bytes")
				}
				if util.ECDSAVerify(pub, sum(other), r, s) {
					sim.Failf("forged", "a signature is accepted for another message")
				}
				near := append([]byte(nil), sum(msg)...)
				bit := w.Choose(8 * len(near))
				near[bit/8] ^= 1 << (bit % 8)
				if util.ECDSAVerify(pub, near, r, s) {
					sim.Failf("forged", "a signature of a hash is accepted for one that differs in bit %d", bit)
				}
				if prev != nil && prev.X.Cmp(pub.X) != 0 && util.ECDSAVerify(prev, sum(msg), r, s) {
					sim.Failf("forged", "a signature is accepted under another key")
				}
				if util.ECDSAVerify(pub, sum(msg), new(big.Int).Xor(r, big.NewInt(1)), s) ||
					util.ECDSAVerify(pub, sum(msg), r, new(big.Int).Xor(s, big.NewInt(1))) {
					sim.Failf("forged", "a changed signature is accepted")
				}
				n := pub.Curve.Params().N
				for _, x := range []*big.Int{new(big.Int).Add(s, n), new(big.Int).Neg(s), new(big.Int)} {
					if util.ECDSAVerify(pub, sum(msg), r, x) {
						sim.Failf("forged", "a signature out of range is accepted: s is %x", x)
					}
				}
				for _, x := range []*big.Int{new(big.Int).Add(r, n), new(big.Int).Neg(r), new(big.Int)} {
					if util.ECDSAVerify(pub, sum(msg), x, s) {
						sim.Failf("forged", "a signature out of range is accepted: r is %x", x)
					}
				}
				if j == k-1 {
					prev = pub
				}
			}), "loading and verifying")
			w.Ev("signed", id, r.BitLen(), s.BitLen())
		}
	}
}

func checkKey(k *ecdsa.PrivateKey) {
	c := elliptic.P256()
	if k.D.Sign() <= 0 || k.D.Cmp(c.Params().N) >= 0 {
		sim.Failf("generate", "generated D is out of range")
	}
	x, y := c.ScalarBaseMult(k.D.FillBytes(make([]byte, 32)))
	if x.Cmp(k.X) != 0 || y.Cmp(k.Y) != 0 {
		sim.Failf("generate", "generated public key is not that of the private key")
	}
}

// ---------------------------------------------------------------- C08

// regOp is an operation on one register, with the instants it was called and
// returned at. val: number of the value, 0 is absent.
type regOp struct {
	who     string
	write   bool
	some    bool // read: some value, not which
	val     int
	call    int
	ret     int // 1<<30: never returned, may or may not have taken effect
	pending bool
}

func (o regOp) String() string {
	k := "read"
	if o.write {
		k = "write"
	}
	v := fmt.Sprint(o.val)
	if o.some {
		v = "some"
	}
	return fmt.Sprintf("%s:%s(%s)@%d-%d", o.who, k, v, o.call, o.ret)
}

// linearizable searches for an order of ops that respects time and in which
// every read sees the last write (Wing and Gong, with memory).
func linearizable(ops []regOp, init int) bool {
	if len(ops) > 62 {
		sim.Harness("history too long")
	}
	type st struct {
		done uint64
		val  int
	}
	seen := map[st]bool{}
	var rec func(done uint64, val int) bool
	rec = func(done uint64, val int) bool {
		first := 1 << 30 // earliest return among those not done
		rest := false
		for i, o := range ops {
			if done&(1<<i) == 0 && !o.pending {
				rest = true
				if o.ret < first {
					first = o.ret
				}
			}
		}
		if !rest {
			return true
		}
		k := st{done, val}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, o := range ops {
			if done&(1<<i) != 0 || o.call > first {
				continue
			}
			switch {
			case o.write:
				if rec(done|1<<i, o.val) {
					return true
				}
			case o.some && val != 0 || !o.some && o.val == val:
				if rec(done|1<<i, val) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, init)
}

func c08(w *sim.World) {
	fs := newMachine(w)
	cls := [2]int{classes[w.Choose(len(classes))], classes[w.Choose(len(classes))]}
	names := [2]string{slotIDs[w.Choose(len(slotIDs))], slotIDs[w.Choose(len(slotIDs))]}
	if w.Choose(3) > 0 {
		for _, c := range cls {
			fs.MkdirAll("/etc/poodle/" + clsName(c))
		}
	}
	nslots := w.Range(1, 3)
	type reg struct {
		cls       int
		id        string
		secret    []byte
		pub, priv []regOp
		vals      []*poolKey // value number i+1
		savers    int
	}
	var regs []*reg
	for i := 0; i < nslots; i++ {
		r := &reg{cls: cls[w.Choose(2)], id: names[w.Choose(2)], secret: secretPool[w.Choose(len(secretPool))]}
		for _, o := range regs {
			if o.cls == r.cls && o.id == r.id {
				r = nil
				break
			}
		}
		if r != nil {
			regs = append(regs, r)
		}
	}
	used := map[int]bool{}
	fresh := func() *poolKey {
		for i := w.Choose(len(pool)); ; i = (i + 1) % len(pool) {
			if !used[i] {
				used[i] = true
				return pool[i]
			}
		}
	}
	clock := 0
	tick := func() int { clock++; return clock }
	w.SwitchRate = w.Range(1, 6)
	procs := []*sim.Proc{w.NewProc("p0"), w.NewProc("p1"), w.NewProc("p2")}
	share := w.Bool() // threads of one process
	var victim *sim.Proc
	if w.Chance(1, 4) {
		victim = procs[1]
		fs.CrashAt = w.Choose(120)
		fs.CrashKill = true
		fs.CrashProc = victim
		if share {
			fs.CrashProc = procs[0]
		}
	}
	doSave := func(who string, r *reg, k *poolKey) {
		r.vals = append(r.vals, k)
		v := len(r.vals)
		o := regOp{who: who, write: true, val: v, call: tick(), ret: 1 << 30, pending: true}
		r.pub = append(r.pub, o)
		r.priv = append(r.priv, o)
		a, b := len(r.pub)-1, len(r.priv)-1
		w.Ev("save call", who, r.id, v)
		err := util.LCSaveKeyPair(r.cls, r.id, k.X, k.D, append([]byte(nil), r.secret...))
		if err != nil {
			sim.Failf("spurious", "%s: saving %s fails while others use the store, and no fault was injected: %v", who, r.id, err)
		}
		t := tick()
		r.pub[a].ret, r.pub[a].pending = t, false
		r.priv[b].ret, r.priv[b].pending = t, false
		w.Ev("save return", who, r.id, v)
	}
	doRead := func(who string, r *reg, priv, exist bool) {
		o := regOp{who: who, call: tick()}
		var why error
		if exist {
			if priv {
				o.some = util.LCExistPrivKey(r.cls, r.id)
			} else {
				o.some = util.LCExistPubKey(r.cls, r.id)
			}
		} else if priv {
			k, err := util.LCLoadPrivKey(r.cls, r.id, append([]byte(nil), r.secret...))
			why = err
			if err == nil {
				o.val = -1
				for i, p := range r.vals {
					if p.D.Cmp(k.D) == 0 {
						o.val = i + 1
						if k.X.Cmp(p.X) != 0 {
							o.val = -1
						}
					}
				}
			}
		} else {
			k, err := util.LCLoadPubKey(r.cls, r.id)
			why = err
			if err == nil {
				o.val = -1
				for i, p := range r.vals {
					if p.X.Cmp(k.X) == 0 {
						o.val = i + 1
					}
				}
			}
		}
		o.ret = tick()
		if o.val == -1 {
			sim.Failf("mixture", "%s: load of %s gave a key no save wrote", who, r.id)
		}
		if priv {
			r.priv = append(r.priv, o)
		} else {
			r.pub = append(r.pub, o)
		}
		w.Ev("read", who, r.id, priv, exist, o.val, o.some, why)
	}
	// saved before, perhaps
	for _, r := range regs {
		if w.Choose(3) > 0 {
			r := r
			p := w.NewProc("earlier")
			w.RunIn(p, func() { doSave("earlier", r, fresh()) })
		}
	}
	w.Preemptive(true)
	nt := w.Range(2, 4)
	var ts []*sim.Thread
	for i := 0; i < nt; i++ {
		p := procs[0]
		if !share {
			p = procs[i%len(procs)]
		}
		who := fmt.Sprintf("t%d", i)
		saver := i == 0 || w.Chance(2, 5)
		n := w.Range(1, 3)
		if !saver {
			n = w.Range(2, 5)
		}
		type act struct {
			r           *reg
			k           *poolKey
			priv, exist bool
		}
		var acts []act
		for j := 0; j < n; j++ {
			a := act{r: regs[w.Choose(len(regs))], priv: w.Bool()}
			if saver {
				a.k = fresh()
			} else {
				a.exist = w.Chance(1, 4)
			}
			acts = append(acts, a)
		}
		ts = append(ts, w.Spawn(p, who, func() {
			for _, a := range acts {
				if a.k != nil {
					doSave(who, a.r, a.k)
				} else {
					doRead(who, a.r, a.priv, a.exist)
				}
			}
		}))
	}
	w.Join(ts...)
	w.Preemptive(false)
	for i, p := range procs {
		if p.PanicVal != nil {
			sim.Failf("panic", "process %d panicked: %v [%s]", i, p.PanicVal, sim.Trim(p.PanicStk))
		}
	}
	fs.CrashAt = -1
	w.RunIn(w.NewProc("last"), func() {
		for _, r := range regs {
			doRead("last", r, false, false)
			doRead("last", r, true, false)
			doRead("last", r, true, true)
		}
	})
	for _, r := range regs {
		if !linearizable(r.pub, 0) {
			sim.Failf("order", "no order of the saves explains what loads of the public key of %s saw: %v", r.id, r.pub)
		}
		if !linearizable(r.priv, 0) {
			sim.Failf("order", "no order of the saves explains what loads of the private key of %s saw: %v", r.id, r.priv)
		}
	}
}

// ---------------------------------------------------------------- C09

// a session of the key generation program, and what it was given
type session struct {
	cls   int
	class string
	alias string
	force bool
	typed [][]byte
	pass  []byte // the passphrase, if both entries agree and are long enough
	ok    bool   // nothing in the input should keep it from succeeding
	quiet bool   // must store nothing
}

var classNames = map[int]string{util.CLS_NODE: "node", util.CLS_CLUSTER: "cluster", util.CLS_UNIVERSE: "universe", util.CLS_SERVICE: "service", util.CLS_FEDERATION: "federation"}

// pad is how a passphrase becomes a secret: the first 16 bytes, zero filled.
func padPass(p []byte) []byte {
	b := make([]byte, 16)
	copy(b, p)
	return b
}

var hexID = regexp.MustCompile(`[0-9a-f]{40,64}`)

func line(s string) []byte { return []byte(s + "\n") }

// typing p with mistakes corrected
func typing(w *sim.World, p []byte) []byte {
	var b []byte
	for _, c := range p {
		if w.Chance(1, 12) {
			b = append(b, "xyz"[w.Choose(3)], []byte{127, 8}[w.Choose(2)])
		}
		b = append(b, c)
	}
	return append(b, "\n\r"[w.Choose(2)])
}

type pkg09 struct {
	w      *sim.World
	fs     *vfs.FS
	pass   [][]byte                   // every passphrase ever accepted
	alias  map[string]map[string]bool // path -> targets it may have ("" absent)
	known  map[string]string          // id path -> passphrase, keys that must be there
	passOf map[string][]byte
	onePid int
}

func (g *pkg09) target(p string) string {
	in := g.fs.PeekL(p)
	switch {
	case in == nil:
		return ""
	case in.Kind == vfs.KLink:
		return in.Target
	case in.Kind == vfs.KDir:
		return "(directory)"
	}
	return "(file)"
}

// complete: path is the directory of a whole key that one of the passphrases
// used so far opens.
func (g *pkg09) complete(cls int, target string, passes [][]byte) (why string) {
	dir := util.LCGetEtcDir(cls) + "/"
	if !strings.HasPrefix(target, dir) {
		return "it points outside the class"
	}
	id := target[len(dir):]
	end := g.w.RunIn(g.w.NewProc("check"), func() {
		pub, err := util.LCLoadPubKey(cls, id)
		if err != nil {
			why = fmt.Sprintf("its public key does not load: %v", err)
			return
		}
		if fmt.Sprintf("%x", pub.X.Bytes()) != id {
			why = "its public key is not the one it is named by"
			return
		}
		for _, p := range passes {
			if priv, err := util.LCLoadPrivKey(cls, id, padPass(p)); err == nil {
				if priv.X.Cmp(pub.X) != 0 {
					why = "its halves do not match"
				}
				return
			}
		}
		why = "its private key does not load"
	})
	if end.Panicked {
		sim.Failf("panic", "loading %s: %s", id, end)
	}
	return
}

func tree(fs *vfs.FS) map[string]string {
	m := map[string]string{}
	ps, ins := fs.Files()
	for i, p := range ps {
		switch ins[i].Kind {
		case vfs.KFile:
			m[p] = "file " + string(ins[i].Data)
		case vfs.KLink:
			m[p] = "link " + ins[i].Target
		}
	}
	return m
}

var aliasPairs = [][]string{{"home", "work"}, {"home", "Home"}, {"home", "home "}, {" home", "home"},
	{"my home", "my"}, {"home.1", "home"}, {"home%", "100%d"}, {"-force", "--"}, {"h\u00f4me", "ho\u0302me"},
	{"h", strings.Repeat("h", 200)}, {"Home", "HOME"}, {"node", "node_id"}, {"~", "$HOME"}}

func c09(w *sim.World) {
	fs := newMachine(w)
	g := &pkg09{w: w, fs: fs, alias: map[string]map[string]bool{}, passOf: map[string][]byte{}}
	w.EntropyBias = w.Choose(2)
	if w.Chance(1, 3) {
		g.onePid = w.Range(1, 9)
	}
	cls := classes[w.Choose(len(classes))]
	dir := "/etc/poodle/" + classNames[cls]
	if w.Choose(3) > 0 {
		fs.MkdirAll(dir)
	}
	aliases := aliasPairs[w.Choose(len(aliasPairs))]
	if w.Bool() {
		aliases = aliasPairs[0]
	}
	aliases = append([]string(nil), aliases...)
	home, work := dir+"/"+aliases[0], dir+"/"+aliases[1]
	// what is there before
	switch w.Choose(4) {
	case 0:
		fs.MkdirAll(dir)
		fs.PutLink(home, dir+"/"+strings.Repeat("ab", 32)) // dangling
		g.alias[home] = map[string]bool{dir + "/" + strings.Repeat("ab", 32): true}
	case 1:
		fs.MkdirAll(work)
		g.alias[work] = map[string]bool{"(directory)": true}
	}
	if g.onePid > 0 && w.Bool() { // an alias named as a temporary file might be
		a := fmt.Sprintf("%s.tmp%d", aliases[w.Choose(2)], g.onePid)
		if w.Bool() {
			a += ".0"
		}
		t := dir + "/" + strings.Repeat("cd", 32)
		fs.MkdirAll(dir)
		fs.PutLink(dir+"/"+a, t)
		g.alias[dir+"/"+a] = map[string]bool{t: true}
		aliases = append(aliases, a)
	}
	for _, a := range aliases {
		if g.alias[dir+"/"+a] == nil {
			g.alias[dir+"/"+a] = map[string]bool{"": true}
		}
	}
	n := w.Range(1, 5)
	var keep []string // ids of acknowledged keys
	for i := 0; i < n; i++ {
		s := g.plan(cls, aliases, dir)
		faults := w.Chance(1, 3)
		fs.FaultsOn = faults
		fs.FaultRate = []int{40, 15, 6}[w.Choose(3)]
		if w.Chance(1, 10) {
			fs.Garble = w.Range(1, 3)
		}
		if w.Chance(1, 3) {
			fs.CrashAt = w.Choose(120)
			fs.CrashKill = w.Bool()
		}
		fs.Crashed = false
		if w.Chance(1, 6) {
			fs.Garble, fs.FaultsOn, fs.CrashAt = 0, false, -1
			g.together(cls, &keep, dir, aliases)
			continue
		}
		if s.pass != nil {
			g.pass = append(g.pass, s.pass)
		}
		g.session(s, faults, &keep, dir, aliases)
	}
	// a later forced session succeeds
	fs.FaultsOn = false
	fs.CrashAt = -1
	fs.Crashed = false
	w.EntropyFail = nil
	p := g.passphrase()
	s := &session{cls: cls, class: classNames[cls], alias: aliases[0], force: true, pass: p, ok: true}
	s.typed = [][]byte{typing(w, p), typing(w, p)}
	g.pass = append(g.pass, p)
	g.session(s, false, &keep, dir, aliases)
}

func (g *pkg09) passphrase() []byte {
	w := g.w
	n := []int{8, 9, 12, 16, 17, 30}[w.Choose(6)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + w.Choose(94))
		if w.Chance(1, 10) {
			b[i] = byte(160 + w.Choose(90))
		}
	}
	switch w.Choose(8) {
	case 0: // what some programs would strip
		b[n-1] = ' '
		if w.Bool() {
			b[n-2] = ' '
		}
	case 1:
		b[0] = ' '
	case 2:
		b[n/2] = ' '
	}
	return b
}

// plan what is typed in a session
func (g *pkg09) plan(cls int, aliases []string, dir string) *session {
	w := g.w
	s := &session{cls: cls, class: classNames[cls], alias: aliases[w.Choose(2)], force: w.Bool()}
	if w.Chance(1, 8) {
		s.alias = ""
	}
	exists := s.alias != "" && g.target(dir+"/"+s.alias) != ""
	isdir := s.alias != "" && g.target(dir+"/"+s.alias) == "(directory)"
	asked := exists && !s.force
	p := g.passphrase()
	if asked {
		switch w.Choose(4) {
		case 0, 1:
			s.typed = append(s.typed, line([]string{"y", "Y"}[w.Choose(2)]))
		case 2:
			s.typed = append(s.typed, line([]string{"n", "", "N", "yes please", "q"}[w.Choose(5)]))
			s.quiet = true
		case 3:
			// something that would do as a passphrase if it were not asked
			l := line("no thank you")
			s.typed = [][]byte{l, l, l}
			s.quiet = true
			return s
		}
	}
	switch w.Choose(8) {
	case 0: // too short
		q := p[:w.Choose(8)]
		s.typed = append(s.typed, typing(w, q), typing(w, q))
		s.quiet = true
	case 1: // not the same
		q := append([]byte(nil), p...)
		switch w.Choose(8) {
		case 0:
			q[w.Choose(len(q))] ^= 1
			if q[0] < 33 {
				q[0] = 'Q'
			}
		case 4:
			q = append(q, ' ')
		case 5:
			q = append([]byte{' '}, q...)
		case 6: // the other case
			for i, c := range q {
				if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
					q[i] = c ^ 32
				}
			}
		case 7: // again from the start
			q = append(q, q...)
		case 1:
			q = append(q, 'x')
		case 2:
			q = q[:len(q)-1]
		case 3:
			q = append(q[1:len(q):len(q)], q[0])
		}
		if bytes.Equal(p, q) {
			q = append(q, 'z')
		}
		s.typed = append(s.typed, append(append([]byte(nil), p...), '\n'), append(q, '\n'))
		s.quiet = true
	case 2: // the terminal goes away, or is interrupted
		switch w.Choose(3) {
		case 0:
		case 1:
			s.typed = append(s.typed, typing(w, p))
		case 2:
			s.typed = append(s.typed, typing(w, p), append(append([]byte(nil), p...), 3))
		}
		s.quiet = true
	case 3:
		if w.Bool() {
			s.class = []string{"", "Node", "nodes", "none"}[w.Choose(4)]
			s.quiet = true
		}
		fallthrough
	default:
		s.typed = append(s.typed, typing(w, p), typing(w, p))
	}
	if !s.quiet {
		s.pass = p
		s.ok = !isdir
	}
	return s
}

// together: several forced sessions at once, one of which may be killed.
func (g *pkg09) together(cls int, keep *[]string, dir string, aliases []string) {
	w, fs := g.w, g.fs
	w.Fault("sessions at once")
	type run struct {
		alias, path string
		pass        []byte
		p           *sim.Proc
		done        bool
	}
	old := map[string]string{}
	seen := map[string]map[string]bool{}
	for _, a := range aliases {
		old[dir+"/"+a] = g.target(dir + "/" + a)
		seen[dir+"/"+a] = map[string]bool{}
	}
	var runs []*run
	var ts []*sim.Thread
	for i := w.Range(2, 3); i > 0; i-- {
		r := &run{alias: aliases[w.Choose(len(aliases))], pass: g.passphrase()}
		r.path = dir + "/" + r.alias
		g.pass = append(g.pass, r.pass)
		r.p = w.NewProc("pkeygen", "-class="+classNames[cls], "-alias="+r.alias, "-force")
		r.p.Stdin = [][]byte{typing(w, r.pass), typing(w, r.pass)}
		runs = append(runs, r)
	}
	fs.OnOp = func(kind, op string, in *vfs.Inode) {
		for _, p := range sim.SortedKeys(old) {
			now := g.target(p)
			if now == old[p] || seen[p][now] {
				continue
			}
			if now == "" {
				sim.Failf("alias-lost", "the alias is gone after %s %s", kind, op)
			}
			d := fs.Peek(p)
			if d == nil || d.Kind != vfs.KDir || len(d.Ent) < 2 {
				sim.Failf("alias-lost", "the alias is redirected to %s, which holds no complete key, after %s %s", now, kind, op)
			}
			seen[p][now] = true
		}
	}
	if w.Chance(1, 3) {
		fs.CrashAt = w.Choose(100)
		fs.CrashKill = true
		fs.CrashProc = runs[0].p
	}
	rate := w.SwitchRate
	w.SwitchRate = w.Range(1, 5)
	w.Preemptive(true)
	for _, r := range runs {
		ts = append(ts, w.Spawn(r.p, "pkeygen", func() {
			pkeygen.ZZMain()
			r.done = true
		}))
	}
	w.Join(ts...)
	w.Preemptive(false)
	w.SwitchRate = rate
	fs.OnOp = nil
	fs.CrashAt, fs.CrashProc, fs.Crashed = -1, nil, false
	for _, a := range aliases {
		path := dir + "/" + a
		var passes [][]byte
		succ, killed := false, false
		for _, r := range runs {
			if r.path != path {
				continue
			}
			passes = append(passes, r.pass)
			if r.p.PanicVal != nil {
				sim.Failf("panic", "the session panicked: %v", r.p.PanicVal)
			}
			out := r.p.Out.String()
			ok := !r.p.Killed && (r.done || r.p.Exited && r.p.ExitCode == 0)
			succ = succ || ok || strings.Contains(out, "Created [")
			killed = killed || r.p.Killed
			w.Ev("ended", r.alias, ok, r.p.Killed)
			if !ok && !r.p.Killed && old[path] != "(directory)" {
				sim.Failf("refused", "a session with nothing wrong, at the same time as others, fails: it said: %q", out)
			}
			if ok || strings.Contains(out, "Generated [") {
				if id := hexID.FindString(out); id != "" {
					*keep = append(*keep, id)
					g.passOf[id] = r.pass
				}
			}
		}
		now := g.target(path)
		if now == old[path] && succ {
			sim.Failf("unacked", "a session reports alias %s, which still is %q", a, now)
		}
		if now != old[path] {
			if why := g.complete(cls, now, passes); why != "" {
				sim.Failf("alias-lost", "alias %s was redirected from %s to %s, which is not a complete new key: %s", a, old[path], now, why)
			}
		}
		may := map[string]bool{now: true}
		if killed {
			for t := range seen[path] {
				may[t] = true
			}
			if !succ {
				may[old[path]] = true
			}
		}
		g.alias[path] = may
	}
	if w.Bool() {
		fs.PowerOff()
		for _, a := range aliases {
			now := g.target(dir + "/" + a)
			if !g.alias[dir+"/"+a][now] {
				sim.Failf("alias-lost", "after power loss, alias %s is %q, may only be one of %v", a, now, sim.SortedKeys(g.alias[dir+"/"+a]))
			}
			g.alias[dir+"/"+a] = map[string]bool{now: true}
		}
	}
	for _, id := range *keep {
		if why := g.complete(cls, dir+"/"+id, [][]byte{g.passOf[id]}); why != "" {
			sim.Failf("unacked", "key %s was reported as generated, but %s", id, why)
		}
	}
}

func (g *pkg09) session(s *session, faults bool, keep *[]string, dir string, aliases []string) {
	w, fs := g.w, g.fs
	args := []string{"-class=" + s.class, "-alias=" + s.alias}
	if w.Bool() {
		args = []string{"-class", s.class, "-alias", s.alias}
	}
	if s.force {
		args = append(args, "-force")
	}
	if s.alias == "" && w.Bool() {
		args = []string{"-class", s.class}
	}
	p := w.NewProc("pkeygen", args...)
	if g.onePid > 0 { // as in a container, where every run is process number so
		p.Pid = g.onePid
	}
	p.Stdin = s.typed
	garbled := fs.Garbled
	if w.Chance(1, 15) {
		p.FailOut = func(n int) (int, error) { return 0, fmt.Errorf("broken pipe") }
	}
	path := dir + "/" + s.alias
	w.Advance(int64(w.Choose(100)) * 1e9)
	before := tree(fs)
	old := g.target(path)
	w.Ev("session", s.class, s.alias, s.force, s.quiet, string(s.pass), old)
	// at every instant, the alias is the old or points at a complete new key
	fs.OnOp = func(kind, op string, in *vfs.Inode) {
		if s.alias == "" || fs.Crashed {
			return
		}
		now := g.target(path)
		if now == old {
			return
		}
		if now == "" {
			sim.Failf("alias-lost", "the alias is gone after %s %s", kind, op)
		}
		d := fs.Peek(path)
		if d == nil || d.Kind != vfs.KDir || len(d.Ent) < 2 {
			sim.Failf("alias-lost", "the alias is redirected to %s, which holds no complete key, after %s %s", now, kind, op)
		}
	}
	end := w.RunIn(p, pkeygen.ZZMain)
	fs.OnOp = nil
	fs.CrashAt = -1
	fs.FaultsOn = false
	fs.Garble = 0
	cut := fs.Crashed && !fs.CrashKill
	if end.Panicked {
		sim.Failf("panic", "the session panicked: %s", end)
	}
	out := p.Out.String()
	success := !end.Killed && (end.Returned || end.Exited && end.Code == 0)
	reportedKey := strings.Contains(out, "Generated [")
	reportedAlias := strings.Contains(out, "Created [")
	w.Ev("ended", end.String(), reportedKey, reportedAlias, fs.Crashed)
	disturbed := fs.Crashed || faults || end.Killed || fs.Garbled != garbled
	if s.quiet {
		if success || reportedKey || reportedAlias {
			sim.Failf("stored", "a session that was declined or given no valid passphrase reports success")
		}
		if !cut {
			after := tree(fs)
			for _, k := range sim.SortedKeys(after) {
				if before[k] != after[k] {
					sim.Failf("stored", "a session that was declined or given no valid passphrase changed %s", k)
				}
			}
			if len(after) != len(before) {
				sim.Failf("stored", "a session that was declined or given no valid passphrase removed something")
			}
		}
	}
	if s.ok && !disturbed && !success {
		sim.Failf("refused", "a session with nothing wrong fails: %s; it said: %q", end, out)
	}
	// what the alias may be now
	if s.alias != "" {
		may := g.alias[path]
		now := g.target(path)
		if !may[now] {
			if s.pass == nil {
				sim.Failf("alias-lost", "alias %s became %q, was one of %v", s.alias, now, sim.SortedKeys(may))
			}
			if now == "" {
				sim.Failf("alias-lost", "alias %s is gone, was one of %v", s.alias, sim.SortedKeys(may))
			}
			if why := g.complete(s.cls, now, [][]byte{s.pass}); why != "" {
				sim.Failf("alias-lost", "alias %s was redirected from %v to %s, which is not a complete new key: %s", s.alias, sim.SortedKeys(may), now, why)
			}
			may[now] = true
		}
		if cut {
			g.alias[path] = map[string]bool{now: true}
		}
		if success || reportedAlias {
			if now == old || s.pass == nil {
				sim.Failf("unacked", "the session reports an alias, which still is %q", now)
			}
			if why := g.complete(s.cls, now, [][]byte{s.pass}); why != "" {
				sim.Failf("unacked", "the session reports key and alias, but what alias %s points at is not complete: %s", s.alias, why)
			}
			if p.FailOut == nil && !strings.Contains(out, now[strings.LastIndex(now, "/")+1:]) {
				sim.Failf("unacked", "the alias is not of the key that was reported")
			}
			g.alias[path] = map[string]bool{now: true}
		}
	}
	if success || reportedKey {
		id := ""
		for _, x := range hexID.FindAllString(out, -1) {
			id = x
		}
		if id == "" && p.FailOut == nil {
			sim.Failf("unacked", "the session reports no key: %q", out)
		}
		if id != "" {
			*keep = append(*keep, id)
			g.passOf[id] = s.pass
		}
	}
	if !cut && w.Chance(1, 3) {
		fs.PowerOff()
		w.Probe("power-off after a session")
		cut = true
	}
	// everything acknowledged is there, durable, and opens with what was typed
	for _, a := range aliases {
		now := g.target(dir + "/" + a)
		if !g.alias[dir+"/"+a][now] {
			sim.Failf("alias-lost", "alias %s is %q, may only be one of %v", a, now, sim.SortedKeys(g.alias[dir+"/"+a]))
		}
		if cut {
			g.alias[dir+"/"+a] = map[string]bool{now: true}
		}
	}
	for _, id := range *keep {
		if why := g.complete(s.cls, dir+"/"+id, [][]byte{g.passOf[id]}); why != "" {
			sim.Failf("unacked", "key %s was reported as generated, but %s", id, why)
		}
	}
	// and at the load prompt, by its id or its alias
	if (success || reportedAlias) && s.pass != nil {
		id := (*keep)[max(len(*keep)-1, 0):]
		name := s.alias
		if name == "" || w.Bool() && len(id) == 1 {
			if len(id) == 0 {
				return
			}
			name = id[0]
		}
		pass := s.pass
		if name != s.alias {
			pass = g.passOf[name]
		}
		right := w.Choose(3) > 0
		q := append([]byte(nil), pass...)
		if !right {
			if i := w.Choose(min(len(q), 16)); q[i] == 'a' {
				q[i] = 'b'
			} else {
				q[i] = 'a'
			}
		}
		l := w.NewProc("loader")
		l.Stdin = [][]byte{typing(w, q)}
		var key *ecdsa.PrivateKey
		var err error
		le := w.RunIn(l, func() { key, err = util.LCLoadPrivKeyPrompt(s.cls, name) })
		if !le.Returned {
			sim.Failf("panic", "the load prompt: %s", le)
		}
		if right && (err != nil || key == nil) {
			sim.Failf("prompt", "the passphrase of key %s typed at the load prompt does not open it: %v", name, err)
		}
		if !right && err == nil {
			sim.Failf("prompt", "another passphrase typed at the load prompt opens the key")
		}
	}
}

// c06sessions: sessions of the key generation program and of the prompts that
// read a passphrase. What was typed and what was generated is looked for in all
// files, names, output and logs there ever were.
func c06sessions(w *sim.World) {
	fs := newMachine(w)
	g := &pkg09{w: w, fs: fs, alias: map[string]map[string]bool{}, passOf: map[string][]byte{}}
	cls := classes[w.Choose(len(classes))]
	dir := "/etc/poodle/" + classNames[cls]
	if w.Choose(3) > 0 {
		fs.MkdirAll(dir)
	}
	l := &leakWatch{w: w, loosened: map[string]bool{}}
	type snap struct {
		kind, p string
		in      vfs.Inode
	}
	var snaps []snap
	have := map[string]bool{}
	fs.OnOp = func(kind, p string, in *vfs.Inode) {
		s := snap{kind: kind, p: p}
		if in != nil {
			s.in = vfs.Inode{Kind: in.Kind, Mode: in.Mode, Target: in.Target, Data: append([]byte(nil), in.Data...)}
		}
		k := fmt.Sprint(p, s.in.Kind, s.in.Mode, s.in.Target, "\x00", string(s.in.Data))
		if !have[k] {
			have[k] = true
			snaps = append(snaps, s)
		}
	}
	typed := map[string]bool{}
	fs.FaultRate = 20
	for i := w.Range(1, 4); i > 0; i-- {
		fs.FaultsOn = w.Chance(1, 3)
		if w.Chance(1, 5) {
			fs.CrashAt = w.Choose(120)
			fs.CrashKill = w.Bool()
		}
		if w.Chance(1, 4) && len(g.pass) > 0 {
			// opened, or saved, at the prompt
			q := g.pass[w.Choose(len(g.pass))]
			if w.Chance(1, 3) {
				q = g.passphrase()
			}
			typed[string(q)] = true
			p := w.NewProc("prompted")
			p.Stdin = [][]byte{typing(w, q)}
			ids := []string{"home", "work"}
			ps, _ := fs.Files()
			for _, x := range ps {
				if id := hexID.FindString(x); id != "" {
					ids = append(ids, id)
				}
			}
			name := ids[w.Choose(len(ids))]
			save := w.Chance(1, 3)
			v := &kval{pool[w.Choose(len(pool))], padPass(q), i}
			if save {
				l.add(v)
				name = fmt.Sprintf("saved%d", i)
			}
			end := w.RunIn(p, func() {
				if w.Bool() {
					util.LCSetLoggerFileTmp()
				}
				if save {
					util.LCSaveKeyPairPrompt(cls, name, v.key.X, v.key.D)
				} else {
					util.LCLoadPrivKeyPrompt(cls, name)
				}
			})
			if end.Panicked {
				sim.Failf("panic", "at the prompt: %s", end)
			}
		} else {
			s := g.plan(cls, []string{"home", "work"}, dir)
			if s.pass != nil {
				g.pass = append(g.pass, s.pass)
				typed[string(s.pass)] = true
			}
			args := []string{"-class=" + s.class, "-alias=" + s.alias}
			if s.force {
				args = append(args, "-force")
			}
			p := w.NewProc("pkeygen", args...)
			p.Stdin = s.typed
			end := w.RunIn(p, pkeygen.ZZMain)
			if end.Panicked {
				sim.Failf("panic", "the session panicked: %s", end)
			}
			w.Ev("session", s.class, s.alias, s.force, end.String())
		}
		fs.CrashAt, fs.FaultsOn, fs.Crashed = -1, false, false
		if w.Chance(1, 6) {
			fs.PowerOff()
			fs.Crashed = false
		}
	}
	// the keys there are, of the passphrases there were
	fs.OnOp = nil
	if end := w.RunIn(w.NewProc("check"), func() {
		ps, _ := fs.Files()
		for _, x := range ps {
			id := hexID.FindString(x)
			if id == "" {
				continue
			}
			for _, q := range g.pass {
				if k, err := util.LCLoadPrivKey(cls, id, padPass(q)); err == nil {
					l.add(&kval{key: &poolKey{D: k.D, X: k.X}, secret: padPass(q)})
				}
			}
		}
	}); end.Panicked {
		sim.Failf("panic", "loading: %s", end)
	}
	for _, q := range sim.SortedKeys(typed) {
		l.addBytes("a passphrase", []byte(q))
	}
	for i := range snaps {
		var in *vfs.Inode
		if snaps[i].in.Mode != 0 || snaps[i].in.Data != nil {
			in = &snaps[i].in
		}
		l.onOp(snaps[i].kind, snaps[i].p, in)
	}
	for _, p := range w.Procs() {
		l.scan("standard output", p.Out.Bytes())
		l.scan("standard error", p.Err.Bytes())
	}
	w.NonTrivial = len(snaps) > 0
}
