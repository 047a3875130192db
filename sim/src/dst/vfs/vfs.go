// Package vfs is the simulated file system: a volatile tree (what running
// processes see) over a durable one (what survives power loss), and in between
// the writes and directory updates that no sync has covered yet.
//
// Model of durability. Data: fsync(file) makes the content, size and mode of
// that file durable; at a power failure each write since may be kept, lost, or
// (the last one kept) torn, and a file's new size may survive without its data.
// Names: a new, removed or renamed entry is durable after fsync of its
// directory; a rename is atomic. At a power failure the updates that are not
// durable survive either as a prefix of the order in which they were made (a
// journaling file system) or as any subset that respects the order per name
// (what POSIX permits). A failed fsync drops the dirty data: a later one does
// not bring it back.
package vfs

import (
	"path"
	"sort"
	"strings"
	"syscall"

	"dst/sim"
)

const (
	KFile = iota
	KDir
	KLink
)

type wop struct {
	off   int
	data  []byte
	trunc bool // truncate or extend to off
}

type Inode struct {
	Ino    int
	Kind   int
	Mode   uint32 // permission bits
	Data   []byte
	Target string
	Ent    map[string]*Inode
	Parent *Inode
	Mtime  int64

	durData []byte
	durMode uint32
	durEnt  map[string]*Inode
	pend    []wop
	modeSet bool // chmod not durable yet
	Gen     int
	Mount   bool // root of a file system of its own
}

type nameOp struct {
	dir  *Inode
	name string
	to   *Inode // nil: removed
}

// a metadata operation: applied as a whole or not at all
type metaOp struct {
	sets []nameOp
	what string
}

type FS struct {
	w       *sim.World
	Root    *Inode
	nino    int
	journal []*metaOp
	handles []*Handle

	// knobs of a run
	Ordered   bool // metadata persists as a prefix
	Quota     int  // bytes of space left for data; -1 unlimited
	FaultsOn  bool
	FaultRate int             // 1 in FaultRate calls fails
	FaultMask map[string]bool // allowed fault kinds; nil: all
	FaultFor  func(kind, p string) bool
	ShortRead bool
	FdLimit   int
	Garble    int // 1 in Garble writes is stored wrong, silently; 0: none
	Garbled   int

	// crash plan: at the CrashAt'th call from now (counting down) crash
	CrashAt   int  // -1 none
	CrashKill bool // only the process dies
	CrashProc *sim.Proc
	Crashed   bool // a crash took place since last cleared
	CrashOp   string
	CrashMid  bool // inside the operation that crashed

	Calls   int                              // system calls so far
	OnOp    func(kind, p string, ino *Inode) // after every call that changed something
	OnWrite func(ino *Inode)
}

func Of(w *sim.World) *FS { return w.FS.(*FS) }

func Get() *FS {
	if sim.W == nil || sim.W.FS == nil {
		sim.Harness("file system used outside a simulated machine")
	}
	return sim.W.FS.(*FS)
}

// New makes the file system of the machine: /, /etc, /tmp, /dev, all durable.
func New(w *sim.World) *FS {
	fs := &FS{w: w, Quota: -1, CrashAt: -1, FaultRate: 12, FdLimit: 1 << 20}
	fs.Root = fs.inode(KDir, 0755)
	w.FS = fs
	for _, d := range []string{"/etc", "/tmp", "/var", "/root", "/home", "/usr"} {
		in := fs.inode(KDir, 0755)
		in.Parent = fs.Root
		fs.Root.Ent[d[1:]] = in
		fs.Root.durEnt[d[1:]] = in
	}
	return fs
}

func (fs *FS) inode(kind int, mode uint32) *Inode {
	fs.nino++
	in := &Inode{Ino: fs.nino, Kind: kind, Mode: mode, durMode: mode, Mtime: fs.w.Now()}
	if kind == KDir {
		in.Ent = map[string]*Inode{}
		in.durEnt = map[string]*Inode{}
	}
	return in
}

// ---------------------------------------------------------------- paths

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/" + p // the working directory is /
	}
	return p
}

// walk resolves p. parent is the directory of the last component (nil if that
// does not exist), name the last component, in its inode (nil if absent).
func (fs *FS) walk(p string, follow bool) (parent *Inode, name string, in *Inode, err error) {
	return fs.walkFrom(fs.Root, clean(p), follow, 0)
}

func (fs *FS) walkFrom(dir *Inode, p string, follow bool, depth int) (*Inode, string, *Inode, error) {
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.HasPrefix(p, "/") {
		dir = fs.Root
	}
	trailing := strings.HasSuffix(p, "/") && strings.Trim(p, "/") != ""
	var parts []string
	for _, c := range strings.Split(p, "/") {
		if c != "" {
			parts = append(parts, c)
		}
	}
	if len(parts) == 0 {
		return dir, ".", dir, nil
	}
	for i, c := range parts {
		last := i == len(parts)-1
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if dir.Kind != KDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		var in *Inode
		switch c {
		case ".":
			in = dir
		case "..":
			in = dir.Parent
			if in == nil {
				in = fs.Root
			}
		default:
			in = dir.Ent[c]
		}
		if in == nil {
			if last {
				return dir, c, nil, nil
			}
			return nil, "", nil, syscall.ENOENT
		}
		if in.Kind == KLink && (!last || follow || trailing) {
			rest := strings.Join(parts[i+1:], "/")
			t := in.Target
			if rest != "" {
				t += "/" + rest
			}
			return fs.walkFrom(dir, t, follow, depth+1)
		}
		if last {
			if trailing && in.Kind != KDir {
				return nil, "", nil, syscall.ENOTDIR
			}
			if c == "." || c == ".." {
				return in.Parent, c, in, nil
			}
			return dir, c, in, nil
		}
		dir = in
	}
	panic("unreachable")
}

// Peek returns the inode at p without any simulated call, nil if absent.
func (fs *FS) Peek(p string) *Inode {
	_, _, in, err := fs.walk(p, true)
	if err != nil {
		return nil
	}
	return in
}

func (fs *FS) PeekL(p string) *Inode {
	_, _, in, err := fs.walk(p, false)
	if err != nil {
		return nil
	}
	return in
}

// Files returns every path of the volatile tree with its inode, sorted.
func (fs *FS) Files() (paths []string, inos []*Inode) {
	var rec func(p string, d *Inode)
	rec = func(p string, d *Inode) {
		for _, n := range sim.SortedKeys(d.Ent) {
			in := d.Ent[n]
			paths = append(paths, p+"/"+n)
			inos = append(inos, in)
			if in.Kind == KDir {
				rec(p+"/"+n, in)
			}
		}
	}
	rec("", fs.Root)
	return
}

// ---------------------------------------------------------------- calls

// The errors that Linux documents for each call, as far as they say that the
// call failed and nothing about what there is (that a name exists, or does not).
// Some are kinds that programs like to treat as harmless.
var errsFor = map[string][]syscall.Errno{
	"open":     {syscall.EIO, syscall.EMFILE, syscall.EACCES, syscall.ENFILE, syscall.EPERM, syscall.ESTALE, syscall.ENOMEM},
	"opendir":  {syscall.EIO, syscall.EMFILE, syscall.EACCES, syscall.ENFILE, syscall.EPERM, syscall.ENOMEM},
	"create":   {syscall.ENOSPC, syscall.EIO, syscall.EMFILE, syscall.EACCES, syscall.EROFS, syscall.EDQUOT, syscall.ENFILE, syscall.EPERM},
	"read":     {syscall.EIO, syscall.ESTALE, syscall.ENOMEM},
	"write":    {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG},
	"truncate": {syscall.EIO, syscall.EPERM},
	"fsync":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EINVAL, syscall.EROFS, syscall.ENOSYS},
	"syncdir":  {syscall.EIO, syscall.EINVAL, syscall.ENOTSUP, syscall.EROFS, syscall.ENOSPC},
	"close":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	"stat":     {syscall.EIO, syscall.EACCES, syscall.ESTALE, syscall.ENOMEM},
	"chmod":    {syscall.EPERM, syscall.EIO, syscall.EROFS, syscall.ENOTSUP},
	"mkdir":    {syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.EDQUOT, syscall.EMLINK, syscall.EPERM},
	"rename":   {syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.EXDEV, syscall.EBUSY, syscall.EPERM, syscall.EDQUOT},
	"link":     {syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EMLINK, syscall.EXDEV, syscall.EPERM},
	"symlink":  {syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.EDQUOT, syscall.EPERM},
	"unlink":   {syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.EBUSY, syscall.EPERM},
	"readlink": {syscall.EIO, syscall.ENOMEM},
	"readdir":  {syscall.EIO},
}

var errNames = map[syscall.Errno]string{
	syscall.EIO: "EIO", syscall.ENOSPC: "ENOSPC", syscall.EACCES: "EACCES", syscall.EMFILE: "EMFILE",
	syscall.EROFS: "EROFS", syscall.EPERM: "EPERM", syscall.EMLINK: "EMLINK", syscall.ENFILE: "ENFILE",
	syscall.ESTALE: "ESTALE", syscall.ENOMEM: "ENOMEM", syscall.EDQUOT: "EDQUOT", syscall.EFBIG: "EFBIG",
	syscall.EINVAL: "EINVAL", syscall.ENOSYS: "ENOSYS", syscall.ENOTSUP: "ENOTSUP", syscall.EXDEV: "EXDEV",
	syscall.EBUSY: "EBUSY",
}

func errName(e syscall.Errno) string {
	if n, ok := errNames[e]; ok {
		return n
	}
	return e.Error()
}

// ErrDead is what calls of a dead process get while it unwinds.
const ErrDead = syscall.ESRCH

// enter is the beginning of every simulated system call: scheduling point,
// crash plan, fault injection.
func (fs *FS) enter(kind, p string) error {
	if sim.Dying() {
		return ErrDead
	}
	sim.Point()
	fs.Calls++
	fs.w.Ev("sys."+kind, p)
	fs.crashPoint(kind, p)
	if fs.FaultsOn && (fs.FaultFor == nil || fs.FaultFor(kind, p)) {
		if fs.w.Chance(1, fs.FaultRate) {
			es := errsFor[kind]
			e := es[fs.w.Choose(len(es))]
			if fs.FaultMask == nil || fs.FaultMask[kind] {
				fs.w.Fault(kind + ":" + errName(e))
				return e
			}
		}
	}
	return nil
}

// crashPoint counts down to the planned crash.
func (fs *FS) crashPoint(kind, p string) {
	if fs.CrashAt < 0 {
		return
	}
	if fs.CrashProc != nil && sim.CurProc() != fs.CrashProc {
		return
	}
	if fs.CrashAt > 0 {
		fs.CrashAt--
		return
	}
	fs.CrashAt = -1
	fs.CrashOp = kind + " " + p
	fs.crashNow()
}

func (fs *FS) crashNow() {
	fs.Crashed = true
	if fs.CrashKill {
		fs.w.Fault("kill")
		fs.w.Ev("kill", fs.CrashOp)
		sim.CurProc().Kill()
		return
	}
	fs.PowerOff()
}

// crashAfter: the planned crash comes right after this call took effect, or in
// the middle of it.
func (fs *FS) willCrash() bool {
	return fs.CrashAt == 0 && (fs.CrashProc == nil || sim.CurProc() == fs.CrashProc) && !sim.Dying()
}

func (fs *FS) done(kind, p string, in *Inode) {
	if fs.OnOp != nil {
		fs.OnOp(kind, p, in)
	}
}

func (fs *FS) meta(what string, sets ...nameOp) {
	for _, s := range sets {
		if s.to == nil {
			delete(s.dir.Ent, s.name)
		} else {
			s.dir.Ent[s.name] = s.to
			if s.to.Kind == KDir {
				s.to.Parent = s.dir
			}
		}
	}
	fs.journal = append(fs.journal, &metaOp{sets, what})
}

// ---------------------------------------------------------------- files

type Handle struct {
	fs     *FS
	In     *Inode
	Path   string
	pos    int
	rd, wr bool
	app    bool
	Closed bool
	proc   *sim.Proc
	dirOff int
	Fd     int
}

const (
	ORDWR   = syscall.O_RDWR
	OWRONLY = syscall.O_WRONLY
	OCREATE = syscall.O_CREAT
	OEXCL   = syscall.O_EXCL
	OTRUNC  = syscall.O_TRUNC
	OAPPEND = syscall.O_APPEND
	OSYNC   = syscall.O_SYNC
	ODIR    = syscall.O_DIRECTORY
)

const Umask = 022

func (fs *FS) nopen(p *sim.Proc) int {
	n := 0
	for _, h := range fs.handles {
		if h.proc == p && !h.Closed {
			n++
		}
	}
	return n
}

func (fs *FS) Open(p string, flags int, perm uint32) (*Handle, error) {
	parent, name, in, werr := fs.walk(p, flags&syscall.O_NOFOLLOW == 0)
	kind := "open"
	if werr == nil && in == nil && flags&OCREATE != 0 {
		kind = "create"
	} else if in != nil && in.Kind == KDir {
		kind = "opendir"
	}
	if err := fs.enter(kind, p); err != nil {
		return nil, err
	}
	// look again: enter may have let others run
	parent, name, in, werr = fs.walk(p, flags&syscall.O_NOFOLLOW == 0)
	if werr != nil {
		return nil, werr
	}
	if in == nil {
		if flags&OCREATE == 0 {
			return nil, syscall.ENOENT
		}
		if strings.HasSuffix(p, "/") {
			return nil, syscall.EISDIR
		}
		if parent.Kind != KDir {
			return nil, syscall.ENOTDIR
		}
	} else {
		if flags&OCREATE != 0 && flags&OEXCL != 0 {
			return nil, syscall.EEXIST
		}
		if in.Kind == KLink {
			return nil, syscall.ELOOP
		}
		if in.Kind == KDir && (flags&(ORDWR|OWRONLY) != 0 || flags&OCREATE != 0) {
			return nil, syscall.EISDIR
		}
		if flags&ODIR != 0 && in.Kind != KDir {
			return nil, syscall.ENOTDIR
		}
	}
	if fs.nopen(sim.CurProc()) >= fs.FdLimit {
		return nil, syscall.EMFILE
	}
	if in == nil {
		in = fs.inode(KFile, perm&07777&^Umask)
		fs.meta("create "+p, nameOp{parent, name, in})
		fs.done("create", p, in)
	} else if flags&OTRUNC != 0 && in.Kind == KFile && flags&(ORDWR|OWRONLY) != 0 {
		if len(in.Data) > 0 {
			in.write(wop{off: 0, trunc: true})
		}
		fs.done("trunc", p, in)
	}
	h := &Handle{fs: fs, In: in, Path: p, proc: sim.CurProc(), app: flags&OAPPEND != 0}
	h.rd = flags&OWRONLY == 0
	h.wr = flags&(ORDWR|OWRONLY) != 0
	h.Fd = 3 + fs.nopen(h.proc)
	fs.handles = append(fs.handles, h)
	if len(fs.handles) > 64 {
		var live []*Handle
		for _, x := range fs.handles {
			if !x.Closed && !x.proc.Dead {
				live = append(live, x)
			}
		}
		fs.handles = live
	}
	return h, nil
}

func (in *Inode) write(o wop) {
	in.apply(o)
	in.pend = append(in.pend, o)
	in.Gen++
}

func (in *Inode) apply(o wop) { in.Data = applyTo(in.Data, o) }

func applyTo(d []byte, o wop) []byte {
	if o.trunc {
		if o.off <= len(d) {
			return append([]byte(nil), d[:o.off]...)
		}
		return append(append([]byte(nil), d...), make([]byte, o.off-len(d))...)
	}
	end := o.off + len(o.data)
	n := make([]byte, max(end, len(d)))
	copy(n, d)
	copy(n[o.off:], o.data)
	return n
}

// Write writes all of b, or fewer with an error (like a blocking write loop).
func (h *Handle) Write(b []byte, at int) (int, error) {
	fs := h.fs
	if err := fs.check(h); err != nil {
		return 0, err
	}
	if !h.wr {
		return 0, syscall.EBADF
	}
	if fs.willCrash() && len(b) > 0 && fs.w.Bool() {
		// the crash comes with part of the data handed over
		fs.CrashAt = -1
		fs.CrashOp = "write " + h.Path
		n := fs.w.Choose(len(b) + 1)
		h.put(b[:n], at)
		fs.CrashMid = true
		fs.w.Probe("crash inside write")
		fs.crashNow()
		return 0, ErrDead
	}
	if err := fs.enter("write", h.Path); err != nil {
		n := 0
		if err != ErrDead && len(b) > 0 && fs.w.Bool() {
			n = fs.w.Choose(len(b))
			if n > 0 {
				fs.w.Probe("short write")
				h.put(b[:n], at)
				fs.done("write", h.Path, h.In)
			}
		}
		return n, err
	}
	if fs.Quota >= 0 {
		pos := at
		if pos < 0 {
			pos = h.pos
			if h.app {
				pos = len(h.In.Data)
			}
		}
		need := pos + len(b) - len(h.In.Data)
		if need > fs.Quota {
			n := len(b) - (need - fs.Quota)
			if n < 0 {
				n = 0
			}
			fs.w.Fault("disk full")
			if n > 0 {
				fs.Quota = 0
				h.put(b[:n], at)
				fs.done("write", h.Path, h.In)
			}
			return n, syscall.ENOSPC
		}
		if need > 0 {
			fs.Quota -= need
		}
	}
	if fs.Garble > 0 && len(b) > 0 && fs.w.Choose(fs.Garble) == 0 {
		// the device reports success and stores something else
		b = append([]byte(nil), b...)
		b[fs.w.Choose(len(b))] ^= 1 << fs.w.Choose(8)
		fs.Garbled++
		fs.w.Fault("write: stored wrong")
	}
	h.put(b, at)
	fs.done("write", h.Path, h.In)
	return len(b), nil
}

func (h *Handle) put(b []byte, at int) {
	if len(b) == 0 {
		return
	}
	pos := at
	if at < 0 {
		pos = h.pos
		if h.app {
			pos = len(h.In.Data)
		}
		h.pos = pos + len(b)
	}
	h.In.Mtime = h.fs.w.Now()
	h.In.write(wop{off: pos, data: append([]byte(nil), b...)})
	h.fs.w.Ev("wrote", h.Path, len(b))
}

func (fs *FS) check(h *Handle) error {
	if sim.Dying() || h.proc.Dead {
		return ErrDead
	}
	if h.Closed {
		return syscall.EBADF
	}
	return nil
}

// Read; 0, nil at end of file.
func (h *Handle) Read(b []byte, at int) (int, error) {
	fs := h.fs
	if err := fs.check(h); err != nil {
		return 0, err
	}
	if h.In.Kind == KDir {
		return 0, syscall.EISDIR
	}
	if !h.rd {
		return 0, syscall.EBADF
	}
	if err := fs.enter("read", h.Path); err != nil {
		return 0, err
	}
	pos := at
	if at < 0 {
		pos = h.pos
	}
	if pos >= len(h.In.Data) {
		return 0, nil
	}
	n := len(h.In.Data) - pos
	if n > len(b) {
		n = len(b)
	}
	if fs.ShortRead && n > 1 && at < 0 && fs.w.Chance(1, 4) {
		n = 1 + fs.w.Choose(n)
		fs.w.Fault("short read")
	}
	copy(b, h.In.Data[pos:pos+n])
	if at < 0 {
		h.pos += n
	}
	return n, nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if err := h.fs.check(h); err != nil {
		return 0, err
	}
	base := 0
	switch whence {
	case 1:
		base = h.pos
	case 2:
		base = len(h.In.Data)
	}
	n := int64(base) + off
	if n < 0 {
		return 0, syscall.EINVAL
	}
	h.pos = int(n)
	h.dirOff = 0
	return n, nil
}

func (h *Handle) Truncate(n int64) error {
	if err := h.fs.check(h); err != nil {
		return err
	}
	if !h.wr || n < 0 {
		return syscall.EINVAL
	}
	if err := h.fs.enter("truncate", h.Path); err != nil {
		return err
	}
	h.In.write(wop{off: int(n), trunc: true})
	h.fs.done("trunc", h.Path, h.In)
	return nil
}

func (h *Handle) Chmod(mode uint32) error {
	if err := h.fs.check(h); err != nil {
		return err
	}
	if err := h.fs.enter("chmod", h.Path); err != nil {
		return err
	}
	h.In.Mode = mode & 07777
	h.In.modeSet = true
	h.fs.done("chmod", h.Path, h.In)
	return nil
}

func (h *Handle) Sync() error {
	fs := h.fs
	if err := fs.check(h); err != nil {
		return err
	}
	kind := "fsync"
	if h.In.Kind == KDir {
		kind = "syncdir"
	}
	if err := fs.enter(kind, h.Path); err != nil {
		if err != ErrDead && kind == "fsync" && fs.w.Bool() {
			// dirty pages are dropped from the set to write back
			if len(h.In.pend) > 0 {
				fs.w.Probe("failed fsync lost data")
				h.In.pend = nil
			}
		}
		return err
	}
	if h.In.Kind == KDir {
		fs.commitDir(h.In)
	} else {
		h.In.commit()
		if fs.Ordered {
			fs.commitAll()
		}
	}
	return nil
}

func (in *Inode) commit() {
	for _, o := range in.pend {
		in.durData = applyTo(in.durData, o)
	}
	in.pend = nil
	in.durMode = in.Mode
	in.modeSet = false
}

func (m *metaOp) apply() {
	for _, s := range m.sets {
		if s.to == nil {
			delete(s.dir.durEnt, s.name)
		} else {
			s.dir.durEnt[s.name] = s.to
		}
	}
}

func (fs *FS) commitAll() {
	for _, m := range fs.journal {
		m.apply()
	}
	fs.journal = nil
}

type dirName struct {
	d *Inode
	n string
}

func (fs *FS) commitDir(d *Inode) {
	if fs.Ordered {
		fs.commitAll()
		return
	}
	// everything that touches d, and what came before on the same names
	need := make([]bool, len(fs.journal))
	names := map[dirName]bool{}
	for i := len(fs.journal) - 1; i >= 0; i-- {
		m := fs.journal[i]
		for _, s := range m.sets {
			if s.dir == d || names[dirName{s.dir, s.name}] {
				need[i] = true
			}
		}
		if need[i] {
			for _, s := range m.sets {
				names[dirName{s.dir, s.name}] = true
			}
		}
	}
	var rest []*metaOp
	for i, m := range fs.journal {
		if need[i] {
			m.apply()
		} else {
			rest = append(rest, m)
		}
	}
	fs.journal = rest
}

func (h *Handle) Close() error {
	if sim.Dying() || h.proc.Dead {
		h.Closed = true
		return ErrDead
	}
	if h.Closed {
		return syscall.EBADF
	}
	h.Closed = true
	return h.fs.enter("close", h.Path)
}

// ---------------------------------------------------------------- names

func (fs *FS) Stat(p string, follow bool) (*Inode, error) {
	if err := fs.enter("stat", p); err != nil {
		return nil, err
	}
	_, _, in, err := fs.walk(p, follow)
	if err != nil {
		return nil, err
	}
	if in == nil {
		return nil, syscall.ENOENT
	}
	return in, nil
}

func (fs *FS) Mkdir(p string, perm uint32) error {
	if err := fs.enter("mkdir", p); err != nil {
		return err
	}
	parent, name, in, err := fs.walk(strings.TrimRight(p, "/"), false)
	if strings.Trim(p, "/") == "" {
		return syscall.EEXIST
	}
	if err != nil {
		return err
	}
	if in != nil {
		return syscall.EEXIST
	}
	if parent.Kind != KDir {
		return syscall.ENOTDIR
	}
	n := fs.inode(KDir, perm&07777&^Umask)
	fs.meta("mkdir "+p, nameOp{parent, name, n})
	fs.done("mkdir", p, n)
	return nil
}

func (fs *FS) Symlink(target, p string) error {
	if err := fs.enter("symlink", p); err != nil {
		return err
	}
	parent, name, in, err := fs.walk(p, false)
	if err != nil {
		return err
	}
	if in != nil {
		return syscall.EEXIST
	}
	n := fs.inode(KLink, 0777)
	n.Target = target
	fs.meta("symlink "+p, nameOp{parent, name, n})
	fs.done("symlink", p, n)
	return nil
}

func (fs *FS) Link(old, p string) error {
	if err := fs.enter("link", p); err != nil {
		return err
	}
	_, _, src, err := fs.walk(old, false)
	if err != nil {
		return err
	}
	if src == nil {
		return syscall.ENOENT
	}
	if src.Kind == KDir {
		return syscall.EPERM
	}
	parent, name, in, err := fs.walk(p, false)
	if err != nil {
		return err
	}
	if in != nil {
		return syscall.EEXIST
	}
	if lp, _, _, err := fs.walk(old, false); err != nil || fs.device(lp) != fs.device(parent) {
		return syscall.EXDEV
	}
	fs.meta("link "+p, nameOp{parent, name, src})
	fs.done("link", p, src)
	return nil
}

func (fs *FS) Readlink(p string) (string, error) {
	if err := fs.enter("readlink", p); err != nil {
		return "", err
	}
	_, _, in, err := fs.walk(p, false)
	if err != nil {
		return "", err
	}
	if in == nil {
		return "", syscall.ENOENT
	}
	if in.Kind != KLink {
		return "", syscall.EINVAL
	}
	return in.Target, nil
}

// Remove: dir tells whether rmdir (1), unlink (0) or either (2) is meant.
func (fs *FS) Remove(p string, dir int) error {
	if err := fs.enter("unlink", p); err != nil {
		return err
	}
	parent, name, in, err := fs.walk(strings.TrimRight(p, "/"), false)
	if err != nil {
		return err
	}
	if in == nil {
		return syscall.ENOENT
	}
	if name == "." || name == ".." || in == fs.Root {
		return syscall.EINVAL
	}
	if in.Kind == KDir {
		if dir == 0 {
			return syscall.EISDIR
		}
		if len(in.Ent) > 0 {
			return syscall.ENOTEMPTY
		}
	} else if dir == 1 {
		return syscall.ENOTDIR
	}
	fs.meta("unlink "+p, nameOp{parent, name, nil})
	fs.done("unlink", p, in)
	return nil
}

// device is the root of the file system a directory is in.
func (fs *FS) device(d *Inode) *Inode {
	for ; d != nil && d != fs.Root; d = d.Parent {
		if d.Mount {
			return d
		}
	}
	return fs.Root
}

// MountTmp puts /tmp, /var and /home on file systems of their own.
func (fs *FS) MountTmp() {
	for _, d := range []string{"tmp", "var", "home"} {
		fs.Root.Ent[d].Mount = true
	}
}

func (fs *FS) Rename(old, p string) error {
	if err := fs.enter("rename", old+" -> "+p); err != nil {
		return err
	}
	op, on, src, err := fs.walk(strings.TrimRight(old, "/"), false)
	if err != nil {
		return err
	}
	if src == nil {
		return syscall.ENOENT
	}
	np, nn, dst, err := fs.walk(strings.TrimRight(p, "/"), false)
	if err != nil {
		return err
	}
	if fs.device(op) != fs.device(np) {
		return syscall.EXDEV
	}
	if dst == src {
		return nil
	}
	if dst != nil {
		if src.Kind == KDir && dst.Kind != KDir {
			return syscall.ENOTDIR
		}
		if src.Kind != KDir && dst.Kind == KDir {
			return syscall.EISDIR
		}
		if dst.Kind == KDir && len(dst.Ent) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	for d := np; d != nil; d = d.Parent {
		if d == src {
			return syscall.EINVAL
		}
	}
	if fs.willCrash() {
		fs.w.Probe("crash right after rename")
	}
	fs.meta("rename "+old+" "+p, nameOp{op, on, nil}, nameOp{np, nn, src})
	fs.done("rename", p, src)
	return nil
}

func (fs *FS) Chmod(p string, mode uint32) error {
	if err := fs.enter("chmod", p); err != nil {
		return err
	}
	_, _, in, err := fs.walk(p, true)
	if err != nil {
		return err
	}
	if in == nil {
		return syscall.ENOENT
	}
	in.Mode = mode & 07777
	in.modeSet = true
	fs.done("chmod", p, in)
	return nil
}

func (fs *FS) Truncate(p string, n int64) error {
	if err := fs.enter("truncate", p); err != nil {
		return err
	}
	_, _, in, err := fs.walk(p, true)
	if err != nil {
		return err
	}
	if in == nil {
		return syscall.ENOENT
	}
	if in.Kind == KDir {
		return syscall.EISDIR
	}
	in.write(wop{off: int(n), trunc: true})
	fs.done("trunc", p, in)
	return nil
}

type DirEnt struct {
	Name string
	In   *Inode
}

// List returns what is left to read of a directory, n > 0 entries at most, in
// an order of the simulator's choosing for the first call.
func (h *Handle) List(n int) ([]DirEnt, error) {
	if err := h.fs.check(h); err != nil {
		return nil, err
	}
	if h.In.Kind != KDir {
		return nil, syscall.ENOTDIR
	}
	if err := h.fs.enter("readdir", h.Path); err != nil {
		return nil, err
	}
	names := sim.SortedKeys(h.In.Ent)
	var r []DirEnt
	for i := h.dirOff; i < len(names) && (n <= 0 || len(r) < n); i++ {
		r = append(r, DirEnt{names[i], h.In.Ent[names[i]]})
	}
	h.dirOff += len(r)
	return r, nil
}

// SyncAll is sync(2).
func (fs *FS) SyncAll() {
	if fs.enter("fsync", "*") != nil {
		return
	}
	fs.Settle()
}

// Settle makes everything durable (setup of scenarios).
func (fs *FS) Settle() {
	fs.commitAll()
	_, inos := fs.Files()
	for _, in := range inos {
		if in.Kind == KFile {
			in.commit()
		} else {
			in.durMode = in.Mode
			in.modeSet = false
		}
	}
	for _, h := range fs.handles {
		if h.In.Kind == KFile {
			h.In.commit()
		}
	}
}

// ---------------------------------------------------------------- power loss

// PowerOff kills every process and leaves what is durable plus some legal part
// of what is not.
func (fs *FS) PowerOff() {
	w := fs.w
	w.Fault("power-off")
	fs.CrashAt = -1
	fs.Crashed = true
	fs.FaultsOn = false
	// names
	style := w.Choose(4) // 0: nothing more; 1: everything; 2, 3: some
	n := len(fs.journal)
	if fs.Ordered {
		k := 0
		switch style {
		case 1:
			k = n
		case 2, 3:
			k = w.Choose(n + 1)
		}
		for _, m := range fs.journal[:k] {
			m.apply()
		}
		if k > 0 && k < n {
			w.Probe("journal cut")
		}
	} else {
		lost := map[dirName]bool{}
		nlost, nkept := 0, 0
		for _, m := range fs.journal {
			keep := false
			switch style {
			case 1:
				keep = true
			case 2:
				keep = w.Choose(2) == 1
			case 3:
				keep = w.Choose(4) > 0
			}
			for _, s := range m.sets {
				if lost[dirName{s.dir, s.name}] {
					keep = false
				}
			}
			if keep {
				m.apply()
				nkept++
			} else {
				nlost++
				for _, s := range m.sets {
					lost[dirName{s.dir, s.name}] = true
				}
			}
		}
		if nlost > 0 && nkept > 0 {
			w.Probe("directory updates reordered")
		}
	}
	w.Ev("power-off", fs.CrashOp, n, style)
	// data: of everything still reachable from the durable tree
	seen := map[*Inode]bool{}
	var order []*Inode
	var rec func(d *Inode)
	rec = func(d *Inode) {
		if seen[d] {
			return
		}
		seen[d] = true
		order = append(order, d)
		if d.Kind == KDir {
			for _, k := range sim.SortedKeys(d.durEnt) {
				rec(d.durEnt[k])
			}
		}
	}
	rec(fs.Root)
	for _, in := range order {
		if in.modeSet && w.Bool() {
			in.durMode = in.Mode
		}
		in.modeSet = false
		in.Mode = in.durMode
		switch in.Kind {
		case KDir:
			in.Ent = map[string]*Inode{}
			for k, v := range in.durEnt {
				in.Ent[k] = v
				if v.Kind == KDir {
					v.Parent = in
				}
			}
		case KFile:
			if len(in.pend) > 0 {
				in.loseData(w)
			}
			in.pend = nil
			in.Data = append([]byte(nil), in.durData...)
			in.Gen++
		}
	}
	fs.journal = nil
	fs.handles = nil
	w.KillAll()
}

func (in *Inode) loseData(w *sim.World) {
	switch w.Choose(5) {
	case 0: // nothing reached the disk
		w.Probe("unsynced data lost")
	case 1: // everything did
		for _, o := range in.pend {
			in.durData = applyTo(in.durData, o)
		}
	case 2, 3: // some of it, the last one perhaps torn
		k := w.Choose(len(in.pend)) + 1
		for i, o := range in.pend[:k] {
			if i == k-1 && !o.trunc && len(o.data) > 0 {
				n := w.Choose(len(o.data) + 1)
				if n < len(o.data) {
					w.Probe("torn write")
				}
				o.data = o.data[:n]
			}
			in.durData = applyTo(in.durData, o)
		}
	case 4: // the size, but not the data
		w.Probe("size without data")
		n := len(in.Data)
		d := make([]byte, n)
		copy(d, in.durData)
		in.durData = d
	}
}

// Corrupt replaces the content of a file behind everybody's back.
func (in *Inode) Corrupt(data []byte) {
	in.Data = append([]byte(nil), data...)
	in.durData = append([]byte(nil), data...)
	in.pend = nil
	in.Gen++
}

// SetMode behind everybody's back.
func (in *Inode) SetMode(m uint32) { in.Mode = m; in.durMode = m }

// Put creates a durable file (setup of scenarios), with its directories.
func (fs *FS) Put(p string, data []byte, mode uint32) *Inode {
	d := fs.MkdirAll(path.Dir(p))
	in := fs.inode(KFile, mode)
	in.Data = append([]byte(nil), data...)
	in.durData = append([]byte(nil), data...)
	d.Ent[path.Base(p)] = in
	d.durEnt[path.Base(p)] = in
	return in
}

// PutLink creates a durable symbolic link.
func (fs *FS) PutLink(p, target string) {
	d := fs.MkdirAll(path.Dir(p))
	in := fs.inode(KLink, 0777)
	in.Target = target
	d.Ent[path.Base(p)] = in
	d.durEnt[path.Base(p)] = in
}

// MkdirAll creates durable directories.
func (fs *FS) MkdirAll(p string) *Inode {
	d := fs.Root
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		n := d.Ent[c]
		if n == nil {
			n = fs.inode(KDir, 0755)
			n.Parent = d
			d.Ent[c] = n
			d.durEnt[c] = n
		}
		d = n
	}
	return d
}

// Delete removes an entry behind everybody's back.
func (fs *FS) Delete(p string) {
	parent, name, in, err := fs.walk(p, false)
	if err == nil && in != nil {
		delete(parent.Ent, name)
		delete(parent.durEnt, name)
	}
}

// Digest of the volatile tree (distinct states reached).
func (fs *FS) Digest() uint64 {
	h := uint64(14695981039346656037)
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
	}
	ps, ins := fs.Files()
	for i, p := range ps {
		mix(p)
		mix(string(ins[i].Data))
		mix(ins[i].Target)
	}
	return h
}

// Snapshot/Restore of the machine's disk: Fork returns a function that puts the
// file system (volatile and durable, with what is pending) back as it is now.
func (fs *FS) Fork() func() {
	type save struct {
		in      *Inode
		mode    uint32
		data    []byte
		ent     map[string]*Inode
		durData []byte
		durMode uint32
		durEnt  map[string]*Inode
		pend    []wop
		modeSet bool
		parent  *Inode
	}
	var saves []save
	seen := map[*Inode]bool{}
	cp := func(m map[string]*Inode) map[string]*Inode {
		if m == nil {
			return nil
		}
		c := make(map[string]*Inode, len(m))
		for k, v := range m {
			c[k] = v
		}
		return c
	}
	var rec func(d *Inode)
	rec = func(d *Inode) {
		if d == nil || seen[d] {
			return
		}
		seen[d] = true
		saves = append(saves, save{d, d.Mode, d.Data, cp(d.Ent), d.durData, d.durMode, cp(d.durEnt), append([]wop(nil), d.pend...), d.modeSet, d.Parent})
		for _, v := range d.Ent {
			rec(v)
		}
		for _, v := range d.durEnt {
			rec(v)
		}
	}
	rec(fs.Root)
	for _, m := range fs.journal {
		for _, s := range m.sets {
			rec(s.dir)
			rec(s.to)
		}
	}
	j := append([]*metaOp(nil), fs.journal...)
	q := fs.Quota
	return func() {
		for _, s := range saves {
			in := s.in
			in.Mode, in.Data, in.Ent, in.durData, in.durMode = s.mode, s.data, cp(s.ent), s.durData, s.durMode
			in.durEnt, in.pend, in.modeSet, in.Parent = cp(s.durEnt), append([]wop(nil), s.pend...), s.modeSet, s.parent
			in.Gen++
		}
		fs.journal = append([]*metaOp(nil), j...)
		fs.Quota = q
		fs.handles = nil
	}
}

// Pending tells how many updates a power failure could lose.
func (fs *FS) Pending() int {
	n := len(fs.journal)
	_, inos := fs.Files()
	for _, in := range inos {
		n += len(in.pend)
	}
	return n
}

func sortStrings(s []string) { sort.Strings(s) }

// Terminal is a point where a planned crash may come, too.
func (fs *FS) Terminal(kind string) { fs.crashPoint(kind, "") }
