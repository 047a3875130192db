package sim

import (
	"bytes"
	"fmt"
	"runtime"
)

// Proc is a simulated operating system process: it has its own package
// variables, standard streams and exit status. Threads of it share memory.
type Proc struct {
	W     *World
	Pid   int
	Name  string
	Args  []string
	Stdin [][]byte // what is typed, one element per read at most
	Out   bytes.Buffer
	Err   bytes.Buffer

	Dead     bool
	Killed   bool // by the simulator
	Exited   bool // by os.Exit or by returning from main
	ExitCode int
	PanicVal any // uncaught panic
	PanicStk string

	FailOut func(n int) (int, error) // fault on standard output

	threads []*Thread
	Skew    int64 // of the wall clock, ns
	inited  bool
	saved   []func()
	local   map[any]any
}

var curProc *Proc

type pkgState struct {
	name  string
	reset func()
	snap  func() func()
}

var packages []pkgState

// RegisterPackage is called by the rewritten packages of the code under test.
func RegisterPackage(name string, reset func(), snap func() func()) {
	packages = append(packages, pkgState{name, reset, snap})
}

func Packages() []string {
	var r []string
	for _, p := range packages {
		r = append(r, p.name)
	}
	return r
}

func resetPackages() {
	for _, p := range packages {
		p.reset()
	}
}

// switchProc swaps the package variables of the code under test.
func switchProc(p *Proc) {
	if p == curProc {
		return
	}
	if old := curProc; old != nil {
		old.saved = old.saved[:0]
		for _, k := range packages {
			old.saved = append(old.saved, k.snap())
		}
	}
	curProc = p
	for _, f := range p.saved {
		f()
	}
}

func (w *World) NewProc(name string, args ...string) *Proc {
	w.nextPid++
	p := &Proc{W: w, Pid: w.nextPid, Name: name, Args: append([]string{name}, args...), local: map[any]any{}}
	w.procs = append(w.procs, p)
	return p
}

// Procs are all processes there were.
func (w *World) Procs() []*Proc { return w.procs }

func CurProc() *Proc {
	if cur == nil {
		return nil
	}
	return cur.proc
}

// Local is per-process state of the simulated libraries.
func Local[T any](key string, mk func() T) T {
	p := CurProc()
	if p == nil {
		return mk()
	}
	if v, ok := p.local[key]; ok {
		return v.(T)
	}
	v := mk()
	p.local[key] = v
	return v
}

func (p *Proc) die() {
	p.Dead = true
	for _, t := range p.threads {
		if t.state != tDone {
			t.dying = true
		}
	}
}

func (p *Proc) panicked(t *Thread) {
	if p.Dead {
		return
	}
	p.PanicVal = t.PanicVal
	p.PanicStk = t.Stack
	p.die()
}

// Kill ends the process at once: nothing it does later has any effect.
func (p *Proc) Kill() {
	if p.Dead {
		return
	}
	p.Killed = true
	p.die()
	if cur != nil && cur.proc == p && !p.W.inEvent {
		runtime.Goexit()
	}
}

// Exit ends the current process with code.
func Exit(code int) {
	if cur == nil {
		panic(fmt.Sprintf("sim: exit %d outside a run", code))
	}
	p := cur.proc
	if cur == p.W.driver {
		Harness("os.Exit(%d) called by the driver", code)
	}
	if !p.Dead {
		p.Exited = true
		p.ExitCode = code
		p.die()
	}
	cur.dying = true
	runtime.Goexit()
}

// Death of a process, as its parent sees it.
type End struct {
	Returned bool // fn returned
	Exited   bool
	Code     int
	Killed   bool
	Panicked bool
	Val      any
	Stack    string
}

func (e End) String() string {
	switch {
	case e.Killed:
		return "killed"
	case e.Panicked:
		return fmt.Sprintf("panicked: %v [%s]", e.Val, Trim(e.Stack))
	case e.Exited:
		return fmt.Sprintf("exit %d", e.Code)
	case e.Returned:
		return "returned"
	}
	return "?"
}

func (p *Proc) End(t *Thread) End {
	return End{Returned: t.Returned, Exited: p.Exited, Code: p.ExitCode, Killed: p.Killed,
		Panicked: p.PanicVal != nil, Val: p.PanicVal, Stack: p.PanicStk}
}

// RunIn runs fn as a thread of p and waits for it to end.
func (w *World) RunIn(p *Proc, fn func()) End {
	t := w.Spawn(p, p.Name, fn)
	w.Join(t)
	return p.End(t)
}

// KillAll ends every process but the driver's (power failure).
func (w *World) KillAll() {
	me := false
	for _, p := range w.procs {
		if p == w.driver.proc || p.Dead {
			continue
		}
		p.Killed = true
		p.die()
		if cur != nil && cur.proc == p {
			me = true
		}
	}
	if me && !w.inEvent {
		runtime.Goexit()
	}
}

// TempNumber is the random part of temporary file names: few values, so that
// collisions are met.
func (w *World) TempNumber() int {
	if w.Chance(1, 4) {
		return w.Choose(3)
	}
	w.tmpn++
	return 1000 + w.tmpn
}

// ReadEntropy fills b from the machine's entropy source, or fails.
func (w *World) ReadEntropy(b []byte) (int, error) {
	Point()
	if w.EntropyFail != nil && !Dying() {
		if n, err, fail := w.EntropyFail(len(b)); fail {
			w.entropy.Fill(b[:n])
			if insideLibrary() {
				panic("crypto/rand: failed to read random data")
			}
			return n, err
		}
	}
	w.entropy.Fill(b)
	w.bias(b)
	if w.OnEntropy != nil {
		w.OnEntropy(b)
	}
	w.Ev("entropy", len(b))
	return len(b), nil
}

// bias makes rare outcomes of the source common: leading zeros, extremes, runs.
func (w *World) bias(b []byte) {
	switch w.EntropyBias {
	case 1:
		if len(b) > 0 && w.Chance(1, 2) {
			n := 1 + w.Choose(3)
			for i := 0; i < n && i < len(b); i++ {
				b[i] = 0
			}
		}
	case 2:
		if len(b) <= 8 && w.Chance(1, 2) {
			v := []byte{0xff, 0x00, 0x7f, 0x80, 0x01}[w.Choose(5)]
			for i := range b {
				b[i] = v
			}
		}
	case 3:
		if len(b) <= 16 && w.Chance(1, 2) {
			for i := range b {
				b[i] = byte(w.Choose(256))
			}
		}
	}
}

// ClockSkew is the offset of the current process's wall clock.
func (w *World) ClockSkew() int64 {
	if p := CurProc(); p != nil {
		return p.Skew
	}
	return 0
}
