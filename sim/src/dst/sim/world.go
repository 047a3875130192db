package sim

import (
	"bytes"
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
)

const (
	tRunnable = iota
	tBlocked
	tDone
)

type Thread struct {
	id     int
	name   string
	proc   *Proc
	resume chan struct{}
	state  int
	cond   func() bool
	mem    bool // cond looks at memory of the process
	old    any  // what a store that may be torn overwrites
	dying  bool
	what   string

	polling bool // tried a channel in vain since it last got anywhere
	fn      func()

	Returned bool   // fn returned normally
	Panicked bool   // fn ended by panic
	PanicVal any    // the panic value
	Stack    string // the stack of the panic
}

func (t *Thread) Done() bool { return t.state == tDone }

// Violation of a property, found during a run.
type Violation struct {
	Class string // short and stable: what kind of violation (kept while minimising)
	Msg   string
}

type event struct {
	at  int64
	seq uint64
	run func()
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() any     { o := *h; n := len(o); x := o[n-1]; *h = o[:n-1]; return x }

// World is one simulated run.
type World struct {
	Tape    *Tape
	entropy *Rng
	Tracing bool
	Log     []string
	hash    uint64

	threads []*Thread
	driver  *Thread
	procs   []*Proc
	nextPid int
	now     int64
	seq     uint64

	progress uint64 // changes whenever a thread or event got somewhere
	idle     int    // events since a thread could run
	q        evHeap

	limit      int64 // step budget
	memAt      int64 // steps when memory was looked at
	steps      int64 // consumed, not counting what is in slice
	slice      int64 // value ctr was last loaded with
	gap        int64 // steps until the next preemption
	gapSet     bool
	preemptive bool
	noPreempt  int
	Tearing    bool // stores of more than one word may be seen half done
	SwitchRate int  // out of 8: chance to switch at an explicit point

	stopping  bool
	inEvent   bool
	violation *Violation
	known     map[string]string
	harness   string // harness error
	finished  chan struct{}

	// statistics
	Switches   int
	Faults     map[string]int
	Probes     map[string]int
	NonTrivial bool
	Ops        int

	OnStep func() // called at explicit points (invariants)
	FS     any    // set by vfs
	tmpn   int

	// entropy source of the simulated machine
	EntropyFail func(n int) (int, error, bool) // asked before each read by the code under test
	EntropyBias int                            // 0 uniform; 1 often zero bytes first; 2 often 0xff; 3 runs of one byte
	OnEntropy   func(b []byte)
}

var W *World
var cur *Thread
var ctr int64 = 1 << 62

// Y is inserted before every statement of the code under test.
func Y() {
	ctr--
	if ctr <= 0 {
		slow()
	}
}

func Cur() *Thread { return cur }

// Active: a run is going on and the caller is one of its threads.
func Active() bool { return W != nil && cur != nil }

// Dying: the thread is being ended; what it does has no effect any more.
func Dying() bool { return cur != nil && cur.dying }

func slow() {
	w := W
	if w == nil || cur == nil {
		ctr = 1 << 62
		return
	}
	w.settle()
	if cur.dying {
		ctr = 1 << 20
		w.slice = ctr
		runtime.Goexit()
	}
	if w.steps >= w.limit {
		n := w.steps
		w.limit += 1 << 40
		w.load()
		Failf("hang", "no result within %d steps of the code under test (thread %s)", n, cur.name)
	}
	if w.steps-w.memAt >= memEvery {
		w.memAt = w.steps
		if inUse() > MaxHeap {
			if runtime.GC(); inUse() > MaxHeap/2 {
				w.load()
				Failf("memory", "more than %d MB of memory are in use (thread %s)", MaxHeap>>21, cur.name)
			}
		}
	}
	if w.preemptive && w.noPreempt == 0 && w.gapSet && w.gap <= 0 {
		w.reschedule(true)
	}
	w.load()
}

// memory is looked at every so many steps
const (
	memEvery = 1 << 20
	MaxHeap  = 1 << 30
)

var heapSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

func inUse() uint64 {
	metrics.Read(heapSample)
	return heapSample[0].Value.Uint64()
}

// load the step counter up to the next thing to do
func (w *World) load() {
	n := w.limit - w.steps
	if w.preemptive && w.noPreempt == 0 {
		if !w.gapSet && w.nrunnable() > 1 {
			w.drawGap()
		}
		if w.gapSet && w.gap < n {
			n = w.gap
		}
	}
	if n > memEvery {
		n = memEvery
	}
	if n < 1 {
		n = 1
	}
	w.slice = n
	ctr = n
}

// settle accounts for the steps done since the last load
func (w *World) settle() {
	done := w.slice - ctr
	w.steps += done
	w.gap -= done
	w.slice = 0
	ctr = 0
}

func (w *World) nrunnable() int {
	n := 0
	for _, t := range w.threads {
		if t.state == tRunnable && t != w.driver {
			n++
		}
	}
	return n
}

func (w *World) drawGap() {
	w.gapSet = true
	switch w.Choose(6) {
	case 0:
		w.gap = 1 << 40
	case 1:
		w.gap = int64(1 + w.Choose(4))
	case 2:
		w.gap = int64(1 + w.Choose(16))
	case 3:
		w.gap = int64(1 + w.Choose(64))
	case 4:
		w.gap = int64(1 + w.Choose(256))
	default:
		w.gap = int64(1 + w.Choose(2048))
	}
}

func (w *World) Steps() int64 {
	w.settle()
	w.load()
	return w.steps
}

// LimitSteps sets how many more steps the code under test may take.
func (w *World) LimitSteps(n int64) {
	w.settle()
	w.limit = w.steps + n
	w.load()
}

// ---------------------------------------------------------------- choices

func (w *World) Choose(n int) int { return w.Tape.choose(n) }

// Range returns lo..hi, lo being the benign choice.
func (w *World) Range(lo, hi int) int { return lo + w.Choose(hi-lo+1) }

// Chance is true num out of den times; false is the benign choice.
func (w *World) Chance(num, den int) bool { return w.Choose(den) >= den-num }

func Choose(n int) int         { return W.Choose(n) }
func Chance(num, den int) bool { return W.Chance(num, den) }
func (w *World) Bool() bool    { return w.Choose(2) == 1 }
func (w *World) Now() int64    { return w.now }
func (w *World) Entropy() *Rng { return w.entropy }

// Bytes returns n bytes; their content comes from a PRNG whose seed is a choice.
func (w *World) Bytes(n int) []byte {
	b := make([]byte, n)
	r := NewRng(uint64(w.Choose(1 << 20)))
	r.Fill(b)
	return b
}

func (r *Rng) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.Next()
		for j := i; j < len(b) && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// ---------------------------------------------------------------- log

const fnvPrime = 1099511628211

func (w *World) mix(v uint64) { w.hash = (w.hash ^ v) * fnvPrime; w.hash ^= w.hash >> 29 }

func (w *World) mixs(s string) {
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * fnvPrime
	}
	w.hash ^= w.hash >> 29
}

// Ev records an event in the hash of the run, and in its log when tracing.
func (w *World) Ev(kind string, args ...any) {
	w.Ops++
	w.mixs(kind)
	if cur != nil {
		w.mix(uint64(cur.id))
	}
	for _, a := range args {
		switch v := a.(type) {
		case int:
			w.mix(uint64(v))
		case int64:
			w.mix(uint64(v))
		case uint32:
			w.mix(uint64(v))
		case uint64:
			w.mix(v)
		case bool:
			if v {
				w.mix(1)
			} else {
				w.mix(2)
			}
		case string:
			w.mixs(v)
		case []byte:
			w.mixs(string(v))
		case error:
			w.mixs(v.Error())
		case nil:
			w.mix(3)
		default:
			w.mixs(fmt.Sprint(a))
		}
	}
	if w.Tracing {
		name := "-"
		if cur != nil {
			name = cur.name
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "t=%d %s %s", w.now, name, kind)
		for _, a := range args {
			if b, ok := a.([]byte); ok {
				fmt.Fprintf(&sb, " %s", short(b))
			} else {
				fmt.Fprintf(&sb, " %v", a)
			}
		}
		w.Log = append(w.Log, sb.String())
	}
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func (w *World) Hash() uint64 { return w.hash }

// Fault counts an injected fault that actually took effect.
func (w *World) Fault(kind string) {
	w.Faults[kind]++
	w.NonTrivial = true
	w.mixs(kind)
	if w.Tracing {
		w.Log = append(w.Log, fmt.Sprintf("t=%d FAULT %s", w.now, kind))
	}
}

func Fault(kind string) {
	if W != nil {
		W.Fault(kind)
	}
}

// Probe counts a rare condition reached.
func (w *World) Probe(kind string) { w.Probes[kind]++ }

// ---------------------------------------------------------------- failure

// Failf records a violation and ends the run.
func Failf(class, format string, args ...any) {
	w := W
	if w.violation == nil && w.harness == "" {
		w.violation = &Violation{Class: class, Msg: fmt.Sprintf(format, args...)}
		if w.Tracing {
			w.Log = append(w.Log, fmt.Sprintf("t=%d VIOLATION %s: %s", w.now, class, w.violation.Msg))
		}
	}
	w.stop()
}

func Assert(ok bool, class, format string, args ...any) {
	if !ok {
		Failf(class, format, args...)
	}
}

// Known reports a listed finding; the run goes on.
func (w *World) Known(id, msg string) { w.known[id] = msg }

func Failed() bool { return W != nil && W.violation != nil }

// Harness reports an error of the harness itself.
func Harness(format string, args ...any) {
	if W == nil {
		panic("harness: " + fmt.Sprintf(format, args...))
	}
	if W.harness == "" {
		W.harness = fmt.Sprintf(format, args...)
	}
	W.stop()
}

func (w *World) stop() {
	w.stopping = true
	if cur != nil && !w.inEvent {
		cur.dying = true
		runtime.Goexit()
	}
}

// ---------------------------------------------------------------- scheduling

func (w *World) spawn(p *Proc, name string, fn func()) *Thread {
	t := &Thread{id: len(w.threads), name: name, proc: p, resume: make(chan struct{}), fn: fn}
	w.threads = append(w.threads, t)
	p.threads = append(p.threads, t)
	if p.Dead {
		t.dying = true
	}
	go t.main(w)
	return t
}

func (t *Thread) main(w *World) {
	<-t.resume
	defer func() {
		// reached by return, panic (recovered below), or Goexit
		t.state = tDone
		w.progress++
		w.settle()
		if t == w.driver {
			w.stopping = true
		}
		next := w.pick(nil)
		if next == nil {
			cur = nil
			ctr = 1 << 62
			close(w.finished)
			return
		}
		w.give(next)
	}()
	defer func() {
		r := recover()
		if t.Returned || t.dying {
			return
		}
		if r != nil {
			t.Panicked = true
			t.PanicVal = r
			t.Stack = panicStack()
			if t != w.driver {
				t.proc.panicked(t)
			}
		}
	}()
	if t.dying {
		return
	}
	if !t.proc.inited {
		t.proc.inited = true
		w.noPreempt++
		resetPackages()
		w.noPreempt--
		w.settle()
		w.load()
	}
	t.fn()
	t.Returned = true
}

func panicStack() string { return string(debug.Stack()) }

// give passes the token to t
func (w *World) give(t *Thread) {
	t.state = tRunnable
	setCur(t)
	w.load()
	t.resume <- struct{}{}
}

func setCur(t *Thread) {
	cur = t
	switchProc(t.proc)
}

func (w *World) runnable() []*Thread {
	var r []*Thread
	w.inEvent = true
	proc := curProc
	for _, t := range w.threads {
		if t.state == tRunnable {
			r = append(r, t)
		} else if t.state == tBlocked {
			if t.mem && !t.dying {
				switchProc(t.proc)
			}
			if t.dying || t.cond() {
				r = append(r, t)
			}
		}
	}
	if proc != nil {
		switchProc(proc)
	}
	w.inEvent = false
	return r
}

// pick chooses who runs next, advancing simulated time when nobody can; nil at
// the end of the run. me, if given, is a thread that just blocked.
func (w *World) pick(me *Thread) *Thread {
	for {
		if w.stopping {
			for _, t := range w.threads {
				if t.state != tDone {
					t.dying = true
					return t
				}
			}
			return nil
		}
		r := w.runnable()
		if len(r) > 0 {
			w.idle = 0
			i := w.Choose(len(r))
			if len(r) > 1 {
				w.Switches++
				w.mix(uint64(r[i].id))
			}
			w.gapSet = false
			return r[i]
		}
		w.idle++
		if len(w.q) == 0 && w.idle <= 1<<18 && w.yielding() {
			w.now += 1000000
			w.progress++
			continue
		}
		if len(w.q) == 0 || w.idle > 1<<18 {
			if w.violation == nil && w.harness == "" {
				var names []string
				for _, t := range w.threads {
					if t.state != tDone {
						names = append(names, t.name+" at "+t.what)
					}
				}
				w.violation = &Violation{Class: "deadlock", Msg: "all threads blocked: " + strings.Join(names, ", ")}
			}
			w.stopping = true
			continue
		}
		e := heap.Pop(&w.q).(event)
		if e.at > w.now {
			w.now = e.at
		}
		w.inEvent = true
		w.progress++
		e.run()
		w.inEvent = false
	}
}

// yielding: there are threads that only gave way to others.
func (w *World) yielding() bool {
	for _, t := range w.threads {
		if t.state == tBlocked && t.what == "yield" {
			return true
		}
	}
	return false
}

// reschedule: the running thread offers to be preempted. Called settled;
// returns settled.
func (w *World) reschedule(must bool) {
	me := cur
	w.gapSet = false
	var o []*Thread
	for _, t := range w.runnable() {
		if t != me && t != w.driver {
			o = append(o, t)
		}
	}
	if len(o) == 0 || w.stopping {
		return
	}
	i := w.Choose(len(o))
	w.Switches++
	w.progress++
	w.NonTrivial = true
	w.mix(uint64(o[i].id) + 77)
	if w.Tracing {
		w.Log = append(w.Log, fmt.Sprintf("t=%d SWITCH %s -> %s", w.now, me.name, o[i].name))
	}
	w.give(o[i])
	<-me.resume
	if me.dying {
		runtime.Goexit()
	}
	w.settle()
}

// Point is an explicit scheduling point (file system, terminal, network call).
func Point() {
	w := W
	if w == nil || cur == nil || cur.dying || w.inEvent {
		return
	}
	if w.preemptive && w.noPreempt == 0 && w.nrunnable() > 1 && w.Choose(8) >= 8-w.SwitchRate {
		w.settle()
		w.reschedule(true)
		w.load()
	}
	if w.OnStep != nil {
		w.OnStep()
	}
}

// Block until cond holds. cond must not have side effects.
func Block(what string, cond func() bool) {
	if cur != nil {
		cur.polling = false
	}
	block(what, false, cond)
}

// BlockMem is Block for a cond that looks at the memory of the process, which
// may be a package variable.
func BlockMem(what string, cond func() bool) {
	if cur != nil {
		cur.polling = false
	}
	block(what, true, cond)
}

func block(what string, mem bool, cond func() bool) {
	w := W
	if w == nil || cur == nil {
		panic("sim: blocked for ever outside a run: " + what)
	}
	me := cur
	if me.dying {
		runtime.Goexit()
	}
	if cond() {
		return
	}
	if !me.polling {
		w.progress++
	}
	me.state = tBlocked
	me.cond = cond
	me.mem = mem
	me.what = what
	w.settle()
	next := w.pick(me)
	if next == me {
		me.state = tRunnable
		setCur(me)
		w.load()
	} else {
		w.give(next)
		<-me.resume
	}
	if me.dying {
		runtime.Goexit()
	}
}

// Yield lets another thread run.
func Yield() {
	w := W
	if w == nil || cur == nil || cur.dying || w.inEvent {
		return
	}
	w.settle()
	w.reschedule(true)
	w.load()
}

// Go starts a thread of the current process.
func Go(fn func()) {
	w := W
	if w == nil || cur == nil {
		panic("sim: go statement outside a simulated run")
	}
	p := cur.proc
	w.settle()
	w.preemptive = true
	w.spawn(p, fmt.Sprintf("%s+%d", p.Name, len(w.threads)), fn)
	w.load()
}

// Spawn starts a named thread in process p.
func (w *World) Spawn(p *Proc, name string, fn func()) *Thread {
	w.settle()
	t := w.spawn(p, name, fn)
	w.load()
	return t
}

// Join waits for threads.
func (w *World) Join(ts ...*Thread) {
	Block("join", func() bool {
		for _, t := range ts {
			if t.state != tDone {
				return false
			}
		}
		return true
	})
}

// Preemptive turns statement-level preemption of threads on.
func (w *World) Preemptive(on bool) {
	w.settle()
	w.preemptive = on
	w.Tearing = on && w.Bool()
	w.gapSet = false
	w.load()
}

// At schedules an event of the simulated world.
func (w *World) At(delay int64, run func()) {
	w.seq++
	heap.Push(&w.q, event{w.now + delay, w.seq, run})
}

// Sleep in simulated time.
func Sleep(d int64) {
	w := W
	if w == nil || cur == nil || cur.dying {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	done := false
	w.At(d, func() { done = true })
	Block("sleep", func() bool { return done })
}

// Advance the clock without anything happening.
func (w *World) Advance(d int64) { w.now += d }

// ---------------------------------------------------------------- run

type Result struct {
	Violation  *Violation
	Harness    string
	Known      map[string]string
	Tape       []uint32
	Hash       uint64
	Steps      int64
	SimNs      int64
	Switches   int
	Faults     map[string]int
	Probes     map[string]int
	NonTrivial bool
	Ops        int
	Log        []string
}

// Run executes scenario in a new world. seed drives the entropy streams only.
func Run(tape *Tape, seed uint64, tracing bool, scenario func(w *World)) *Result {
	w := &World{Tape: tape, entropy: NewRng(seed ^ 0xabcdef), Tracing: tracing,
		limit: 1 << 26, Faults: map[string]int{}, Probes: map[string]int{},
		known: map[string]string{}, finished: make(chan struct{}), nextPid: 100, SwitchRate: 3}
	W = w
	ctr = 0
	curProc = nil
	dp := w.NewProc("driver")
	d := w.spawn(dp, "driver", func() { scenario(w) })
	w.driver = d
	w.give(d)
	<-w.finished
	if d.Panicked && w.violation == nil && w.harness == "" {
		if InCodeUnderTest(d.Stack) {
			w.violation = &Violation{Class: "panic", Msg: fmt.Sprintf("panic in the code under test: %v [%s]", d.PanicVal, Trim(d.Stack))}
		} else {
			w.harness = fmt.Sprintf("panic in the harness: %v\n%s", d.PanicVal, d.Stack)
		}
	}
	for _, t := range w.threads {
		if t != d && t.Panicked && !InCodeUnderTest(t.Stack) && w.harness == "" {
			w.harness = fmt.Sprintf("panic in %s: %v\n%s", t.name, t.PanicVal, t.Stack)
		}
	}
	W = nil
	ctr = 1 << 62
	w.settleEnd()
	return &Result{Violation: w.violation, Harness: w.harness, Known: w.known, Tape: tape.Vals, Hash: w.hash,
		Steps: w.steps, SimNs: w.now, Switches: w.Switches, Faults: w.Faults, Probes: w.Probes,
		NonTrivial: w.NonTrivial, Ops: w.Ops, Log: w.Log}
}

func (w *World) settleEnd() {}

// InCodeUnderTest tells whether the frame that panicked belongs to the code
// under test: the first frames of the stack, past the runtime's and the
// standard library's, before any frame of the harness.
func InCodeUnderTest(stack string) bool {
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "poodle/") || strings.HasPrefix(l, "github.com/") {
			return true
		}
		if strings.HasPrefix(l, "dst/scen.") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

// Trim keeps the part of a stack that tells where the panic came from.
func Trim(stack string) string {
	ls := strings.Split(stack, "\n")
	start := 0
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			start = i
			break
		}
	}
	var out []string
	for i := start; i < len(ls) && len(out) < 6; i++ {
		if strings.HasPrefix(ls[i], "poodle/") || strings.HasPrefix(ls[i], "dst/") {
			f := ls[i]
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			out = append(out, f)
		}
	}
	return strings.Join(out, " < ")
}

// Outcome of a call into the code under test.
type Outcome struct {
	Panicked bool
	Val      any
	Stack    string
}

func (o Outcome) String() string {
	if !o.Panicked {
		return "returned"
	}
	return fmt.Sprintf("panicked: %v [%s]", o.Val, Trim(o.Stack))
}

// Try calls fn, catching a panic.
func Try(fn func()) (o Outcome) {
	defer func() {
		if cur != nil && cur.dying {
			return
		}
		if r := recover(); r != nil {
			o.Panicked = true
			o.Val = r
			o.Stack = panicStack()
		}
	}()
	fn()
	return
}

// MustNotPanic fails the run with class if fn panics.
func MustNotPanic(class, what string, fn func()) {
	o := Try(fn)
	if o.Panicked {
		Failf(class, "%s %s", what, o)
	}
}

// Sz is wrapped around the sizes given to make in the code under test.
func Sz[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N) N {
	if int64(n) > MaxAlloc && W != nil && cur != nil {
		Failf("alloc", "allocation of %d elements requested", uint64(n))
	}
	Alloc += int64(n)
	return n
}

const MaxAlloc = 4 << 20

// Alloc is the number of elements the code under test has allocated with make.
var Alloc int64

// SortedKeys helps harness code to iterate maps in a fixed order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// MapRange iterates a map of the code under test in an order that does not
// depend on the runtime's randomness.
func MapRange[K comparable, V any](m map[K]V) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		type ent struct {
			s string
			k K
		}
		es := make([]ent, 0, len(m))
		for k := range m {
			es = append(es, ent{fmt.Sprintf("%v", k), k})
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].s < es[j].s })
		if W != nil && len(es) > 1 {
			r := W.Choose(len(es))
			es = append(es[r:], es[:r]...)
		}
		for _, e := range es {
			if v, ok := m[e.k]; ok {
				if !yield(e.k, v) {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- channels

func Send[T any](ch chan<- T, v T) {
	if W == nil || cur == nil {
		ch <- v
		return
	}
	for {
		select {
		case ch <- v:
			cur.polling = false
			return
		default:
		}
		pollBlock("send")
	}
}

func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

func Recv2[T any](ch <-chan T) (T, bool) {
	if W == nil || cur == nil {
		v, ok := <-ch
		return v, ok
	}
	for {
		select {
		case v, ok := <-ch:
			cur.polling = false
			return v, ok
		default:
		}
		pollBlock("receive")
	}
}

// pollBlock lets others run until something may have changed: a thread other
// than those that only tried again in vain got somewhere, or an event happened.
func pollBlock(what string) {
	w := W
	if w == nil || cur == nil {
		runtime.Gosched()
		return
	}
	if !cur.polling {
		w.progress++
		cur.polling = true
	}
	saved := w.progress
	block(what, false, func() bool { return w.progress != saved })
}

// Gosched gives way until another thread or event got somewhere, or time passes.
func Gosched() {
	w := W
	if w == nil || cur == nil || w.inEvent {
		return
	}
	pollBlock("yield")
}

// Sel chooses among the cases of a select: each try has one of them.
type Sel struct{ n, start, i int }

func NewSel(n int) *Sel {
	s := &Sel{n: n}
	s.choose()
	return s
}

func (s *Sel) choose() {
	s.i, s.start = 0, 0
	if s.n > 1 && W != nil && cur != nil && !cur.dying {
		s.start = W.Choose(s.n)
	}
}

// Again: there are cases left to try.
func (s *Sel) Again() bool {
	if s.i+1 < s.n {
		s.i++
		return true
	}
	s.choose()
	return false
}

func (s *Sel) Wait() {
	if !s.Again() {
		pollBlock("select")
	}
}

func SelRecv[T any](s *Sel, k int, ch <-chan T) <-chan T {
	if s.n > 0 && (s.start+s.i)%s.n == k {
		return ch
	}
	return nil
}

func SelSend[T any](s *Sel, k int, ch chan<- T) chan<- T {
	if s.n > 0 && (s.start+s.i)%s.n == k {
		return ch
	}
	return nil
}

// SelectDone is called when a case was ready.
func SelectDone() {
	if cur != nil {
		cur.polling = false
	}
}

func RangeChan[T any](ch <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// ChanCap: unbuffered channels of the code under test get one slot.
func ChanCap(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

func Stack() string {
	var b bytes.Buffer
	b.Write(debug.Stack())
	return b.String()
}
