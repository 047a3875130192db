package scen

import (
	"bytes"
	"fmt"
	"strings"

	"dst/sim"
	"dst/simlog"
	"dst/vfs"

	"poodle/util"
)

// ---------------------------------------------------------------- C20

const (
	toErr = iota // nothing selected yet
	toOut
	toFile
)

// logger is one process that logs.
type logger struct {
	p      *sim.Proc
	path   string
	dest   int
	out    []string // messages, in order, by destination
	err    []string
	before []byte // what was in the file when the process began
}

// fileLog is what is known of a log file.
type fileLog struct {
	msgs []string
	was  string // content and number of messages that agreed
	n    int
}

type c20run struct {
	w      *sim.World
	fs     *vfs.FS
	files  map[string]*fileLog
	serial int
}

func (c *c20run) start(pid int) *logger {
	p := c.w.NewProc(fmt.Sprintf("node%d", pid))
	p.Pid = pid
	l := &logger{p: p, path: fmt.Sprintf("/tmp/%d.log", pid)}
	if c.files[l.path] == nil {
		f := &fileLog{}
		c.files[l.path] = f
		if c.w.Chance(1, 3) {
			// of an earlier process, since last Monday or yesterday
			text := ""
			for i, size := c.w.Choose(4), []int{0, 10, 1500, 100000}[c.w.Choose(4)]; i >= 0; i-- {
				c.serial++
				m := fmt.Sprintf("<msg-%d-%s>", c.serial, strings.Repeat("y", size))
				f.msgs = append(f.msgs, m)
				text += m + "\n"
			}
			if c.w.Chance(1, 400) {
				c.serial++
				m := fmt.Sprintf("<msg-%d-%s>", c.serial, strings.Repeat("z", 12<<20))
				f.msgs = append(f.msgs, m)
				text += m + "\n"
			}
			c.fs.Put(l.path, []byte(text), 0644)
			c.w.Ev("earlier log", l.path, len(text))
		}
	}
	return l
}

// order of messages in text: each of want once, in this order, nothing else.
func (c *c20run) compare(where, text string, want []string) {
	pos := 0
	for _, m := range want {
		i := strings.Index(text[pos:], m)
		if i < 0 {
			if strings.Contains(text, m) {
				sim.Failf("order", "%s: message %q is out of order", where, m)
			}
			sim.Failf("lost", "%s: message %q is missing", where, m)
		}
		pos += i + len(m)
	}
	if n := strings.Count(text, "<msg-"); n != len(want) {
		sim.Failf("elsewhere", "%s: there are %d messages, %d were sent there", where, n, len(want))
	}
	if n := strings.Count(text, "\n"); n != len(want) {
		sim.Failf("elsewhere", "%s: there are %d lines for %d messages", where, n, len(want))
	}
}

func (c *c20run) content(path string) string {
	in := c.fs.Peek(path)
	if in == nil || in.Kind != vfs.KFile {
		return ""
	}
	return string(in.Data)
}

func (c *c20run) check(l *logger) {
	c.compare("standard output", l.p.Out.String(), l.out)
	c.compare("standard error", l.p.Err.String(), l.err)
	f := c.files[l.path]
	text := c.content(l.path)
	if text == f.was && len(f.msgs) == f.n {
		return // as when last compared
	}
	c.compare(l.path, text, f.msgs)
	f.was, f.n = text, len(f.msgs)
}

func (c *c20run) message() string {
	c.serial++
	size := c.w.Choose(3) * 20
	if c.w.Chance(1, 8) {
		size = []int{300, 1100, 4000, 4096, 9000, 70000}[c.w.Choose(6)]
	}
	m := fmt.Sprintf("<msg-%d-%s>", c.serial, strings.Repeat("x", size))
	return m
}

// step is one action of a process, alone.
func (c *c20run) step(l *logger) {
	w := c.w
	var before []byte
	if in := c.fs.Peek(l.path); in != nil {
		before = append(before, in.Data...)
	}
	op := w.Choose(7)
	blocked := false
	if op == 1 || op == 2 {
		if w.Chance(1, 3) {
			c.fs.FaultsOn = true
			c.fs.FaultRate = 1 + w.Choose(3)
		} else if c.fs.Peek(l.path) == nil && w.Chance(1, 6) {
			// something else has the name
			c.fs.MkdirAll(l.path)
			w.Fault("a directory in place of the log file")
			blocked = true
		}
	}
	nf := faults(w)
	failed := false
	end := w.RunIn(l.p, func() {
		switch op {
		case 0:
			err := util.LCSetLoggerStdout()
			if err != nil {
				sim.Failf("refused", "logging to standard output: %v", err)
			}
			l.dest = toOut
		case 1, 2:
			err := util.LCSetLoggerFileTmp()
			w.Ev("to file", l.path, err != nil)
			if err == nil {
				l.dest = toFile
			} else {
				failed = true
			}
		default:
			m := c.message()
			switch w.Choose(3) {
			case 0:
				simlog.Print(m)
			case 1:
				simlog.Printf("%s %d", m, 7)
			case 2:
				simlog.Println("a", m)
			}
			switch l.dest {
			case toErr:
				l.err = append(l.err, m)
			case toOut:
				l.out = append(l.out, m)
			case toFile:
				f := c.files[l.path]
				f.msgs = append(f.msgs, m)
			}
		}
	})
	c.fs.FaultsOn = false
	if !end.Returned {
		sim.Failf("panic", "logging: %s", end)
	}
	if failed && faults(w) == nf && !blocked {
		if in := c.fs.Peek(l.path); in == nil || in.Kind == vfs.KFile {
			sim.Failf("refused", "logging to %s failed for no reason", l.path)
		}
	}
	if failed {
		w.Probe("switch failed")
	}
	if in := c.fs.Peek(l.path); in != nil && in.Kind == vfs.KFile && !bytes.HasPrefix(in.Data, before) {
		sim.Failf("overwritten", "%s no longer begins with what was in it", l.path)
	}
	if blocked {
		if in := c.fs.Peek(l.path); in != nil && in.Kind == vfs.KDir {
			c.fs.Delete(l.path)
		}
	}
	c.check(l)
}

func c20history(w *sim.World) {
	w.LimitSteps(1 << 26)
	c := &c20run{w: w, fs: newMachine(w), files: map[string]*fileLog{}}
	pids := []int{4001, 4002}
	live := map[int]*logger{}
	var all []*logger
	for i := 3 + w.Choose(26); i > 0; i-- {
		pid := pids[w.Choose(2)]
		l := live[pid]
		if l == nil || w.Chance(1, 12) {
			if l != nil {
				l.p.Kill()
				w.Fault("restart with the same id")
				c.check(l)
			}
			l = c.start(pid)
			live[pid] = l
			all = append(all, l)
		}
		w.Advance(int64(w.Choose(3)) * 1e9)
		if w.Chance(1, 20) {
			w.Advance(86400e9 * int64(1+w.Choose(40)))
			w.Probe("days pass")
		}
		c.step(l)
	}
	for _, l := range live {
		c.check(l)
	}
	w.NonTrivial = len(all) > 0
}

// c20threads: some threads log while others switch. Every message arrives once.
func c20threads(w *sim.World) {
	w.LimitSteps(1 << 26)
	c := &c20run{w: w, fs: newMachine(w), files: map[string]*fileLog{}}
	l := c.start(4001)
	var sent [][]string
	var ts []*sim.Thread
	first := w.Bool()
	if end := w.RunIn(l.p, func() {
		if first {
			util.LCSetLoggerStdout()
		} else if util.LCSetLoggerFileTmp() != nil {
			sim.Failf("refused", "logging to %s failed for no reason", l.path)
		}
	}); !end.Returned {
		sim.Failf("panic", "logging: %s", end)
	}
	w.Preemptive(true)
	for i := 0; i < 1+w.Choose(2); i++ {
		ts = append(ts, w.Spawn(l.p, fmt.Sprintf("switcher%d", i), func() {
			for k := 1 + w.Choose(6); k > 0; k-- {
				if w.Bool() {
					util.LCSetLoggerStdout()
				} else {
					c.fs.FaultsOn = w.Bool()
					c.fs.FaultFor = func(kind, p string) bool { return kind != "write" }
					util.LCSetLoggerFileTmp()
					c.fs.FaultsOn = false
				}
			}
		}))
	}
	n := 1 + w.Choose(3)
	sent = make([][]string, n)
	for i := 0; i < n; i++ {
		ts = append(ts, w.Spawn(l.p, fmt.Sprintf("writer%d", i), func() {
			for k := 1 + w.Choose(6); k > 0; k-- {
				m := c.message()
				simlog.Println(m)
				sent[i] = append(sent[i], m)
				sim.Yield()
			}
		}))
	}
	w.Join(ts...)
	w.Preemptive(false)
	for _, t := range ts {
		if !t.Returned {
			sim.Failf("panic", "logging: %s", l.p.End(t))
		}
	}
	texts := map[string]string{"standard output": l.p.Out.String(), "standard error": l.p.Err.String(), l.path: c.content(l.path)}
	total := 0
	for i := range sent {
		pos := map[string]int{}
		for _, m := range sent[i] {
			total++
			found := 0
			for _, k := range sim.SortedKeys(texts) {
				at := strings.Index(texts[k], m)
				if at < 0 {
					continue
				}
				found += strings.Count(texts[k], m)
				if k == "standard error" {
					sim.Failf("elsewhere", "message %q went to standard error", m)
				}
				if at < pos[k] {
					sim.Failf("order", "%s: message %q is out of order", k, m)
				}
				pos[k] = at
			}
			if found != 1 {
				sim.Failf("lost", "message %q is there %d times", m, found)
			}
		}
	}
	// and now nothing is switching any more
	for i := 2; i > 0; i-- {
		l.out, l.err = nil, nil
		if end := w.RunIn(l.p, func() {
			o, f := l.p.Out.Len(), len(c.content(l.path))
			m := c.message()
			if w.Bool() {
				util.LCSetLoggerStdout()
				simlog.Println(m)
				if !strings.Contains(l.p.Out.String()[o:], m) {
					sim.Failf("lost", "message %q is missing from standard output", m)
				}
			} else {
				if err := util.LCSetLoggerFileTmp(); err != nil {
					sim.Failf("refused", "logging to %s failed for no reason: %v", l.path, err)
				}
				simlog.Println(m)
				if t := c.content(l.path); len(t) < f || !strings.Contains(t[f:], m) {
					sim.Failf("lost", "message %q is missing from %s", m, l.path)
				}
			}
		}); !end.Returned {
			sim.Failf("panic", "logging: %s", end)
		}
	}
	w.NonTrivial = total > 1
}
