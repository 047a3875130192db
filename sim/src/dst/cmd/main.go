// Command dst runs the simulations: see /verif/DESIGN.md.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"dst/scen"
	"dst/sim"
)

var root = "/verif"

func main() {
	if r := os.Getenv("DST_ROOT"); r != "" {
		root = r
	}
	debug.SetMaxStack(64 << 20)
	scen.LoadFindings(filepath.Join(root, "KNOWN_FINDINGS"))
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2], os.Args[3])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2], len(os.Args) > 3 && os.Args[3] == "-v")
	case "trace":
		trace(os.Args[2], os.Args[3])
	case "list":
		for _, id := range ids() {
			p := scen.Props[id]
			for _, s := range p.Scen {
				fmt.Println(id, s.Name, s.Weight)
			}
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: dst check PROP quick|thorough | replay FILE [-v] | trace PROP INDEX | list")
	os.Exit(2)
}

func ids() []string {
	var r []string
	for k := range scen.Props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "dst: "+f+"\n", a...)
	os.Exit(2)
}

func baseSeed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func runSeed(prop string, base uint64, i int64) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(prop) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	r := sim.NewRng(h ^ base*0x9e3779b97f4a7c15)
	return r.Next() + uint64(i)*0xd1342543de82ef95
}

func scenOf(prop string, i int64) *scen.Scenario {
	p := scen.Props[prop]
	if p == nil {
		die("unknown property %s", prop)
	}
	return p.Wheel[int(i%int64(len(p.Wheel)))]
}

func scenByName(prop, name string) *scen.Scenario {
	if p := scen.Props[prop]; p != nil {
		for _, s := range p.Scen {
			if s.Name == name {
				return s
			}
		}
	}
	die("unknown scenario %s/%s", prop, name)
	return nil
}

// ---------------------------------------------------------------- replay file

type Replay struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	BaseSeed uint64   `json:"base_seed"`
	Index    int64    `json:"index"`
	Full     bool     `json:"full"` // not minimised: the tape is the PRNG's
	Tape     []uint32 `json:"tape"`
	Original int      `json:"original_tape_length"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Hash     string   `json:"hash"`
	Trace    []string `json:"trace"`
}

func (r *Replay) run(tracing bool) *sim.Result {
	s := scenByName(r.Property, r.Scenario)
	t := sim.ReplayTape(r.Tape)
	if r.Full {
		t = sim.SearchTape(r.Seed)
	}
	return sim.Run(t, r.Seed, tracing, s.Fn)
}

func replay(file string, verbose bool) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	res := r.run(true)
	if verbose {
		for _, l := range res.Log {
			fmt.Println(l)
		}
	}
	if res.Harness != "" {
		die("harness error: %s", res.Harness)
	}
	if res.Violation == nil {
		fmt.Printf("replay of %s: no violation\n", file)
		os.Exit(0)
	}
	same := "same"
	if res.Violation.Class != r.Class || fmt.Sprintf("%016x", res.Hash) != r.Hash {
		same = "DIFFERENT from recorded"
	}
	fmt.Printf("replay of %s: %s: %s (%s, hash %016x)\n", file, res.Violation.Class, res.Violation.Msg, same, res.Hash)
	if same != "same" {
		os.Exit(3)
	}
	os.Exit(1)
}

func trace(prop, idx string) {
	i, _ := strconv.ParseInt(idx, 10, 64)
	s := scenOf(prop, i)
	seed := runSeed(prop, baseSeed(), i)
	res := sim.Run(sim.SearchTape(seed), seed, true, s.Fn)
	for _, l := range res.Log {
		fmt.Println(l)
	}
	fmt.Printf("scenario %s seed %d steps %d ops %d hash %016x\n", s.Name, seed, res.Steps, res.Ops, res.Hash)
	if res.Violation != nil {
		fmt.Println("VIOLATION", res.Violation.Class, res.Violation.Msg)
	}
	if res.Harness != "" {
		fmt.Println("HARNESS", res.Harness)
	}
	os.Exit(0)
}

// ---------------------------------------------------------------- worker

type Stats struct {
	Runs       int64
	NonTrivial int64
	Steps      int64
	SimNs      float64
	Switches   int64
	Ops        int64
	Faults     map[string]int64
	Probes     map[string]int64
	PerScen    map[string]int64
	Known      map[string]string
	Harness    string
	Replay     *Replay
	Checked    int64 // determinism re-runs
	Differ     int64
	DifferAt   int64
}

func worker(a []string) {
	// prop base k n runs deadline(unix ms) dir selfcheck
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	prop := a[0]
	base, _ := strconv.ParseUint(a[1], 10, 64)
	k, _ := strconv.ParseInt(a[2], 10, 64)
	n, _ := strconv.ParseInt(a[3], 10, 64)
	runs, _ := strconv.ParseInt(a[4], 10, 64)
	deadline, _ := strconv.ParseInt(a[5], 10, 64)
	dir := a[6]
	every, _ := strconv.ParseInt(a[7], 10, 64)
	st := &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, PerScen: map[string]int64{}, Known: map[string]string{}, DifferAt: -1}
	state, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("state%d", k)), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		die("%v", err)
	}
	hf, err := os.Create(filepath.Join(dir, fmt.Sprintf("hash%d", k)))
	if err != nil {
		die("%v", err)
	}
	hw := bufio.NewWriterSize(hf, 1<<16)
	seen := map[uint64]bool{}
	var beat atomic.Int64
	var fallback atomic.Pointer[Replay]
	var at atomic.Int64
	beat.Store(time.Now().UnixMilli())
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			late := time.Now().UnixMilli() - beat.Load()
			if rp := fallback.Load(); rp != nil && late > 20000 {
				// a run tried while minimising does not end
				st.Replay = rp
				out, _ := json.Marshal(st)
				os.Stdout.Write(append(out, '\n'))
				os.Exit(0)
			}
			if late > 90000 {
				fmt.Fprintf(os.Stderr, "dst: run %d of %s takes more than 90 s of real time\n", at.Load(), prop)
				os.Exit(4)
			}
		}
	}()
	var b8 [8]byte
	for i := k; i < runs; i += n {
		if time.Now().UnixMilli() > deadline {
			break
		}
		binary.LittleEndian.PutUint64(b8[:], uint64(i))
		state.WriteAt(b8[:], 0)
		at.Store(i)
		beat.Store(time.Now().UnixMilli())
		s := scenOf(prop, i)
		seed := runSeed(prop, base, i)
		res := sim.Run(sim.SearchTape(seed), seed, false, s.Fn)
		st.Runs++
		st.Steps += res.Steps
		st.SimNs += float64(res.SimNs)
		st.Switches += int64(res.Switches)
		st.Ops += int64(res.Ops)
		st.PerScen[s.Name]++
		for f, c := range res.Faults {
			st.Faults[f] += int64(c)
		}
		for f, c := range res.Probes {
			st.Probes[f] += int64(c)
		}
		for f, c := range res.Known {
			st.Known[f] = c
		}
		if res.NonTrivial {
			st.NonTrivial++
			if !seen[res.Hash] {
				if len(seen) < 4<<20 {
					seen[res.Hash] = true
				}
				binary.LittleEndian.PutUint64(b8[:], res.Hash)
				hw.Write(b8[:])
			}
		}
		if res.Harness != "" {
			st.Harness = fmt.Sprintf("run %d (%s): %s", i, s.Name, res.Harness)
			break
		}
		if res.Violation != nil {
			beat.Store(time.Now().UnixMilli())
			fallback.Store(&Replay{Property: prop, Scenario: s.Name, Seed: seed, BaseSeed: base, Index: i, Original: len(res.Tape), Full: true,
				Class: res.Violation.Class, Message: res.Violation.Msg, Hash: fmt.Sprintf("%016x", res.Hash)})
			st.Replay = minimise(prop, s, base, i, seed, res, &beat)
			fallback.Store(nil)
			break
		}
		if every > 0 && (i/n)%every == 0 {
			st.Checked++
			r2 := sim.Run(sim.SearchTape(seed), seed, (i/n)%(2*every) == 0, s.Fn)
			if r2.Hash != res.Hash || r2.Steps != res.Steps {
				st.Differ++
				st.DifferAt = i
			}
		}
	}
	hw.Flush()
	hf.Close()
	out, _ := json.Marshal(st)
	os.Stdout.Write(out)
	os.Stdout.Write([]byte("\n"))
}

// ---------------------------------------------------------------- minimise

func minimise(prop string, s *scen.Scenario, base uint64, i int64, seed uint64, first *sim.Result, beat *atomic.Int64) *Replay {
	class := first.Violation.Class
	best := append([]uint32(nil), first.Tape...)
	limit := 25 * time.Second
	end := time.Now().Add(limit)
	tries := 0
	fails := func(t []uint32) bool {
		if time.Now().After(end) {
			return false
		}
		beat.Store(time.Now().UnixMilli())
		tries++
		r := sim.Run(sim.ReplayTape(t), seed, false, s.Fn)
		return r.Harness == "" && r.Violation != nil && r.Violation.Class == class
	}
	rp := &Replay{Property: prop, Scenario: s.Name, Seed: seed, BaseSeed: base, Index: i, Original: len(best), Class: class}
	if !fails(best) {
		// the recorded tape does not reproduce it: report the seed itself
		rp.Full = true
		rp.Message = first.Violation.Msg
		rp.Hash = fmt.Sprintf("%016x", first.Hash)
		return rp
	}
	trim := func(t []uint32) []uint32 {
		for len(t) > 0 && t[len(t)-1] == 0 {
			t = t[:len(t)-1]
		}
		return t
	}
	// truncate: the rest becomes benign
	for lo, hi := 0, len(best); lo < hi; {
		mid := (lo + hi) / 2
		if fails(best[:mid]) {
			best = append([]uint32(nil), best[:mid]...)
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	best = trim(best)
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for size := len(best); size >= 1; size /= 2 {
			for at := 0; at+size <= len(best) && time.Now().Before(end); {
				// delete
				t := append(append([]uint32(nil), best[:at]...), best[at+size:]...)
				if fails(t) {
					best = t
					changed = true
					continue
				}
				// make benign
				nz := false
				t = append([]uint32(nil), best...)
				for j := at; j < at+size; j++ {
					nz = nz || t[j] != 0
					t[j] = 0
				}
				if nz && fails(t) {
					best = t
					changed = true
				}
				at += size
			}
		}
		for j := 0; j < len(best) && time.Now().Before(end); j++ {
			for _, v := range []uint32{1, best[j] / 2, best[j] - 1} {
				if best[j] > 1 && v < best[j] {
					t := append([]uint32(nil), best...)
					t[j] = v
					if fails(t) {
						best = t
						changed = true
					}
				}
			}
		}
		best = trim(best)
	}
	res := sim.Run(sim.ReplayTape(best), seed, true, s.Fn)
	rp.Tape = best
	if res.Violation == nil {
		rp.Full = true
		rp.Tape = nil
		rp.Message = first.Violation.Msg
		rp.Hash = fmt.Sprintf("%016x", first.Hash)
		return rp
	}
	rp.Message = res.Violation.Msg
	rp.Hash = fmt.Sprintf("%016x", res.Hash)
	rp.Trace = res.Log
	if len(rp.Trace) > 600 {
		rp.Trace = append(append(rp.Trace[:300:300], "..."), rp.Trace[len(rp.Trace)-300:]...)
	}
	return rp
}

// ---------------------------------------------------------------- check

func check(prop, tier string) {
	p := scen.Props[prop]
	if p == nil {
		die("unknown property %s", prop)
	}
	start := time.Now()
	base := baseSeed()
	nw := int64(runtime.NumCPU())
	if nw > 8 {
		nw = 8
	}
	runs := int64(p.Quick)
	limit := 150 * time.Second
	if tier == "thorough" {
		runs = 1 << 40
		limit = 600 * time.Second
		if v, err := strconv.Atoi(os.Getenv("DST_SECONDS")); err == nil {
			limit = time.Duration(v) * time.Second
		}
	}
	if v, err := strconv.ParseInt(os.Getenv("DST_RUNS"), 10, 64); err == nil {
		runs = v
	}
	fmt.Printf("property %s, tier %s, VERIF_SEED %d, %d workers, at most %d runs or %v\n", prop, tier, base, nw, runs, limit)
	dir, err := os.MkdirTemp("", "dst-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	deadline := time.Now().Add(limit).UnixMilli()
	type outcome struct {
		st     *Stats
		err    error
		stderr string
		k      int64
	}
	ch := make(chan outcome, nw)
	var mu sync.Mutex
	var cmds []*exec.Cmd
	every := int64(20)
	if tier == "thorough" {
		every = 200
	}
	for k := int64(0); k < nw; k++ {
		k := k
		cmd := exec.Command(os.Args[0], "worker", prop, fmt.Sprint(base), fmt.Sprint(k), fmt.Sprint(nw), fmt.Sprint(runs), fmt.Sprint(deadline), dir, fmt.Sprint(every))
		var so, se bytes.Buffer
		cmd.Stdout = &so
		cmd.Stderr = &limited{b: &se}
		cmd.Env = os.Environ()
		mu.Lock()
		cmds = append(cmds, cmd)
		mu.Unlock()
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		go func() {
			err := cmd.Wait()
			o := outcome{err: err, stderr: se.String(), k: k}
			var st Stats
			if err == nil {
				if e := json.Unmarshal(so.Bytes(), &st); e == nil {
					o.st = &st
				} else {
					o.err = e
				}
			}
			ch <- o
		}()
	}
	tot := &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, PerScen: map[string]int64{}, Known: map[string]string{}, DifferAt: -1}
	var rp *Replay
	trouble := ""
	killed := false
	killAll := func() {
		if !killed {
			killed = true
			for _, c := range cmds {
				c.Process.Kill()
			}
		}
	}
	for i := int64(0); i < nw; i++ {
		o := <-ch
		if o.st == nil {
			if killed {
				continue
			}
			// a fatal error of the runtime inside the code under test?
			idx := int64(-1)
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("state%d", o.k))); err == nil && len(b) == 8 {
				idx = int64(binary.LittleEndian.Uint64(b))
			}
			what := ""
			if strings.Contains(o.stderr, "stack overflow") || strings.Contains(o.stderr, "stack exceeds") {
				what = "a stack overflow"
			} else if strings.Contains(o.stderr, "out of memory") || strings.Contains(o.stderr, "cannot allocate memory") {
				what = "a lack of memory"
			}
			if idx >= 0 && what != "" && strings.Contains(o.stderr, "poodle/") {
				seed := runSeed(prop, base, idx)
				rp = &Replay{Property: prop, Scenario: scenOf(prop, idx).Name, Seed: seed, BaseSeed: base, Index: idx, Full: true,
					Class: "fatal", Message: "the process was ended by " + what + " in the code under test", Trace: strings.Split(o.stderr, "\n")}
				if len(rp.Trace) > 60 {
					rp.Trace = rp.Trace[:60]
				}
				killAll()
				continue
			}
			trouble = fmt.Sprintf("worker %d: %v (run %d)\n%s", o.k, o.err, idx, o.stderr)
			killAll()
			continue
		}
		st := o.st
		tot.Runs += st.Runs
		tot.NonTrivial += st.NonTrivial
		tot.Steps += st.Steps
		tot.SimNs += st.SimNs
		tot.Switches += st.Switches
		tot.Ops += st.Ops
		tot.Checked += st.Checked
		tot.Differ += st.Differ
		if st.DifferAt >= 0 {
			tot.DifferAt = st.DifferAt
		}
		for f, c := range st.Faults {
			tot.Faults[f] += c
		}
		for f, c := range st.Probes {
			tot.Probes[f] += c
		}
		for f, c := range st.PerScen {
			tot.PerScen[f] += c
		}
		for f, c := range st.Known {
			tot.Known[f] = c
		}
		if st.Harness != "" && trouble == "" {
			trouble = st.Harness
			killAll()
		}
		if st.Replay != nil && rp == nil {
			rp = st.Replay
			killAll()
		}
	}
	distinct := countDistinct(dir)
	wall := time.Since(start).Seconds()
	viol := 0
	path := ""
	if rp != nil {
		viol = 1
		rdir := filepath.Join(root, "replays")
		os.MkdirAll(rdir, 0755)
		path = filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", prop, base, rp.Index))
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, b, 0644); err != nil {
			die("%v", err)
		}
	}
	writeEvidence(p, tier, base, tot, distinct, wall, viol, dir, rp)
	os.RemoveAll(dir)
	for _, l := range sortedKeys(tot.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, tot.Known[l])
	}
	fmt.Printf("%d runs (%d non-trivial, %d distinct) in %.1f s, %d steps, %.1f s simulated, %d switches, faults %v\n",
		tot.Runs, tot.NonTrivial, distinct, wall, tot.Steps, tot.SimNs/1e9, tot.Switches, tot.Faults)
	if tot.Differ > 0 {
		fmt.Fprintf(os.Stderr, "dst: warning: %d of %d re-executed runs differed (run %d)\n", tot.Differ, tot.Checked, tot.DifferAt)
	}
	if rp != nil {
		// the replay must reproduce it in a fresh process
		ok := false
		cmd := exec.Command(os.Args[0], "replay", path)
		out, err := cmd.CombinedOutput()
		if ee, is := err.(*exec.ExitError); is {
			ok = ee.ExitCode() == 1 || rp.Class == "fatal"
		}
		if !ok {
			die("the violation did not reproduce from %s: %v\n%s\nfirst seen: %s: %s", path, err, out, rp.Class, rp.Message)
		}
		fmt.Printf("violation: %s: %s\n", rp.Class, rp.Message)
		tail := rp.Trace
		if len(tail) > 40 {
			tail = tail[len(tail)-40:]
		}
		for _, l := range tail {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		os.Exit(1)
	}
	if trouble != "" {
		die("%s", trouble)
	}
	if tot.Runs == 0 {
		die("no runs")
	}
	os.Exit(0)
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func countDistinct(dir string) int64 {
	seen := map[uint64]struct{}{}
	fs, _ := filepath.Glob(filepath.Join(dir, "hash*"))
	for _, f := range fs {
		h, err := os.Open(f)
		if err != nil {
			continue
		}
		r := bufio.NewReaderSize(h, 1<<16)
		var b [8]byte
		for {
			if _, err := io.ReadFull(r, b[:]); err != nil {
				break
			}
			seen[binary.LittleEndian.Uint64(b[:])] = struct{}{}
		}
		h.Close()
	}
	return int64(len(seen))
}

func writeEvidence(p *scen.Prop, tier string, base uint64, st *Stats, distinct int64, wall float64, viol int, dir string, rp *Replay) {
	var samples []any
	if rp != nil {
		samples = append(samples, map[string]any{"violation": rp.Class, "scenario": rp.Scenario, "seed": rp.Seed, "trace": clip(rp.Trace, 40)})
	} else {
		taken := map[string]bool{}
		for i := int64(0); i < int64(len(p.Wheel))*4 && len(samples) < 4; i++ {
			s := scenOf(p.ID, i)
			if taken[s.Name] {
				continue
			}
			seed := runSeed(p.ID, base, i)
			res := sim.Run(sim.SearchTape(seed), seed, true, s.Fn)
			if !res.NonTrivial && i < int64(len(p.Wheel))*3 {
				continue
			}
			taken[s.Name] = true
			samples = append(samples, map[string]any{"scenario": s.Name, "index": i, "seed": seed, "steps": res.Steps, "hash": fmt.Sprintf("%016x", res.Hash), "trace": clip(res.Log, 40)})
		}
	}
	hours := wall / 3600
	cov := map[string]any{
		"evaluations":            st.Runs,
		"distinct_nontrivial":    distinct,
		"rule":                   p.Rule + " Counted distinct by the hash of the run's whole event trace (operations, results, system calls, faults, context switches); non-trivial when at least one fault took effect or one context switch happened.",
		"samples":                samples,
		"nontrivial_runs":        st.NonTrivial,
		"runs_per_hour":          int64(float64(st.Runs) / hours),
		"seeds_per_hour":         int64(float64(st.Runs) / hours),
		"simulated_seconds":      st.SimNs / 1e9,
		"statements_of_code_run": st.Steps,
		"context_switches":       st.Switches,
		"events":                 st.Ops,
		"faults_injected":        st.Faults,
		"probes":                 st.Probes,
		"runs_per_scenario":      st.PerScen,
		"determinism_reruns":     st.Checked,
		"determinism_mismatches": st.Differ,
		"real_components":        p.Real,
		"simulated_components":   p.Stub,
		"known_findings_seen":    sortedKeys(st.Known),
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"seeded search: what was not sampled was not checked",
			"preemption at statement granularity; single statements, the standard library and the Go memory model's weaker orderings are not interleaved",
			"the disk model of DESIGN.md stands for real disks and file systems",
		},
		"wall_s": wall, "violations": viol,
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), b, 0644); err != nil {
		die("%v", err)
	}
}

func clip(l []string, n int) []string {
	if len(l) > n {
		return append(append([]string(nil), l[:n]...), fmt.Sprintf("... %d more", len(l)-n))
	}
	return l
}
