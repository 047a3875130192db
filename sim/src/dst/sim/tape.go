// Package sim is the core of the deterministic simulator: the choice tape, the
// cooperative scheduler, simulated processes, simulated time and event log.
//
// Everything that is not decided by the code under test is decided by the tape:
// a sequence of bounded integers. While searching, the integers come from a PRNG
// seeded with the run's seed, and are recorded. A replay feeds the (minimised)
// recorded integers back, and past their end 0 - the benign choice everywhere -
// or, should a run go on for very long, a fixed pseudo-random sequence, so that
// what is tried until it succeeds ends.
package sim

// splitmix64
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Tape is the list of choices of one run.
type Tape struct {
	rng    *Rng     // nil on replay
	Vals   []uint32 // recorded (search), or to be replayed
	pos    int
	replay bool
	tail   *Rng
}

func SearchTape(seed uint64) *Tape   { return &Tape{rng: NewRng(seed)} }
func ReplayTape(vals []uint32) *Tape { return &Tape{Vals: vals, replay: true} }
func (t *Tape) Used() int            { return t.pos }
func (t *Tape) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if t.replay {
		v := 0
		if t.pos < len(t.Vals) {
			v = int(t.Vals[t.pos] % uint32(n))
		} else if t.pos-len(t.Vals) > 1<<16 {
			if t.tail == nil {
				t.tail = NewRng(1)
			}
			v = t.tail.Intn(n)
		}
		t.pos++
		return v
	}
	v := t.rng.Intn(n)
	t.Vals = append(t.Vals, uint32(v))
	t.pos++
	return v
}
