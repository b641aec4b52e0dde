// Package core is the simulator's kernel above the runtime: workload tapes,
// runs, workers, minimisation, replay and evidence.
package core

// Tape is the list of choices a workload is generated from. In generation mode
// choices come from a seeded generator and are recorded; in replay mode they
// are read back, and a tape that has run out yields zeros.
type Tape struct {
	rec    []uint64
	pos    int
	replay bool
	state  uint64
	onDraw func(uint64)
}

func newTape(seed uint64) *Tape {
	return &Tape{state: seed*0x9e3779b97f4a7c15 + 0x1234567}
}

func replayTape(vals []uint64) *Tape {
	return &Tape{rec: vals, replay: true}
}

func mix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (t *Tape) draw(n int) int {
	if n <= 1 {
		return 0
	}
	if t.replay {
		if t.pos >= len(t.rec) {
			return 0
		}
		v := t.rec[t.pos]
		t.pos++
		if v >= uint64(n) {
			v %= uint64(n)
		}
		return int(v)
	}
	v := mix(&t.state) % uint64(n)
	t.rec = append(t.rec, v)
	if t.onDraw != nil {
		t.onDraw(v)
	}
	return int(v)
}

// Rand is a small deterministic generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand  { return &Rand{seed} }
func (r *Rand) Uint64() uint64   { return mix(&r.s) }
func (r *Rand) Intn(n int) int   { return int(mix(&r.s) % uint64(n)) }
func (r *Rand) Pick(v []int) int { return v[r.Intn(len(v))] }
