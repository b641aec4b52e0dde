package core

import (
	"context"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"testing/synctest"
	"time"
)

// Prop is one property's check.
type Prop struct {
	ID        string
	Scenarios []Scenario
	// SiteFilter lists path prefixes (relative to the repository) whose
	// statements the site scheduler may hold goroutines at.
	SiteFilter []string
	Race       bool
	Rule       string
	Real       []string
	Stub       []string
	Faults     []string // counters that are fault injections
	Assume     []string
}

// Scenario is one family of simulated runs.
type Scenario struct {
	Name     string
	Weight   int
	Stall    bool // stall faults at arbitrary statements are allowed
	Leak     bool // goroutines left at the end are a violation
	Serial   bool // FIFO scheduling only: no interleaving in the scenario
	MaxSteps uint64
	Run      func(t *T)
}

var props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { props[p.ID] = p }

// Spec is everything that determines one run.
type Spec struct {
	Prop      string                `json:"prop"`
	Scenario  string                `json:"scenario"`
	Seed      uint64                `json:"seed"`
	SchedSeed uint64                `json:"sched_seed,omitempty"`
	Tape      []uint64              `json:"tape"`
	UseTape   bool                  `json:"use_tape"`
	Decisions []runtime.SimDecision `json:"decisions"`
	UseDec    bool                  `json:"use_decisions"`
}

// Result is the outcome of one run.
type Result struct {
	Spec      Spec             `json:"spec"`
	Class     string           `json:"class"`
	Message   string           `json:"message"`
	Log       []string         `json:"log"`
	LogHash   string           `json:"log_hash"`
	SchedHash string           `json:"sched_hash"`
	Trace     []string         `json:"trace,omitempty"`
	Stats     runtime.SimStats `json:"stats"`
	Crash     string           `json:"crash,omitempty"`
	Counters  map[string]int64 `json:"counters,omitempty"`
}

// T is handed to a scenario.
type T struct {
	Prop       *Prop
	Scn        *Scenario
	tape       *Tape
	spec       Spec
	cfg        runtime.SimConfig
	log        []string
	logBytes   int
	counters   map[string]int64
	nontrivial bool
	mainGid    uint32 // of the scenario
	ctx        context.Context
	cancel     context.CancelFunc
	done       bool
	onFail     func(*Result)
	start      time.Time
	cleanups   []func()
	keepLog    bool
	logHash    uint64
}

// Int draws from [0,n).
func (t *T) Int(n int) int { return t.tape.draw(n) }

// Chance is true in about pct percent of draws; the tape value 0 is false.
func (t *T) Chance(pct int) bool { return t.tape.draw(100) >= 100-pct }

// Range draws from [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.tape.draw(hi-lo+1) }

// Repeat calls f up to max times. Each repetition begins with one draw, so that
// cutting an aligned piece out of a tape removes whole repetitions.
func (t *T) Repeat(min, max int, f func(i int)) int {
	mean := (min + max + 1) / 2
	if mean < 1 {
		mean = 1
	}
	n := 0
	for n < max {
		if t.tape.draw(mean+2) == 0 && n >= min {
			break
		}
		f(n)
		n++
	}
	return n
}

// Choose draws one of the values.
func Choose[E any](t *T, vs ...E) E { return vs[t.Int(len(vs))] }

// Weighted draws an index with the given weights.
func (t *T) Weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	v := t.Int(sum)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Logf adds a line to the event log of the run. It draws nothing.
func (t *T) Logf(format string, args ...any) {
	if raceEnabled {
		return
	}
	if !t.keepLog {
		// Formatting is what costs; runs that end well are not logged, and a
		// failing one is executed again with the log on.
		return
	}
	line := fmt.Sprintf("[%d g%d %s] ", runtime.SimSteps(), runtime.SimGid(), t.Elapsed()) + fmt.Sprintf(format, args...)
	if t.logBytes < 400000 {
		t.log = append(t.log, line)
		t.logBytes += len(line)
	}
}

// Logging tells whether Logf keeps anything.
func (t *T) Logging() bool { return t.keepLog && !raceEnabled }

// Elapsed is the simulated time since the start of the run.
func (t *T) Elapsed() time.Duration { return time.Since(t.start) }

// Count adds to a counter reported in the evidence.
func (t *T) Count(name string, n int) {
	if raceEnabled && runtime.SimGid() != t.mainGid {
		return
	}
	t.counters[name] += int64(n)
}

// Nontrivial marks the run as one in which the property was really at stake.
func (t *T) Nontrivial() {
	if !raceEnabled || runtime.SimGid() == t.mainGid {
		t.nontrivial = true
	}
}

// Stalls reports whether the scheduler may stall goroutines in this scenario, so that nothing
// happens at an exact instant.
func (t *T) Stalls() bool { return t.Scn.Stall }

// Seq is a globally increasing event number.
func (t *T) Seq() uint64 { return runtime.SimSeq() }

// Ctx is cancelled when the scenario returns.
func (t *T) Ctx() context.Context { return t.ctx }

// Wait blocks until every other goroutine of the run is blocked.
func (t *T) Wait() { synctest.Wait() }

// Settle lets simulated time pass until nothing more happens, for at most d.
func (t *T) Settle(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}

// Live is the number of the run's goroutines, the caller's included.
func (t *T) Live() int { return runtime.SimLive() }

// Stacks are the stacks of the run's other goroutines.
func (t *T) Stacks() string { return bubbleStacks() }

// Cleanup registers f to run when the scenario has returned.
func (t *T) Cleanup(f func()) { t.cleanups = append(t.cleanups, f) }

// Fail reports a violation and ends the run and the process.
func (t *T) Fail(class, format string, args ...any) {
	t.fail(class, fmt.Sprintf(format, args...))
}

func (t *T) fail(class, msg string) {
	res := t.result(class, msg)
	t.onFail(res)
	os.Exit(exitViolation)
}

func (t *T) result(class, msg string) *Result {
	st, dec, tr := runtime.SimResult()
	res := &Result{Class: class, Message: msg, Log: t.log, Stats: st, Counters: t.counters}
	res.Spec = t.spec
	res.Spec.Tape = append([]uint64(nil), t.tape.rec...)
	if t.tape.replay && t.tape.pos < len(res.Spec.Tape) {
		res.Spec.Tape = res.Spec.Tape[:t.tape.pos]
	}
	res.Spec.UseTape = true
	res.Spec.Decisions = dec
	res.Spec.UseDec = true
	h := fnv.New64a()
	for _, l := range t.log {
		h.Write([]byte(l))
		h.Write([]byte{10})
	}
	h.Write([]byte(class + "\n" + msg))
	res.LogHash = fmt.Sprintf("%016x", h.Sum64())
	res.SchedHash = fmt.Sprintf("%016x", st.Hash)
	for _, e := range tr {
		res.Trace = append(res.Trace, fmt.Sprintf("step %d t=%s %s g%d@%s -> g%d@%s", e.Step, time.Duration(e.Now-946684800000000000), kindName(e.Kind), e.From, SiteName(e.FromSite), e.To, SiteName(e.ToSite)))
	}
	if len(res.Trace) > 400 {
		res.Trace = res.Trace[len(res.Trace)-400:]
	}
	return res
}

func kindName(k uint32) string {
	switch k {
	case runtime.SimKindPick:
		return "pick"
	case runtime.SimKindYield:
		return "preempt"
	case runtime.SimKindSelect:
		return "select"
	case runtime.SimKindStall:
		return "stall"
	}
	return "?"
}

var sites []string

// LoadSites reads the table of yield points.
func LoadSites(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	sites = strings.Split(strings.TrimSpace(string(b)), "\n")
}

// SiteName is the source position of a yield point.
func SiteName(s uint32) string {
	if s == 0 || int(s) > len(sites) {
		return "-"
	}
	return sites[s-1]
}

// reached counts the sites of the property, and those of them in the bitmap.
func (p *Prop) reached(hits []byte) (n, of int) {
	in := p.sites()
	if len(p.SiteFilter) == 0 {
		in = make([]uint32, len(sites))
		for i := range in {
			in[i] = uint32(i + 1)
		}
	}
	for _, s := range in {
		if hits[(s&0xffff)>>3]>>(s&7)&1 != 0 {
			n++
		}
	}
	return n, len(in)
}

// unreached lists the sites that aren't in the bitmap.
func unreached(hits []byte) string {
	var b strings.Builder
	for i, s := range sites {
		if n := uint32(i + 1); hits[(n&0xffff)>>3]>>(n&7)&1 == 0 {
			b.WriteString(s)
			b.WriteByte('\n')
		}
	}
	return b.String()
}

var siteCache = map[string][]uint32{}

func (p *Prop) sites() []uint32 {
	if v, ok := siteCache[p.ID]; ok {
		return v
	}
	var out []uint32
	for i, s := range sites {
		for _, f := range p.SiteFilter {
			if strings.HasPrefix(s, f) {
				out = append(out, uint32(i+1))
				break
			}
		}
	}
	siteCache[p.ID] = out
	return out
}

// schedConfig derives the scheduler's settings for a run.
func schedConfig(p *Prop, s *Scenario, seed uint64) runtime.SimConfig {
	r := NewRand(seed ^ 0x5eed5eed)
	cfg := runtime.SimConfig{Seed: r.Uint64(), MaxSteps: 3_000_000}
	if s.MaxSteps != 0 {
		cfg.MaxSteps = s.MaxSteps
	}
	if s.Serial {
		return cfg
	}
	cfg.PreemptMean = uint32(r.Pick([]int{0, 0, 4, 12, 40, 120, 400}))
	cfg.PickPercent = uint32(r.Pick([]int{0, 30, 100, 100}))
	cfg.SelPercent = uint32(r.Pick([]int{0, 50, 100}))
	switch m := r.Intn(100); {
	case m < 40:
		cfg.Mode = 0
	case m < 70:
		cfg.Mode = 1
		cfg.PCTDepth = uint32(1 + r.Intn(5))
		cfg.PCTLen = uint32(r.Pick([]int{60, 250, 1000, 4000}))
		if r.Intn(3) > 0 {
			cfg.PreemptMean = 0
		}
	default:
		cfg.Mode = 2
		cfg.SitePercent = uint32(r.Pick([]int{20, 50, 100}))
		if ss := p.sites(); len(ss) > 0 {
			n := 1 + r.Intn(4)
			for i := 0; i < n; i++ {
				cfg.Sites[i] = ss[r.Intn(len(ss))]
			}
		}
		if r.Intn(3) > 0 {
			cfg.PreemptMean = 0
		}
	}
	if s.Stall && r.Intn(3) == 0 {
		cfg.StallMean = uint32(r.Pick([]int{30, 100, 400}))
		cfg.StallMaxMs = uint32(r.Pick([]int{2, 1000, 9000}))
	}
	return cfg
}

func pickScenario(p *Prop, seed uint64) *Scenario {
	sum := 0
	for _, s := range p.Scenarios {
		sum += s.Weight
	}
	r := NewRand(seed ^ 0x5ce7a210)
	v := r.Intn(sum)
	for i := range p.Scenarios {
		if v < p.Scenarios[i].Weight {
			return &p.Scenarios[i]
		}
		v -= p.Scenarios[i].Weight
	}
	panic("unreachable")
}

func scenarioByName(p *Prop, name string) *Scenario {
	for i := range p.Scenarios {
		if p.Scenarios[i].Name == name {
			return &p.Scenarios[i]
		}
	}
	return nil
}

type journal struct{ f *os.File }

// execute performs one run. A violation does not return: onFail is called and
// the process ends.
func execute(p *Prop, spec Spec, keepLog, trace bool, j *journal, onFail func(*Result)) *T {
	scn := scenarioByName(p, spec.Scenario)
	if scn == nil {
		scn = pickScenario(p, spec.Seed)
		spec.Scenario = scn.Name
	}
	spec.Prop = p.ID
	ss := spec.SchedSeed
	if ss == 0 {
		ss = spec.Seed
	}
	cfg := schedConfig(p, scn, ss)
	cfg.Trace = trace
	if spec.UseDec {
		cfg.Replay = true
		cfg.Decisions = spec.Decisions
	}
	t := &T{Prop: p, Scn: scn, spec: spec, counters: map[string]int64{}, onFail: onFail, keepLog: keepLog}
	if spec.UseTape {
		t.tape = replayTape(spec.Tape)
	} else {
		t.tape = newTape(spec.Seed)
	}
	if j != nil {
		cfg.JournalFD = int32(j.f.Fd())
		t.tape.onDraw = func(v uint64) {
			writeJournal(j.f, v)
		}
	}
	t.cfg = cfg
	raceBefore := raceErrors()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(error); ok && strings.HasPrefix(e.Error(), "deadlock:") {
					if t.done {
						if scn.Leak {
							t.fail("leak", "goroutines remain blocked after everything was cancelled\n"+bubbleStacks())
						}
						return
					}
					t.fail("deadlock", "every goroutine of the run is blocked and no timer is pending\n"+bubbleStacks())
				}
				panic(r)
			}
		}()
		runtime.SimRun(&t.cfg, func() {
			t.start = time.Now()
			t.mainGid = runtime.SimGid()
			t.ctx, t.cancel = context.WithCancel(context.Background())
			scn.Run(t)
			t.cancel()
			for i := len(t.cleanups) - 1; i >= 0; i-- {
				t.cleanups[i]()
			}
			time.Sleep(time.Minute)
			synctest.Wait()
			if scn.Leak && runtime.SimLive() != 1 {
				t.fail("leak", fmt.Sprintf("%d goroutine(s) remain after everything was cancelled\n%s", runtime.SimLive()-1, bubbleStacks()))
			}
			t.done = true
		})
	}()
	if raceEnabled && raceErrors() > raceBefore {
		t.fail("race", "data race")
	}
	return t
}

// bubbleStacks returns the stacks of the run's other goroutines, normalised so
// that equal runs give equal text.
func bubbleStacks() string {
	var out []string
	for _, g := range strings.Split(runtime.SimStacks(), "\n\n") {
		head, rest, _ := strings.Cut(g, "\n")
		if !strings.Contains(head, "synctest bubble") || strings.Contains(g, "synctestRun") || strings.Contains(g, "core.bubbleStacks") {
			continue
		}
		state := head
		if i := strings.Index(head, "["); i >= 0 {
			state = head[i:]
		}
		if i := strings.Index(state, ","); i >= 0 {
			state = state[:i] + "]:"
		}
		lines := strings.Split(rest, "\n")
		var keep []string
		for i := 0; i+1 < len(lines); i += 2 {
			fn := lines[i]
			if j := strings.LastIndex(fn, "("); j > 0 && !strings.HasPrefix(fn, "created by") {
				fn = fn[:j]
			}
			if j := strings.Index(fn, " in goroutine"); j > 0 {
				fn = fn[:j]
			}
			pos := strings.TrimSpace(lines[i+1])
			if j := strings.Index(pos, " +0x"); j > 0 {
				pos = pos[:j]
			}
			keep = append(keep, "  "+fn+" "+pos)
		}
		if len(keep) > 14 {
			keep = keep[:14]
		}
		out = append(out, state+"\n"+strings.Join(keep, "\n"))
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Get returns a registered property.
func Get(id string) *Prop { return props[id] }
