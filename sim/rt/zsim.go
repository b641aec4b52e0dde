// Deterministic simulation support. This file is added to package runtime by
// a build overlay (see /verif/sim/cmd/simbuild); nothing of it is ever part of
// a normal build.
//
// While a simulation is on, every goroutine of the simulated bubble that
// becomes runnable is kept in sim.ready instead of the P's run queues, and the
// scheduler asks simPick which one runs next. GOMAXPROCS is 1, so exactly one
// of them runs at a time and it only loses the processor by blocking, by
// exiting, or at a SimYield call. Every choice is made by a seeded generator,
// or taken from a recorded list of choices.

package runtime

import "unsafe"

const (
	simMaxReady = 4096
	simMaxDec   = 1 << 18
	simMaxTrace = 1 << 16
	simNever    = ^uint64(0)
)

// Decision kinds.
const (
	SimKindPick   = 1 // a goroutine blocked or exited: which one is next
	SimKindYield  = 2 // preemption at a yield point
	SimKindSelect = 3 // first case polled by a select
	SimKindStall  = 4 // the goroutine is stalled for Arg nanoseconds
)

// SimDecision is one choice differing from the default.
type SimDecision struct {
	Step uint64
	Kind uint32
	Arg  uint32
}

// SimTraceEvent is one goroutine switch.
type SimTraceEvent struct {
	Step     uint64
	Kind     uint32
	From, To uint32 // goroutine numbers within the run
	FromSite uint32
	ToSite   uint32
	Now      int64
}

// SimConfig configures one simulated run.
type SimConfig struct {
	Seed        uint64
	Mode        uint32 // 0 random walk, 1 priorities (PCT), 2 site holds
	PreemptMean uint32 // mean yields between preemptions (0: never)
	PickPercent uint32 // percent of picks made at random instead of FIFO
	SelPercent  uint32 // percent of selects with a random first case
	StallMean   uint32 // mean yields between stalls (0: never)
	StallMaxMs  uint32
	PCTDepth    uint32
	PCTLen      uint32
	Sites       [4]uint32
	SitePercent uint32
	MaxSteps    uint64
	Replay      bool
	Decisions   []SimDecision
	Trace       bool
	JournalFD   int32
}

// SimStats describes a finished run.
type SimStats struct {
	Steps, Switches, Preempts, Stalls, Selects, Picks uint64
	Goroutines                                        uint32
	MaxReady                                          uint32
	Hash                                              uint64
	Now                                               int64
}

var sim struct {
	on      bool
	running bool
	root    guintptr

	nready int
	ready  [simMaxReady]guintptr

	forced   int // index to run next, chosen by a yield; -1 none
	resume   guintptr
	nextid   uint32
	lowpri   uint32
	seq      uint64
	lastnow  int64
	prng     uint64
	aux      uint64
	mapconst uint64
	timers   uint64 // order of timers due at the same time
	any      uint64 // every other random number of the runtime

	step, next         uint64
	nextPre, nextStall uint64
	cfg                SimConfig
	pct                [16]uint64
	npct, ipct         int
	ndec               int
	rpos, nreplay      int
	ntrace             int
	stats              SimStats
	dec                [simMaxDec]SimDecision
	replay             [simMaxDec]SimDecision
	trace              [simMaxTrace]SimTraceEvent
	siteflag           [65536]uint8
	pairs              [8192]uint8
	hit                [65536]uint8 // which sites were reached
}

//go:nosplit
func simNextRand(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRandn(n uint32) uint32 {
	if n <= 1 {
		return 0
	}
	return uint32((simNextRand(&sim.prng) >> 32) * uint64(n) >> 32)
}

// simGap draws a gap of about mean steps with a heavy spread.
//
//go:nosplit
func simGap(mean uint32) uint64 {
	if mean == 0 {
		return simNever >> 1
	}
	return 1 + uint64(simRandn(2*mean))
}

// SimRun runs f in a bubble under the simulated scheduler.
func SimRun(cfg *SimConfig, f func()) {
	if sim.running {
		panic("SimRun: already running")
	}
	sim.running = true
	sim.cfg = *cfg
	sim.cfg.Decisions = nil
	sim.nready = 0
	sim.forced = -1
	sim.resume = 0
	sim.nextid = 0
	sim.lowpri = 1 << 16
	sim.seq = 0
	sim.prng = cfg.Seed*0x9e3779b97f4a7c15 + 1
	sim.aux = cfg.Seed ^ 0xabcdef0123456789
	x := cfg.Seed + 77
	sim.mapconst = simNextRand(&x)
	sim.timers = simNextRand(&x)
	sim.any = simNextRand(&x)
	sim.step = 0
	sim.ndec = 0
	sim.ntrace = 0
	sim.rpos = 0
	sim.nreplay = 0
	sim.stats = SimStats{}
	sim.siteflag = [65536]uint8{}
	sim.npct, sim.ipct = 0, 0
	if cfg.Replay {
		if len(cfg.Decisions) > simMaxDec {
			panic("SimRun: too many decisions")
		}
		sim.nreplay = copy(sim.replay[:], cfg.Decisions)
		sim.next = 0
	} else {
		sim.nextPre = simGap(cfg.PreemptMean)
		sim.nextStall = simGap(cfg.StallMean)
		if cfg.Mode == 1 {
			n := int(cfg.PCTDepth)
			if n > len(sim.pct) {
				n = len(sim.pct)
			}
			for i := 0; i < n; i++ {
				v := uint64(simRandn(cfg.PCTLen))
				j := i
				for j > 0 && sim.pct[j-1] > v {
					sim.pct[j] = sim.pct[j-1]
					j--
				}
				sim.pct[j] = v
			}
			sim.npct = n
		}
		if cfg.Mode == 2 {
			for _, s := range cfg.Sites {
				if s != 0 {
					sim.siteflag[s&0xffff] = 1
				}
			}
		}
		sim.next = 0
	}
	gp := getg()
	sim.root.set(gp)
	gp.simid = 0
	sim.on = true
	defer func() {
		sim.on = false
		sim.running = false
		sim.root = 0
	}()
	synctestRun(f)
}

// SimResult returns the statistics, the recorded decisions and the trace of
// the current or last run.
func SimResult() (SimStats, []SimDecision, []SimTraceEvent) {
	st := sim.stats
	st.Steps = sim.step
	st.Goroutines = sim.nextid
	if b := getg().bubble; b != nil {
		st.Now = b.now
	}
	dec := append([]SimDecision(nil), sim.dec[:sim.ndec]...)
	tr := append([]SimTraceEvent(nil), sim.trace[:sim.ntrace]...)
	return st, dec, tr
}

// SimLastNow is the simulated time at the end of the last run.
func SimLastNow() int64 { return sim.lastnow }

// SimPairs ors the switch-pair bitmap into dst and clears it.
func SimPairs(dst []byte) {
	for i := range sim.pairs {
		if i < len(dst) {
			dst[i] |= sim.pairs[i]
		}
		sim.pairs[i] = 0
	}
}

// SimHits marks in dst, a bitmap, the sites reached so far.
func SimHits(dst []byte) {
	for i, h := range sim.hit {
		if h != 0 && i>>3 < len(dst) {
			dst[i>>3] |= 1 << (i & 7)
		}
	}
}

// SimLive returns the number of live goroutines of the bubble, without the
// hidden root.
func SimLive() int {
	b := getg().bubble
	if b == nil {
		return 0
	}
	lock(&b.mu)
	n := b.total - 1
	unlock(&b.mu)
	return n
}

// SimOn reports whether the caller runs in a simulation.
func SimOn() bool { return sim.on && getg().bubble != nil }

// SimSeq returns a globally increasing number. It creates no happens-before
// edge that the race detector knows about.
func SimSeq() uint64 {
	sim.seq++
	return sim.seq
}

// SimSteps returns the number of decision points passed.
func SimSteps() uint64 { return sim.step }

// SimGid returns the number of the calling goroutine within the run.
func SimGid() uint32 { return getg().simid }

// SimRand draws from the auxiliary generator of the run, outside the
// scheduler's stream.
func SimRand() uint64 { return simNextRand(&sim.aux) }

// SimYield is a point at which the scheduler may switch goroutines.
func SimYield(site uint32) {
	gp := getg()
	if !sim.on || gp.bubble == nil {
		return
	}
	sim.step++
	gp.simsite = site
	sim.hit[site&0xffff] = 1
	if sim.step < sim.next && sim.siteflag[site&0xffff] == 0 {
		return
	}
	simYieldSlow(gp, site)
}

func simYieldSlow(gp *g, site uint32) {
	mp := gp.m
	if mp.locks != 0 || mp.mallocing != 0 || mp.curg != gp {
		return
	}
	if sim.step > sim.cfg.MaxSteps {
		simOverrun()
	}
	idx := -1
	stall := uint32(0)
	if sim.cfg.Replay {
		for sim.rpos < sim.nreplay && sim.replay[sim.rpos].Step < sim.step {
			sim.rpos++
		}
		if sim.rpos < sim.nreplay && sim.replay[sim.rpos].Step == sim.step {
			d := sim.replay[sim.rpos]
			switch d.Kind {
			case SimKindYield:
				idx = int(d.Arg) - 1
			case SimKindStall:
				stall = d.Arg
			}
			sim.rpos++
		}
		simSetNextReplay()
		if idx >= sim.nready {
			idx = sim.nready - 1
		}
	} else {
		switch sim.cfg.Mode {
		case 1:
			for sim.ipct < sim.npct && sim.step >= sim.pct[sim.ipct] {
				sim.ipct++
				sim.lowpri--
				gp.simpri = sim.lowpri
			}
			if i := simMaxPri(); i >= 0 && sim.ready[i].ptr().simpri > gp.simpri {
				idx = i
			}
		case 2:
			if sim.siteflag[site&0xffff] != 0 && sim.nready > 0 && simRandn(100) < sim.cfg.SitePercent {
				switch simRandn(4) {
				case 0:
					gp.simhold = 1 + simRandn(3)
				case 1:
					gp.simhold = 3 + simRandn(20)
				default:
					gp.simhold = 1 << 20
				}
				idx = simPickHeld()
			}
		}
		if idx < 0 && sim.step >= sim.nextPre {
			sim.nextPre = sim.step + simGap(sim.cfg.PreemptMean)
			if sim.nready > 0 {
				if sim.cfg.Mode == 1 {
					sim.lowpri--
					gp.simpri = sim.lowpri
					idx = simMaxPri()
				} else {
					idx = int(simRandn(uint32(sim.nready)))
				}
			}
		}
		if idx < 0 && sim.step >= sim.nextStall {
			sim.nextStall = sim.step + simGap(sim.cfg.StallMean)
			stall = 1 + simRandn(sim.cfg.StallMaxMs)
		}
		sim.next = min(sim.nextPre, sim.nextStall, sim.cfg.MaxSteps+1)
		if sim.ipct < sim.npct {
			sim.next = min(sim.next, sim.pct[sim.ipct])
		}
	}
	if stall != 0 {
		simRecord(SimKindStall, stall)
		sim.stats.Stalls++
		timeSleep(int64(stall) * 1000000)
		return
	}
	if idx >= 0 {
		simRecord(SimKindYield, uint32(idx)+1)
		sim.stats.Preempts++
		simNote(SimKindYield, gp, sim.ready[idx].ptr())
		sim.forced = idx
		mcall(simYield_m)
	}
}

func simSetNextReplay() {
	if sim.rpos < sim.nreplay {
		sim.next = sim.replay[sim.rpos].Step
	} else {
		sim.next = sim.cfg.MaxSteps + 1
	}
}

func simYield_m(gp *g) {
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	simPut(gp)
	schedule()
}

func simOverrun() {
	systemstack(func() {
		print("SIMOVERRUN steps=", sim.step, "\n")
		exit(97)
	})
}

//go:nosplit
//go:nowritebarrierrec
func simRecord(kind, arg uint32) {
	if sim.ndec < simMaxDec {
		sim.dec[sim.ndec] = SimDecision{Step: sim.step, Kind: kind, Arg: arg}
		if sim.cfg.JournalFD > 0 {
			write(uintptr(sim.cfg.JournalFD), unsafe.Pointer(&sim.dec[sim.ndec]), int32(unsafe.Sizeof(SimDecision{})))
		}
		sim.ndec++
	}
}

//go:nowritebarrierrec
func simNote(kind uint32, from, to *g) {
	sim.stats.Switches++
	var fid, fsite uint32
	if from != nil {
		fid, fsite = from.simid, from.simsite
	}
	h := sim.stats.Hash
	h = (h ^ uint64(kind)<<60 ^ uint64(fid)<<40 ^ uint64(fsite)<<16 ^ uint64(to.simid)) * 0x100000001b3
	h ^= h >> 29
	h = (h ^ uint64(to.simsite)) * 0x9e3779b97f4a7c15
	sim.stats.Hash = h
	p := (fsite*0x9e3779b1 ^ to.simsite*0x85ebca6b)
	p ^= p >> 15
	p &= 0xffff
	sim.pairs[p>>3] |= 1 << (p & 7)
	if sim.cfg.Trace && sim.ntrace < simMaxTrace {
		var now int64
		if to.bubble != nil {
			now = to.bubble.now
		}
		sim.trace[sim.ntrace] = SimTraceEvent{Step: sim.step, Kind: kind, From: fid, To: to.simid, FromSite: fsite, ToSite: to.simsite, Now: now}
		sim.ntrace++
	}
}

// simPut adds gp to the simulated ready list. It reports false when gp is not
// part of a simulation.
//
//go:nowritebarrierrec
func simPut(gp *g) bool {
	if !sim.on || gp.bubble == nil {
		return false
	}
	if sim.nready >= simMaxReady {
		throw("sim: too many ready goroutines")
	}
	if gp.simid == 0 && gp != sim.root.ptr() {
		sim.nextid++
		gp.simid = sim.nextid
		gp.simsite = 0
		gp.simhold = 0
		gp.simpri = 1<<20 + uint32(simNextRand(&sim.prng)>>36)
	}
	sim.ready[sim.nready].set(gp)
	sim.nready++
	if sim.cfg.Mode == 1 && !sim.cfg.Replay {
		sim.next = 0
	}
	return true
}

//go:nowritebarrierrec
func simMaxPri() int {
	best := -1
	for i := 0; i < sim.nready; i++ {
		if best < 0 || sim.ready[i].ptr().simpri > sim.ready[best].ptr().simpri {
			best = i
		}
	}
	return best
}

//go:nowritebarrierrec
func simPickHeld() int {
	free := uint32(0)
	for i := 0; i < sim.nready; i++ {
		gp := sim.ready[i].ptr()
		if gp.simhold == 0 {
			free++
		} else {
			gp.simhold--
		}
	}
	if free == 0 {
		return int(simRandn(uint32(sim.nready)))
	}
	k := simRandn(free)
	for i := 0; i < sim.nready; i++ {
		if sim.ready[i].ptr().simhold == 0 {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return 0
}

// simPick removes and returns the goroutine to run next, nil when none is
// ready.
//
//go:nowritebarrierrec
func simPick() *g {
	n := sim.nready
	if n == 0 {
		return nil
	}
	idx := 0
	if sim.resume != 0 {
		r := sim.resume
		sim.resume = 0
		for i := 0; i < n; i++ {
			if sim.ready[i] == r {
				idx = i
				break
			}
		}
	} else if sim.forced >= 0 {
		idx = sim.forced
		sim.forced = -1
		if idx >= n {
			idx = n - 1
		}
	} else if n > 1 {
		sim.step++
		sim.stats.Picks++
		if uint32(n) > sim.stats.MaxReady {
			sim.stats.MaxReady = uint32(n)
		}
		if sim.step > sim.cfg.MaxSteps {
			simOverrun()
		}
		if sim.cfg.Replay {
			for sim.rpos < sim.nreplay && sim.replay[sim.rpos].Step < sim.step {
				sim.rpos++
			}
			if sim.rpos < sim.nreplay && sim.replay[sim.rpos].Step == sim.step {
				if sim.replay[sim.rpos].Kind == SimKindPick {
					idx = int(sim.replay[sim.rpos].Arg)
				}
				sim.rpos++
			}
			simSetNextReplay()
			if idx >= n {
				idx = n - 1
			}
		} else {
			switch sim.cfg.Mode {
			case 1:
				idx = simMaxPri()
			case 2:
				idx = simPickHeld()
			default:
				if simRandn(100) < sim.cfg.PickPercent {
					idx = int(simRandn(uint32(n)))
				}
			}
		}
		if idx != 0 {
			simRecord(SimKindPick, uint32(idx))
		}
		simNote(SimKindPick, nil, sim.ready[idx].ptr())
	}
	gp := sim.ready[idx].ptr()
	copy(sim.ready[idx:n-1], sim.ready[idx+1:n])
	sim.nready = n - 1
	gp.simhold = 0
	sim.lastnow = gp.bubble.now
	return gp
}

// simSelect returns the rotation applied to the poll order of a select with n
// cases.
func simSelect(n int) int {
	if n < 2 || !sim.on || getg().bubble == nil {
		return 0
	}
	sim.step++
	sim.stats.Selects++
	r := 0
	if sim.cfg.Replay {
		for sim.rpos < sim.nreplay && sim.replay[sim.rpos].Step < sim.step {
			sim.rpos++
		}
		if sim.rpos < sim.nreplay && sim.replay[sim.rpos].Step == sim.step {
			if sim.replay[sim.rpos].Kind == SimKindSelect {
				r = int(sim.replay[sim.rpos].Arg)
			}
			sim.rpos++
		}
		simSetNextReplay()
		if r >= n {
			r = n - 1
		}
	} else if simRandn(100) < sim.cfg.SelPercent {
		r = int(simRandn(uint32(n)))
	}
	if r != 0 {
		simRecord(SimKindSelect, uint32(r))
	}
	return r
}

//go:nosplit
func simInRun() bool {
	return sim.on && getg().bubble != nil
}

func simTimerRand() uint32 {
	if !sim.on {
		return cheaprand()
	}
	return uint32(simNextRand(&sim.timers))
}

// SimStacks returns the stacks of all goroutines.
func SimStacks() string {
	buf := make([]byte, 1<<20)
	n := Stack(buf, true)
	return string(buf[:n])
}

var _ unsafe.Pointer
