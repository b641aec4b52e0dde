package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

// Exit codes of worker processes.
const (
	exitViolation = 10
	exitOverrun   = 97
)

// WorkerStats is what a worker reports when its time is up.
type WorkerStats struct {
	Runs       int64
	Nontrivial int64
	Distinct   int64
	Steps      uint64
	Switches   uint64
	Preempts   uint64
	Stalls     uint64
	Selects    uint64
	Picks      uint64
	SimTime    float64 // seconds
	MaxGo      uint32
	MaxReady   uint32
	Modes      [3]int64
	Scenarios  map[string]int64
	Counters   map[string]int64
	Pairs      []byte
	Hits       []byte
	Hashes     []uint64
	Samples    []Sample
	FirstSeed  uint64
	LastSeed   uint64
	AuditRuns  map[uint64]string
}

// Sample is one run written out.
type Sample struct {
	Seed      uint64           `json:"seed"`
	Scenario  string           `json:"scenario"`
	Steps     uint64           `json:"steps"`
	Decisions int              `json:"non_default_decisions"`
	SimTime   string           `json:"simulated_time"`
	Hash      string           `json:"schedule_hash"`
	Counters  map[string]int64 `json:"counters"`
}

func setupProcess() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(64 << 20)
}

func collect(n int64) {
	if n%16 != 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 256<<20 {
		runtime.GC()
	}
}

func writeResult(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

// Worker runs seeds base, base+stride, ... until the deadline or until n runs.
func Worker(p *Prop, base, stride uint64, n int64, deadline time.Duration, statusPath, resultPath, statsPath string, audit int64) {
	setupProcess()
	start := time.Now()
	status, err := os.OpenFile(statusPath, os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	st := &WorkerStats{Scenarios: map[string]int64{}, Counters: map[string]int64{}, Pairs: make([]byte, 8192), Hits: make([]byte, 8192), FirstSeed: base, AuditRuns: map[uint64]string{}}
	hashes := map[uint64]struct{}{}
	var buf [8]byte
	seed := base
	for st.Runs < n {
		if st.Runs > 0 && time.Since(start) > deadline {
			break
		}
		binary.LittleEndian.PutUint64(buf[:], seed)
		if _, err := status.WriteAt(buf[:], 0); err != nil {
			panic(err)
		}
		t := execute(p, Spec{Seed: seed}, false, false, nil, func(r *Result) { writeResult(resultPath, r) })
		stats, dec, _ := runtime.SimResult()
		st.Runs++
		st.LastSeed = seed
		st.Steps += stats.Steps
		st.Switches += stats.Switches
		st.Preempts += stats.Preempts
		st.Stalls += stats.Stalls
		st.Selects += stats.Selects
		st.Picks += stats.Picks
		st.MaxGo = max(st.MaxGo, stats.Goroutines)
		st.MaxReady = max(st.MaxReady, stats.MaxReady)
		st.Modes[t.cfg.Mode%3]++
		st.Scenarios[t.Scn.Name]++
		now := runtime.SimLastNow() - 946684800000000000
		if now > 0 {
			st.SimTime += float64(now) / 1e9
		}
		for k, v := range t.counters {
			st.Counters[k] += v
		}
		h := stats.Hash
		for _, v := range t.tape.rec {
			h = (h ^ v) * 0x100000001b3
		}
		if st.Runs <= audit {
			st.AuditRuns[seed] = fmt.Sprintf("%x/%d/%d", h, stats.Steps, len(dec))
		}
		if t.nontrivial {
			st.Nontrivial++
			if len(hashes) < 2_000_000 {
				hashes[h] = struct{}{}
			}
			if len(st.Samples) < 3 && len(dec) > 0 {
				st.Samples = append(st.Samples, Sample{Seed: seed, Scenario: t.Scn.Name, Steps: stats.Steps, Decisions: len(dec), SimTime: time.Duration(now).String(), Hash: fmt.Sprintf("%016x", stats.Hash), Counters: t.counters})
			}
		}
		if st.Runs%256 == 0 {
			runtime.SimPairs(st.Pairs)
		}
		collect(st.Runs)
		seed += stride
	}
	runtime.SimPairs(st.Pairs)
	runtime.SimHits(st.Hits)
	for h := range hashes {
		st.Hashes = append(st.Hashes, h)
	}
	st.Distinct = int64(len(hashes))
	b, err := json.Marshal(st)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(statsPath, b, 0o644); err != nil {
		panic(err)
	}
}

// One runs a spec once, or with several scheduler seeds until it fails.
func One(p *Prop, specPath, resultPath, journalPath string, tries int, log bool) {
	setupProcess()
	b, err := os.ReadFile(specPath)
	if err != nil {
		panic(err)
	}
	var spec Spec
	if err := json.Unmarshal(b, &spec); err != nil {
		panic(err)
	}
	var j *journal
	if journalPath != "" {
		f, err := os.Create(journalPath)
		if err != nil {
			panic(err)
		}
		j = &journal{f}
	}
	base := spec.SchedSeed
	if base == 0 {
		base = spec.Seed
	}
	for i := 0; i < max(tries, 1); i++ {
		if i > 0 {
			s := base + uint64(i)*0x9e3779b97f4a7c15
			spec.SchedSeed = mix(&s)
			if spec.SchedSeed == 0 {
				spec.SchedSeed = 1
			}
		}
		if j != nil {
			j.f.Truncate(0)
			j.f.Seek(0, 0)
			writeJournalHeader(j.f, spec.SchedSeed)
		}
		execute(p, spec, log, log, j, func(r *Result) {
			writeResult(resultPath, r)
		})
		collect(int64(i))
	}
}

// Batch runs the given seeds in order in this one process.
func Batch(p *Prop, seeds []uint64, resultPath string) {
	setupProcess()
	for i, s := range seeds {
		last := i == len(seeds)-1
		execute(p, Spec{Seed: s}, last, last, nil, func(r *Result) { writeResult(resultPath, r) })
		collect(int64(i))
	}
}

// The journal holds 16-byte records. A scheduling decision is written by the
// runtime as {step uint64, kind uint32, arg uint32}; tape draws use kind 100
// and the header kind 101.
func writeJournal(f *os.File, v uint64) {
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], v)
	binary.LittleEndian.PutUint32(b[8:], 100)
	f.Write(b[:])
}

func writeJournalHeader(f *os.File, v uint64) {
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], v)
	binary.LittleEndian.PutUint32(b[8:], 101)
	f.Write(b[:])
}

func readJournal(path string) (schedSeed uint64, tape []uint64, dec []runtime.SimDecision) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for ; len(b) >= 16; b = b[16:] {
		v := binary.LittleEndian.Uint64(b)
		k := binary.LittleEndian.Uint32(b[8:])
		a := binary.LittleEndian.Uint32(b[12:])
		switch k {
		case 100:
			tape = append(tape, v)
		case 101:
			schedSeed, tape, dec = v, nil, nil
		default:
			dec = append(dec, runtime.SimDecision{Step: v, Kind: k, Arg: a})
		}
	}
	return
}
