package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"
)

type attempt struct {
	spec  Spec
	class string
	msg   string
	crash string
	res   *Result
}

var attemptNo int
var attemptMu sync.Mutex

// try runs a spec in a fresh process and reports its failure, nil when it does
// not fail.
func (o *Options) try(p *Prop, spec Spec, tries int, journal, log bool) *attempt {
	attemptMu.Lock()
	attemptNo++
	id := attemptNo
	attemptMu.Unlock()
	sp := filepath.Join(o.Tmp, fmt.Sprintf("spec%d", id))
	rp := filepath.Join(o.Tmp, fmt.Sprintf("res%d", id))
	jp := filepath.Join(o.Tmp, fmt.Sprintf("jour%d", id))
	defer os.Remove(sp)
	defer os.Remove(rp)
	defer os.Remove(jp)
	b, _ := json.Marshal(spec)
	if err := os.WriteFile(sp, b, 0o644); err != nil {
		return nil
	}
	args := []string{"-mode", "one", "-prop", p.ID, "-spec", sp, "-result", rp, "-tries", fmt.Sprint(tries)}
	if journal {
		args = append(args, "-journal", jp)
	}
	if log {
		args = append(args, "-log")
	}
	out := o.run(40*time.Second, rp, args...)
	class, msg, crash, harness := classify(p, out)
	if class == "" || harness {
		return nil
	}
	a := &attempt{spec: spec, class: class, msg: msg, crash: crash, res: out.res}
	if out.res != nil {
		a.spec = out.res.Spec
	} else {
		// The process died. The journal, when kept, has what it did.
		if !journal {
			j := o.try(p, spec, tries, true, log)
			if j != nil && j.class == class {
				return j
			}
			return nil
		}
		ss, tape, dec := readJournal(jp)
		a.spec.SchedSeed = ss
		if !spec.UseTape {
			a.spec.Tape, a.spec.UseTape = tape, true
		}
		if !spec.UseDec {
			a.spec.Decisions, a.spec.UseDec = dec, true
		}
	}
	return a
}

// report reproduces, minimises and verifies a violation.
func (o *Options) report(p *Prop, f found) (*ReplayFile, error) {
	scn := pickScenario(p, f.seed)
	spec := Spec{Prop: p.ID, Seed: f.seed, Scenario: scn.Name}
	var a *attempt
	if f.out.res != nil {
		a = o.try(p, f.out.res.Spec, 1, false, false)
	}
	if a == nil || a.class != f.class {
		a = o.try(p, spec, 1, true, false)
	}
	for i := 0; a == nil && i < 4; i++ {
		// The tree may do something the simulator doesn't control, such as
		// ranging over a large map keyed by addresses.
		a = o.try(p, spec, 60, true, false)
		if a != nil && a.class != f.class && i < 3 {
			a = nil
		}
	}
	if a == nil {
		// It may need what earlier runs left in the process.
		return o.reportBatch(p, f)
	}
	class := a.class
	best := *a
	origTape, origDec := len(best.spec.Tape), len(best.spec.Decisions)
	deadline := time.Now().Add(35 * time.Second)
	fails := func(s Spec, tries int) *attempt {
		r := o.try(p, s, tries, false, false)
		if r != nil && r.class == class {
			return r
		}
		return nil
	}
	// Workload first; the schedule is searched again for every candidate.
	search := func(tape []uint64) *attempt {
		s := Spec{Prop: p.ID, Seed: f.seed, Scenario: best.spec.Scenario, Tape: tape, UseTape: true, Decisions: best.spec.Decisions, UseDec: true}
		if r := fails(s, 1); r != nil {
			return r
		}
		s.UseDec, s.Decisions = false, nil
		s.SchedSeed = best.spec.SchedSeed
		return fails(s, 60)
	}
	parallel := func(cands [][]uint64) bool {
		res := make([]*attempt, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = search(cands[i]) }()
		}
		wg.Wait()
		for i, r := range res {
			if r != nil {
				best = *r
				best.spec.Tape = trimTape(best.spec.Tape, cands[i])
				return true
			}
		}
		return false
	}
	cut := func(t []uint64, i, n int) []uint64 {
		out := append([]uint64(nil), t[:i]...)
		return append(out, t[min(i+n, len(t)):]...)
	}
	for size := max(len(best.spec.Tape)/2, 1); size >= 1 && time.Now().Before(deadline); {
		progress := false
		for i := 0; i < len(best.spec.Tape) && time.Now().Before(deadline); {
			var cands [][]uint64
			for k := 0; k < 8; k++ {
				j := i + k*size
				if j >= len(best.spec.Tape) {
					break
				}
				cands = append(cands, cut(best.spec.Tape, j, size))
			}
			before := len(best.spec.Tape)
			if parallel(cands) && len(best.spec.Tape) < before {
				progress = true
			} else {
				i += 8 * size
			}
		}
		if size == 1 {
			break
		}
		if !progress || size > 4 {
			size /= 2
		}
	}
	for i := 0; i < len(best.spec.Tape) && time.Now().Before(deadline); i += 8 {
		var cands [][]uint64
		for k := i; k < min(i+8, len(best.spec.Tape)); k++ {
			if best.spec.Tape[k] == 0 {
				continue
			}
			c := append([]uint64(nil), best.spec.Tape...)
			c[k] = 0
			cands = append(cands, c)
		}
		if len(cands) > 0 {
			parallel(cands)
		}
	}
	// Schedule.
	deadline = time.Now().Add(25 * time.Second)
	dparallel := func(cands [][]runtime.SimDecision) bool {
		res := make([]*attempt, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s := best.spec
				s.Decisions, s.UseDec = cands[i], true
				res[i] = fails(s, 1)
			}()
		}
		wg.Wait()
		for i, r := range res {
			if r != nil {
				best = *r
				if len(best.spec.Decisions) > len(cands[i]) {
					best.spec.Decisions = cands[i]
				}
				return true
			}
		}
		return false
	}
	dcut := func(t []runtime.SimDecision, i, n int) []runtime.SimDecision {
		out := append([]runtime.SimDecision(nil), t[:i]...)
		return append(out, t[min(i+n, len(t)):]...)
	}
	for size := len(best.spec.Decisions); size >= 1 && time.Now().Before(deadline); {
		progress := false
		for i := 0; i < len(best.spec.Decisions) && time.Now().Before(deadline); {
			var cands [][]runtime.SimDecision
			for k := 0; k < 8; k++ {
				j := i + k*size
				if j >= len(best.spec.Decisions) {
					break
				}
				cands = append(cands, dcut(best.spec.Decisions, j, size))
			}
			before := len(best.spec.Decisions)
			if dparallel(cands) && len(best.spec.Decisions) < before {
				progress = true
			} else {
				i += 8 * size
			}
		}
		if size == 1 && !progress {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	// The final file, replayed twice in fresh processes with the log on.
	r1 := o.try(p, best.spec, 1, false, true)
	if r1 == nil || r1.class != class {
		best = *a
		r1 = o.try(p, best.spec, 1, false, true)
	}
	if r1 == nil || r1.class != class {
		return o.reportBatch(p, f)
	}
	r2 := o.try(p, r1.spec, 1, false, true)
	rf := &ReplayFile{Property: p.ID, Class: class, Message: r1.msg, FoundSeed: f.seed, Spec: r1.spec, Crash: r1.crash,
		Minimised: fmt.Sprintf("workload tape %d -> %d, schedule decisions %d -> %d", origTape, len(r1.spec.Tape), origDec, len(r1.spec.Decisions))}
	rf.Exact = r2 != nil && r2.class == r1.class && r2.msg == r1.msg
	if r1.res != nil {
		rf.Log, rf.Trace, rf.LogHash, rf.SchedHash = r1.res.Log, r1.res.Trace, r1.res.LogHash, r1.res.SchedHash
		rf.Exact = rf.Exact && r2.res != nil && r2.res.LogHash == r1.res.LogHash && r2.res.SchedHash == r1.res.SchedHash
	}
	return rf, nil
}

func trimTape(got, cand []uint64) []uint64 {
	if len(got) < len(cand) {
		return got
	}
	return cand
}

// reportBatch handles a failure that needs the process state earlier runs left.
func (o *Options) reportBatch(p *Prop, f found) (*ReplayFile, error) {
	stride := uint64(o.Workers)
	n := (f.seed-f.first)/stride + 1
	for _, k := range []uint64{2, 10, 100, 1000, n} {
		if k > n {
			k = n
		}
		var seeds []uint64
		for i := k; i > 0; i-- {
			seeds = append(seeds, f.seed-(i-1)*stride)
		}
		if out, class, msg, crash := o.batch(p, seeds); class == f.class {
			_, class2, msg2, _ := o.batch(p, seeds)
			rf := &ReplayFile{Property: p.ID, Class: class, Message: msg, FoundSeed: f.seed, BatchSeeds: seeds, Crash: crash,
				Minimised: fmt.Sprintf("runs of one process %d -> %d", n, k), Exact: class2 == class && msg2 == msg}
			rf.Spec = Spec{Prop: p.ID, Seed: f.seed}
			if out.res != nil {
				rf.Log, rf.Trace = out.res.Log, out.res.Trace
			}
			return rf, nil
		}
		if k == n {
			break
		}
	}
	// The violation was observed, but the tree under test doesn't repeat itself.
	rf := &ReplayFile{Property: p.ID, Class: f.class, Message: f.msg, FoundSeed: f.seed, Spec: Spec{Prop: p.ID, Seed: f.seed, Scenario: pickScenario(p, f.seed).Name},
		Crash: f.crash, Minimised: "not minimised: neither the run nor its process history repeated it"}
	if r := f.out.res; r != nil {
		rf.Spec, rf.Log, rf.Trace = r.Spec, r.Log, r.Trace
	}
	return rf, nil
}

func (o *Options) batch(p *Prop, seeds []uint64) (procOut, string, string, string) {
	list := filepath.Join(o.Tmp, "batch")
	b := ""
	for _, s := range seeds {
		b += fmt.Sprintln(s)
	}
	os.WriteFile(list, []byte(b), 0o644)
	res := filepath.Join(o.Tmp, "batch.res")
	out := o.run(300*time.Second, res, "-mode", "batch", "-prop", p.ID, "-seeds", list, "-result", res)
	class, msg, crash, harness := classify(p, out)
	if harness {
		class = ""
	}
	return out, class, msg, crash
}

// Replay re-executes a replay file and returns the exit code.
func Replay(p *Prop, o Options, rf *ReplayFile) int {
	if len(rf.BatchSeeds) > 0 {
		_, class, msg, crash := o.batch(p, rf.BatchSeeds)
		fmt.Printf("replay: class %q: %s\n%s\n", class, msg, crash)
		if class == rf.Class {
			return 1
		}
		return 0
	}
	a := o.try(p, rf.Spec, 1, false, true)
	if a == nil {
		fmt.Println("replay: no violation")
		return 0
	}
	fmt.Printf("replay: class %q: %s\n", a.class, a.msg)
	exact := a.class == rf.Class && a.msg == rf.Message
	if a.res != nil {
		for _, l := range a.res.Log {
			fmt.Println("  " + l)
		}
		fmt.Println("schedule:")
		for _, l := range a.res.Trace {
			fmt.Println("  " + l)
		}
		exact = exact && a.res.LogHash == rf.LogHash && a.res.SchedHash == rf.SchedHash
	} else {
		fmt.Println(a.crash)
	}
	fmt.Printf("identical to the recorded violation: %v\n", exact)
	return 1
}
