package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Options of a check.
type Options struct {
	Self    string // this executable
	Verif   string // /verif
	Sites   string
	Tier    string
	Seed    uint64
	Workers int
	Budget  time.Duration // search time
	BuildS  float64       // seconds spent building
	Start   time.Time
	Audit   int64
	Tmp     string
}

// ReplayFile is what a violation is reported with.
type ReplayFile struct {
	Property   string   `json:"property"`
	Class      string   `json:"class"`
	Message    string   `json:"message"`
	FoundSeed  uint64   `json:"found_with_seed"`
	Spec       Spec     `json:"spec"`
	BatchSeeds []uint64 `json:"batch_seeds,omitempty"`
	LogHash    string   `json:"log_hash"`
	SchedHash  string   `json:"sched_hash"`
	Exact      bool     `json:"replayed_exactly"`
	Minimised  string   `json:"minimised"`
	Log        []string `json:"log"`
	Trace      []string `json:"schedule_trace"`
	Crash      string   `json:"crash,omitempty"`
}

type procOut struct {
	code   int
	stderr string
	res    *Result
}

func (o *Options) cmd(args ...string) *exec.Cmd {
	c := exec.Command(o.Self, append([]string{"-sites", o.Sites}, args...)...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", "GODEBUG=", "GORACE=exitcode=66 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0")
	return c
}

// run executes a child with a wall-clock limit.
func (o *Options) run(limit time.Duration, resultPath string, args ...string) procOut {
	c := o.cmd(args...)
	var eb limitedBuffer
	c.Stderr = &eb
	c.Stdout = &eb
	os.Remove(resultPath)
	if err := c.Start(); err != nil {
		return procOut{code: -1, stderr: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var out procOut
	select {
	case <-done:
		out.code = c.ProcessState.ExitCode()
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		out.code = -2
	}
	out.stderr = eb.String()
	if b, err := os.ReadFile(resultPath); err == nil {
		var r Result
		if json.Unmarshal(b, &r) == nil {
			out.res = &r
		}
	}
	return out
}

type limitedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 4<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *limitedBuffer) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// repoPrefix is where the code under test lives.
var repoPrefix = func() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return strings.TrimSuffix(r, "/") + "/"
	}
	return "/repo/"
}()

var reHex = regexp.MustCompile(`0x[0-9a-f]+`)
var reGo = regexp.MustCompile(`goroutine \d+( gp=\S+)?( m=\S+)?( mp=\S+)?`)

// classify turns a child's exit into a failure class. harness is true when the
// failure does not involve the code under test.
func classify(p *Prop, out procOut) (class, msg, crash string, harness bool) {
	switch {
	case out.res != nil && out.res.Class == "race":
		return classifyRace(out.stderr)
	case out.res != nil && out.code == exitViolation:
		return out.res.Class, out.res.Message, "", false
	case out.code == exitOverrun:
		return "livelock", "the run exceeded its step limit: some goroutine makes no progress", "", false
	case out.code == 0:
		return "", "", "", false
	case out.code == -2:
		return "timeout", "wall-clock limit", tail(out.stderr, 4000), true
	}
	// panic or fatal error
	s := out.stderr
	i := -1
	for _, m := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds"} {
		if j := strings.Index(s, m); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 {
		return "exit", fmt.Sprintf("exit code %d", out.code), tail(s, 4000), true
	}
	s = s[i:]
	line, rest, _ := strings.Cut(s, "\n")
	line = reHex.ReplaceAllString(line, "0x?")
	line = reGo.ReplaceAllString(line, "goroutine ?")
	if j := strings.Index(line, " [recovered"); j > 0 {
		line = line[:j]
	}
	// first goroutine trace
	frame := ""
	if j := strings.Index(rest, "\ngoroutine "); j >= 0 {
		tr := rest[j+1:]
		if k := strings.Index(tr, "\n\n"); k >= 0 {
			tr = tr[:k]
		}
		frame = firstRepoFrame(tr)
	}
	fn := frame
	if frame == "" {
		return "panic", line, tail(s, 6000), true
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return "panic in " + frameFunc(fn), line + " @ " + fn, reHex.ReplaceAllString(s, "0x?"), false
}

func frameFunc(f string) string {
	if i := strings.Index(f, " "); i > 0 {
		return f[:i]
	}
	return f
}

// firstRepoFrame finds the first frame of the code under test in a goroutine
// trace.
func firstRepoFrame(tr string) string {
	lines := strings.Split(tr, "\n")
	for i := 0; i+1 < len(lines); i++ {
		pos := strings.TrimSpace(lines[i+1])
		if strings.HasPrefix(pos, repoPrefix) {
			fn := strings.TrimSpace(lines[i])
			if strings.HasPrefix(fn, "created by ") {
				continue
			}
			if j := strings.LastIndex(fn, "("); j > 0 {
				fn = fn[:j]
			}
			if j := strings.Index(pos, " +0x"); j > 0 {
				pos = pos[:j]
			}
			return strings.TrimPrefix(fn, "github.com/smart-core-os/sc-golang/") + " " + strings.TrimPrefix(pos, repoPrefix)
		}
	}
	return ""
}

func classifyRace(stderr string) (class, msg, crash string, harness bool) {
	i := strings.Index(stderr, "WARNING: DATA RACE")
	if i < 0 {
		return "race", "race reported but no report found", tail(stderr, 2000), true
	}
	rep := stderr[i:]
	if j := strings.Index(rep, "\n=================="); j >= 0 {
		rep = rep[:j]
	}
	secs := strings.Split(rep, "\n\n")
	var frames []string
	any := false
	for k, sec := range secs {
		if k > 1 {
			break
		}
		f := firstRepoFrame(sec)
		if f == "" {
			// the harness reading or writing a message it was given
			lines := strings.Split(sec, "\n")
			if len(lines) > 1 {
				fn := strings.TrimSpace(lines[1])
				if k == 0 && len(lines) > 2 {
					fn = strings.TrimSpace(lines[2])
				}
				if j := strings.LastIndex(fn, "("); j > 0 {
					fn = fn[:j]
				}
				f = "consumer:" + fn
			}
		} else {
			any = true
		}
		frames = append(frames, f)
	}
	sort.Strings(frames)
	if !any {
		// both accesses in the harness: still a race the library allowed when
		// the memory was handed out by it; the goroutine creation frames tell
		if strings.Contains(rep, repoPrefix+"pkg") || strings.Contains(rep, repoPrefix+"internal") {
			any = true
		}
	}
	var fns []string
	for _, f := range frames {
		fns = append(fns, frameFunc(f))
	}
	return "race " + strings.Join(fns, " / "), strings.Join(frames, " <-> "), reHex.ReplaceAllString(rep, "0x?"), !any
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Known is an entry of the known-findings file.
type Known struct {
	Prop, Class, Match, Text string
}

func loadKnown(verif string) []Known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// finding: property=<id> class=<class> match=<text>; description
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, desc, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), ";")
		k := Known{Text: strings.TrimSpace(desc)}
		for _, f := range strings.SplitN(head, " ", 3) {
			key, v, _ := strings.Cut(f, "=")
			switch key {
			case "property":
				k.Prop = v
			case "class":
				k.Class = v
			case "match":
				k.Match = v
			}
		}
		out = append(out, k)
	}
	return out
}

func isKnown(ks []Known, prop, class, msg string) *Known {
	for i := range ks {
		if ks[i].Prop == prop && ks[i].Class == class && ks[i].Match != "" && strings.Contains(msg, ks[i].Match) {
			return &ks[i]
		}
	}
	return nil
}

type found struct {
	worker int
	seed   uint64
	first  uint64
	out    procOut
	class  string
	msg    string
	crash  string
}

// Check searches for a violation and returns the process exit code.
func Check(p *Prop, o Options) int {
	known := loadKnown(o.Verif)
	knownHit := map[string]*Known{}
	for i := range known {
		if known[i].Prop == p.ID {
			knownHit[known[i].Text] = &known[i]
		}
	}
	base := o.Seed * 1_000_000_007
	fmt.Printf("check %s: seed %d (first run seed %d), tier %s, %d workers, %s search\n", p.ID, o.Seed, base, o.Tier, o.Workers, o.Budget)
	searchStart := time.Now()
	var mu sync.Mutex
	var finds []found
	var harnessErr string
	var stats []*WorkerStats
	var crashedRuns int64
	stop := make(chan struct{})
	var stopOnce sync.Once
	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			next := base + uint64(w)
			stride := uint64(o.Workers)
			restarts := 0
			for {
				left := o.Budget - time.Since(searchStart)
				if left <= 0 {
					return
				}
				status := filepath.Join(o.Tmp, fmt.Sprintf("status%d", w))
				result := filepath.Join(o.Tmp, fmt.Sprintf("result%d", w))
				statsPath := filepath.Join(o.Tmp, fmt.Sprintf("stats%d", w))
				os.Remove(status)
				os.Remove(result)
				os.Remove(statsPath)
				first := next
				audit := int64(0)
				if restarts == 0 {
					audit = o.Audit
				}
				c := o.cmd("-mode", "worker", "-prop", p.ID, "-base", fmt.Sprint(next), "-stride", fmt.Sprint(stride),
					"-deadline", left.String(), "-status", status, "-result", result, "-stats", statsPath, "-audit", fmt.Sprint(audit))
				var eb limitedBuffer
				c.Stderr, c.Stdout = &eb, &eb
				if err := c.Start(); err != nil {
					mu.Lock()
					harnessErr = err.Error()
					mu.Unlock()
					return
				}
				done := make(chan struct{})
				go func() { c.Wait(); close(done) }()
				hung := false
				lastSeed, lastChange := uint64(0), time.Now()
			wait:
				for {
					select {
					case <-done:
						break wait
					case <-stop:
						c.Process.Kill()
						<-done
						return
					case <-time.After(500 * time.Millisecond):
						s := readStatus(status)
						if s != lastSeed {
							lastSeed, lastChange = s, time.Now()
						} else if time.Since(lastChange) > 90*time.Second {
							hung = true
							c.Process.Kill()
						}
					}
				}
				code := c.ProcessState.ExitCode()
				if b, err := os.ReadFile(statsPath); err == nil {
					var st WorkerStats
					if json.Unmarshal(b, &st) == nil {
						mu.Lock()
						stats = append(stats, &st)
						mu.Unlock()
					}
				}
				if code == 0 {
					return
				}
				out := procOut{code: code, stderr: eb.String()}
				if hung {
					out.code = -2
				}
				if b, err := os.ReadFile(result); err == nil {
					var r Result
					if json.Unmarshal(b, &r) == nil {
						out.res = &r
					}
				}
				seed := readStatus(status)
				class, msg, crash, harness := classify(p, out)
				mu.Lock()
				crashedRuns += int64((seed-first)/stride) + 1
				if harness {
					harnessErr = fmt.Sprintf("seed %d: %s: %s\n%s", seed, class, msg, crash)
					mu.Unlock()
					stopOnce.Do(func() { close(stop) })
					return
				}
				if k := isKnown(known, p.ID, class, msg); k != nil {
					mu.Unlock()
					next = seed + stride
					restarts++
					continue
				}
				finds = append(finds, found{w, seed, first, out, class, msg, crash})
				mu.Unlock()
				stopOnce.Do(func() { close(stop) })
				return
			}
		}(w)
	}
	wg.Wait()
	searchWall := time.Since(searchStart)
	if len(finds) == 0 && harnessErr != "" {
		fmt.Printf("ERROR %s: the harness failed, nothing was decided: %s\n", p.ID, harnessErr)
		return 2
	}
	code := 0
	var replayPath string
	if len(finds) > 0 {
		sort.Slice(finds, func(i, j int) bool { return finds[i].seed < finds[j].seed })
		f := finds[0]
		fmt.Printf("violation: seed %d class %q: %s\n", f.seed, f.class, firstLines(f.msg, 12))
		rf, err := o.report(p, f)
		if err != nil {
			fmt.Printf("ERROR %s: %v\n", p.ID, err)
			return 2
		}
		dir := filepath.Join(o.Verif, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.ID, f.seed))
		writeResult(replayPath, rf)
		fmt.Printf("  %s\n  minimised: %s; replayed exactly: %v\n  log:\n", firstLines(rf.Message, 30), rf.Minimised, rf.Exact)
		for _, l := range head(rf.Log, 60) {
			fmt.Println("    " + l)
		}
		if rf.Crash != "" {
			fmt.Println(firstLines(rf.Crash, 60))
		}
		code = 1
	}
	mismatches, audited := 0, 0
	if code == 0 && o.Audit > 0 && !p.Race {
		audited, mismatches = o.audit(p, stats)
	}
	o.evidence(p, stats, crashedRuns, searchWall, len(finds), audited, mismatches, replayPath, finds)
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.Text)
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
	} else if mismatches > 0 {
		// Not a reason to distrust what was observed: the tree does something
		// the simulator doesn't control. Replays may be inexact.
		fmt.Printf("NOTE %s: %d of %d audited runs did not repeat exactly\n", p.ID, mismatches, audited)
	}
	return code
}

func head(l []string, n int) []string {
	if len(l) > n {
		return l[:n]
	}
	return l
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n    ")
}

func readStatus(path string) uint64 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}

// audit repeats some runs in fresh processes, in another order and with another
// worker split, and compares their schedules.
func (o *Options) audit(p *Prop, stats []*WorkerStats) (n, bad int) {
	want := map[uint64]string{}
	for _, s := range stats {
		for k, v := range s.AuditRuns {
			want[k] = v
		}
	}
	var seeds []uint64
	for k := range want {
		seeds = append(seeds, k)
	}
	if len(seeds) == 0 {
		return
	}
	sort.Slice(seeds, func(i, j int) bool { return seeds[i] > seeds[j] })
	var mu sync.Mutex
	var wg sync.WaitGroup
	const procs = 5
	for w := 0; w < procs; w++ {
		var mine []string
		for i := w; i < len(seeds); i += procs {
			mine = append(mine, fmt.Sprint(seeds[i]))
		}
		if len(mine) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			list := filepath.Join(o.Tmp, fmt.Sprintf("audit%d", w))
			outp := list + ".out"
			os.WriteFile(list, []byte(strings.Join(mine, "\n")), 0o644)
			o.run(120*time.Second, outp+".res", "-mode", "hashes", "-prop", p.ID, "-seeds", list, "-stats", outp)
			b, _ := os.ReadFile(outp)
			got := map[uint64]string{}
			json.Unmarshal(b, &got)
			mu.Lock()
			defer mu.Unlock()
			for _, m := range mine {
				k, _ := strconv.ParseUint(m, 10, 64)
				n++
				if got[k] != want[k] {
					bad++
					if bad < 5 {
						fmt.Printf("audit: seed %d: %q then %q\n", k, want[k], got[k])
					}
				}
			}
		}()
	}
	wg.Wait()
	return
}

// Hashes runs seeds and records their schedule hashes.
func Hashes(p *Prop, seeds []uint64, statsPath, resultPath string) {
	setupProcess()
	got := map[uint64]string{}
	for i, s := range seeds {
		dump := os.Getenv("SIM_DUMP") != "" && i == len(seeds)-1
		t := execute(p, Spec{Seed: s}, dump, dump, nil, func(r *Result) { writeResult(resultPath, r) })
		stats, dec, tr := runtime.SimResult()
		h := stats.Hash
		for _, v := range t.tape.rec {
			h = (h ^ v) * 0x100000001b3
		}
		got[s] = fmt.Sprintf("%x/%d/%d", h, stats.Steps, len(dec))
		if dump {
			for _, d := range dec {
				fmt.Println("dec", d.Step, d.Kind, d.Arg)
			}
			for _, e := range tr {
				fmt.Printf("%+v %s -> %s\n", e, SiteName(e.FromSite), SiteName(e.ToSite))
			}
			for _, l := range t.log {
				fmt.Println(l)
			}
		}
		collect(int64(i))
	}
	b, _ := json.Marshal(got)
	os.WriteFile(statsPath, b, 0o644)
}

func (o *Options) evidence(p *Prop, stats []*WorkerStats, crashed int64, wall time.Duration, violations, audited, mismatches int, replay string, finds []found) {
	tot := WorkerStats{Scenarios: map[string]int64{}, Counters: map[string]int64{}, Pairs: make([]byte, 8192), Hits: make([]byte, 8192)}
	hs := map[uint64]struct{}{}
	var seeds []string
	for _, s := range stats {
		tot.Runs += s.Runs
		tot.Nontrivial += s.Nontrivial
		tot.Steps += s.Steps
		tot.Switches += s.Switches
		tot.Preempts += s.Preempts
		tot.Stalls += s.Stalls
		tot.Selects += s.Selects
		tot.Picks += s.Picks
		tot.SimTime += s.SimTime
		tot.MaxGo = max(tot.MaxGo, s.MaxGo)
		tot.MaxReady = max(tot.MaxReady, s.MaxReady)
		for i := range s.Modes {
			tot.Modes[i] += s.Modes[i]
		}
		for k, v := range s.Scenarios {
			tot.Scenarios[k] += v
		}
		for k, v := range s.Counters {
			tot.Counters[k] += v
		}
		for i := range s.Pairs {
			tot.Pairs[i] |= s.Pairs[i]
		}
		for i := range s.Hits {
			tot.Hits[i] |= s.Hits[i]
		}
		for _, h := range s.Hashes {
			hs[h] = struct{}{}
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, s.Samples...)
		}
		seeds = append(seeds, fmt.Sprintf("%d..%d", s.FirstSeed, s.LastSeed))
	}
	pairs := 0
	for _, b := range tot.Pairs {
		pairs += bits.OnesCount8(b)
	}
	reached, scope := p.reached(tot.Hits)
	if f := os.Getenv("SIM_UNREACHED"); f != "" {
		os.WriteFile(f, []byte(unreached(tot.Hits)), 0o644)
	}
	faults := map[string]int64{"preemption_between_statements": int64(tot.Preempts), "stall_at_statement": int64(tot.Stalls)}
	probes := map[string]int64{}
	isFault := map[string]bool{}
	for _, f := range p.Faults {
		isFault[f] = true
		faults[f] = tot.Counters[f]
	}
	for k, v := range tot.Counters {
		if !isFault[k] {
			probes[k] = v
		}
	}
	if len(tot.Samples) > 4 {
		tot.Samples = tot.Samples[:4]
	}
	runs := tot.Runs + crashed
	samples := []any{}
	for _, s := range tot.Samples {
		samples = append(samples, s)
	}
	for _, f := range finds {
		if len(samples) < 5 {
			samples = append(samples, map[string]any{"seed": f.seed, "violation": f.class})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"seed": o.Seed * 1_000_000_007, "note": "no sampled run"})
	}
	hours := wall.Hours()
	ev := map[string]any{
		"property": p.ID, "tier": o.Tier, "seed": int64(o.Seed), "level": "exploration",
		"wall_s": time.Since(o.Start).Seconds() + o.BuildS, "violations": violations,
		"assumptions": append([]string{
			"goroutines lose the processor only at statement boundaries of the code under test, at blocking operations and at exits",
			"one processor: hardware memory-order effects are covered only by the race detector (C11)",
			"a clean batch is sampled evidence, not proof",
		}, p.Assume...),
		"coverage": map[string]any{
			"evaluations":               runs,
			"distinct_nontrivial":       len(hs),
			"rule":                      p.Rule + " Distinct: by hash of the workload tape and of every goroutine switch (who, where, to whom, where).",
			"samples":                   samples,
			"nontrivial_runs":           tot.Nontrivial,
			"runs_per_hour":             int64(float64(runs) / hours),
			"seeds_per_hour":            int64(float64(runs) / hours),
			"seed_ranges":               seeds,
			"search_wall_s":             wall.Seconds(),
			"build_wall_s":              o.BuildS,
			"workers":                   o.Workers,
			"simulated_time_s":          tot.SimTime,
			"decision_points":           tot.Steps,
			"goroutine_switches":        tot.Switches,
			"contended_picks":           tot.Picks,
			"select_decisions":          tot.Selects,
			"faults_injected":           faults,
			"probes":                    probes,
			"scheduler_modes":           map[string]int64{"random_walk": tot.Modes[0], "pct": tot.Modes[1], "site_holds": tot.Modes[2]},
			"scenarios":                 tot.Scenarios,
			"switch_site_pairs":         pairs,
			"switch_site_pairs_measure": "distinct (statement switched from, statement switched to) pairs, hashed into 65536 buckets",
			"statements_reached":        reached,
			"statements_in_scope":       scope,
			"statements_measure":        "yield points of the files the schedules of this property may be held at (all of pkg/ and internal/ where it names none)",
			"max_goroutines":            tot.MaxGo,
			"max_ready":                 tot.MaxReady,
			"determinism_audit":         map[string]int{"runs_repeated_in_other_processes": audited, "mismatches": mismatches},
			"real_components":           p.Real,
			"stub_components":           p.Stub,
			"replay":                    replay,
		},
	}
	writeResult(filepath.Join(o.Verif, "evidence", p.ID+".json"), ev)
	fmt.Printf("%s: %d runs in %.1fs (%.0f/s), %d distinct non-trivial, %.0f simulated seconds, %d switches, %d switch-site pairs; scenarios %v; counters %v; audit %d/%d\n",
		p.ID, runs, wall.Seconds(), float64(runs)/wall.Seconds(), len(hs), tot.SimTime, tot.Switches, pairs, tot.Scenarios, tot.Counters, audited-mismatches, audited)
}
