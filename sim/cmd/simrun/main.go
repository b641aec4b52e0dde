// Command simrun runs the simulated checks.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/smart-core-os/sc-golang/verifsim/core"
	_ "github.com/smart-core-os/sc-golang/verifsim/props"
)

func main() {
	var (
		mode     = flag.String("mode", "check", "check, replay, worker, one, batch, hashes, list")
		prop     = flag.String("prop", "", "property")
		sites    = flag.String("sites", "", "yield point table")
		base     = flag.Uint64("base", 0, "first seed")
		stride   = flag.Uint64("stride", 1, "seed stride")
		n        = flag.Int64("n", 1<<62, "runs")
		deadline = flag.Duration("deadline", time.Minute, "worker time")
		status   = flag.String("status", "/dev/null", "")
		result   = flag.String("result", "/dev/null", "")
		stats    = flag.String("stats", "/dev/null", "")
		spec     = flag.String("spec", "", "")
		journal  = flag.String("journal", "", "")
		tries    = flag.Int("tries", 1, "")
		logOn    = flag.Bool("log", false, "")
		seeds    = flag.String("seeds", "", "")
		file     = flag.String("file", "", "replay file")
		verif    = flag.String("verif", "/verif", "")
		tier     = flag.String("tier", "quick", "")
		seed     = flag.Uint64("seed", 1, "")
		workers  = flag.Int("workers", 8, "")
		budget   = flag.Duration("budget", 40*time.Second, "")
		buildS   = flag.Float64("builds", 0, "")
		audit    = flag.Int64("audit", 40, "")
		tmp      = flag.String("tmp", "", "")
	)
	flag.Parse()
	core.LoadSites(*sites)
	p := core.Get(*prop)
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	if only := os.Getenv("SIM_SCENARIO"); only != "" { // for development
		for i, s := range p.Scenarios {
			if !strings.HasPrefix(s.Name, only) {
				p.Scenarios[i].Weight = 0
			}
		}
	}
	opts := func() core.Options {
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		d := *tmp
		if d == "" {
			d, err = os.MkdirTemp("", "simrun")
			if err != nil {
				panic(err)
			}
		}
		return core.Options{Self: self, Verif: *verif, Sites: *sites, Tier: *tier, Seed: *seed, Workers: *workers,
			Budget: *budget, BuildS: *buildS, Start: time.Now(), Audit: *audit, Tmp: d}
	}
	readSeeds := func() []uint64 {
		b, err := os.ReadFile(*seeds)
		if err != nil {
			panic(err)
		}
		var out []uint64
		for _, f := range strings.Fields(string(b)) {
			v, err := strconv.ParseUint(f, 10, 64)
			if err != nil {
				panic(err)
			}
			out = append(out, v)
		}
		return out
	}
	switch *mode {
	case "check":
		o := opts()
		code := core.Check(p, o)
		if *tmp == "" {
			os.RemoveAll(o.Tmp)
		}
		os.Exit(code)
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rf core.ReplayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		o := opts()
		code := core.Replay(p, o, &rf)
		os.RemoveAll(o.Tmp)
		os.Exit(code)
	case "worker":
		core.Worker(p, *base, *stride, *n, *deadline, *status, *result, *stats, *audit)
	case "one":
		core.One(p, *spec, *result, *journal, *tries, *logOn)
	case "batch":
		core.Batch(p, readSeeds(), *result)
	case "hashes":
		core.Hashes(p, readSeeds(), *stats, *result)
	default:
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(2)
	}
}
