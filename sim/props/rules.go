package props

import (
	"fmt"
	"strings"
	"time"

	"google.golang.org/grpc/codes"

	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// A ruleModel is something driven by calls, described by a reference that says
// what each call may do to a state.
type ruleModel struct {
	init  any                // the reference's state; steps must not change it in place
	key   func(s any) string // canonical text of a state
	now   func() string      // the same text for what the real thing holds
	check func() string      // what must hold at all times, "" when it does
	draw  func() *ruleOp
	watch func(i int) func() string // opens a subscriber, the result reports what it saw wrong
	count func(o *ruleOp)
}

type ruleOp struct {
	name  string
	read  bool // doesn't change anything
	pause time.Duration
	run   func()
	ret   func() string
	err   error
	step  func(s any) (next any, why string)

	inv, resp uint64
	done      bool
}

func (o *ruleOp) String() string {
	if !o.done {
		return fmt.Sprintf("[%d,…] %s", o.inv, o.name)
	}
	res := ""
	if o.err != nil {
		res = " = error " + o.err.Error()
	} else if o.ret != nil {
		res = " = " + o.ret()
	}
	return fmt.Sprintf("[%d,%d] %s%s", o.inv, o.resp, o.name, res)
}

// aborted reports whether o was turned away because of a concurrent write.
func (o *ruleOp) aborted(concurrent bool) bool { return concurrent && code(o.err) == codes.Aborted }

// linearise searches for an order of the calls, consistent with the order in
// which they happened, in which the reference explains every result.
type linearise struct {
	ops   []*ruleOp
	key   func(s any) string
	final string
	seen  map[string]bool
	deep  int
	why   string
}

func (l *linearise) search(s any, done uint64) bool {
	n := 0
	minResp := ^uint64(0)
	for i, o := range l.ops {
		if done&(1<<i) == 0 {
			minResp = min(minResp, o.resp)
		} else {
			n++
		}
	}
	if n == len(l.ops) {
		if k := l.key(s); k != l.final {
			l.deep, l.why = n, "the final state would be "+k
			return false
		}
		return true
	}
	key := fmt.Sprintf("%x|%s", done, l.key(s))
	if l.seen[key] {
		return false
	}
	l.seen[key] = true
	for i, o := range l.ops {
		if done&(1<<i) != 0 || o.inv > minResp {
			continue
		}
		next, why := o.step(s)
		if why != "" {
			if n >= l.deep {
				l.deep, l.why = n, fmt.Sprintf("%s: %s\n    in the state %s", o, why, l.key(s))
			}
			continue
		}
		if l.search(next, done|1<<i) {
			return true
		}
	}
	return false
}

// runRules drives a model by one caller, checking each step against the
// reference, or by several, checking that some order explains the results.
func runRules(t *core.T, m *ruleModel, concurrent bool) {
	callers, maxOps := 1, 25
	if concurrent {
		callers = t.Range(2, 4)
		maxOps = []int{0, 0, 6, 4, 3}[callers]
	}
	var scripts [][]*ruleOp
	for i := 0; i < callers; i++ {
		var s []*ruleOp
		t.Repeat(1, maxOps, func(int) {
			o := m.draw()
			if concurrent {
				o.pause = time.Duration(t.Int(3)) * tick
			}
			s = append(s, o)
		})
		scripts = append(scripts, s)
	}
	var watches []func() string
	if m.watch != nil {
		for i := t.Int(3); i > 0; i-- {
			watches = append(watches, m.watch(i))
		}
	}
	var hist []*ruleOp
	pending := callers
	fail := func(class, format string, args ...any) {
		var b strings.Builder
		fmt.Fprintf(&b, format, args...)
		fmt.Fprintf(&b, "\n  initially %s\n  history:", m.key(m.init))
		for _, o := range hist {
			b.WriteString("\n    " + o.String())
		}
		fmt.Fprintf(&b, "\n  now %s", m.now())
		t.Fail(class, "%s", b.String())
	}
	check := func() {
		if m.check != nil {
			if why := m.check(); why != "" {
				fail("inconsistent", "%s", why)
			}
		}
	}
	check()
	if now := m.now(); now != m.key(m.init) {
		fail("configuration", "the model does not start as it was configured")
	}
	state := m.init
	for _, s := range scripts {
		go func() {
			for _, o := range s {
				if o.pause > 0 {
					time.Sleep(o.pause)
				}
				hist = append(hist, o)
				o.inv = t.Seq()
				o.run()
				o.resp, o.done = t.Seq(), true
				if t.Logging() {
					t.Logf("%s", o)
				}
				if m.count != nil {
					m.count(o)
				}
				check()
				if concurrent {
					continue
				}
				next, why := o.step(state)
				if why != "" {
					fail("wrong-result", "%s: %s\n  reference %s", o, why, m.key(state))
				}
				if !o.read && m.key(next) != m.key(state) {
					t.Nontrivial()
				}
				state = next
				if now := m.now(); now != m.key(state) {
					fail("wrong-state", "after %s\n  the reference has %s", o, m.key(state))
				}
			}
			pending--
		}()
	}
	t.Settle(time.Hour)
	if pending > 0 {
		fail("stuck", "%d callers have not returned\n%s", pending, t.Stacks())
	}
	check()
	if concurrent {
		for i, a := range hist {
			for _, b := range hist[i+1:] {
				if b.inv < a.resp && !a.read && !b.read {
					t.Nontrivial()
				}
			}
		}
		l := &linearise{ops: hist, key: m.key, final: m.now(), seen: map[string]bool{}}
		if !l.search(m.init, 0) {
			fail("not-linearizable", "no order of these calls explains the results (deepest: %d calls, then %s)", l.deep, l.why)
		}
	}
	for _, w := range watches {
		if why := w(); why != "" {
			fail("inconsistent", "%s", why)
		}
	}
}
