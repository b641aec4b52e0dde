package props

import (
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"
	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// This file runs one writer next to subscribers that come at any moment and
// says exactly what each of them has to receive.

// tickClock is a clock of which every reading is different and remembered.
type tickClock struct {
	t        *core.T
	now      time.Time
	jumps    []time.Duration
	readings []time.Time
}

func (c *tickClock) Now() time.Time {
	c.now = c.now.Add(time.Second)
	if len(c.jumps) > 0 {
		c.now = c.now.Add(c.jumps[len(c.readings)%len(c.jumps)])
	}
	c.readings = append(c.readings, c.now)
	return c.now
}

// commit is one successful write that changed the store.
type commit struct {
	n         int
	op        *wop
	inv, resp uint64
	took      time.Duration
	id        string
	kind      types.ChangeType
	old, new  proto.Message
	times     []time.Time // acceptable change times
	seen      *time.Time  // the change time observed first
}

func (c *commit) String() string {
	return fmt.Sprintf("#%d [%d,%d] %s %q %s -> %s @%s", c.n, c.inv, c.resp, c.kind, c.id, txt(c.old), txt(c.new), timesText(c.times))
}

func timesText(ts []time.Time) string {
	out := ""
	for _, t := range ts {
		out += t.Format("15:04:05.000") + ","
	}
	return out
}

// okTime checks a change time against the commit; all subscribers have to
// agree on it.
func (c *commit) okTime(at time.Time) bool {
	if c.seen != nil {
		return c.seen.Equal(at)
	}
	for _, t := range c.times {
		if t.Equal(at) {
			c.seen = &at
			return true
		}
	}
	return false
}

// equivalence of a store under test, with its own reference.
type equivalence struct {
	name string
	opt  resource.Option
	eq   func(held, next proto.Message) bool // both non-nil
}

// serialRun is a store with one writer.
type serialRun struct {
	t        *core.T
	s        *store
	isVal    bool
	ids      []string
	clk      *tickClock
	initial  state
	initAt   map[string]*commit // pseudo commits of the initial contents
	commits  []*commit
	hs       []*hop
	eq       *equivalence
	script   []*wop
	pauses   []time.Duration
	onCommit func()
	fail     func(class, format string, args ...any)
}

func newSerial(t *core.T, isVal bool, nids int, eq *equivalence, extra ...resource.Option) *serialRun {
	r := &serialRun{t: t, isVal: isVal, eq: eq, clk: &tickClock{t: t, now: epoch}}
	if t.Chance(25) {
		for i := 0; i < 3; i++ {
			r.clk.jumps = append(r.clk.jumps, time.Duration(t.Range(-5, 5))*time.Minute)
		}
		t.Count("clock_jump", 1)
	}
	r.ids = drawIDs(t, nids)
	opts := append([]resource.Option{resource.WithClock(r.clk)}, extra...)
	if eq != nil {
		opts = append(opts, eq.opt)
	}
	r.s, r.initial = newStore(t, isVal, r.ids, opts...)
	r.initAt = map[string]*commit{}
	for id, m := range r.initial.items {
		if m != nil {
			r.initAt[id] = &commit{n: -1, id: id, new: m, kind: types.ChangeType_ADD, times: r.clk.readings}
		}
	}
	r.fail = func(class, format string, args ...any) {
		cs := ""
		for _, c := range r.commits {
			cs += "\n    " + c.String()
		}
		t.Fail(class, "%s\n  initial %s\n  history:%s\n  commits:%s", fmt.Sprintf(format, args...), r.initial, historyText(r.hs), cs)
	}
	return r
}

// draw draws the writer's script.
func (r *serialRun) draw(max int, rich bool) {
	t := r.t
	g := &opGen{kinds: [6]int{opAdd: 3, opUpdate: 7, opDelete: 4}, ids: r.ids, rich: rich, clock: func() time.Time { return epoch }}
	if r.isVal {
		g = &opGen{kinds: [6]int{opSet: 1}, rich: rich, clock: func() time.Time { return epoch }}
	}
	n := 0
	var usedOdd [3]bool
	t.Repeat(1, max, func(int) {
		o := g.draw(t)
		if !t.Chance(25) {
			o.expVal, o.chk, o.absent = nil, nil, false
		}
		if o.kind == opUpdate {
			o.create = t.Chance(70)
		}
		if o.wtime != nil {
			n++
			w := epoch.Add(-time.Duration(n)*time.Hour + time.Millisecond)
			if t.Chance(25) {
				// times that might not be taken for one, all different
				odd := []time.Time{{}, time.Unix(0, 0), w.Add(123457), time.Date(9999, 12, 31, 0, 0, n, 0, time.UTC), time.Date(1900, 1, 1, 0, 0, n, 1, time.UTC), epoch.AddDate(3, 0, n).In(time.FixedZone("odd", 5400))}
				if i := t.Int(len(odd)); i > 1 || !usedOdd[i] {
					w, usedOdd[min(i, 2)] = odd[i], true
				}
			}
			o.wtime = &w
		}
		r.script = append(r.script, o)
		p := time.Duration(0)
		if t.Chance(25) {
			p = time.Duration(t.Range(1, 10)) * 50 * time.Millisecond
		}
		r.pauses = append(r.pauses, p)
	})
	if t.Chance(5) {
		r.pauses[t.Int(len(r.pauses))] = drawLong(t)
	}
}

// bulk makes a script of n writes that go through the ids in turn, so that
// many items have changed at a time; of ten writes del are deletions.
func (r *serialRun) bulk(n, del int) {
	t := r.t
	there := map[string]bool{}
	for id := range r.initial.items {
		there[id] = true
	}
	at, step := t.Int(len(r.ids)), 1
	if t.Chance(40) {
		step = t.Range(1, len(r.ids))
	}
	again := t.Int(4)
	for i := 0; i < n; i++ {
		id := r.ids[at%len(r.ids)]
		if t.Int(8) >= again {
			at += step
		}
		o := &wop{kind: opUpdate, id: id, create: true, msg: &tp.TestAllTypes{DefaultInt32: int32(t.Int(4)), DefaultDouble: float64(10 + i)}}
		switch {
		case there[id] && t.Int(10) < del:
			o = &wop{kind: opDelete, id: id}
			there[id] = false
		case !there[id]:
			o.kind, o.create = opAdd, false
			fallthrough
		default:
			there[id] = true
		}
		r.script = append(r.script, o)
		r.pauses = append(r.pauses, 0)
	}
}

// write performs the script.
func (r *serialRun) write() {
	t := r.t
	now := r.initial.clone()
	for i, o := range r.script {
		if p := r.pauses[i]; p > 0 {
			time.Sleep(p)
		}
		h := &hop{op: o}
		r.hs = append(r.hs, h)
		mark := len(r.clk.readings)
		h.inv = t.Seq()
		c := &commit{n: len(r.commits), op: o, inv: h.inv}
		// The commit is known to the subscribers' checks from its start.
		began := t.Elapsed()
		h.ret, h.ok, _, h.err = r.s.exec(o, &h.ob)
		c.took = t.Elapsed() - began
		h.resp = t.Seq()
		c.resp = h.resp
		if t.Logging() {
			t.Logf("%s (%s)", h, c.took)
		}
		if h.err != nil || (o.kind == opDelete && h.ret == nil) {
			continue
		}
		id := r.s.icpt(o.id)
		if r.isVal {
			id = ""
		}
		if len(h.ob.ids) > 0 {
			id = h.ob.ids[0]
		}
		c.id = id
		c.times = r.clk.readings[mark:]
		if o.wtime != nil {
			c.times = []time.Time{*o.wtime}
		}
		if old, ok := now.items[id]; ok && old != nil {
			c.old = old
		}
		switch {
		case o.kind == opDelete:
			c.kind = types.ChangeType_REMOVE
			delete(now.items, id)
		case r.isVal:
			c.new = asTAT(clone(h.ret))
		case c.old == nil:
			c.kind, c.new = types.ChangeType_ADD, clone(h.ret)
		default:
			c.kind, c.new = types.ChangeType_UPDATE, clone(h.ret)
		}
		if c.new != nil {
			now.items[id] = asTAT(c.new)
		}
		r.commits = append(r.commits, c)
		if r.onCommit != nil {
			r.onCommit()
		}
	}
}

// stateAt is the contents after the first k commits, with the commit each item
// comes from.
func (r *serialRun) stateAt(k int) map[string]*commit {
	st := map[string]*commit{}
	for id, c := range r.initAt {
		st[id] = c
	}
	for _, c := range r.commits[:k] {
		if c.new == nil {
			delete(st, c.id)
		} else {
			st[c.id] = c
		}
	}
	return st
}

// window is the range of prefixes a subscription may have been opened at.
func (r *serialRun) window(su *sub) (lo, hi int) {
	for _, c := range r.commits {
		if c.resp < su.callSeq {
			lo = c.n + 1
		}
		if c.inv < su.openSeq {
			hi = c.n + 1
		}
	}
	return
}

func (r *serialRun) match(su *sub, id string, m proto.Message) bool {
	return m != nil && (su.pred == nil || su.pred.include(id, m))
}

// exact checks that su received precisely what it should have.
func (r *serialRun) exact(su *sub) {
	lo, hi := r.window(su)
	var reasons string
	for k := lo; k <= hi; k++ {
		seen := make([]*time.Time, len(r.commits))
		for i, c := range r.commits {
			seen[i] = c.seen
		}
		why := r.exactFrom(su, k)
		if why == "" {
			return
		}
		for i, c := range r.commits {
			c.seen = seen[i]
		}
		reasons += fmt.Sprintf("\n  as of commit %d: %s", k, why)
	}
	r.fail("script", "the received events are not the edit script%s\n  %s closed=%v%s", reasons, su, su.closed, eventsText(su.events))
}

// exactFrom says why the received events are not what a subscription opened
// after k commits receives, or nothing.
func (r *serialRun) exactFrom(su *sub, k int) string {
	es := su.events
	held := map[string]proto.Message{}
	unknown := map[string]bool{}
	st := r.stateAt(k)
	var ids []string
	for id, c := range st {
		if su.single && id != su.pullID {
			continue
		}
		if r.match(su, id, c.new) {
			ids = append(ids, id)
		}
	}
	sortStrings(ids)
	if su.updates {
		for _, id := range ids {
			unknown[id] = true
			held[id] = su.project(st[id].new)
		}
	} else {
		for i, id := range ids {
			if i >= len(es) {
				return fmt.Sprintf("seed %q is missing", id)
			}
			e, c := es[i], st[id]
			switch {
			case e.id != id:
				return fmt.Sprintf("seed %d is for %q, not %q", i, e.id, id)
			case !e.seed:
				return fmt.Sprintf("seed %d is not flagged as seed", i)
			case e.last != (i == len(ids)-1):
				return fmt.Sprintf("the last-seed flag of seed %d is %v", i, e.last)
			case !same(e.new, su.project(c.new)):
				return fmt.Sprintf("seed %q carries %s, not %s", id, txt(e.new), txt(su.project(c.new)))
			case su.colCh != nil && e.kind != types.ChangeType_ADD:
				return fmt.Sprintf("seed %q is of kind %s", id, e.kind)
			case e.old != nil:
				return fmt.Sprintf("seed %q has an old value", id)
			case !c.okTime(e.time):
				return fmt.Sprintf("seed %q has change time %s, the item's is %s", id, e.time.Format("15:04:05.000"), timesText(c.times))
			}
			held[id] = e.new
		}
		es = es[len(ids):]
	}
	for _, c := range r.commits[k:] {
		if su.single && c.id != su.pullID {
			continue
		}
		was, is := r.match(su, c.id, c.old), r.match(su, c.id, c.new)
		if r.isVal {
			was = c.old != nil
		}
		if !was && !is {
			continue
		}
		if su.single && !is {
			// the stream ends
			if len(es) > 0 {
				return fmt.Sprintf("an event follows the removal: %s", es[0])
			}
			if !su.closed {
				return "the stream did not end with the removal"
			}
			return ""
		}
		want := event{id: c.id, kind: c.kind}
		if is {
			want.new = su.project(c.new)
		}
		if !su.single && was && !r.isVal {
			want.old = su.project(c.old)
		}
		if r.isVal || su.single {
			want.kind = types.ChangeType_CHANGE_TYPE_UNSPECIFIED
		} else {
			switch {
			case was && is:
				want.kind = types.ChangeType_UPDATE
			case is:
				want.kind = types.ChangeType_ADD
			default:
				want.kind = types.ChangeType_REMOVE
			}
		}
		diff := ""
		if len(es) == 0 {
			diff = "is missing"
		} else {
			e := es[0]
			switch {
			case e.seed || e.last:
				diff = "is flagged as seed"
			case e.id != want.id:
				diff = fmt.Sprintf("is for %q", e.id)
			case e.kind != want.kind:
				diff = fmt.Sprintf("is of kind %s, not %s", e.kind, want.kind)
			case !same(e.new, want.new):
				diff = fmt.Sprintf("carries %s, not %s", txt(e.new), txt(want.new))
			case r.eq == nil && !same(e.old, want.old):
				diff = fmt.Sprintf("has old value %s, not %s", txt(e.old), txt(want.old))
			case !c.okTime(e.time):
				diff = fmt.Sprintf("has change time %s, not %s", e.time.Format("15:04:05.000"), timesText(c.times))
			}
		}
		suppress, either := false, false
		if h, ok := held[c.id]; r.eq != nil && ok && want.new != nil && r.eq.eq(h, want.new) {
			suppress = true
			// An updates-only subscriber holds nothing before its first event.
			either = unknown[c.id]
		} else if r.eq != nil && unknown[c.id] && want.new != nil && want.old != nil && r.eq.eq(want.old, want.new) {
			suppress, either = true, true
		}
		if suppress && !either {
			if diff == "" {
				// The event may belong to a later commit that looks the same.
				return fmt.Sprintf("%s was delivered although it is equivalent to %s, which the subscriber holds", es[0], txt(held[c.id]))
			}
			continue
		}
		if diff != "" {
			if suppress {
				if r.isVal || want.old != nil {
					held[c.id] = held[c.id]
				}
				continue
			}
			return fmt.Sprintf("the event of %s %s", c, diff)
		}
		delete(unknown, c.id)
		if is {
			held[c.id] = want.new
		} else {
			delete(held, c.id)
		}
		es = es[1:]
	}
	if len(es) > 0 {
		return fmt.Sprintf("unexpected %s", es[0])
	}
	if su.closed && su.single {
		return "the stream ended although the item is still there"
	}
	return ""
}

// start opens the subscription and reads until it closes.
func (su *sub) start(s *store, early bool, delay time.Duration) {
	if early {
		su.open(s)
	}
	go func() {
		if delay > 0 {
			time.Sleep(delay)
		}
		if !su.opened {
			su.t.Count("subscribe_during_writes", 1)
			su.open(s)
		}
		su.read()
	}()
}

var _ *tp.TestAllTypes
