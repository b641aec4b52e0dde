package props

import (
	"fmt"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C09",
		SiteFilter: []string{"pkg/resource/", "internal/minibus/"},
		Rule:       "A run counts as non-trivial when a lossy subscriber received fewer events than there were changes, or a backpressured or stuck one made a write wait.",
		Real:       []string{"pkg/resource.Value", "pkg/resource.Collection", "internal/minibus", "pkg/masks"},
		Stub:       []string{"readers (scripted pace)", "clock"},
		Faults:     []string{"slow_reader", "long_pause", "crowd_of_writers", "reader_stops", "stuck_reader", "subscribe_during_writes", "send_timeout"},
		Scenarios: []core.Scenario{
			{Name: "lossy-collection", Weight: 5, Leak: true, Run: func(t *core.T) { c09Lossy(t, false) }},
			{Name: "lossy-value", Weight: 3, Leak: true, Run: func(t *core.T) { c09Lossy(t, true) }},
			{Name: "lossy-concurrent", Weight: 3, Leak: true, Run: c09Concurrent},
			{Name: "bulk", Weight: 1, Leak: true, Run: c09Bulk},
			{Name: "backpressure", Weight: 3, Leak: true, Run: c09Backpressure},
			{Name: "stuck-value", Weight: 3, Leak: true, Run: c09Stuck},
		},
	})
}

// chain checks that the events of a collection subscription form a sensible
// sequence of changes of its view, whatever was merged or dropped.
func chain(su *sub) string {
	view := map[string]proto.Message{}
	known := map[string]bool{}
	for i, e := range su.events {
		old, has := view[e.id]
		if su.updates && !known[e.id] {
			// nothing is known about the item yet
			has = e.kind != types.ChangeType_ADD
			old = e.old
		}
		known[e.id] = true
		bad := ""
		switch e.kind {
		case types.ChangeType_ADD:
			if has {
				bad = "adds an item the subscriber already has"
			} else if e.old != nil {
				bad = "is an ADD with an old value"
			}
		case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
			if !has {
				bad = "updates an item the subscriber does not have"
			}
		case types.ChangeType_REMOVE:
			if !has {
				bad = "removes an item the subscriber does not have"
			} else if e.new != nil {
				bad = "is a REMOVE with a new value"
			}
		default:
			bad = "has an unknown kind"
		}
		if bad == "" && has && !same(e.old, old) {
			bad = fmt.Sprintf("does not continue from %s, the value the subscriber has", txt(old))
		}
		if bad == "" && has && e.old == nil {
			bad = "has no old value"
		}
		if bad == "" && e.kind != types.ChangeType_REMOVE && e.new == nil {
			bad = "has no new value"
		}
		if bad != "" {
			return fmt.Sprintf("event %d, %s, %s", i, e, bad)
		}
		if e.kind == types.ChangeType_REMOVE {
			delete(view, e.id)
		} else {
			view[e.id] = e.new
		}
	}
	return ""
}

// lossy checks a subscription for which events may have been merged.
func (r *serialRun) lossy(su *sub) {
	bad := func(class, format string, args ...any) {
		r.fail(class, "%s\n  %s closed=%v%s", fmt.Sprintf(format, args...), su, su.closed, eventsText(su.events))
	}
	if !su.opened {
		bad("subscribe-stuck", "the subscribe call has not returned")
	}
	lo, hi := r.window(su)
	final := r.stateAt(len(r.commits))
	if r.isVal {
		c := final[""]
		if len(su.events) == 0 {
			if c != nil && !su.updates {
				bad("missed", "nothing was delivered")
			}
			if len(r.commits) > hi {
				bad("missed", "none of the writes after the subscription was delivered")
			}
			return
		}
		e := su.events[len(su.events)-1]
		if !same(e.new, su.project(c.new)) {
			bad("stale", "the last event carries %s, the value is %s", txt(e.new), txt(su.project(c.new)))
		}
		if !c.okTime(e.time) {
			bad("time", "the last event has change time %s, the write had %s", e.time.Format("15:04:05.000"), timesText(c.times))
		}
		// every event is one of the writes, in order, without repetition
		k := -1
		for i, e := range su.events {
			from := k + 1
			if i == 0 && e.seed {
				if su.updates {
					bad("seed", "a seed was delivered although only updates were requested")
				}
				found := false
				for k = lo; k <= hi; k++ {
					if c := r.stateAt(k)[""]; c != nil && same(e.new, su.project(c.new)) && c.okTime(e.time) {
						found = true
						k = c.n
						break
					}
				}
				if !found {
					bad("seed", "the seed is not the value at any moment of the subscribe call")
				}
				continue
			}
			if e.seed {
				bad("seed", "event %d is flagged as seed", i)
			}
			for k = from; k < len(r.commits); k++ {
				if c := r.commits[k]; same(e.new, su.project(c.new)) && c.okTime(e.time) {
					break
				}
			}
			if k == len(r.commits) {
				bad("order", "event %d is not a later write than the event before it", i)
			}
		}
		return
	}
	if why := chain(su); why != "" {
		bad("chain", "%s", why)
	}
	// the seed is the contents at some moment of the subscribe call
	nseed := 0
	for nseed < len(su.events) && su.events[nseed].seed {
		nseed++
	}
	for i, e := range su.events[nseed:] {
		if e.seed || e.last {
			bad("seed", "event %d is flagged as seed", nseed+i)
		}
	}
	seedOK, start := false, 0
	for k := lo; k <= hi && !seedOK; k++ {
		seedOK, start = true, k
		if su.updates {
			seedOK = nseed == 0
			continue
		}
		n := 0
		for id, c := range r.stateAt(k) {
			if !r.match(su, id, c.new) {
				continue
			}
			n++
			found := false
			for _, e := range su.events[:nseed] {
				if e.id == id && same(e.new, su.project(c.new)) {
					found = true
				}
			}
			seedOK = seedOK && found
		}
		seedOK = seedOK && n == nseed
	}
	if !seedOK {
		bad("seed", "the seed is not the contents at any moment of the subscribe call")
	}
	view := fold(su.events)
	touched := map[string]bool{}
	for _, e := range su.events {
		touched[e.id] = true
	}
	at := r.stateAt(start)
	if lo != hi {
		at = nil
	}
	for _, id := range r.ids {
		c := final[id]
		var want proto.Message
		if c != nil && r.match(su, id, c.new) {
			want = su.project(c.new)
		}
		got, has := view[id]
		if su.updates && !touched[id] {
			// Nothing was delivered: right when the item is as it was.
			if at != nil {
				var was proto.Message
				if a := at[id]; a != nil && r.match(su, id, a.new) {
					was = su.project(a.new)
				}
				if (was == nil) != (want == nil) || (want != nil && !same(was, want)) {
					bad("missed", "item %q was %s and is now %s, which was not delivered", id, txt(was), txt(want))
				}
			}
			continue
		}
		if has != (want != nil) || (has && !same(got, want)) {
			bad("stale", "item %q is %s, the folded view has %s", id, txt(want), txt(got))
		}
	}
	if su.pred != nil {
		return
	}
	// change times identify the commits: an event merges all commits of its
	// item after those of the previous event, and so its kind is determined
	last := map[string]int{}
	for i, e := range su.events {
		from, ok := last[e.id]
		n := -2
		for _, c := range r.commits {
			if c.id == e.id && c.n >= from && (c.new == nil) == (e.new == nil) && same(su.project(c.new), e.new) && c.okTimeDry(e.time) {
				n = c.n
				break
			}
		}
		if e.seed {
			last[e.id] = lo
			if lo != hi {
				last[e.id] = len(r.commits) + 1 // unknown
			}
			continue
		}
		if n == -2 {
			if ok && from <= len(r.commits) {
				bad("time", "event %d, %s, is not the outcome of a write of this item after the event before it", i, e)
			}
			last[e.id] = len(r.commits) + 1
			continue
		}
		if !ok && lo == hi && !su.updates {
			from, ok = lo, true
		}
		if ok && from <= n {
			removed := false
			for _, c := range r.commits[from:n] {
				if c.id == e.id && c.kind == types.ChangeType_REMOVE {
					removed = true
				}
			}
			switch {
			case e.kind == types.ChangeType_UPDATE && removed:
				bad("kind", "event %d, %s, covers a removal and a new addition but is an UPDATE, not a REPLACE", i, e)
			case e.kind == types.ChangeType_REPLACE && !removed:
				bad("kind", "event %d, %s, is a REPLACE but the item was never removed", i, e)
			}
		}
		last[e.id] = n + 1
	}
}

// okTimeDry is okTime without remembering.
func (c *commit) okTimeDry(at time.Time) bool {
	for _, t := range c.times {
		if t.Equal(at) {
			return true
		}
	}
	return false
}

// stopper makes a reader stop for long at some point.
func drawStops(t *core.T) (pace func(int) time.Duration, d time.Duration) {
	at := t.Int(4)
	d = time.Duration(t.Range(1, 30)) * time.Second
	if t.Chance(8) {
		d = drawLong(t)
	}
	t.Count("reader_stops", 1)
	return func(i int) time.Duration {
		if i == at {
			return d
		}
		return 0
	}, d
}

func c09Lossy(t *core.T, isVal bool) {
	r := newSerial(t, isVal, t.Range(1, 3), nil)
	r.clk.jumps = nil
	r.draw(12, t.Chance(15))
	n := 0
	for _, o := range r.script {
		if o.msg != nil {
			n++
			o.msg.DefaultDouble = float64(10 + n)
		}
	}
	var subs []*sub
	stops := 120 * time.Second
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		su := drawSub(t, i, isVal, r.ids)
		su.single = false
		su.bp = false
		if t.Chance(50) {
			var d time.Duration
			su.pace, d = drawStops(t)
			stops += d
		} else if su.pace = drawPace(t, 2*time.Second); su.pace != nil {
			t.Count("slow_reader", 1)
		}
		subs = append(subs, su)
	}
	for _, su := range subs {
		su.start(r.s, t.Chance(50), time.Duration(t.Int(6))*50*time.Millisecond)
	}
	r.write()
	t.Settle(stops)
	for _, c := range r.commits {
		if c.took != 0 {
			r.fail("writer-waited", "the write %s took %s although no subscriber has backpressure", c, c.took)
		}
	}
	for _, su := range subs {
		_, hi := r.window(su)
		nev := len(su.events)
		for _, e := range su.events {
			if e.seed {
				nev--
			}
		}
		if nev < len(r.commits)-hi {
			t.Nontrivial()
		}
		r.lossy(su)
	}
}

// c09Bulk has a subscriber that is far behind in a collection of many items.
func c09Bulk(t *core.T) {
	n := core.Choose(t, 3, 6, 9, 17, 33, 65, 130, 260)
	r := newSerial(t, false, n, nil)
	r.clk.jumps = nil
	r.bulk(n+t.Int(n+1), t.Range(1, 6))
	var subs []*sub
	stops := 120 * time.Second
	for i, k := 0, t.Range(1, 2); i < k; i++ {
		su := drawSub(t, i, false, r.ids)
		su.single, su.bp = false, false
		if i == 0 {
			var d time.Duration
			su.pace, d = drawStops(t)
			stops += d
		}
		subs = append(subs, su)
	}
	for _, su := range subs {
		su.start(r.s, t.Chance(80), 0)
	}
	r.write()
	t.Settle(stops)
	for _, c := range r.commits {
		if c.took != 0 {
			r.fail("writer-waited", "the write %s took %s although no subscriber has backpressure", c, c.took)
		}
	}
	for _, su := range subs {
		if len(su.events) < len(r.commits) {
			t.Nontrivial()
		}
		r.lossy(su)
	}
}

// c09Concurrent has several writers and lossy subscribers.
func c09Concurrent(t *core.T) {
	ids := drawIDs(t, t.Range(1, 2))
	nw, maxOps := t.Range(2, 3), 5
	if t.Chance(6) {
		ids = drawIDs(t, t.Range(1, 12))
		nw, maxOps = t.Range(8, 20), 2
		t.Count("crowd_of_writers", 1)
	}
	s, initial := newStore(t, false, ids)
	g := &opGen{kinds: [6]int{opAdd: 4, opUpdate: 5, opDelete: 5}, ids: ids}
	scripts := writeScripts(t, g, nw, maxOps)
	for _, sc := range scripts {
		for _, o := range sc {
			o.expVal, o.chk = nil, nil
		}
	}
	var subs []*sub
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		su := drawSub(t, i, false, ids)
		su.single, su.bp = false, false
		su.pace = drawPace(t, 2*time.Second)
		subs = append(subs, su)
	}
	for _, su := range subs {
		su.start(s, t.Chance(60), 0)
	}
	began := t.Elapsed()
	hs := runHistory(t, s, scripts, nil)
	if d := t.Elapsed() - began; d != 0 {
		t.Fail("writer-waited", "the writes took %s although no subscriber has backpressure\n  history:%s", d, historyText(hs))
	}
	t.Settle(60 * time.Second)
	ok := 0
	for _, h := range hs {
		if h.err == nil {
			ok++
		}
	}
	for _, su := range subs {
		if len(su.events) < ok {
			t.Nontrivial()
		}
		if why := chain(su); why != "" {
			t.Fail("chain", "%s\n  %s%s\n  initial %s history:%s", why, su, eventsText(su.events), initial, historyText(hs))
		}
		final := map[string]proto.Message{}
		for _, id := range ids {
			if m, ok := s.col.Get(id); ok {
				final[id] = m
			}
		}
		c03Collection(t, su, ids, hs, initial, final)
	}
}

// c09Backpressure checks that writers wait for a slow backpressured reader and
// that it misses nothing.
func c09Backpressure(t *core.T) {
	isVal := t.Chance(40)
	r := newSerial(t, isVal, t.Range(1, 3), nil)
	r.draw(10, false)
	for i := range r.pauses {
		r.pauses[i] = 0
	}
	su := drawSub(t, 0, isVal, r.ids)
	su.bp, su.single = true, false
	d := time.Duration(t.Range(1, 40)) * 100 * time.Millisecond
	if !isVal && t.Chance(12) {
		d = drawLong(t) // a collection waits for as long as it takes
	}
	su.pace = func(int) time.Duration { return d }
	t.Count("slow_reader", 1)
	var other *sub
	if t.Chance(50) {
		other = drawSub(t, 1, isVal, r.ids)
		other.bp, other.single = t.Chance(50), false
		other.start(r.s, true, 0)
	}
	// how far the writer is ahead of the reader
	lag, maxLag := 0, 0
	su.onEvent = func(e *event) {
		if !e.seed {
			lag--
		}
	}
	su.start(r.s, true, 0)
	r.onCommit = func() {
		lag++
		if lag > maxLag {
			maxLag = lag
		}
		if lag > 2 {
			r.fail("not-waiting", "%d writes have returned that the backpressured reader has not received\n  %s%s", lag, su, eventsText(su.events))
		}
	}
	r.write()
	t.Settle(120*time.Second + 20*d)
	for _, c := range r.commits {
		if c.took > 0 {
			t.Nontrivial()
		}
	}
	r.exact(su)
	if other != nil {
		if other.bp {
			r.exact(other)
		} else {
			r.lossy(other)
		}
	}
}

// c09Stuck has a backpressured Value subscriber that stops reading for good.
func c09Stuck(t *core.T) {
	s, initial := newStore(t, true, nil)
	g := &opGen{kinds: [6]int{opSet: 1}}
	scripts := writeScripts(t, g, t.Range(1, 3), 4)
	for _, sc := range scripts {
		for _, o := range sc {
			o.expVal, o.chk = nil, nil
		}
	}
	stuck := drawSub(t, 0, true, nil)
	stuck.bp = true
	reads := t.Int(3)
	stuck.open(s)
	go func() {
		for i := 0; i < reads; i++ {
			if e := stuck.next(); e != nil {
				stuck.events = append(stuck.events, e)
			}
		}
	}()
	t.Count("stuck_reader", 1)
	healthy := drawSub(t, 1, true, nil)
	healthy.pace = drawPace(t, 100*time.Millisecond)
	healthy.start(s, true, 0)
	cancelAt := time.Duration(-1)
	if t.Chance(50) {
		cancelAt = time.Duration(t.Range(0, 24)) * 500 * time.Millisecond
		go func() {
			time.Sleep(cancelAt)
			stuck.cancel()
		}()
	}
	type res struct {
		h        *hop
		from, to time.Duration
	}
	var all []*res
	var hs []*hop
	left := len(scripts)
	fin := make(chan struct{})
	for c, sc := range scripts {
		go func() {
			for _, o := range sc {
				h := &hop{op: o, caller: c}
				r := &res{h: h, from: t.Elapsed()}
				h.inv = t.Seq()
				h.ret, _, _, h.err = s.exec(o, &h.ob)
				h.resp = t.Seq()
				r.to = t.Elapsed()
				hs, all = append(hs, h), append(all, r)
				if t.Logging() {
					t.Logf("%s (%s)", h, r.to-r.from)
				}
			}
			left--
			if left == 0 {
				close(fin)
			}
		}()
	}
	<-fin
	bad := func(class, format string, args ...any) {
		t.Fail(class, "%s\n  stuck: %s, reads %d, cancelled at %s%s\n  healthy: %s%s\n  initial %s history:%s", fmt.Sprintf(format, args...), stuck, reads, cancelAt, eventsText(stuck.events), healthy, eventsText(healthy.events), initial, historyText(hs))
	}
	ok := 0
	for _, r := range all {
		took := r.to - r.from
		if took > 5*time.Second {
			bad("hang", "the write %s took %s", r.h, took)
		}
		if r.h.err == nil {
			if !(cancelAt >= 0 && r.to >= cancelAt) {
				ok++
			}
			continue
		}
		if !strings.Contains(r.h.err.Error(), "bus.Send blocked") && code(r.h.err).String() != "Aborted" {
			bad("error", "unexpected error of %s", r.h)
		}
		if code(r.h.err).String() == "Aborted" {
			continue
		}
		t.Count("send_timeout", 1)
		t.Nontrivial()
		if took < 5*time.Second {
			bad("early", "the write %s failed after %s, before the send timeout", r.h, took)
		}
		if cancelAt >= 0 && r.to > cancelAt {
			bad("stalled", "the write %s timed out at %s although the only stuck subscriber was cancelled at %s", r.h, r.to, cancelAt)
		}
	}
	// The stuck reader takes what it reads, and its subscription holds one more
	// event at most.
	if max := reads + 1; ok > max {
		bad("silent-loss", "%d writes reported success while the stuck subscriber received %d events", ok, len(stuck.events))
	}
	t.Settle(30 * time.Second)
	final := s.val.Get()
	if n := len(healthy.events); n > 0 {
		if got := healthy.events[n-1].new; !same(got, healthy.project(final)) {
			bad("stale", "the healthy subscriber's last event is %s, the value is %s", txt(got), txt(final))
		}
	} else if ok > 0 {
		bad("missed", "the healthy subscriber received nothing")
	}
	stuck.cancel()
	began := t.Elapsed()
	if _, err := s.val.Set(smallMsg(t)); err != nil || t.Elapsed() != began {
		bad("not-recovered", "a write after the stuck subscriber was cancelled took %s: %v", t.Elapsed()-began, err)
	}
}
