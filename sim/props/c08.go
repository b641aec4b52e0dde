package props

import (
	"sort"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C08",
		SiteFilter: []string{"pkg/resource/", "internal/minibus/", "pkg/trait/bookingpb/"},
		Rule:       "A run counts as non-trivial when an update changed whether an item matches a predicate that a subscriber uses.",
		Real:       []string{"pkg/resource.Collection", "internal/minibus", "pkg/masks", "bookingpb with its router and wrappers"},
		Stub:       []string{"readers (scripted pace)", "predicates (truth tables)", "clock"},
		Faults:     []string{"slow_reader", "subscribe_during_writes", "predicate_true_for_nil", "long_pause"},
		Scenarios: []core.Scenario{
			{Name: "script", Weight: 4, Leak: true, Run: c08Script},
			{Name: "lossy", Weight: 2, Leak: true, Run: c08Lossy},
			{Name: "concurrent", Weight: 3, Leak: true, Run: c08Concurrent},
			{Name: "booking", Weight: 2, Leak: true, Run: func(t *core.T) { runC14List(t, bookingList()) }},
			{Name: "booking-concurrent", Weight: 1, Leak: true, Run: func(t *core.T) { runC14ListConcurrent(t, bookingList()) }},
		},
	})
}

// c08Sub draws a subscription with a predicate.
func c08Sub(t *core.T, n int, ids []string) *sub {
	su := drawSub(t, n, false, ids)
	su.single = t.Chance(12)
	if su.single {
		su.pullID = ids[t.Int(len(ids))]
	}
	su.pred = drawPredicate(t, ids)
	if su.pred.onNil {
		t.Count("predicate_true_for_nil", 1)
	}
	su.pace = drawPace(t, 500*time.Millisecond)
	if su.pace != nil {
		t.Count("slow_reader", 1)
	}
	return su
}

// c08List checks List with a predicate against Get.
func c08List(t *core.T, s *store, ids []string, su *sub) []proto.Message {
	opts := []resource.ReadOption{resource.WithInclude(su.pred.include)}
	if su.hasMask {
		opts = append(opts, su.opts()[2])
	}
	got := s.col.List(opts...)
	sorted := append([]string(nil), ids...)
	sort.Strings(sorted)
	var want []proto.Message
	for _, id := range sorted {
		if m, ok := s.col.Get(id); ok && su.pred.include(id, m) {
			want = append(want, su.project(m))
		}
	}
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = same(got[i], want[i])
	}
	if !ok {
		t.Fail("list", "List with predicate %s is %v, the matching items are %v", su.pred, txts(got), txts(want))
	}
	return got
}

func (r *serialRun) matchChanged(su *sub) bool {
	for _, c := range r.commits {
		if c.inv > su.openSeq && r.match(su, c.id, c.old) != r.match(su, c.id, c.new) && c.old != nil && c.new != nil {
			return true
		}
	}
	return false
}

func c08Script(t *core.T) {
	r := newSerial(t, false, t.Range(1, 4), nil)
	r.draw(8, t.Chance(15))
	var subs []*sub
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		su := c08Sub(t, i, r.ids)
		su.bp = true
		subs = append(subs, su)
	}
	for _, su := range subs {
		su.start(r.s, t.Chance(50), time.Duration(t.Int(6))*50*time.Millisecond)
	}
	if t.Chance(40) {
		c08List(t, r.s, r.ids, subs[0])
	}
	r.write()
	t.Settle(60 * time.Second)
	for _, su := range subs {
		if r.matchChanged(su) {
			t.Nontrivial()
		}
		r.exact(su)
		c08List(t, r.s, r.ids, su)
	}
}

func c08Lossy(t *core.T) {
	r := newSerial(t, false, t.Range(1, 4), nil)
	r.draw(10, t.Chance(15))
	var subs []*sub
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		su := c08Sub(t, i, r.ids)
		su.single = false
		su.bp = t.Chance(20)
		subs = append(subs, su)
	}
	for _, su := range subs {
		su.start(r.s, t.Chance(60), time.Duration(t.Int(6))*50*time.Millisecond)
	}
	r.write()
	t.Settle(60 * time.Second)
	for _, su := range subs {
		if r.matchChanged(su) {
			t.Nontrivial()
		}
		r.lossy(su)
		c08List(t, r.s, r.ids, su)
	}
}

func c08Concurrent(t *core.T) {
	ids := drawIDs(t, t.Range(1, 3))
	s, initial := newStore(t, false, ids)
	g := &opGen{kinds: [6]int{opAdd: 2, opUpdate: 7, opDelete: 2}, ids: ids}
	var scripts [][]*wop
	for c, n := 0, t.Range(2, 3); c < n; c++ {
		var sc []*wop
		t.Repeat(1, 4, func(int) {
			o := g.draw(t)
			o.expVal, o.chk, o.absent = nil, nil, false
			if o.kind == opUpdate {
				o.create = true
			}
			sc = append(sc, o)
		})
		scripts = append(scripts, sc)
	}
	var subs []*sub
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		su := c08Sub(t, i, ids)
		su.single = false
		subs = append(subs, su)
	}
	for _, su := range subs {
		su.start(s, t.Chance(50), 0)
	}
	hs := runHistory(t, s, scripts, nil)
	t.Settle(60 * time.Second)
	for _, su := range subs {
		c08List(t, s, ids, su)
		for _, h := range hs {
			if h.err == nil && h.inv > su.openSeq && h.op.kind == opUpdate {
				t.Nontrivial()
			}
		}
		if why := chain(su); why != "" {
			t.Fail("chain", "%s\n  %s%s\n  initial %s history:%s", why, su, eventsText(su.events), initial, historyText(hs))
		}
		view := fold(su.events)
		touched := map[string]bool{}
		for _, e := range su.events {
			touched[e.id] = true
		}
		for _, id := range ids {
			m, ok := s.col.Get(id)
			ok = ok && su.pred.include(id, m)
			got, has := view[id]
			if su.updates && !touched[id] {
				continue
			}
			if has != ok || (ok && !same(got, su.project(m))) {
				t.Fail("stale", "item %q is %s (matching: %v) but the folded view has %s\n  %s%s\n  initial %s history:%s", id, txt(m), ok, txt(got), su, eventsText(su.events), initial, historyText(hs))
			}
		}
	}
}
