package props

import (
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/types"
	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C03",
		SiteFilter: []string{"pkg/resource/", "internal/minibus/"},
		Rule:       "A run counts as non-trivial when a subscription received an event of a write that overlapped or followed the subscribe call.",
		Real:       []string{"pkg/resource.Value", "pkg/resource.Collection", "internal/minibus", "pkg/masks"},
		Stub:       []string{"readers (scripted pace)"},
		Faults:     []string{"crowd_of_writers", "long_pause", "slow_reader", "bystander_cancelled", "subscribe_during_writes"},
		Scenarios: []core.Scenario{
			{Name: "value", Weight: 3, Leak: true, Run: func(t *core.T) { c03(t, true) }},
			{Name: "collection", Weight: 5, Leak: true, Run: func(t *core.T) { c03(t, false) }},
		},
	})
}

func c03(t *core.T, isVal bool) {
	crowd := t.Chance(3)
	nids := t.Range(1, 3)
	if crowd {
		nids = core.Choose(t, 1, 2, 5, 20)
	}
	ids := drawIDs(t, nids)
	s, initial := newStore(t, isVal, ids)
	g := &opGen{kinds: [6]int{opAdd: 2, opUpdate: 5, opDelete: 3}, ids: ids}
	if isVal {
		g = &opGen{kinds: [6]int{opSet: 1}, rich: t.Chance(20)}
	}
	nw, maxOps, slow := t.Range(1, 3), 4, 500*time.Millisecond
	if crowd {
		// a Value write may have to wait for the events of all the others
		nw, maxOps, slow = t.Range(8, 20), 2, 100*time.Millisecond
		t.Count("crowd_of_writers", 1)
	}
	scripts := writeScripts(t, g, nw, maxOps)
	for _, sc := range scripts {
		for _, o := range sc {
			if !t.Chance(20) {
				o.expVal, o.chk = nil, nil
			}
			if o.kind == opUpdate {
				o.create, o.absent = true, false
			}
		}
	}
	if t.Chance(5) {
		sc := scripts[t.Int(len(scripts))]
		sc[t.Int(len(sc))].pause = drawLong(t)
	}
	var subs []*sub
	nsub := t.Range(1, 3)
	for i := 0; i < nsub; i++ {
		su := drawSub(t, i, isVal, ids)
		su.pace = drawPace(t, slow)
		if su.pace != nil {
			t.Count("slow_reader", 1)
		}
		subs = append(subs, su)
	}
	early := t.Chance(30)
	for _, su := range subs {
		if early && t.Chance(50) {
			su.open(s)
		}
	}
	// subscribers that leave while others are being served
	nby := t.Int(3)
	for i := 0; i < nby; i++ {
		by := drawSub(t, 100+i, isVal, ids)
		wait := time.Duration(t.Int(3)) * 100 * time.Millisecond
		stopsReading := t.Chance(50)
		go func() {
			by.open(s)
			if stopsReading {
				time.Sleep(wait)
				by.cancel()
				t.Count("bystander_cancelled", 1)
				return
			}
			go func() {
				time.Sleep(wait)
				by.cancel()
				t.Count("bystander_cancelled", 1)
			}()
			by.read()
		}()
	}
	left := nsub
	for _, su := range subs {
		go func() {
			if !su.opened {
				t.Count("subscribe_during_writes", 1)
				su.open(s)
			}
			left--
			su.read()
		}()
	}
	hs := runHistory(t, s, scripts, nil)
	t.Settle(60 * time.Second)
	if left != 0 {
		t.Fail("subscribe-stuck", "a subscribe call has not returned a minute after the writers finished")
	}
	for _, h := range hs {
		if h.err != nil && strings.Contains(h.err.Error(), "blocked") {
			t.Fail("write-timeout", "a write timed out although all readers keep receiving: %s", h)
		}
	}
	if s.val != nil {
		final := s.val.Get()
		for _, su := range subs {
			c03Value(t, su, hs, final)
		}
		return
	}
	final := map[string]proto.Message{}
	for _, id := range ids {
		if m, ok := s.col.Get(id); ok {
			final[id] = m
		}
	}
	// the writers are done: List must agree with Get
	if n := len(s.col.List()); n != len(final) {
		t.Fail("list", "List has %d items, Get finds %d", n, len(final))
	}
	for _, su := range subs {
		if su.single {
			c03Single(t, su, hs, initial, final)
		} else {
			c03Collection(t, su, ids, hs, initial, final)
		}
	}
}

// wroteAfter reports whether a successful write of id was invoked after seq.
func wroteAfter(hs []*hop, id string, seq uint64) bool {
	for _, h := range hs {
		if h.err == nil && h.inv > seq && (id == "*" || h.op.id == id) && (h.op.kind != opDelete || h.ret != nil) {
			return true
		}
	}
	return false
}

func c03Value(t *core.T, su *sub, hs []*hop, final proto.Message) {
	if len(su.events) > 0 {
		if !su.events[len(su.events)-1].seed {
			t.Nontrivial()
		}
		if got := su.events[len(su.events)-1].new; !same(got, su.project(final)) {
			t.Fail("stale", "the last event is %s, the value is %s (as the subscriber sees it %s)\n  %s%s\n  history:%s", txt(got), txt(final), txt(su.project(final)), su, eventsText(su.events), historyText(hs))
		}
		return
	}
	if !su.updates && final != nil {
		t.Fail("missed", "no event at all, the value is %s\n  %s history:%s", txt(final), su, historyText(hs))
	}
	if wroteAfter(hs, "*", su.openSeq) {
		t.Fail("missed", "writes invoked after Pull returned were not delivered\n  %s history:%s", su, historyText(hs))
	}
}

func c03Collection(t *core.T, su *sub, ids []string, hs []*hop, initial state, final map[string]proto.Message) {
	view := fold(su.events)
	touched := map[string]bool{}
	for _, e := range su.events {
		touched[e.id] = true
		if !e.seed {
			t.Nontrivial()
		}
	}
	bad := func(class, id, why string) {
		t.Fail(class, "item %q: %s; view %s, collection %s\n  %s%s\n  initial %s history:%s", id, why, viewText(view), viewText(final), su, eventsText(su.events), initial, historyText(hs))
	}
	for _, id := range ids {
		want, exists := final[id]
		if exists {
			want = su.project(want)
		}
		got, has := view[id]
		if su.updates && !touched[id] {
			if !wroteAfter(hs, id, su.openSeq) {
				continue
			}
			if exists {
				bad("missed", id, "a write invoked after Pull returned was not delivered")
			}
			if su.bp || existedAt(hs, initial, id, su.openSeq) {
				bad("missed", id, "the removal was not delivered")
			}
			continue
		}
		if has != exists {
			bad("stale", id, "presence differs")
		}
		if exists && !same(got, want) {
			bad("stale", id, "value differs")
		}
	}
	for id := range view {
		if !contains(ids, id) {
			bad("ghost", id, "unknown id")
		}
	}
}

// existedAt reports whether the item certainly existed at the given moment.
func existedAt(hs []*hop, initial state, id string, seq uint64) bool {
	if _, ok := initial.items[id]; !ok {
		return false
	}
	for _, h := range hs {
		if h.op.kind == opDelete && h.op.id == id && h.err == nil && h.inv < seq {
			return false
		}
	}
	return true
}

func c03Single(t *core.T, su *sub, hs []*hop, initial state, final map[string]proto.Message) {
	want, exists := final[su.pullID]
	bad := func(class, why string) {
		t.Fail(class, "single item %q: %s; item now %s\n  %s closed=%v%s\n  initial %s history:%s", su.pullID, why, txt(want), su, su.closed, eventsText(su.events), initial, historyText(hs))
	}
	if su.closed {
		t.Nontrivial()
		for _, h := range hs {
			if h.op.kind == opDelete && h.op.id == su.pullID && h.err == nil && h.resp > su.callSeq {
				return
			}
		}
		bad("closed", "the stream ended although the item was not removed")
	}
	if len(su.events) == 0 {
		if su.updates && !wroteAfter(hs, su.pullID, su.openSeq) {
			return
		}
		if exists {
			bad("missed", "nothing was delivered")
		}
		if wroteAfter(hs, su.pullID, su.openSeq) && (su.bp || existedAt(hs, initial, su.pullID, su.openSeq)) {
			bad("missed", "the removal did not end the stream")
		}
		return
	}
	if !su.events[len(su.events)-1].seed {
		t.Nontrivial()
	}
	if !exists {
		bad("stale", "the item was removed but the stream did not end")
	}
	if got := su.events[len(su.events)-1].new; !same(got, su.project(want)) {
		bad("stale", "the last value differs")
	}
}

var _ = types.ChangeType_ADD
var _ = resource.NewValue
var _ *tp.TestAllTypes
