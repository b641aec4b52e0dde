package props

import (
	"time"

	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
	"google.golang.org/protobuf/proto"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C04",
		SiteFilter: []string{"pkg/resource/", "internal/minibus/"},
		Rule:       "A run counts as non-trivial when a subscription received an event of a write besides its seed.",
		Real:       []string{"pkg/resource.Value", "pkg/resource.Collection", "internal/minibus", "pkg/masks", "pkg/cmp"},
		Stub:       []string{"readers (scripted pace)", "clock (ticks at every reading, may jump)"},
		Faults:     []string{"slow_reader", "subscribe_during_writes", "clock_jump", "failed_write", "long_pause"},
		Scenarios: []core.Scenario{
			{Name: "value", Weight: 3, Leak: true, Run: func(t *core.T) { c04(t, true) }},
			{Name: "collection", Weight: 5, Leak: true, Run: func(t *core.T) { c04(t, false) }},
			{Name: "bulk", Weight: 1, Leak: true, Run: c04Bulk},
		},
	})
}

func c04(t *core.T, isVal bool) {
	var eq *equivalence
	if t.Chance(25) {
		eq = &equivalence{name: "no duplicates", opt: resource.WithNoDuplicates(), eq: func(a, b proto.Message) bool { return same(a, b) }}
	}
	r := newSerial(t, isVal, t.Range(1, 5), eq)
	r.draw(8, t.Chance(30))
	var subs []*sub
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		su := drawSub(t, i, isVal, r.ids)
		su.bp = true
		su.pace = drawPace(t, 500*time.Millisecond)
		if su.pace != nil {
			t.Count("slow_reader", 1)
		}
		subs = append(subs, su)
	}
	for _, su := range subs {
		early := t.Chance(40)
		delay := time.Duration(0)
		if !early && t.Chance(50) {
			delay = time.Duration(t.Int(10)) * 50 * time.Millisecond
		}
		su.start(r.s, early, delay)
	}
	r.write()
	t.Settle(60 * time.Second)
	for _, h := range r.hs {
		if h.err != nil {
			t.Count("failed_write", 1)
		}
	}
	for _, su := range subs {
		if !su.opened {
			t.Fail("subscribe-stuck", "a subscribe call has not returned a minute after the writer finished")
		}
		if n := len(su.events); n > 0 && !su.events[n-1].seed {
			t.Nontrivial()
		}
		r.exact(su)
	}
}

// c04Bulk has many items, many writes and many subscribers.
func c04Bulk(t *core.T) {
	n := core.Choose(t, 2, 5, 9, 17, 40, 80)
	r := newSerial(t, false, n, nil)
	r.bulk(t.Range(1, 60), t.Range(1, 6))
	var subs []*sub
	for i, k := 0, core.Choose(t, 1, 2, 5, 9, 17, 33); i < k; i++ {
		su := drawSub(t, i, false, r.ids)
		su.bp = true
		if t.Chance(10) {
			su.pace = drawPace(t, 500*time.Millisecond)
			t.Count("slow_reader", 1)
		}
		subs = append(subs, su)
	}
	for _, su := range subs {
		delay := time.Duration(0)
		if t.Chance(30) {
			delay = time.Duration(t.Int(10)) * 50 * time.Millisecond
		}
		su.start(r.s, t.Chance(60), delay)
	}
	r.write()
	t.Settle(time.Hour)
	for _, su := range subs {
		if !su.opened {
			t.Fail("subscribe-stuck", "a subscribe call has not returned an hour after the writer finished")
		}
		if n := len(su.events); n > 0 && !su.events[n-1].seed {
			t.Nontrivial()
		}
		r.exact(su)
	}
}
