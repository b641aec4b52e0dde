package props

import (
	"fmt"
	"io"
	"log"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"

	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	log.SetOutput(io.Discard)
	core.Register(&core.Prop{
		ID:         "C02",
		SiteFilter: []string{"pkg/resource/"},
		Rule:       "A run counts as non-trivial when at least two writes of different callers overlapped on the same item.",
		Real:       []string{"pkg/resource.Value", "pkg/resource.Collection", "pkg/masks", "internal/minibus"},
		Stub:       []string{"random source of generated ids (scripted, collision prone)"},
		Faults:     []string{"rng_collision_prone", "aborted", "unavailable", "slow_callback"},
		Scenarios: []core.Scenario{
			{Name: "value", Weight: 3, Leak: true, Stall: true, Run: c02Value},
			{Name: "collection", Weight: 5, Leak: true, Stall: true, Run: c02Collection},
			{Name: "increments", Weight: 2, Leak: true, Stall: true, Run: c02Increments},
			{Name: "outrun", Weight: 1, Leak: true, Run: c02Outrun},
			{Name: "create-race", Weight: 2, Leak: true, Stall: true, Run: c02Create},
		},
	})
}

// hop is one call of a history.
type hop struct {
	op        *wop
	caller    int
	inv, resp uint64
	ret       proto.Message
	ok        bool
	list      []proto.Message
	err       error
	ob        observed
	slow      time.Duration
}

func (h *hop) String() string {
	res := ""
	switch {
	case h.err != nil:
		res = h.err.Error()
	case h.op.kind == opList:
		res = fmt.Sprint(txts(h.list))
	case h.op.kind == opGet:
		res = fmt.Sprintf("%s %v", txt(h.ret), h.ok)
	default:
		res = txt(h.ret)
	}
	ids := ""
	if len(h.ob.ids) > 0 {
		ids = fmt.Sprintf(" generated %q", h.ob.ids)
	}
	return fmt.Sprintf("caller %d [%d,%d] %s -> %s%s", h.caller, h.inv, h.resp, h.op, res, ids)
}

func historyText(hs []*hop) string {
	hs = append([]*hop(nil), hs...)
	sort.Slice(hs, func(i, j int) bool { return hs[i].inv < hs[j].inv })
	var b strings.Builder
	for _, h := range hs {
		b.WriteString("\n    " + h.String())
	}
	return b.String()
}

// runHistory runs the scripts concurrently, one goroutine per caller.
func runHistory(t *core.T, s *store, scripts [][]*wop, slow func(h *hop)) []*hop {
	var all []*hop
	left := len(scripts)
	done := make(chan struct{})
	var order [][]*hop
	for c, sc := range scripts {
		var mine []*hop
		for _, o := range sc {
			h := &hop{op: o, caller: c}
			if slow != nil {
				slow(h)
			}
			mine = append(mine, h)
			all = append(all, h)
		}
		order = append(order, mine)
	}
	for _, mine := range order {
		go func() {
			for _, h := range mine {
				if h.op.pause > 0 {
					time.Sleep(h.op.pause)
				}
				h.inv = t.Seq()
				h.ret, h.ok, h.list, h.err = s.exec(h.op, &h.ob)
				h.resp = t.Seq()
				if t.Logging() {
					t.Logf("%s", h)
				}
			}
			left--
			if left == 0 {
				close(done)
			}
		}()
	}
	<-done
	return all
}

func (s *store) contents() state {
	st := state{items: map[string]*tp.TestAllTypes{}}
	if s.val != nil {
		st.items[""] = asTAT(s.val.Get())
		return st
	}
	return st
}

// linearize searches for an order of the calls that explains every result and
// the final contents.
type linearizer struct {
	s     *store
	hs    []*hop
	final func(state) bool
	seen  map[string]bool
	best  int
	why   string
	adv   bool // the id generator may legitimately give up
}

func (l *linearizer) search(st state, done uint64) bool {
	if done == 1<<len(l.hs)-1 {
		return l.final(st)
	}
	key := fmt.Sprintf("%x|%s", done, st)
	if l.seen[key] {
		return false
	}
	l.seen[key] = true
	// the earliest response among the calls left bounds who can come next
	minResp := ^uint64(0)
	for i, h := range l.hs {
		if done&(1<<i) == 0 && h.resp < minResp {
			minResp = h.resp
		}
	}
	for i, h := range l.hs {
		if done&(1<<i) != 0 || h.inv > minResp {
			continue
		}
		next, ok := l.step(st, h)
		if ok && l.search(next, done|1<<i) {
			return true
		}
	}
	return false
}

// rival reports whether another successful write of the same item overlapped h.
func (l *linearizer) rival(h *hop) bool {
	id := l.s.icpt(h.op.id)
	for _, g := range l.hs {
		if g == h || g.resp < h.inv || g.inv > h.resp || g.op.kind == opGet || g.op.kind == opList || g.err != nil {
			continue
		}
		gid := l.s.icpt(g.op.id)
		if l.s.val != nil || gid == id || len(g.ob.ids) > 0 {
			return true
		}
	}
	return false
}

func (l *linearizer) step(st state, h *hop) (state, bool) {
	switch h.op.kind {
	case opGet:
		id := l.s.icpt(h.op.id)
		if l.s.val != nil {
			id = ""
		}
		m, ok := st.items[id]
		var want proto.Message
		if m != nil {
			want = m
		}
		return st, ok == h.ok && same(h.ret, project(want, h.op.readMask, h.op.hasRead))
	case opList:
		ids := st.ids()
		if len(ids) != len(h.list) {
			return st, false
		}
		for i, id := range ids {
			if !same(h.list[i], project(st.items[id], h.op.readMask, h.op.hasRead)) {
				return st, false
			}
		}
		return st, true
	}
	newID := ""
	if len(h.ob.ids) > 0 {
		newID = h.ob.ids[0]
	}
	if h.err != nil {
		switch c := code(h.err); c {
		case codes.Aborted:
			return st, l.rival(h) || (l.adv && h.op.genID)
		case codes.AlreadyExists:
			if len(h.ob.ids) > 0 && l.rival(h) {
				return st, true // lost the race for a generated id
			}
			return st, codeIn(c, l.s.expect(h.op, st, "").codes)
		case codes.Unavailable:
			return st, l.rival(h)
		default:
			return st, codeIn(c, l.s.expect(h.op, st, "").codes)
		}
	}
	exp := l.s.expect(h.op, st, newID)
	if len(exp.codes) > 0 || !same(h.ret, exp.ret) {
		return st, false
	}
	if exp.gen {
		if len(h.ob.ids) == 0 || newID == "" {
			return st, false
		}
		if _, used := st.items[exp.id]; used {
			return st, false
		}
	}
	return l.s.apply(st, exp), true
}

func checkHistory(t *core.T, s *store, initial state, hs []*hop, adv bool) {
	// what the store holds now
	var finalTxt string
	var final func(st state) bool
	if s.val != nil {
		got := s.val.Get()
		finalTxt = txt(got)
		final = func(st state) bool {
			var want proto.Message
			if m := st.items[""]; m != nil {
				want = m
			}
			return same(got, want)
		}
	} else {
		got := s.col.List()
		finalTxt = fmt.Sprint(txts(got))
		final = func(st state) bool {
			ids := st.ids()
			if len(ids) != len(got) {
				return false
			}
			for i, id := range ids {
				m, ok := s.col.Get(id)
				if !ok || !same(m, st.items[id]) || !same(got[i], st.items[id]) {
					return false
				}
			}
			return true
		}
	}
	l := &linearizer{s: s, hs: hs, final: final, seen: map[string]bool{}, adv: adv}
	overlap := false
	for _, h := range hs {
		switch code(h.err) {
		case codes.Aborted:
			t.Count("aborted", 1)
		case codes.Unavailable:
			t.Count("unavailable", 1)
		}
		if h.op.kind == opDelete && h.err == nil && h.ret != nil && h.op.chk != nil && !contains(h.ob.olds, txt(h.ret)) {
			t.Fail("delete-unseen", "a delete removed %s, its check saw only %v; history:%s", txt(h.ret), h.ob.olds, historyText(hs))
		}
		if l.rival(h) {
			overlap = true
		}
	}
	if overlap {
		t.Nontrivial()
	}
	if !l.search(initial, 0) {
		t.Fail("not-linearizable", "no order of these calls explains the results and the final contents %s; initial contents %s; history:%s", finalTxt, initial, historyText(hs))
	}
}

// c02Scripts draws scripts of writes in which callers contend.
func c02Scripts(t *core.T, g *opGen, maxCallers, maxOps int) [][]*wop {
	var out [][]*wop
	var pool []*tp.TestAllTypes
	n := 0
	callers := t.Range(2, maxCallers)
	for c := 0; c < callers; c++ {
		var sc []*wop
		t.Repeat(1, maxOps, func(int) {
			o := g.draw(t)
			if o.msg != nil {
				n++
				if t.Chance(60) {
					o.msg.DefaultDouble = float64(10 + n)
				}
				pool = append(pool, o.msg)
			}
			sc = append(sc, o)
		})
		out = append(out, sc)
	}
	// expected values that have a chance to match
	for _, sc := range out {
		for _, o := range sc {
			if o.expVal != nil && len(pool) > 0 && t.Chance(70) {
				o.expVal = clone(pool[t.Int(len(pool))])
			}
		}
	}
	return out
}

func c02Value(t *core.T) {
	s := &store{}
	st := state{items: map[string]*tp.TestAllTypes{"": nil}}
	var opts []resource.Option
	if t.Chance(85) {
		m := smallMsg(t)
		st.items[""] = clone(m)
		opts = append(opts, resource.WithInitialValue(m))
	}
	s.val = resource.NewValue(opts...)
	g := &opGen{kinds: [6]int{opSet: 6, opGet: 1}, rich: t.Chance(50), current: func(string) *tp.TestAllTypes { return st.items[""] }}
	hs := runHistory(t, s, c02Scripts(t, g, 4, 3), nil)
	checkHistory(t, s, st, hs, false)
}

func c02Collection(t *core.T) {
	s := &store{}
	st := state{items: map[string]*tp.TestAllTypes{}}
	rng := &advRNG{t: t, mode: t.Weighted(3, 2, 0, 0, 1)}
	opts := []resource.Option{resource.WithRNG(rng)}
	ids := []string{"a", "b"}
	if t.Chance(60) {
		ids = ids[:1]
	}
	for _, id := range ids {
		if t.Chance(50) {
			m := smallMsg(t)
			opts = append(opts, resource.WithInitialRecord(id, m))
			st.items[id] = clone(m)
		}
	}
	s.col = resource.NewCollection(opts...)
	g := &opGen{kinds: [6]int{opAdd: 3, opUpdate: 4, opDelete: 4, opGet: 1, opList: 1}, ids: ids, rich: t.Chance(40), genID: core.Choose(t, 0, 0, 30),
		current: func(id string) *tp.TestAllTypes { return st.items[id] }}
	hs := runHistory(t, s, c02Scripts(t, g, 4, 3), nil)
	checkHistory(t, s, st, hs, rng.mode != 0)
}

// c02Outrun has callers whose callbacks are slower than another writer of the
// same item, for longer than anybody retries.
func c02Outrun(t *core.T) {
	s := &store{}
	st := state{items: map[string]*tp.TestAllTypes{}}
	isVal := t.Chance(25)
	first := smallMsg(t)
	id := "a"
	if isVal {
		id = ""
	}
	if isVal {
		s.val = resource.NewValue(resource.WithInitialValue(first))
		st.items[""] = clone(first)
	} else {
		var opts []resource.Option
		if t.Chance(80) {
			opts = append(opts, resource.WithInitialRecord(id, first))
			st.items[id] = clone(first)
		}
		s.col = resource.NewCollection(opts...)
	}
	var scripts [][]*wop
	// the slow ones
	for i, n := 0, t.Range(1, 2); i < n; i++ {
		o := &wop{id: id, slow: 10 * time.Millisecond, pause: time.Duration(t.Int(10)) * time.Millisecond}
		o.kind = core.Choose(t, opDelete, opDelete, opDelete, opUpdate, opAdd)
		if isVal {
			o.kind = opSet
		}
		if o.kind != opDelete {
			o.msg = smallMsg(t)
			o.before = t.Range(1, 2)
			o.create = o.kind == opUpdate && t.Chance(50)
		} else {
			o.missing = t.Chance(50)
		}
		if o.kind != opAdd && (o.kind == opDelete || t.Chance(60)) {
			o.chk = &check{kind: core.Choose(t, 1, 1, 0), n: int32(t.Int(3)), code: codes.FailedPrecondition}
		}
		t.Count("slow_callback", 1)
		scripts = append(scripts, []*wop{o})
	}
	// the fast one, stops and starts
	var sc []*wop
	t.Repeat(4, 9, func(int) {
		o := &wop{id: id, pause: core.Choose[time.Duration](t, 3, 7, 10, 10, 25) * time.Millisecond}
		o.kind = core.Choose(t, opUpdate, opUpdate, opUpdate, opUpdate, opUpdate, opDelete)
		if isVal {
			o.kind = opSet
		}
		if o.kind != opDelete {
			o.msg = smallMsg(t)
			if t.Chance(60) {
				o.msg.DefaultInt32 = 10
			}
			o.create = t.Chance(80)
		} else {
			o.missing = t.Chance(50)
		}
		sc = append(sc, o)
	})
	scripts = append(scripts, sc)
	checkHistory(t, s, st, runHistory(t, s, scripts, nil), false)
}

// c02Create contends on items that do not exist yet.
func c02Create(t *core.T) {
	s := &store{}
	st := state{items: map[string]*tp.TestAllTypes{}}
	rng := &advRNG{t: t, mode: core.Choose(t, 1, 4, 0)}
	s.col = resource.NewCollection(resource.WithRNG(rng))
	gen := t.Chance(40)
	var scripts [][]*wop
	n := t.Range(2, 4)
	for c := 0; c < n; c++ {
		var sc []*wop
		t.Repeat(1, 2, func(int) {
			o := &wop{kind: core.Choose(t, opAdd, opAdd, opUpdate, opDelete), id: "a"}
			switch o.kind {
			case opDelete:
				o.missing = t.Chance(50)
			default:
				o.create = true
				o.msg = &tp.TestAllTypes{}
				if t.Chance(60) {
					o.msg.DefaultInt32 = int32(t.Range(1, 9))
				}
				o.before = t.Int(2)
				o.after = t.Int(2)
				if gen {
					o.id, o.genID = "", true
				}
			}
			sc = append(sc, o)
		})
		scripts = append(scripts, sc)
	}
	hs := runHistory(t, s, scripts, nil)
	checkHistory(t, s, st, hs, rng.mode != 0)
}

// c02Increments checks conservation: many callers add to one number, retrying
// when they lose a race.
func c02Increments(t *core.T) {
	s := &store{}
	useCol := t.Chance(50)
	if useCol {
		s.col = resource.NewCollection()
	} else {
		s.val = resource.NewValue(resource.WithInitialValue(&tp.TestAllTypes{}))
	}
	callers := t.Range(2, 4)
	total := int32(0)
	oks := 0
	aborts := 0
	left := callers
	done := make(chan struct{})
	for c := 0; c < callers; c++ {
		n := t.Range(1, 6)
		by := int32(1) << (8 * c % 24)
		pause := t.Chance(30)
		go func() {
			for i := 0; i < n; i++ {
				for try := 0; try < 50; try++ {
					inc := resource.InterceptBefore(func(old, change proto.Message) {
						v := asTAT(old).GetDefaultInt32()
						if pause {
							time.Sleep(time.Millisecond)
							t.Count("slow_callback", 1)
						}
						change.(*tp.TestAllTypes).DefaultInt32 += v
					})
					var err error
					if useCol {
						_, err = s.col.Update("n", &tp.TestAllTypes{DefaultInt32: by}, inc, resource.WithCreateIfAbsent())
					} else {
						_, err = s.val.Set(&tp.TestAllTypes{DefaultInt32: by}, inc)
					}
					if err == nil {
						total += by
						oks++
						break
					}
					if c := code(err); c != codes.Aborted && c != codes.AlreadyExists {
						t.Fail("increment-error", "an increment failed with %v", err)
					}
					aborts++
				}
			}
			left--
			if left == 0 {
				close(done)
			}
		}()
	}
	<-done
	t.Count("aborted", aborts)
	if aborts > 0 {
		t.Nontrivial()
	}
	var got proto.Message
	if useCol {
		got, _ = s.col.Get("n")
	} else {
		got = s.val.Get()
	}
	if g := asTAT(got).GetDefaultInt32(); g != total {
		t.Fail("lost-update", "%d increments succeeded with total %#x, the stored number is %#x", oks, total, g)
	}
}
