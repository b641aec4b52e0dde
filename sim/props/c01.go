package props

import (
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"

	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C01",
		SiteFilter: []string{"pkg/resource/", "internal/minibus/"},
		Rule:       "A run counts as non-trivial when at least three calls wrote successfully and at least one failed.",
		Real:       []string{"pkg/resource.Value", "pkg/resource.Collection", "pkg/masks", "internal/minibus"},
		Stub:       []string{"random source (scripted, colliding, failing)", "clock (scripted jumps)"},
		Faults:     []string{"rng_collision_prone", "rng_short_read", "rng_error", "clock_jump_back", "failing_check", "cancelled_bystander"},
		Scenarios: []core.Scenario{
			{Name: "value", Weight: 2, Leak: true, Run: c01Value},
			{Name: "collection", Weight: 5, Leak: true, Run: c01Collection},
			{Name: "generated-ids", Weight: 1, Leak: true, Run: c01IDs},
			{Name: "value-any-message", Weight: 1, Leak: true, Run: c01Any},
			{Name: "wide-masks", Weight: 2, Leak: true, Run: c01Wide},
		},
	})
}

// simClock is the injected clock of a resource. Each reading can tick.
type simClock struct {
	now  time.Time
	tick time.Duration
}

func (c *simClock) Now() time.Time {
	n := c.now
	c.now = c.now.Add(c.tick)
	return n
}

var epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// advRNG is an adversarial source of randomness.
type advRNG struct {
	t    *core.T
	mode int // 0 full entropy from the tape, 1 tiny alphabet, 2 short reads, 3 errors, 4 constant
	n    int
}

func (r *advRNG) Read(p []byte) (int, error) {
	switch r.mode {
	case 1:
		v := byte(r.t.Int(2))
		for i := range p {
			p[i] = v
		}
		r.t.Count("rng_collision_prone", 1)
	case 2:
		n := r.t.Int(len(p))
		for i := 0; i < n; i++ {
			p[i] = byte(r.t.Int(3))
		}
		r.t.Count("rng_short_read", 1)
		return n, nil
	case 3:
		r.t.Count("rng_error", 1)
		return 0, io.ErrUnexpectedEOF
	case 4:
		for i := range p {
			p[i] = 7
		}
		r.t.Count("rng_collision_prone", 1)
	default:
		r.n++
		for i := range p {
			p[i] = byte(r.t.Int(256))
		}
		p[0], p[1], p[2] = byte(r.n), byte(r.n>>8), 0xaa
	}
	return len(p), nil
}

type c01run struct {
	t     *core.T
	s     *store
	st    state
	clk   *simClock
	rng   *advRNG
	seen  []string // events of the watcher
	nEv   int
	okW   int
	badW  int
	lastW string
}

func (r *c01run) clockStep() {
	t := r.t
	switch t.Int(6) {
	case 0:
		r.clk.now = r.clk.now.Add(-time.Duration(t.Range(1, 100)) * time.Minute)
		t.Count("clock_jump_back", 1)
	case 1:
	default:
		r.clk.now = r.clk.now.Add(time.Duration(t.Range(1, 100)) * time.Second)
	}
}

func c01Value(t *core.T) {
	r := &c01run{t: t, s: &store{}, st: state{items: map[string]*tp.TestAllTypes{}}, clk: &simClock{now: epoch}}
	opts := []resource.Option{resource.WithClock(r.clk)}
	if t.Chance(85) {
		m := smallMsg(t)
		r.st.items[""] = clone(m)
		opts = append(opts, resource.WithInitialValue(m))
	} else {
		r.st.items[""] = nil
	}
	opts = r.writable(opts)
	r.s.val = resource.NewValue(opts...)
	r.watch(func() func() string {
		ch := r.s.val.Pull(t.Ctx(), resource.WithBackpressure(true), resource.WithUpdatesOnly(true))
		return func() string {
			c, ok := <-ch
			if !ok {
				return ""
			}
			return txt(c.Value)
		}
	})
	g := &opGen{kinds: [6]int{opSet: 6, opGet: 1}, rich: true, current: func(string) *tp.TestAllTypes { return r.st.items[""] }, clock: func() time.Time { return r.clk.now }}
	t.Repeat(2, c01Len(t, 12), func(int) { r.step(g.draw(t)) })
	r.done()
}

func (r *c01run) writable(opts []resource.Option) []resource.Option {
	if r.t.Chance(35) {
		r.s.hasWritable = true
		for _, p := range smallPaths {
			if r.t.Chance(60) {
				r.s.writable = append(r.s.writable, p)
			}
		}
		if len(r.s.writable) == 0 {
			r.s.writable = []string{"default_int32"}
		}
		opts = append(opts, resource.WithWritablePaths(&tp.TestAllTypes{}, r.s.writable...))
	}
	return opts
}

func c01Collection(t *core.T) {
	r := &c01run{t: t, s: &store{}, st: state{items: map[string]*tp.TestAllTypes{}}, clk: &simClock{now: epoch}}
	opts := []resource.Option{resource.WithClock(r.clk)}
	switch t.Weighted(6, 2, 1) {
	case 1:
		r.s.intercept = strings.ToLower
	case 2:
		r.s.intercept = func(id string) string { return strings.TrimPrefix(id, "p/") }
	}
	if r.s.intercept != nil {
		opts = append(opts, resource.WithIDInterceptor(r.s.intercept))
	}
	r.rng = &advRNG{t: t, mode: t.Weighted(6, 2, 1, 1, 1)}
	if t.Chance(80) {
		opts = append(opts, resource.WithRNG(r.rng))
	} else {
		r.rng.mode = 0
	}
	ids := []string{"a", "b", "c", ""}
	if r.s.intercept != nil {
		ids = []string{"a", "A", "b", "B", "p/a", "p/", "p/p/a", "P/A", ""}
	} else if t.Chance(30) {
		ids = append(drawIDs(t, t.Range(1, 8)), "")
	}
	for _, id := range ids {
		if r.s.intercept != nil && !contains([]string{"a", "b"}, id) {
			continue
		}
		if _, ok := r.st.items[id]; !ok && id != "" && t.Chance(35) {
			m := smallMsg(t)
			opts = append(opts, resource.WithInitialRecord(id, m))
			r.st.items[id] = clone(m)
		}
	}
	opts = r.writable(opts)
	r.s.col = resource.NewCollection(opts...)
	r.watch(func() func() string {
		ch := r.s.col.Pull(t.Ctx(), resource.WithBackpressure(true), resource.WithUpdatesOnly(true))
		return func() string {
			c, ok := <-ch
			if !ok {
				return ""
			}
			return fmt.Sprintf("%s %q %s", c.ChangeType, c.Id, txt(c.NewValue))
		}
	})
	g := &opGen{kinds: [6]int{opAdd: 3, opUpdate: 4, opDelete: 3, opGet: 1, opList: 1}, ids: ids, rich: true, genID: 30,
		current: func(id string) *tp.TestAllTypes { return r.st.items[r.s.icpt(id)] }, clock: func() time.Time { return r.clk.now }}
	t.Repeat(2, c01Len(t, 14), func(int) {
		// generated ids become part of the alphabet
		o := g.draw(t)
		before := len(r.st.items)
		r.step(o)
		if o.genID && len(r.st.items) > before {
			for id := range r.st.items {
				if len(id) > 6 && !contains(g.ids, id) {
					g.ids = append(g.ids, id)
				}
			}
			sortStrings(g.ids)
		}
	})
	r.done()
}

// c01Len draws the greatest length of a sequence of calls.
func c01Len(t *core.T, usual int) int {
	if t.Chance(6) {
		return 80
	}
	return usual
}

// c01IDs generates ids until the random source has no more to offer.
func c01IDs(t *core.T) {
	r := &c01run{t: t, s: &store{}, st: state{items: map[string]*tp.TestAllTypes{}}, clk: &simClock{now: epoch}}
	r.rng = &advRNG{t: t, mode: t.Weighted(1, 2, 1, 1, 6)}
	opts := []resource.Option{resource.WithClock(r.clk), resource.WithRNG(r.rng)}
	if t.Chance(25) {
		r.s.intercept = strings.ToLower
		opts = append(opts, resource.WithIDInterceptor(r.s.intercept))
	}
	r.s.col = resource.NewCollection(opts...)
	r.watch(func() func() string {
		ch := r.s.col.Pull(t.Ctx(), resource.WithBackpressure(true), resource.WithUpdatesOnly(true))
		return func() string {
			c, ok := <-ch
			if !ok {
				return ""
			}
			return fmt.Sprintf("%s %q %s", c.ChangeType, c.Id, txt(c.NewValue))
		}
	})
	freed := t.Int(12)
	t.Repeat(4, 24, func(int) {
		o := &wop{kind: opAdd, genID: true, msg: smallMsg(t)}
		if t.Chance(30) {
			o.kind, o.create = opUpdate, t.Chance(90)
		}
		if ids := r.st.ids(); len(ids) > 0 && t.Chance(freed) {
			o = &wop{kind: opDelete, id: ids[t.Int(len(ids))]}
		}
		r.step(o)
	})
	r.done()
}

func contains(s []string, v string) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

// watch starts a goroutine recording the events that writes emit, and possibly
// bystanders that come and go.
func (r *c01run) watch(open func() func() string) {
	next := open()
	go func() {
		for {
			e := next()
			if e == "" {
				return
			}
			r.seen = append(r.seen, e)
		}
	}()
}

func (r *c01run) done() {
	if r.okW >= 3 && r.badW >= 1 {
		r.t.Nontrivial()
	}
	r.t.Count("successful_writes", r.okW)
	r.t.Count("failed_writes", r.badW)
}

// step performs a call, compares its result with the reference and then
// compares the whole contents.
func (r *c01run) step(o *wop) {
	t, s := r.t, r.s
	r.clockStep()
	ob := &observed{}
	evBefore := len(r.seen)
	var sent *tp.TestAllTypes
	if o.msg != nil {
		sent = clone(o.msg)
	}
	ret, ok, list, err := s.exec(o, ob)
	t.Wait()
	if t.Logging() {
		t.Logf("%s -> ret=%s ok=%v list=%d err=%v ids=%q", o, txt(ret), ok, len(list), err, ob.ids)
	}
	fail := func(class, format string, args ...any) {
		t.Fail(class, "call %s on contents %s: %s", o, r.st, fmt.Sprintf(format, args...))
	}
	_ = sent
	switch o.kind {
	case opGet:
		id := s.icpt(o.id)
		if s.val != nil {
			id = ""
		}
		m, exists := r.st.items[id]
		if ok != exists {
			fail("get", "returned ok=%v", ok)
		}
		var want proto.Message
		if m != nil {
			want = m
		}
		if want := project(want, o.readMask, o.hasRead); !same(ret, want) {
			fail("get", "returned %s, want %s", txt(ret), txt(want))
		}
		r.contents(fail)
		return
	case opList:
		ids := r.st.ids()
		if len(list) != len(ids) {
			fail("list", "returned %d items", len(list))
		}
		for i, id := range ids {
			if want := project(r.st.items[id], o.readMask, o.hasRead); !same(list[i], want) {
				fail("list", "item %d is %s, want %s (id %q)", i, txt(list[i]), txt(want), id)
			}
		}
		r.contents(fail)
		return
	}
	newID := ""
	if len(ob.ids) > 0 {
		newID = ob.ids[0]
	}
	exp := s.expect(o, r.st, newID)
	if o.chk != nil && err != nil {
		t.Count("failing_check", 1)
	}
	if err != nil {
		r.badW++
		c := code(err)
		aborted := exp.gen && c == codes.Aborted && r.rng != nil && r.rng.mode != 0
		if !aborted {
			if len(exp.codes) == 0 {
				fail("result", "failed with %v, want success", err)
			}
			if !codeIn(c, exp.codes) {
				fail("result", "failed with %v (%v), want one of %v", c, err, exp.codes)
			}
		}
		// a failing call returns no message, or, for a failed delete
		// precondition, the item it did not delete
		if ret != nil && !(o.kind == opDelete && same(ret, r.st.items[exp.id])) {
			fail("result", "failed but returned %s", txt(ret))
		}
		if len(r.seen) != evBefore {
			fail("emit", "failed but emitted %v", r.seen[evBefore:])
		}
	} else {
		if len(exp.codes) > 0 {
			fail("result", "succeeded with %s, want error %v", txt(ret), exp.codes)
		}
		if exp.gen {
			if len(ob.ids) != 1 {
				fail("genid", "id callback ran %d times: %q", len(ob.ids), ob.ids)
			}
			if newID == "" {
				fail("genid", "empty id generated")
			}
			if _, used := r.st.items[exp.id]; used {
				fail("genid", "generated id %q is in use", newID)
			}
		} else if len(ob.ids) != 0 {
			fail("genid", "id callback ran for a given id: %q", ob.ids)
		}
		if !same(ret, exp.ret) {
			fail("result", "returned %s, want %s", txt(ret), txt(exp.ret))
		}
		wantEv := 0
		if exp.kind != 0 {
			wantEv = 1
			r.okW++
		}
		if n := len(r.seen) - evBefore; n != wantEv {
			fail("emit", "emitted %d events, want %d: %v", n, wantEv, r.seen[evBefore:])
		}
		created := 0
		if exp.created {
			created = 1
		}
		if ob.created != created {
			fail("callback", "created callback ran %d times, want %d", ob.created, created)
		}
		var old proto.Message
		if exp.old != nil {
			old = exp.old
		} else if exp.created {
			old = &tp.TestAllTypes{}
		}
		for _, seen := range ob.olds {
			if seen != txt(old) {
				fail("old", "a check or interceptor saw old value %s, want %s", seen, txt(old))
			}
		}
		r.st = s.apply(r.st, exp)
		if exp.gen {
			m, ok := s.col.Get(newID)
			if !ok || !same(m, exp.new) {
				fail("genid", "Get(%q) after generating it: %s, %v", newID, txt(m), ok)
			}
		}
	}
	r.contents(fail)
}

// contents compares the whole store with the reference.
func (r *c01run) contents(fail func(class, format string, args ...any)) {
	if r.s.val != nil {
		var want proto.Message
		if m := r.st.items[""]; m != nil {
			want = m
		}
		if got := r.s.val.Get(); !same(got, want) {
			fail("contents", "the value is now %s, want %s", txt(got), txt(want))
		}
		return
	}
	list := r.s.col.List()
	ids := r.st.ids()
	if len(list) != len(ids) {
		fail("contents", "List now has %d items %v, want %d", len(list), txts(list), len(ids))
	}
	for i, id := range ids {
		if !same(list[i], r.st.items[id]) {
			fail("contents", "List item %d is %s, want %s (%q)", i, txt(list[i]), txt(r.st.items[id]), id)
		}
		arg := id
		if r.s.icpt(id) != id {
			arg = "p/" + id // its own name stands for another item
		}
		got, ok := r.s.col.Get(arg)
		if !ok || !same(got, r.st.items[id]) {
			fail("contents", "Get(%q) is %s %v, want %s", id, txt(got), ok, txt(r.st.items[id]))
		}
	}
}

func txts(ms []proto.Message) []string {
	var out []string
	for _, m := range ms {
		out = append(out, txt(m))
	}
	return out
}

// c01Any writes arbitrary messages with whole-message semantics.
func c01Any(t *core.T) {
	draw := func() *tp.TestAllTypes {
		m := &tp.TestAllTypes{}
		fillMsg(t, m.ProtoReflect(), 8, 2)
		if t.Chance(10) {
			addUnknown(m, uint64(t.Int(3)))
		}
		return m
	}
	cur := draw()
	col := resource.NewCollection(resource.WithInitialRecord("x", clone(cur)))
	val := resource.NewValue(resource.WithInitialValue(clone(cur)))
	n := 0
	t.Repeat(2, 6, func(int) {
		m := draw()
		exp := cur
		if t.Chance(30) {
			exp = draw()
		}
		r1, e1 := val.Set(clone(m), resource.WithExpectedValue(clone(exp)))
		r2, e2 := col.Update("x", clone(m), resource.WithExpectedValue(clone(exp)))
		if proto.Equal(exp, cur) {
			if e1 != nil || e2 != nil || !same(r1, m) || !same(r2, m) {
				t.Fail("result", "writing %s over %s: %s %v / %s %v", txt(m), txt(cur), txt(r1), e1, txt(r2), e2)
			}
			cur = m
			n++
		} else if code(e1) != codes.FailedPrecondition || code(e2) != codes.FailedPrecondition {
			t.Fail("result", "writing over %s with expected value %s: %v / %v", txt(cur), txt(exp), e1, e2)
		}
		g1 := val.Get()
		g2, _ := col.Get("x")
		if !same(g1, cur) || !same(g2, cur) {
			t.Fail("contents", "contents are %s / %s, want %s", txt(g1), txt(g2), txt(cur))
		}
	})
	if n >= 2 {
		t.Nontrivial()
	}
}
