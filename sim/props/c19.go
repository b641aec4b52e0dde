package props

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C19",
		SiteFilter: []string{"pkg/trait/electricpb/", "pkg/resource/"},
		Rule:       "A run counts as non-trivial when an operation was refused to keep an invariant, or operations that changed state overlapped.",
		Real:       []string{"pkg/trait/electricpb.Model", "pkg/trait/electricpb.ModelServer", "pkg/resource", "internal/minibus"},
		Stub:       []string{"model clock (every reading differs and is remembered, may jump)", "callers and subscribers (scripted)"},
		Faults:     []string{"clock_jump", "slow_reader", "cancel", "normal_clash", "delete_active", "long_pause"},
		Scenarios: []core.Scenario{
			{Name: "sequential", Weight: 3, Leak: true, Run: func(t *core.T) { c19Run(t, false) }},
			{Name: "concurrent", Weight: 7, Leak: true, Run: func(t *core.T) { c19Run(t, true) }},
		},
	})
}

// modelClock is the clock given to an electric model.
type modelClock struct {
	clock.Clock
	t    *core.T
	now  time.Time
	jump []time.Duration
	read []struct {
		at  time.Time
		seq uint64
	}
}

func (c *modelClock) Now() time.Time {
	d := time.Second
	if len(c.jump) > 0 {
		d += c.jump[len(c.read)%len(c.jump)]
	}
	c.now = c.now.Add(d)
	c.read = append(c.read, struct {
		at  time.Time
		seq uint64
	}{c.now, c.t.Seq()})
	return c.now
}

// current reports whether at was the time during those steps.
func (c *modelClock) current(at *timestamppb.Timestamp, from, to uint64) bool {
	for _, r := range c.read {
		if at != nil && r.seq >= from && r.seq <= to && r.at.Equal(at.AsTime()) {
			return true
		}
	}
	return false
}

type elKind int

const (
	elCreate elKind = iota
	elAdd
	elUpdate
	elDelete
	elSetActive
	elChange
	elClear
	elList
	elActive
	elFind
	elNormal
	elDemand
)

var elNames = []string{"Create", "Add", "Update", "Delete", "SetActive", "ChangeActive", "Clear", "Modes", "ActiveMode", "FindMode", "NormalMode", "UpdateDemand"}

type elOp struct {
	kind    elKind
	server  bool
	mode    *traits.ElectricMode
	id      string
	created int // >= 0: the id of the n-th created mode instead
	missing bool
	mask    *fieldmaskpb.FieldMask
	pause   time.Duration

	inv, resp uint64
	done      bool
	ret       *traits.ElectricMode
	ok        bool
	list      []*traits.ElectricMode
	err       error
}

func (o *elOp) String() string {
	s := fmt.Sprintf("[%d,%d] %s", o.inv, o.resp, elNames[o.kind])
	if o.server {
		s += "(rpc)"
	}
	switch o.kind {
	case elDelete, elChange, elFind:
		s += fmt.Sprintf(" %q allowMissing=%v", o.id, o.missing)
	case elCreate, elAdd, elUpdate, elSetActive:
		s += fmt.Sprintf(" %s", txt(o.mode))
		if o.mask != nil {
			s += fmt.Sprintf(" mask %v", o.mask.Paths)
		}
	}
	if o.list != nil {
		for _, m := range o.list {
			s += " " + txt(m)
		}
	}
	return s + fmt.Sprintf(" -> %s ok=%v %v", txt(o.ret), o.ok, o.err)
}

// elState is the reference model.
type elState struct {
	modes  map[string]*traits.ElectricMode
	active *traits.ElectricMode
}

func (s elState) clone() elState {
	c := elState{map[string]*traits.ElectricMode{}, s.active}
	for k, v := range s.modes {
		c.modes[k] = v
	}
	return c
}

func (s elState) list() []*traits.ElectricMode {
	out := []*traits.ElectricMode{}
	for _, m := range s.modes {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Id < out[j].Id })
	return out
}

func (s elState) normal() *traits.ElectricMode {
	for _, m := range s.list() {
		if m.Normal {
			return m
		}
	}
	return nil
}

func (s elState) String() string {
	out := "modes{"
	for _, m := range s.list() {
		out += " " + txt(m)
	}
	return out + "} active " + txt(s.active)
}

// updated is the mode after a masked update.
func elUpdated(old, upd *traits.ElectricMode, mask *fieldmaskpb.FieldMask) *traits.ElectricMode {
	if mask == nil {
		return clone(upd)
	}
	res := clone(old)
	for _, p := range mask.Paths {
		switch p {
		case "title":
			res.Title = upd.Title
		case "description":
			res.Description = upd.Description
		case "voltage":
			res.Voltage = upd.Voltage
		case "normal":
			res.Normal = upd.Normal
		case "start_time":
			res.StartTime = upd.StartTime
		}
	}
	return res
}

func hasCode(err error, cs ...codes.Code) bool { return err != nil && codeIn(code(err), cs) }

// step applies o to the reference; why is not empty if the result is wrong.
func (o *elOp) step(s elState, clk *modelClock) (n elState, why string) {
	n = s
	switch o.kind {
	case elCreate, elAdd:
		if o.mode.Normal && s.normal() != nil {
			if o.err == nil {
				return n, "there is a normal mode already"
			}
			return
		}
		if o.kind == elAdd && s.modes[o.mode.Id] != nil {
			if !hasCode(o.err, codes.AlreadyExists) {
				return n, "the mode exists already"
			}
			return
		}
		if o.err != nil {
			return n, "there is no reason to fail"
		}
		want := clone(o.mode)
		if o.kind == elCreate {
			if o.ret.GetId() == "" || s.modes[o.ret.Id] != nil {
				return n, "the new id is not empty and unused"
			}
			want.Id = o.ret.Id
			if !same(want, o.ret) {
				return n, "the mode returned is not the one created"
			}
		}
		n = s.clone()
		n.modes[want.Id] = want
	case elUpdate:
		old := s.modes[o.mode.Id]
		var want *traits.ElectricMode
		if old != nil {
			want = elUpdated(old, o.mode, o.mask)
		}
		if old == nil {
			if o.err == nil {
				return n, "the mode does not exist"
			}
			return
		}
		if x := s.normal(); want.Normal && x != nil && x.Id != old.Id {
			if o.err == nil {
				return n, "there would be a second normal mode"
			}
			return
		}
		if o.err != nil || !same(o.ret, want) {
			return n, "expected " + txt(want)
		}
		n = s.clone()
		n.modes[old.Id] = want
	case elDelete:
		switch {
		case s.active != nil && o.id == s.active.Id:
			if o.err == nil {
				return n, "the active mode was deleted"
			}
		case s.modes[o.id] == nil:
			if o.missing != (o.err == nil) || o.err != nil && !hasCode(o.err, codes.NotFound) {
				return n, "the mode does not exist"
			}
		default:
			if o.err != nil {
				return n, "there is no reason to fail"
			}
			n = s.clone()
			delete(n.modes, o.id)
		}
	case elSetActive:
		if s.modes[o.mode.Id] == nil {
			if !hasCode(o.err, codes.NotFound) {
				return n, "the mode does not exist"
			}
			return
		}
		if o.err != nil {
			return n, "there is no reason to fail"
		}
		n = s.clone()
		n.active = clone(o.mode)
	case elChange, elClear:
		m := s.modes[o.id]
		if o.kind == elClear {
			m = s.normal()
		}
		if m == nil {
			if !hasCode(o.err, codes.NotFound) {
				return n, "there is no such mode"
			}
			return
		}
		if o.err != nil {
			return n, "there is no reason to fail"
		}
		want := clone(m)
		want.StartTime = o.ret.GetStartTime()
		if !same(want, o.ret) {
			return n, "expected " + txt(m)
		}
		if m.Id != s.active.GetId() {
			if !clk.current(o.ret.StartTime, o.inv, o.resp) {
				return n, "the start time is not the model clock's current time"
			}
		} else if !same(o.ret.StartTime, m.StartTime) && !same(o.ret.StartTime, s.active.StartTime) {
			return n, "the mode did not change but its start time did"
		}
		n = s.clone()
		n.active = want
	case elList:
		want := s.list()
		if len(want) != len(o.list) {
			return n, fmt.Sprintf("expected %d modes", len(want))
		}
		for i := range want {
			if !same(want[i], o.list[i]) {
				return n, "expected " + s.String()
			}
		}
	case elActive:
		if !same(o.ret, s.active) {
			return n, "expected " + txt(s.active)
		}
	case elFind, elNormal:
		m := s.modes[o.id]
		if o.kind == elNormal {
			m = s.normal()
		}
		if o.ok != (m != nil) || o.ok && !same(o.ret, m) {
			return n, "expected " + txt(m)
		}
	}
	return n, ""
}

func (o *elOp) run(m *electricpb.Model, srv *electricpb.ModelServer, created []string) {
	ctx := context.Background()
	if o.created >= 0 {
		id := "zz"
		if o.created < len(created) {
			id = created[o.created]
		}
		o.id = id
		if o.mode != nil && o.kind != elCreate && o.kind != elAdd {
			o.mode.Id = id
		}
	}
	var wo []resource.WriteOption
	if o.mask != nil {
		wo = append(wo, resource.WithUpdateMask(o.mask))
	}
	in := clone(o.mode)
	switch o.kind {
	case elCreate:
		if o.server {
			o.ret, o.err = srv.CreateMode(ctx, &electricpb.CreateModeRequest{Mode: in})
		} else {
			o.ret, o.err = m.CreateMode(in)
		}
	case elAdd:
		o.err = m.AddMode(in)
	case elUpdate:
		if o.server {
			o.ret, o.err = srv.UpdateMode(ctx, &electricpb.UpdateModeRequest{Mode: in, UpdateMask: o.mask})
		} else {
			o.ret, o.err = m.UpdateMode(in, wo...)
		}
	case elDelete:
		if o.server {
			_, o.err = srv.DeleteMode(ctx, &electricpb.DeleteModeRequest{Id: o.id, AllowMissing: o.missing})
		} else {
			o.err = m.DeleteMode(o.id, resource.WithAllowMissing(o.missing))
		}
	case elSetActive:
		o.err = m.SetActiveMode(in)
	case elChange:
		if o.server {
			o.ret, o.err = srv.UpdateActiveMode(ctx, &traits.UpdateActiveModeRequest{ActiveMode: &traits.ElectricMode{Id: o.id, Title: "not this"}})
		} else {
			o.ret, o.err = m.ChangeActiveMode(o.id)
		}
	case elClear:
		if o.server {
			o.ret, o.err = srv.ClearActiveMode(ctx, &traits.ClearActiveModeRequest{})
		} else {
			o.ret, o.err = m.ChangeToNormalMode()
		}
	case elList:
		if o.server {
			var res *traits.ListModesResponse
			if res, o.err = srv.ListModes(ctx, &traits.ListModesRequest{}); res != nil {
				o.list = res.Modes
			}
		} else {
			o.list = m.Modes()
		}
	case elActive:
		if o.server {
			o.ret, o.err = srv.GetActiveMode(ctx, &traits.GetActiveModeRequest{})
		} else {
			o.ret = m.ActiveMode()
		}
	case elFind:
		o.ret, o.ok = m.FindMode(o.id)
	case elNormal:
		o.ret, o.ok = m.NormalMode()
	case elDemand:
		_, o.err = m.UpdateDemand(&traits.ElectricDemand{Current: float32(o.created)})
	}
}

func drawMode(t *core.T, normalPct int) *traits.ElectricMode {
	m := &traits.ElectricMode{Normal: t.Chance(normalPct)}
	if t.Chance(60) {
		m.Title = core.Choose(t, "x", "y")
	}
	if t.Chance(20) {
		m.Voltage = float32(t.Range(1, 3))
	}
	if t.Chance(15) {
		m.StartTime = timestamppb.New(epoch.Add(time.Duration(t.Int(3)) * time.Minute))
	}
	if t.Chance(15) {
		m.Segments = []*traits.ElectricMode_Segment{{Magnitude: float32(t.Int(3))}}
	}
	return m
}

func drawElOp(t *core.T, concurrent bool, normalPct int, ids []string) *elOp {
	o := &elOp{created: -1, server: t.Chance(40)}
	o.kind = elKind(t.Weighted(2, 3, 5, 5, 3, 6, 3, 2, 2, 1, 1, 1))
	o.id = ids[t.Int(len(ids))]
	if t.Chance(20) {
		o.created = t.Int(3)
	}
	o.missing = t.Chance(40)
	switch o.kind {
	case elCreate:
		o.mode = drawMode(t, normalPct)
	case elAdd, elUpdate, elSetActive:
		o.mode = drawMode(t, normalPct)
		o.mode.Id = o.id
		if o.kind == elUpdate && t.Chance(60) {
			o.mask = &fieldmaskpb.FieldMask{}
			for _, p := range []string{"title", "normal", "voltage", "description", "start_time"} {
				if t.Chance(50) {
					o.mask.Paths = append(o.mask.Paths, p)
				}
			}
		}
	}
	if concurrent && t.Chance(30) {
		o.pause = time.Duration(t.Range(1, 4)) * tick
	}
	return o
}

// elSub follows one stream of the model.
type elSub struct {
	active   bool
	updates  bool
	bp       bool
	openAt   time.Duration
	cancelAt time.Duration // -1 never
	pace     time.Duration
	opened   bool
	view     map[string]*traits.ElectricMode
	last     *traits.ElectricMode
	n        int
	bad      string
	lost     bool
}

func (s *elSub) run(ctx context.Context, cancel func(), m *electricpb.Model) {
	if s.openAt > 0 {
		time.Sleep(s.openAt)
	}
	s.view = map[string]*traits.ElectricMode{}
	if s.cancelAt >= 0 {
		go at(s.cancelAt, func() { s.lost = true; cancel() })
	}
	if s.active {
		for c := range m.PullActiveMode(ctx, resource.WithUpdatesOnly(s.updates), resource.WithBackpressure(s.bp)) {
			s.n++
			s.last = clone(c.ActiveMode)
			time.Sleep(s.pace)
		}
		return
	}
	for c := range m.PullModes(ctx, resource.WithUpdatesOnly(s.updates), resource.WithBackpressure(s.bp)) {
		s.n++
		if c.Type == types.ChangeType_REMOVE {
			delete(s.view, c.OldValue.GetId())
		} else {
			s.view[c.NewValue.GetId()] = clone(c.NewValue)
		}
		// without backpressure changes of different modes may overtake each other
		normals := 0
		for _, x := range s.view {
			if x.Normal {
				normals++
			}
		}
		if s.bp && normals > 1 && s.bad == "" {
			s.bad = fmt.Sprintf("after event %d the stream shows %d normal modes: %s", s.n, normals, elState{modes: s.view})
		}
		time.Sleep(s.pace)
	}
}

func c19Run(t *core.T, concurrent bool) {
	clk := &modelClock{t: t, now: epoch}
	if t.Chance(30) {
		for i := 0; i < 3; i++ {
			clk.jump = append(clk.jump, time.Duration(t.Range(-5, 5))*time.Minute)
		}
		t.Count("clock_jump", 1)
	}
	init := elState{modes: map[string]*traits.ElectricMode{}, active: &traits.ElectricMode{}}
	opts := []resource.Option{electricpb.WithClock(clk), electricpb.WithRNG(rand.New(rand.NewSource(int64(t.Int(1000)))))}
	elIDs := []string{"a", "b", "c", "d"}
	initial := t.Int(4)
	if t.Chance(12) {
		elIDs = []string{"a", "b", "c", "d", "10", "9", "aa", "Z", "m1", "m2", "m3", "m4", "z9"}
		initial = t.Range(6, len(elIDs))
	}
	for _, id := range elIDs[:initial] {
		m := drawMode(t, 40)
		m.Id = id
		if init.normal() != nil {
			m.Normal = false
		}
		init.modes[id] = m
		opts = append(opts, electricpb.WithInitialMode(clone(m)))
	}
	if l := init.list(); len(l) > 0 && t.Chance(40) {
		init.active = clone(l[t.Int(len(l))])
		opts = append(opts, electricpb.WithInitialActiveMode(clone(init.active)))
	}
	normalPct := core.Choose(t, 20, 60)
	var scripts [][]*elOp
	callers, maxOps := 1, 30
	if concurrent {
		callers = t.Range(2, 4)
		maxOps = []int{0, 0, 6, 4, 3}[callers]
	}
	for i := 0; i < callers; i++ {
		var s []*elOp
		t.Repeat(1, maxOps, func(int) { s = append(s, drawElOp(t, concurrent, normalPct, elIDs)) })
		scripts = append(scripts, s)
	}
	var subs []*elSub
	for i := t.Int(3); i > 0; i-- {
		s := &elSub{active: t.Chance(40), updates: t.Chance(20), bp: t.Chance(50), cancelAt: -1, openAt: time.Duration(t.Int(4)) * tick, pace: time.Duration(t.Int(3)) * 10 * tick}
		if t.Chance(25) {
			s.cancelAt = time.Duration(t.Int(8)) * tick
			t.Count("cancel", 1)
		}
		if s.pace > 0 {
			t.Count("slow_reader", 1)
		}
		subs = append(subs, s)
	}

	m := electricpb.NewModel(opts...)
	srv := electricpb.NewModelServer(m)
	var hist []*elOp
	var created []string
	pending := callers
	fail := func(class, format string, args ...any) {
		var b strings.Builder
		fmt.Fprintf(&b, format, args...)
		fmt.Fprintf(&b, "\n  initially %s\n  history:", init)
		for _, o := range hist {
			b.WriteString("\n    " + o.String())
		}
		fmt.Fprintf(&b, "\n  now Modes() %s", elState{modes: elMap(m.Modes()), active: m.ActiveMode()})
		t.Fail(class, "%s", b.String())
	}
	// what the property says, whatever the reference thinks
	invariants := func(changed bool) {
		modes, active := m.Modes(), m.ActiveMode()
		normals, found := 0, false
		for _, x := range modes {
			if x.Normal {
				normals++
			}
			found = found || x.Id == active.GetId()
		}
		if normals > 1 {
			fail("two-normal", "%d modes are normal", normals)
		}
		if !found && changed {
			fail("active-gone", "the active mode does not exist")
		}
	}
	isChanged := func() bool {
		changed := init.active.Id != ""
		for _, o := range hist {
			changed = changed || o.done && o.err == nil && (o.kind == elChange || o.kind == elClear || o.kind == elSetActive)
		}
		return changed
	}
	for _, s := range subs {
		ctx, cancel := context.WithCancel(context.Background())
		t.Cleanup(cancel)
		go s.run(ctx, cancel, m)
	}
	state := init
	one := func(o *elOp) {
		if o.pause > 0 {
			time.Sleep(o.pause)
		}
		hist = append(hist, o)
		o.inv = t.Seq()
		o.run(m, srv, created)
		o.resp, o.done = t.Seq(), true
		if o.kind == elCreate && o.err == nil && o.ret != nil {
			created = append(created, o.ret.Id)
		}
		if t.Logging() {
			t.Logf("%s", o)
		}
		if o.kind == elList {
			normals := 0
			for _, x := range o.list {
				if x.Normal {
					normals++
				}
			}
			if normals > 1 {
				fail("two-normal", "%d modes are normal in %s", normals, o)
			}
		}
	}
	end := time.Hour
	if t.Chance(4) {
		if s := scripts[t.Int(len(scripts))]; len(s) > 0 {
			o := s[t.Int(len(s))]
			o.pause = drawLong(t)
			end += o.pause
		}
	}
	for _, s := range scripts {
		go func() {
			for _, o := range s {
				one(o)
				if !concurrent {
					invariants(isChanged())
					next, why := o.step(state, clk)
					if why != "" {
						fail("wrong-result", "%s: %s\n  reference %s", o, why, state)
					}
					if o.err != nil {
						t.Nontrivial()
						if !same0(elState{modes: elMap(m.Modes()), active: m.ActiveMode()}, state) {
							fail("changed", "%s failed but changed something; before: %s", o, state)
						}
					}
					if o.kind == elDelete && o.err != nil && code(o.err) == codes.FailedPrecondition {
						t.Count("delete_active", 1)
					}
					if o.err != nil && o.mode.GetNormal() && state.normal() != nil {
						t.Count("normal_clash", 1)
					}
					state = next
				}
			}
			pending--
		}()
	}
	t.Settle(end)
	if pending > 0 {
		fail("stuck", "%d callers have not returned\n%s", pending, t.Stacks())
	}
	invariants(isChanged())
	final := elState{modes: elMap(m.Modes()), active: m.ActiveMode()}
	if !concurrent {
		if !same0(final, state) {
			fail("wrong-state", "the reference has %s", state)
		}
	} else {
		for i, a := range hist {
			if a.err != nil && code(a.err) != codes.NotFound {
				t.Nontrivial()
			}
			for _, b := range hist[i+1:] {
				if b.inv < a.resp && a.kind < elList && b.kind < elList {
					t.Nontrivial()
				}
			}
		}
		l := &elLin{hs: hist, clk: clk, final: final, seen: map[string]bool{}}
		if !l.search(init, 0) {
			fail("not-linearizable", "no order of these calls explains the results (deepest: %d calls, then %s)", l.deep, l.why)
		}
	}
	for _, s := range subs {
		if s.bad != "" {
			fail("two-normal", "%s", s.bad)
		}
		if s.lost {
			continue
		}
		if s.active {
			if s.last == nil && !s.updates || s.last != nil && !same(s.last, final.active) {
				fail("stream", "the active mode's stream ends with %s", txt(s.last))
			}
		} else if !s.updates && !same0(elState{modes: s.view, active: final.active}, final) {
			fail("stream", "the modes' stream ends with %s", elState{modes: s.view})
		}
	}
}

func elMap(ms []*traits.ElectricMode) map[string]*traits.ElectricMode {
	out := map[string]*traits.ElectricMode{}
	for _, m := range ms {
		out[m.Id] = m
	}
	return out
}

func same0(a, b elState) bool { return a.String() == b.String() }

// elLin searches for an order of the calls.
type elLin struct {
	hs    []*elOp
	clk   *modelClock
	final elState
	seen  map[string]bool
	deep  int
	why   string
}

func (l *elLin) search(s elState, done uint64) bool {
	if done == 1<<len(l.hs)-1 {
		if same0(s, l.final) {
			return true
		}
		l.deep, l.why = len(l.hs), "the final state: "+s.String()
		return false
	}
	key := fmt.Sprintf("%x|%s", done, s)
	if l.seen[key] {
		return false
	}
	l.seen[key] = true
	minResp := ^uint64(0)
	n := 0
	for i, h := range l.hs {
		if done&(1<<i) == 0 {
			minResp = min(minResp, h.resp)
		} else {
			n++
		}
	}
	for i, h := range l.hs {
		if done&(1<<i) != 0 || h.inv > minResp {
			continue
		}
		next, why := h.step(s, l.clk)
		if why != "" {
			if n >= l.deep {
				l.deep, l.why = n, fmt.Sprintf("%s: %s (state %s)", h, why, s)
			}
			continue
		}
		if l.search(next, done|1<<i) {
			return true
		}
	}
	return false
}

var _ proto.Message = (*traits.ElectricMode)(nil)
