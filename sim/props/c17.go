package props

import (
	"context"
	"errors"
	"fmt"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/group"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C17",
		SiteFilter: []string{"pkg/group/", "pkg/trait/lightpb/", "pkg/trait/onoffpb/"},
		Rule:       "A run counts as non-trivial when members both succeeded and failed or a member's context was cancelled by the group.",
		Real:       []string{"pkg/group", "pkg/trait/lightpb.Group", "pkg/trait/onoffpb.Group"},
		Stub:       []string{"group members (scripted outcome, latency and reaction to cancellation)", "member devices of the trait groups"},
		Faults:     []string{"member_error", "slow_member", "member_ignores_cancel", "caller_cancel", "send_error", "long_pause"},
		Scenarios: []core.Scenario{
			{Name: "execute", Weight: 10, Leak: true, Run: func(t *core.T) { c17Execute(t, false) }},
			{Name: "concurrent", Weight: 2, Leak: true, Run: func(t *core.T) { c17Execute(t, true) }},
			{Name: "execute-stall", Weight: 2, Leak: true, Stall: true, Run: func(t *core.T) { c17Execute(t, false) }},
			{Name: "light", Weight: 3, Leak: true, Run: func(t *core.T) { c17Devices(t, true) }},
			{Name: "onoff", Weight: 3, Leak: true, Run: func(t *core.T) { c17Devices(t, false) }},
			{Name: "light-pull", Weight: 3, Leak: true, Run: func(t *core.T) { c17Pull(t, true) }},
			{Name: "onoff-pull", Weight: 3, Leak: true, Run: func(t *core.T) { c17Pull(t, false) }},
		},
	})
}

// grpMember is a scripted member.
type grpMember struct {
	i      int
	fails  bool
	delay  time.Duration
	msg    proto.Message
	err    error
	onStop int // on cancellation: 0 return the context's error, 1 carry on, 2 return the scripted outcome at once

	starts            int
	began, ended      time.Duration
	beganSeq, endSeq  uint64
	done              bool
	gotMsg            proto.Message
	gotErr            error
	cancelled         bool
	cancelledAt       time.Duration
	watched, watching bool
}

func (m *grpMember) String() string {
	return fmt.Sprintf("member %d fails=%v delay=%s onStop=%d: starts=%d %s..%s done=%v err=%v cancelled=%v@%s", m.i, m.fails, m.delay, m.onStop, m.starts, m.began, m.ended, m.done, m.gotErr, m.cancelled, m.cancelledAt)
}

func (m *grpMember) call(t *core.T, ctx context.Context) (proto.Message, error) {
	m.starts++
	m.began, m.beganSeq = t.Elapsed(), t.Seq()
	stop := make(chan struct{})
	gone := make(chan struct{})
	go func() {
		defer close(gone)
		select {
		case <-ctx.Done():
			m.cancelled, m.cancelledAt = true, t.Elapsed()
		case <-stop:
			if ctx.Err() != nil {
				m.cancelled, m.cancelledAt = true, t.Elapsed()
			}
		}
	}()
	ret := func(msg proto.Message, err error) (proto.Message, error) {
		close(stop)
		<-gone
		m.gotMsg, m.gotErr = msg, err
		m.ended, m.endSeq = t.Elapsed(), t.Seq()
		m.done = true
		if t.Logging() {
			t.Logf("%s", m)
		}
		return msg, err
	}
	if m.delay > 0 {
		if m.onStop == 1 {
			time.Sleep(m.delay)
		} else {
			tm := time.NewTimer(m.delay)
			defer tm.Stop()
			select {
			case <-tm.C:
			case <-ctx.Done():
				if m.onStop == 0 {
					return ret(nil, ctx.Err())
				}
			}
		}
	} else if m.onStop == 0 && ctx.Err() != nil {
		return ret(nil, ctx.Err())
	}
	if m.fails {
		return ret(m.msg, m.err)
	}
	return ret(m.msg, nil)
}

var grpStrategies = []group.ExecutionStrategy{
	group.ExecutionStrategyUnspecified, group.ExecutionStrategyAll, group.ExecutionStrategyMost, group.ExecutionStrategyAny,
	group.ExecutionStrategyOne, group.ExecutionStrategyFast, group.ExecutionStrategyRace, group.ExecutionStrategy(99),
}

func drawMembers(t *core.T, unit time.Duration) []*grpMember {
	var ms []*grpMember
	n := t.Int(7)
	if t.Chance(4) {
		n = t.Range(8, 40)
	}
	pct := core.Choose(t, 0, 20, 50, 80, 100)
	spread := core.Choose(t, 1, 3, 8)
	for i := 0; i < n; i++ {
		m := &grpMember{i: i, fails: t.Chance(pct), delay: time.Duration(t.Int(spread)) * unit}
		m.onStop = t.Weighted(3, 1, 1)
		if !m.fails || t.Chance(20) {
			if !t.Chance(10) {
				m.msg = smallMsg(t)
			}
		}
		if m.fails {
			m.err = fmt.Errorf("member %d failed", i)
			t.Count("member_error", 1)
		}
		if m.delay > 0 {
			t.Count("slow_member", 1)
		}
		if m.onStop == 1 {
			t.Count("member_ignores_cancel", 1)
		}
		ms = append(ms, m)
	}
	return ms
}

type grpRun struct {
	t        *core.T
	strategy group.ExecutionStrategy
	direct   bool
	upTo     int // >= 0: ExecuteUpTo
	ms       []*grpMember
	ctx      context.Context
	cancel   context.CancelFunc
	cancelAt time.Duration
	unit     time.Duration

	began, ended time.Duration
	endSeq       uint64
	done         bool
	res          []proto.Message
	single       proto.Message
	idx          int
	err          error
	parent       bool
	parentAt     time.Duration
}

func (r *grpRun) String() string {
	s := fmt.Sprintf("strategy %d direct=%v upTo=%d cancelAt=%s parentCancelled=%v@%s %s..%s done=%v err=%v idx=%d", r.strategy, r.direct, r.upTo, r.cancelAt, r.parent, r.parentAt, r.began, r.ended, r.done, r.err, r.idx)
	for _, m := range r.res {
		s += " " + txt(m)
	}
	for _, m := range r.ms {
		s += "\n    " + m.String()
	}
	return s
}

func drawGrpRun(t *core.T) *grpRun {
	unit := drawUnit(t, tick)
	r := &grpRun{t: t, strategy: grpStrategies[t.Int(len(grpStrategies))], direct: t.Chance(40), upTo: -1, cancelAt: -1, ms: drawMembers(t, unit), unit: unit}
	if r.direct && t.Chance(30) {
		r.upTo = t.Int(4)
	}
	if t.Chance(25) {
		r.cancelAt = time.Duration(t.Int(8)) * unit
	}
	r.ctx, r.cancel = context.WithCancel(context.Background())
	return r
}

func (r *grpRun) run() {
	t := r.t
	if r.cancelAt >= 0 {
		stop := func() {
			r.parent, r.parentAt = true, t.Elapsed()
			r.cancel()
			t.Count("caller_cancel", 1)
		}
		if r.cancelAt == 0 {
			stop()
		} else {
			go at(r.cancelAt, stop)
		}
	}
	var members []group.Member
	for _, m := range r.ms {
		members = append(members, func(ctx context.Context) (proto.Message, error) { return m.call(t, ctx) })
	}
	r.began = t.Elapsed()
	switch {
	case !r.direct:
		r.res, r.err = group.Execute(r.ctx, r.strategy, members)
	case r.upTo >= 0:
		r.res, r.err = group.ExecuteUpTo(r.ctx, r.upTo, members)
	default:
		switch r.strategy {
		case group.ExecutionStrategyMost:
			r.res, r.err = group.ExecuteMost(r.ctx, members)
		case group.ExecutionStrategyAny:
			r.res, r.err = group.ExecuteAny(r.ctx, members)
		case group.ExecutionStrategyOne:
			r.single, r.idx, r.err = group.ExecuteOne(r.ctx, members)
		case group.ExecutionStrategyFast:
			r.single, r.idx, r.err = group.ExecuteFast(r.ctx, members)
		case group.ExecutionStrategyRace:
			r.single, r.idx, r.err = group.ExecuteRace(r.ctx, members)
		default:
			r.res, r.err = group.ExecuteAll(r.ctx, members)
		}
	}
	r.ended, r.endSeq, r.done = t.Elapsed(), t.Seq(), true
}

func c17Execute(t *core.T, concurrent bool) {
	var rs []*grpRun
	n := 1
	if concurrent {
		n = t.Range(2, 3)
	}
	for ; n > 0; n-- {
		rs = append(rs, drawGrpRun(t))
	}
	end := time.Hour
	for _, r := range rs {
		end += 400 * r.unit
		go r.run()
	}
	t.Settle(end)
	for _, r := range rs {
		r.check()
		r.cancel()
	}
}

// isErr reports whether err is that member's error.
func (m *grpMember) isErr(err error) bool { return m.done && m.gotErr != nil && err == m.gotErr }

func (r *grpRun) check() {
	t := r.t
	fail := func(class, format string, args ...any) {
		t.Fail(class, "%s\n  %s", fmt.Sprintf(format, args...), r)
	}
	if !r.done {
		fail("stuck", "the call has not returned\n%s", t.Stacks())
	}
	n := len(r.ms)
	// Simulated stalls may delay anything: instants are only meaningful without.
	stalls := t.Stalls()
	s := r.strategy
	upTo := r.upTo
	if upTo < 0 {
		switch s {
		case group.ExecutionStrategyMost:
			upTo = n / 2
		case group.ExecutionStrategyAny:
			upTo = n - 1
		case group.ExecutionStrategyOne, group.ExecutionStrategyFast, group.ExecutionStrategyRace:
		default:
			upTo = 0
		}
	}
	if n == 0 {
		if len(r.res) != 0 || r.single != nil {
			fail("results", "results of no members")
		}
		return
	}
	var first, firstErr, firstOk []*grpMember // candidates for the first observed
	var ok, bad int
	earliest := func(in []*grpMember, m *grpMember) []*grpMember {
		switch {
		case len(in) == 0 || m.ended < in[0].ended && !stalls:
			return []*grpMember{m}
		case stalls || m.ended == in[0].ended:
			return append(in, m)
		}
		return in
	}
	for _, m := range r.ms {
		if m.starts > 1 {
			fail("twice", "a member was called twice")
		}
		if m.starts > 0 && !m.done {
			fail("stuck", "a member has not returned")
		}
		if m.starts == 0 {
			continue
		}
		first = earliest(first, m)
		if m.gotErr != nil {
			bad++
			firstErr = earliest(firstErr, m)
		} else {
			ok++
			firstOk = earliest(firstOk, m)
		}
		if m.cancelled {
			t.Nontrivial()
		}
	}
	if ok > 0 && bad > 0 {
		t.Nontrivial()
	}
	anyErr := func(ms []*grpMember, err error) bool {
		for _, m := range ms {
			if m.isErr(err) {
				return true
			}
		}
		return false
	}
	// decided: the moment the outcome was; -1 unknown.
	decided := time.Duration(-1)
	results := r.res
	if results == nil {
		results = make([]proto.Message, n)
		if r.idx < 0 || r.idx >= n {
			fail("results", "index out of range")
		}
		results[r.idx] = r.single
	}
	if len(results) != n {
		fail("results", "%d results of %d members", len(results), n)
	}
	single := s == group.ExecutionStrategyOne || s == group.ExecutionStrategyFast || s == group.ExecutionStrategyRace
	if r.upTo >= 0 {
		single = false
	}
	if s != group.ExecutionStrategyOne || !single {
		for _, m := range r.ms {
			if m.starts != 1 {
				fail("not-run", "member %d was not called", m.i)
			}
			if m.began != r.began && !stalls {
				fail("not-run", "member %d was called late", m.i)
			}
		}
	}
	oneOf := func(ms []*grpMember, what string) {
		for _, m := range ms {
			match := true
			for i, x := range results {
				if i == m.i {
					match = match && x == m.gotMsg || (m.gotErr != nil && x == nil)
				} else {
					match = match && x == nil
				}
			}
			if match && r.err == m.gotErr {
				return
			}
		}
		fail("results", "the result is not that of %s", what)
	}
	switch {
	case !single:
		if (r.err != nil) != (bad > upTo) {
			fail("outcome", "%d of %d members failed, at most %d may: got error %v", bad, n, upTo, r.err)
		}
		if r.err != nil && !anyErr(firstErr, r.err) {
			fail("first-error", "the error is not the first one observed")
		}
		for _, m := range r.ms {
			if results[m.i] != m.gotMsg && !(m.gotErr != nil && results[m.i] == nil) {
				fail("results", "the result of member %d is not at its index", m.i)
			}
			if m.endSeq > r.endSeq {
				fail("early", "returned before member %d", m.i)
			}
		}
		if bad > upTo {
			// the moment of the error that decided
			var at []time.Duration
			for _, m := range r.ms {
				if m.gotErr != nil {
					at = append(at, m.ended)
				}
			}
			for i := range at {
				for j := i; j > 0 && at[j] < at[j-1]; j-- {
					at[j], at[j-1] = at[j-1], at[j]
				}
			}
			decided = at[upTo]
		}
	case s == group.ExecutionStrategyOne:
		var last *grpMember
		for i, m := range r.ms {
			if m.starts == 0 {
				continue
			}
			if last != nil && (m.i != last.i+1 || m.beganSeq < last.endSeq || last.gotErr == nil) || last == nil && i != 0 {
				fail("order", "member %d was called out of order", m.i)
			}
			last = m
		}
		if last == nil {
			fail("not-run", "no member was called")
		}
		if last.gotErr == nil {
			oneOf([]*grpMember{last}, "the first member that succeeded")
		} else {
			if last.i != n-1 {
				fail("not-run", "gave up before the last member")
			}
			if r.err != r.ms[0].gotErr {
				fail("first-error", "the error is not the first one observed")
			}
		}
		if r.ended != last.ended && !stalls {
			fail("late", "returned late")
		}
	case s == group.ExecutionStrategyFast:
		if ok > 0 {
			if stalls {
				firstOk = nil
				for _, m := range r.ms {
					if m.gotErr == nil {
						firstOk = append(firstOk, m)
					}
				}
			} else {
				decided = firstOk[0].ended
				if r.ended != decided {
					fail("late", "returned late")
				}
			}
			oneOf(firstOk, "the first member that succeeded")
		} else {
			if r.err == nil {
				fail("outcome", "every member failed but there is no error")
			}
			if !anyErr(firstErr, r.err) {
				fail("first-error", "the error is not the first one observed")
			}
		}
	default: // Race
		if !stalls {
			decided = first[0].ended
			if r.ended != decided {
				fail("late", "returned late")
			}
		}
		oneOf(first, "the first member to respond")
	}
	if stalls {
		return
	}
	// Contexts: the remaining members are cancelled then, and not before.
	for _, m := range r.ms {
		if m.starts == 0 {
			continue
		}
		if m.cancelled && !(r.parent && m.cancelledAt >= r.parentAt) {
			switch {
			case single && s != group.ExecutionStrategyOne && decided >= 0 && m.cancelledAt >= decided:
			case !single && decided >= 0 && m.cancelledAt >= decided:
			case !single && decided < 0 && n-ok <= upTo && m.cancelledAt >= enough(r.ms, n-upTo):
				// it could no longer fail
			default:
				fail("cancel", "member %d was cancelled before the outcome was decided", m.i)
			}
		}
		if decided >= 0 && m.ended > decided && (!m.cancelled || m.cancelledAt > decided) {
			fail("cancel", "member %d was not cancelled when the outcome was decided (at %s)", m.i, decided)
		}
	}
}

// enough is when the k-th member succeeded.
func enough(ms []*grpMember, k int) time.Duration {
	var at []time.Duration
	for _, m := range ms {
		if m.gotErr == nil {
			at = append(at, m.ended)
		}
	}
	for i := range at {
		for j := i; j > 0 && at[j] < at[j-1]; j-- {
			at[j], at[j-1] = at[j-1], at[j]
		}
	}
	if k < 1 {
		return 0
	}
	if k > len(at) {
		return 1 << 62
	}
	return at[k-1]
}

// ---- trait groups over scripted devices

type grpDevice struct {
	t     *core.T
	name  string
	level int // percent, or the on off state
	fails bool
	delay time.Duration
	// streams
	script  []grpStep
	openErr bool

	gets, updates, pulls int
	reqName              string
	ended                time.Duration
	done                 bool
	err                  error
	sent                 []int // levels handed out on the stream
	pullEnded            bool
	streams              int
}

type grpStep struct {
	gap   time.Duration
	level int
	many  bool
	empty bool
	end   bool
}

func (d *grpDevice) String() string {
	return fmt.Sprintf("device %s level=%d fails=%v delay=%s openErr=%v script=%v: gets=%d updates=%d pulls=%d ended=%s done=%v err=%v sent=%v pullEnded=%v", d.name, d.level, d.fails, d.delay, d.openErr, d.script, d.gets, d.updates, d.pulls, d.ended, d.done, d.err, d.sent, d.pullEnded)
}

func (d *grpDevice) answer(ctx context.Context) error {
	defer func() { d.ended, d.done = d.t.Elapsed(), true }()
	if d.delay > 0 {
		select {
		case <-time.After(d.delay):
		case <-ctx.Done():
			d.err = ctx.Err()
			return d.err
		}
	}
	if d.fails {
		d.err = errors.New(d.name + " failed")
		return d.err
	}
	return nil
}

type grpClient struct {
	t    *core.T
	devs map[string]*grpDevice
}

func (c *grpClient) dev(name string) *grpDevice {
	d := c.devs[name]
	if d == nil {
		c.t.Fail("request", "a request for %q was sent, which isn't a member", name)
	}
	return d
}

func (c *grpClient) brightness(ctx context.Context, d *grpDevice) (*traits.Brightness, error) {
	if err := d.answer(ctx); err != nil {
		return nil, err
	}
	return &traits.Brightness{LevelPercent: float32(d.level)}, nil
}

func (c *grpClient) GetBrightness(ctx context.Context, in *traits.GetBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	d := c.dev(in.Name)
	d.gets++
	return c.brightness(ctx, d)
}

func (c *grpClient) UpdateBrightness(ctx context.Context, in *traits.UpdateBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	d := c.dev(in.Name)
	d.updates++
	if in.Brightness.GetLevelPercent() != 42 {
		c.t.Fail("request", "the update sent to %s is not the caller's: %v", in.Name, in)
	}
	return c.brightness(ctx, d)
}

func (c *grpClient) PullBrightness(ctx context.Context, in *traits.PullBrightnessRequest, _ ...grpc.CallOption) (grpc.ServerStreamingClient[traits.PullBrightnessResponse], error) {
	d := c.dev(in.Name)
	d.pulls++
	if err := d.open(ctx); err != nil {
		return nil, err
	}
	return &lightStream{grpStream{d: d, ctx: ctx}}, nil
}

func (c *grpClient) onoff(ctx context.Context, d *grpDevice) (*traits.OnOff, error) {
	if err := d.answer(ctx); err != nil {
		return nil, err
	}
	return &traits.OnOff{State: traits.OnOff_State(d.level % 3)}, nil
}

func (c *grpClient) GetOnOff(ctx context.Context, in *traits.GetOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	d := c.dev(in.Name)
	d.gets++
	return c.onoff(ctx, d)
}

func (c *grpClient) UpdateOnOff(ctx context.Context, in *traits.UpdateOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	d := c.dev(in.Name)
	d.updates++
	if in.OnOff.GetState() != traits.OnOff_OFF {
		c.t.Fail("request", "the update sent to %s is not the caller's: %v", in.Name, in)
	}
	return c.onoff(ctx, d)
}

func (c *grpClient) PullOnOff(ctx context.Context, in *traits.PullOnOffRequest, _ ...grpc.CallOption) (grpc.ServerStreamingClient[traits.PullOnOffResponse], error) {
	d := c.dev(in.Name)
	d.pulls++
	if err := d.open(ctx); err != nil {
		return nil, err
	}
	return &onoffStream{grpStream{d: d, ctx: ctx}}, nil
}

func (d *grpDevice) open(ctx context.Context) error {
	if d.openErr {
		d.pullEnded, d.err, d.ended = true, errors.New(d.name+" failed"), d.t.Elapsed()
		return d.err
	}
	return nil
}

// grpStream is a member's stream: it plays the script, then waits.
type grpStream struct {
	grpc.ClientStream
	d   *grpDevice
	ctx context.Context
	i   int
}

func (s *grpStream) next() (grpStep, error) {
	d := s.d
	end := func(err error) (grpStep, error) {
		d.pullEnded, d.err, d.ended = true, err, d.t.Elapsed()
		return grpStep{}, err
	}
	if s.ctx.Err() != nil {
		return end(s.ctx.Err())
	}
	if s.i >= len(d.script) {
		<-s.ctx.Done()
		return end(s.ctx.Err())
	}
	x := d.script[s.i]
	s.i++
	if x.gap > 0 {
		select {
		case <-time.After(x.gap):
		case <-s.ctx.Done():
			return end(s.ctx.Err())
		}
	}
	if x.end {
		return end(errors.New(d.name + " failed"))
	}
	if !x.empty {
		d.sent = append(d.sent, x.level)
	}
	return x, nil
}

type lightStream struct{ grpStream }

func (s *lightStream) Recv() (*traits.PullBrightnessResponse, error) {
	x, err := s.next()
	if err != nil {
		return nil, err
	}
	res := &traits.PullBrightnessResponse{}
	if x.empty {
		return res, nil
	}
	if x.many {
		res.Changes = append(res.Changes, &traits.PullBrightnessResponse_Change{Name: s.d.name, Brightness: &traits.Brightness{LevelPercent: 1}})
	}
	res.Changes = append(res.Changes, &traits.PullBrightnessResponse_Change{Name: s.d.name, Brightness: &traits.Brightness{LevelPercent: float32(x.level)}})
	return res, nil
}

type onoffStream struct{ grpStream }

func (s *onoffStream) Recv() (*traits.PullOnOffResponse, error) {
	x, err := s.next()
	if err != nil {
		return nil, err
	}
	res := &traits.PullOnOffResponse{}
	if x.empty {
		return res, nil
	}
	res.Changes = append(res.Changes, &traits.PullOnOffResponse_Change{Name: s.d.name, OnOff: &traits.OnOff{State: traits.OnOff_State(x.level % 3)}})
	return res, nil
}

// c17Devices checks Get and Update of a trait group.
func c17Devices(t *core.T, light bool) {
	n := t.Int(6)
	if t.Chance(3) {
		n = t.Range(8, 30)
	}
	c := &grpClient{t: t, devs: map[string]*grpDevice{}}
	var ds []*grpDevice
	var names []string
	pct := core.Choose(t, 0, 30, 60, 100)
	unit := drawUnit(t, tick)
	for i := 0; i < n; i++ {
		d := &grpDevice{t: t, name: fmt.Sprintf("dev/%d", i), level: t.Int(11) * 10, fails: t.Chance(pct), delay: time.Duration(t.Int(4)) * unit}
		if !light {
			d.level = t.Int(3)
		}
		if d.fails {
			t.Count("member_error", 1)
		}
		ds, names = append(ds, d), append(names, d.name)
		c.devs[d.name] = d
	}
	strategy := grpStrategies[t.Int(len(grpStrategies))]
	update := t.Chance(50)
	other := grpStrategies[t.Int(len(grpStrategies))]
	read, write := strategy, other
	if update {
		read, write = other, strategy
	}
	var err error
	var level int
	var res proto.Message
	done := false
	go func() {
		if light {
			g := lightpb.NewGroup(c, names...)
			g.ReadExecution, g.WriteExecution = read, write
			var b *traits.Brightness
			if update {
				req := &traits.UpdateBrightnessRequest{Name: "grp", Brightness: &traits.Brightness{LevelPercent: 42}}
				b, err = g.UpdateBrightness(context.Background(), req)
				if req.Name != "grp" {
					t.Fail("request", "the caller's request was changed: %v", req)
				}
			} else {
				b, err = g.GetBrightness(context.Background(), &traits.GetBrightnessRequest{Name: "grp"})
			}
			level, res = int(b.GetLevelPercent()+0.5), b
		} else {
			g := onoffpb.NewGroup(c, names...)
			g.ReadExecution, g.WriteExecution = read, write
			var b *traits.OnOff
			if update {
				b, err = g.UpdateOnOff(context.Background(), &traits.UpdateOnOffRequest{Name: "grp", OnOff: &traits.OnOff{State: traits.OnOff_OFF}})
			} else {
				b, err = g.GetOnOff(context.Background(), &traits.GetOnOffRequest{Name: "grp"})
			}
			level, res = int(b.GetState()), b
		}
		done = true
	}()
	t.Settle(time.Minute + 120*unit)
	fail := func(class, format string, args ...any) {
		out := fmt.Sprintf(format, args...) + fmt.Sprintf("\n  strategy %d update=%v result %v error %v", strategy, update, res, err)
		for _, d := range ds {
			out += "\n    " + d.String()
		}
		t.Fail(class, "%s", out)
	}
	if !done {
		fail("stuck", "the call has not returned\n%s", t.Stacks())
	}
	if n == 0 {
		return
	}
	var good, bad []*grpDevice
	for _, d := range ds {
		calls, wrong := d.gets, d.updates
		if update {
			calls, wrong = wrong, calls
		}
		if calls > 1 || wrong > 0 || (calls == 0 && strategy != group.ExecutionStrategyOne) {
			fail("request", "%s was asked %d times", d.name, calls)
		}
		if !d.done {
			continue
		}
		if d.err != nil {
			bad = append(bad, d)
		} else {
			good = append(good, d)
		}
	}
	if len(good) > 0 && len(bad) > 0 {
		t.Nontrivial()
	}
	isFirst := func(ds []*grpDevice, d *grpDevice) bool {
		for _, x := range ds {
			if x.ended < d.ended {
				return false
			}
		}
		return true
	}
	upTo := 0
	switch strategy {
	case group.ExecutionStrategyMost:
		upTo = n / 2
	case group.ExecutionStrategyAny, group.ExecutionStrategyOne, group.ExecutionStrategyFast:
		upTo = n - 1
	case group.ExecutionStrategyRace:
		upTo = -1
	}
	if upTo >= 0 && (err != nil) != (len(bad) > upTo) {
		fail("outcome", "%d members failed", len(bad))
	}
	var cand []*grpDevice // those the answer may come from
	all := append(append([]*grpDevice{}, good...), bad...)
	switch strategy {
	case group.ExecutionStrategyRace, group.ExecutionStrategyFast:
		from := good
		if strategy == group.ExecutionStrategyRace {
			from = all
		}
		for _, d := range from {
			if isFirst(from, d) {
				cand = append(cand, d)
			}
		}
		if err != nil && len(good) == 0 {
			cand = nil
			for _, d := range bad {
				if isFirst(bad, d) {
					cand = append(cand, d)
				}
			}
		}
		found := false
		for _, d := range cand {
			if err != nil {
				found = found || d.err == err
			} else {
				found = found || d.err == nil && d.level == level
			}
		}
		if !found {
			fail("results", "the answer is not that of the first member to respond")
		}
		return
	}
	if err != nil {
		found := false
		for _, d := range bad {
			found = found || d.err == err && isFirst(bad, d)
		}
		if !found {
			fail("first-error", "the error is not the first one observed")
		}
		return
	}
	// a combination of the members' answers lies between them
	lo, hi := 1<<30, -1
	for _, d := range good {
		lo, hi = min(lo, d.level), max(hi, d.level)
	}
	if level < lo || level > hi {
		fail("results", "the answer is not within those of the members that succeeded")
	}
}

// c17Pull checks the stream of a trait group.
func c17Pull(t *core.T, light bool) {
	n := t.Range(1, 4)
	if t.Chance(3) {
		n = t.Range(8, 20)
	}
	c := &grpClient{t: t, devs: map[string]*grpDevice{}}
	var ds []*grpDevice
	var names []string
	endPct := core.Choose(t, 0, 20, 60, 100)
	unit := drawUnit(t, tick)
	for i := 0; i < n; i++ {
		d := &grpDevice{t: t, name: fmt.Sprintf("dev/%d", i), openErr: t.Chance(10)}
		t.Repeat(0, 4, func(int) {
			x := grpStep{gap: time.Duration(t.Int(4)) * unit, level: t.Int(11) * 10, many: t.Chance(20), empty: t.Chance(10)}
			if !light {
				x.level = t.Int(3)
			}
			d.script = append(d.script, x)
		})
		if t.Chance(endPct) {
			d.script = append(d.script, grpStep{gap: time.Duration(t.Int(6)) * unit, end: true})
			t.Count("member_error", 1)
		}
		ds, names = append(ds, d), append(names, d.name)
		c.devs[d.name] = d
	}
	strategy := grpStrategies[t.Int(len(grpStrategies))]
	sendErr := -1
	if t.Chance(20) {
		sendErr = t.Int(4)
		t.Count("send_error", 1)
	}
	cancelAt := time.Duration(-1)
	if t.Chance(30) {
		cancelAt = time.Duration(t.Int(10)) * unit
	}
	ctx, cancel := context.WithCancel(context.Background())
	srv := &grpServerStream{ctx: ctx, failAt: sendErr}
	var err error
	var cancelled, ended time.Duration
	isCancelled, done := false, false
	go func() {
		if light {
			g := lightpb.NewGroup(c, names...)
			g.ReadExecution = strategy
			err = g.PullBrightness(&traits.PullBrightnessRequest{Name: "grp"}, lightServer{srv})
		} else {
			g := onoffpb.NewGroup(c, names...)
			g.ReadExecution = strategy
			err = g.PullOnOff(&traits.PullOnOffRequest{Name: "grp"}, onoffServer{srv})
		}
		ended, done = t.Elapsed(), true
	}()
	if cancelAt >= 0 {
		go at(cancelAt, func() {
			isCancelled, cancelled = true, t.Elapsed()
			cancel()
			t.Count("caller_cancel", 1)
		})
	}
	t.Settle(time.Minute + 400*unit)
	fail := func(class, format string, args ...any) {
		out := fmt.Sprintf(format, args...) + fmt.Sprintf("\n  strategy %d sendErr=%d cancelAt=%s(%v) done=%v@%s error %v sent %v", strategy, sendErr, cancelAt, isCancelled, done, ended, err, srv.sent)
		for _, d := range ds {
			out += "\n    " + d.String()
		}
		t.Fail(class, "%s", out)
	}
	failed := 0
	lo, hi := 1<<30, -1
	var latest []int
	for _, d := range ds {
		if d.err != nil && !contextErr(d.err) {
			failed++
		}
		for _, l := range d.sent {
			lo, hi = min(lo, l), max(hi, l)
		}
		if len(d.sent) > 0 {
			latest = append(latest, d.sent[len(d.sent)-1])
		}
		if d.pulls > 1 {
			fail("request", "%s was opened twice", d.name)
		}
	}
	if failed > 0 && failed < n {
		t.Nontrivial()
	}
	upTo := 0
	switch strategy {
	case group.ExecutionStrategyMost:
		upTo = n / 2
	case group.ExecutionStrategyAny, group.ExecutionStrategyOne, group.ExecutionStrategyFast:
		upTo = n - 1
	}
	switch {
	case srv.failed:
		if !done || err != srv.err {
			fail("stuck", "the stream did not end with the error of Send")
		}
	case isCancelled:
		if !done || ended > cancelled {
			fail("stuck", "the stream did not end when it was cancelled\n%s", t.Stacks())
		}
	case failed > upTo:
		if !done || err == nil {
			fail("outcome", "the stream did not end although %d members failed\n%s", failed, t.Stacks())
		}
	case done:
		fail("outcome", "the stream ended although %d members failed", failed)
	}
	for _, l := range srv.sent {
		if l < lo || l > hi {
			fail("results", "%d was sent, which is not within the members' values", l)
		}
	}
	if !done && len(latest) > 0 {
		lo, hi := 1<<30, -1
		for _, l := range latest {
			lo, hi = min(lo, l), max(hi, l)
		}
		if len(srv.sent) == 0 {
			if hi > 0 { // an empty change is not sent
				fail("results", "nothing was sent")
			}
		} else if l := srv.sent[len(srv.sent)-1]; l < lo || l > hi {
			fail("results", "the last value sent, %d, is not within the members' latest values", l)
		}
	}
	cancel()
	t.Settle(time.Minute)
	if live := t.Live(); live != 1 {
		fail("leak", "%d goroutine(s) remain after the stream was cancelled\n%s", live-1, t.Stacks())
	}
	if !done {
		fail("stuck", "the stream did not end when it was cancelled")
	}
}

type grpServerStream struct {
	grpc.ServerStream
	ctx    context.Context
	failAt int
	sent   []int
	n      int
	failed bool
	err    error
}

func (s *grpServerStream) Context() context.Context     { return s.ctx }
func (s *grpServerStream) SetTrailer(metadata.MD)       {}
func (s *grpServerStream) SendHeader(metadata.MD) error { return nil }

func (s *grpServerStream) send(name string, level int) error {
	if s.n == s.failAt {
		s.failed, s.err = true, errors.New("send failed")
		return s.err
	}
	s.n++
	s.sent = append(s.sent, level)
	return nil
}

type lightServer struct{ *grpServerStream }

func (s lightServer) Send(m *traits.PullBrightnessResponse) error {
	c := m.Changes[len(m.Changes)-1]
	return s.send(c.Name, int(c.Brightness.GetLevelPercent()+0.5))
}

type onoffServer struct{ *grpServerStream }

func (s onoffServer) Send(m *traits.PullOnOffResponse) error {
	c := m.Changes[len(m.Changes)-1]
	return s.send(c.Name, int(c.OnOff.GetState()))
}
