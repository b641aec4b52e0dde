package props

import (
	"context"
	"fmt"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-api/go/types"
	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// event is a received ValueChange or CollectionChange.
type event struct {
	seq        uint64
	at         time.Duration
	id         string
	kind       types.ChangeType // unspecified for values
	old, new   proto.Message
	time       time.Time
	seed, last bool
}

func (e *event) String() string {
	s := ""
	if e.seed {
		s = " seed"
	}
	if e.last {
		s += " last"
	}
	return fmt.Sprintf("%s %q %s -> %s @%s%s", e.kind, e.id, txt(e.old), txt(e.new), e.time.Format("15:04:05.000"), s)
}

func eventsText(es []*event) string {
	out := ""
	for _, e := range es {
		out += fmt.Sprintf("\n    [%d %s] %s", e.seq, e.at, e)
	}
	return out
}

// predicate is an include function over id and value, given as a truth table
// so that everything about it is drawn: ids in the set, and values by their
// int32 modulo 4.
type predicate struct {
	ids    map[string]bool // nil: any
	values [4]bool
	onNil  bool
	useStr bool
}

func (p *predicate) include(id string, m proto.Message) bool {
	if p.ids != nil && !p.ids[id] {
		return false
	}
	if m == nil || !m.ProtoReflect().IsValid() {
		return p.onNil
	}
	v := asTAT(m)
	if p.useStr {
		return v.DefaultString != ""
	}
	return p.values[uint32(v.DefaultInt32)%4]
}

func (p *predicate) String() string {
	return fmt.Sprintf("{ids:%v values:%v nil:%v str:%v}", p.ids, p.values, p.onNil, p.useStr)
}

func drawPredicate(t *core.T, ids []string) *predicate {
	p := &predicate{onNil: t.Chance(40), useStr: t.Chance(20)}
	for i := range p.values {
		p.values[i] = t.Chance(50)
	}
	if t.Chance(25) {
		p.ids = map[string]bool{}
		for _, id := range ids {
			p.ids[id] = t.Chance(60)
		}
	}
	return p
}

// sub is one subscription with its reader.
type sub struct {
	t        *core.T
	n        int
	updates  bool
	bp       bool
	hasMask  bool
	mask     []string
	pred     *predicate
	pullID   string
	single   bool // PullID
	alias    bool // by another name
	ctx      context.Context
	cancel   context.CancelFunc
	callSeq  uint64 // before Pull was called
	openSeq  uint64 // after Pull returned
	events   []*event
	closed   bool
	closedAt time.Duration
	pace     func(i int) time.Duration // before receiving event i
	onEvent  func(e *event)
	opened   bool
	valCh    <-chan *resource.ValueChange
	colCh    <-chan *resource.CollectionChange
}

func (s *sub) String() string {
	return fmt.Sprintf("sub %d updatesOnly=%v backpressure=%v mask=%v/%v pred=%v pullID=%v %q opened [%d,%d]", s.n, s.updates, s.bp, s.hasMask, s.mask, s.pred, s.single, s.pullID, s.callSeq, s.openSeq)
}

func (s *sub) opts() []resource.ReadOption {
	out := []resource.ReadOption{resource.WithUpdatesOnly(s.updates), resource.WithBackpressure(s.bp)}
	if s.hasMask {
		out = append(out, resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: s.mask}))
	}
	if s.pred != nil {
		out = append(out, resource.WithInclude(s.pred.include))
	}
	return out
}

// open subscribes.
func (s *sub) open(st *store) {
	if s.ctx == nil {
		s.ctx, s.cancel = context.WithCancel(s.t.Ctx())
	}
	s.callSeq = s.t.Seq()
	switch {
	case st.val != nil:
		s.valCh = st.val.Pull(s.ctx, s.opts()...)
	case s.single:
		s.valCh = st.col.PullID(s.ctx, st.named(s.pullID, s.alias), s.opts()...)
	default:
		s.colCh = st.col.Pull(s.ctx, s.opts()...)
	}
	s.openSeq = s.t.Seq()
	s.opened = true
}

// read receives until the channel closes.
func (s *sub) read() {
	for i := 0; ; i++ {
		if s.pace != nil {
			if d := s.pace(i); d > 0 {
				time.Sleep(d)
			}
		}
		e := s.next()
		if e == nil {
			s.closed = true
			s.closedAt = s.t.Elapsed()
			if s.t.Logging() {
				s.t.Logf("sub %d: closed", s.n)
			}
			return
		}
		s.events = append(s.events, e)
		if s.t.Logging() {
			s.t.Logf("sub %d: %s", s.n, e)
		}
		if s.onEvent != nil {
			s.onEvent(e)
		}
	}
}

// next receives one event, nil when the channel is closed.
func (s *sub) next() *event {
	if s.valCh != nil {
		c, ok := <-s.valCh
		if !ok {
			return nil
		}
		return &event{seq: s.t.Seq(), at: s.t.Elapsed(), id: s.pullID, new: c.Value, time: c.ChangeTime, seed: c.SeedValue, last: c.LastSeedValue}
	}
	c, ok := <-s.colCh
	if !ok {
		return nil
	}
	return &event{seq: s.t.Seq(), at: s.t.Elapsed(), id: c.Id, kind: c.ChangeType, old: c.OldValue, new: c.NewValue, time: c.ChangeTime, seed: c.SeedValue, last: c.LastSeedValue}
}

func (s *sub) project(m proto.Message) proto.Message { return project(m, s.mask, s.hasMask) }

// fold applies events to a view.
func fold(es []*event) map[string]proto.Message {
	view := map[string]proto.Message{}
	for _, e := range es {
		if e.kind == types.ChangeType_REMOVE {
			delete(view, e.id)
		} else {
			view[e.id] = e.new
		}
	}
	return view
}

func viewText(v map[string]proto.Message) string {
	var ids []string
	for id := range v {
		ids = append(ids, id)
	}
	sortStrings(ids)
	out := ""
	for _, id := range ids {
		out += fmt.Sprintf("%q=%s ", id, txt(v[id]))
	}
	return out
}

// drawSub draws the options of a subscription.
func drawSub(t *core.T, n int, isVal bool, ids []string) *sub {
	s := &sub{t: t, n: n}
	s.updates = t.Chance(30)
	s.bp = t.Chance(50)
	if t.Chance(30) {
		s.hasMask = true
		s.mask = drawPaths(t, 40, true)
	}
	if !isVal && t.Chance(30) {
		s.single = true
		s.pullID = ids[t.Int(len(ids))]
		s.alias = t.Chance(50)
	}
	return s
}

// drawPace makes a reader slow: a fixed or varying delay before each receive.
func drawPace(t *core.T, max time.Duration) func(int) time.Duration {
	switch t.Int(4) {
	case 0, 1:
		return nil
	case 2:
		d := time.Duration(t.Range(1, 20)) * max / 20
		return func(int) time.Duration { return d }
	default:
		var ds []time.Duration
		for i := 0; i < 8; i++ {
			if t.Chance(50) {
				ds = append(ds, time.Duration(t.Range(1, 20))*max/20)
			} else {
				ds = append(ds, 0)
			}
		}
		return func(i int) time.Duration { return ds[i%len(ds)] }
	}
}

// writeScripts draws the scripts of concurrent writers whose messages are all
// different.
func writeScripts(t *core.T, g *opGen, writers, maxOps int) [][]*wop {
	var out [][]*wop
	n := 0
	for c := 0; c < writers; c++ {
		var sc []*wop
		t.Repeat(1, maxOps, func(int) {
			o := g.draw(t)
			if o.msg != nil {
				n++
				o.msg.DefaultDouble = float64(10 + n)
			}
			sc = append(sc, o)
		})
		out = append(out, sc)
	}
	return out
}

// drawLong is a pause nothing is meant to notice.
func drawLong(t *core.T) time.Duration {
	t.Count("long_pause", 1)
	return core.Choose(t, 90*time.Second, 10*time.Minute, 70*time.Minute, 5*time.Hour, 26*time.Hour, 40*24*time.Hour)
}

// drawUnit is what a run measures its delays in: now and then everything takes very long.
func drawUnit(t *core.T, usual time.Duration) time.Duration {
	if t.Chance(6) {
		return drawLong(t)
	}
	return usual
}

func newStore(t *core.T, isVal bool, ids []string, extra ...resource.Option) (*store, state) {
	s := &store{}
	st := state{items: map[string]*tp.TestAllTypes{}}
	var opts []resource.Option
	if !isVal && t.Chance(20) {
		s.alias = "alias:"
		opts = append(opts, resource.WithIDInterceptor(func(id string) string { return strings.TrimPrefix(id, "alias:") }))
	}
	opts = append(opts, extra...)
	if isVal {
		st.items[""] = nil
		if t.Chance(85) {
			m := smallMsg(t)
			st.items[""] = clone(m)
			opts = append(opts, resource.WithInitialValue(m))
		}
		s.val = resource.NewValue(opts...)
		return s, st
	}
	for _, id := range ids {
		if t.Chance(50) {
			m := smallMsg(t)
			opts = append(opts, resource.WithInitialRecord(id, m))
			st.items[id] = clone(m)
		}
	}
	s.col = resource.NewCollection(opts...)
	return s, st
}
