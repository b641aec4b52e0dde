package props

import (
	"context"
	"fmt"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C07",
		Scenarios: []core.Scenario{
			{Name: "value", Weight: 3, Leak: true, Run: func(t *core.T) { c07Core(t, true) }},
			{Name: "collection", Weight: 4, Leak: true, Run: func(t *core.T) { c07Core(t, false) }},
			{Name: "model", Weight: 8, Leak: true, Run: func(t *core.T) { c07Model(t, 1) }},
			{Name: "model-concurrent", Weight: 4, Leak: true, Run: func(t *core.T) { c07Model(t, t.Range(2, 3)) }},
			{Name: "server", Weight: 6, Leak: true, Run: c07Server},
		},
		Rule:   "every message obtained from a read, a write result or a change event is cloned when it is obtained and compared with the clone after every later step; what was passed to a write is scribbled over afterwards and the contents compared; contents are compared around every read",
		Real:   []string{"pkg/resource", "pkg/masks", "pkg/trait/* models, model servers and memory devices"},
		Stub:   []string{"gRPC transport (server methods are called directly, so that no message is copied in between)"},
		Faults: []string{"cancel", "rejected_write", "feedback"},
	})
}

// sighting is a message that a caller has obtained.
type sighting struct {
	m, copy proto.Message
	where   string
}

type ledger struct {
	t    *core.T
	seen []*sighting
}

// saw records an obtained message.
func (l *ledger) saw(where string, ms ...proto.Message) {
	for _, m := range ms {
		if isNil(m) {
			continue
		}
		l.seen = append(l.seen, &sighting{m, clone(m), where})
	}
}

// check compares every obtained message with what it was.
func (l *ledger) check(after string) {
	for _, s := range l.seen {
		if !same(s.m, s.copy) {
			l.t.Fail("changed", "a message obtained from %s changed after %s:\n was %s\n now %s", s.where, after, txt(s.copy), txt(s.m))
		}
	}
}

// obtained picks a message of a type that a caller holds.
func (l *ledger) obtained(t *core.T, d protoreflect.MessageDescriptor) proto.Message {
	var ms []proto.Message
	for _, s := range l.seen {
		if s.m.ProtoReflect().Descriptor().FullName() == d.FullName() {
			ms = append(ms, s.m)
		}
	}
	if len(ms) == 0 {
		return nil
	}
	return ms[t.Int(len(ms))]
}

// parts collects the addresses of a message and all messages in it.
func parts(m proto.Message, into map[any]bool) {
	var walk func(r protoreflect.Message)
	walk = func(r protoreflect.Message) {
		into[r.Interface()] = true
		r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case fd.IsMap():
				if fd.MapValue().Message() != nil {
					v.Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool { walk(v.Message()); return true })
				}
			case fd.IsList():
				if fd.Message() != nil {
					for i := 0; i < v.List().Len(); i++ {
						walk(v.List().Get(i).Message())
					}
				}
			case fd.Message() != nil:
				walk(v.Message())
			}
			return true
		})
	}
	if !isNil(m) {
		walk(m.ProtoReflect())
	}
}

// shares says whether messages have parts in common.
func shares(a, b proto.Message) bool {
	pa, pb := map[any]bool{}, map[any]bool{}
	parts(a, pa)
	parts(b, pb)
	for p := range pa {
		if pb[p] {
			return true
		}
	}
	return false
}

// forget drops the obtained messages that are the caller's own: a call may
// return what it was given.
func (l *ledger) forget(from int, in []proto.Message) {
	keep := l.seen[:from:from]
	for _, s := range l.seen[from:] {
		own := false
		for _, m := range in {
			own = own || shares(s.m, m)
		}
		if !own {
			keep = append(keep, s)
		}
	}
	l.seen = keep
}

// subscribe keeps reading a subscription.
func (l *ledger) subscribe(where string, next func() (any, bool)) {
	go func() {
		for {
			v, ok := next()
			if !ok {
				return
			}
			l.saw("an event of "+where, messagesIn(v)...)
		}
	}()
}

// c07Core runs calls on a Value or Collection.
func c07Core(t *core.T, isVal bool) {
	l := &ledger{t: t}
	ids := []string{"a", "b", "c"}
	g := &opGen{rich: true, clock: time.Now}
	if isVal {
		g.kinds = [6]int{opSet: 6, opGet: 3}
	} else {
		g.kinds = [6]int{opAdd: 3, opUpdate: 5, opDelete: 2, opGet: 2, opList: 2}
		g.ids = ids
	}
	var extra []resource.Option
	if t.Chance(20) {
		extra = append(extra, resource.WithWritablePaths(&tp.TestAllTypes{}, "default_int32", "default_nested_message", "repeated_int32"))
	}
	s, st := newStore(t, isVal, ids, extra...)
	g.current = func(id string) *tp.TestAllTypes { return st.items[id] }
	contents := func() string {
		if s.val != nil {
			return txt(s.val.Get())
		}
		var out string
		for _, id := range ids {
			m, ok := s.col.Get(id)
			out += fmt.Sprintf("%s %v %s\n", id, ok, txt(m))
		}
		return out + fmt.Sprint(txts(s.col.List()))
	}
	events := 0
	s.observe(t.Ctx(), func(v any) {
		events++
		l.saw("an event of the first subscription", messagesIn(v)...)
	})
	t.Wait()
	writes := 0
	t.Repeat(3, 14, func(i int) {
		if t.Chance(12) {
			// another subscriber comes
			before := contents()
			su := drawSub(t, i, isVal, ids)
			opts := su.opts()
			ctx, cancel := context.WithCancel(t.Ctx())
			evs := events
			if s.val != nil {
				l.subscribe("Pull("+su.String()+")", recvOf(s.val.Pull(ctx, opts...)))
			} else if su.single {
				l.subscribe("PullID("+su.String()+")", recvOf(s.col.PullID(ctx, su.pullID, opts...)))
			} else {
				l.subscribe("Pull("+su.String()+")", recvOf(s.col.Pull(ctx, opts...)))
			}
			t.Wait()
			l.check("subscribing")
			if now := contents(); now != before || events != evs {
				t.Fail("read-wrote", "subscribing %s changed the contents (%d events)%s", su, events-evs, delta(before, now))
			}
			if t.Chance(50) {
				cancel()
				t.Count("cancel", 1)
			} else {
				t.Cleanup(cancel)
			}
			return
		}
		o := g.draw(t)
		if o.kind == opGet || o.kind == opList {
			before, evs := contents(), events
			ret, _, list, _ := s.exec(o, &observed{})
			t.Wait()
			l.saw(o.String(), append(list, ret)...)
			l.check(o.String())
			if now := contents(); now != before || events != evs {
				t.Fail("read-wrote", "%s changed the contents (%d events)%s", o, events-evs, delta(before, now))
			}
			return
		}
		fed := false
		if o.msg != nil && o.before == 0 && t.Chance(25) {
			if m := l.obtained(t, o.msg.ProtoReflect().Descriptor()); m != nil {
				o.msg = m.(*tp.TestAllTypes)
				fed = true
				t.Count("feedback", 1)
			}
		}
		name := o.String()
		var in []proto.Message
		if o.msg != nil {
			in = append(in, o.msg)
		}
		from := len(l.seen)
		ret, err := s.write(o)
		t.Wait()
		if t.Logging() {
			t.Logf("%s -> %s %v", name, txt(ret), err)
		}
		l.saw("the result of "+name, ret)
		l.forget(from, in)
		l.check(name)
		if err != nil {
			t.Count("rejected_write", 1)
		} else {
			writes++
		}
		if !fed && o.msg != nil {
			before := contents()
			scribble(o.msg.ProtoReflect(), 3)
			l.check("the caller modifying the message it passed to " + name)
			if now := contents(); now != before {
				t.Fail("aliased", "modifying the message passed to %s changed the contents%s", name, delta(before, now))
			}
		}
	})
	if writes >= 3 {
		t.Nontrivial()
	}
}

// observe subscribes with backpressure and passes every event to f.
func (s *store) observe(ctx context.Context, f func(v any)) {
	if s.val != nil {
		ch := s.val.Pull(ctx, resource.WithBackpressure(true))
		go func() {
			for e := range ch {
				f(e)
			}
		}()
		return
	}
	ch := s.col.Pull(ctx, resource.WithBackpressure(true))
	go func() {
		for e := range ch {
			f(e)
		}
	}()
}

// write is exec without copying the message.
func (s *store) write(o *wop) (proto.Message, error) { return s.writeWith(o, &observed{}) }

func (s *store) writeWith(o *wop, ob *observed) (proto.Message, error) {
	switch o.kind {
	case opSet:
		return s.val.Set(o.msg, o.options(ob)...)
	case opAdd:
		return s.col.Add(o.id, o.msg, o.options(ob)...)
	case opUpdate:
		return s.col.Update(o.id, o.msg, o.options(ob)...)
	}
	return s.col.Delete(o.id, o.options(ob)...)
}

func (m *modelInst) contents() string {
	var out string
	for _, r := range m.reads {
		out += r.name + ": " + fmt.Sprint(txts(r.run())) + "\n"
	}
	return out
}

// c07Model runs calls on a trait model from a number of goroutines.
func c07Model(t *core.T, callers int) {
	m := newModel(t)
	t.Count("model "+m.name, 1)
	l := &ledger{t: t}
	serial := callers == 1
	events := 0
	for i, p := range m.pulls {
		if p.single && t.Chance(50) {
			continue
		}
		opts := []resource.ReadOption{resource.WithBackpressure(true)}
		if i > 0 && t.Chance(30) {
			opts = append(opts, resource.WithUpdatesOnly(true))
		}
		next := p.open(t.Ctx(), opts...)
		l.subscribe(p.name, func() (any, bool) { events++; return next() })
	}
	if serial {
		t.Wait()
	}
	type step struct {
		call *modelCall
		read *modelRead
		pull *modelPull
		opts []resource.ReadOption
		quit bool
	}
	draw := func() *step {
		s := &step{}
		switch t.Weighted(6, 3, 2) {
		case 0:
			s.call = m.call(t)
			return s
		case 1:
			s.read = &m.reads[t.Int(len(m.reads))]
		default:
			s.pull = &m.pulls[t.Int(len(m.pulls))]
			s.quit = t.Chance(50)
			if t.Chance(30) {
				s.opts = append(s.opts, resource.WithUpdatesOnly(true))
			}
		}
		if mt := m.messageType(); mt != nil && t.Chance(50) {
			s.opts = append(s.opts, resource.WithReadMask(drawMask(t, mt, true)))
		}
		return s
	}
	calls := 0
	run := func(s *step) {
		switch {
		case s.read != nil:
			before, evs := "", 0
			if serial {
				before, evs = m.contents(), events
			}
			out := s.read.run(s.opts...)
			if serial {
				t.Wait()
			}
			if t.Logging() {
				t.Logf("%s -> %s", s.read.name, txts(out))
			}
			l.saw(s.read.name, out...)
			l.check(s.read.name)
			if serial {
				if now := m.contents(); now != before || events != evs {
					t.Fail("read-wrote", "%s: %s changed the contents (%d events)%s", m.name, s.read.name, events-evs, delta(before, now))
				}
			}
		case s.pull != nil:
			before, evs := "", 0
			if serial {
				before, evs = m.contents(), events
			}
			ctx, cancel := context.WithCancel(t.Ctx())
			t.Cleanup(cancel)
			l.subscribe(s.pull.name, s.pull.open(ctx, s.opts...))
			if serial {
				t.Wait()
			}
			if t.Logging() {
				t.Logf("%s", s.pull.name)
			}
			l.check(s.pull.name)
			if serial {
				if now := m.contents(); now != before || events != evs {
					t.Fail("read-wrote", "%s: %s changed the contents (%d events)%s", m.name, s.pull.name, events-evs, delta(before, now))
				}
			}
			if s.quit {
				cancel()
				t.Count("cancel", 1)
			}
		default:
			c := s.call
			sent := make([]string, len(c.in))
			for i, in := range c.in {
				sent[i] = txt(in)
			}
			name := fmt.Sprintf("%s%v", c.name, sent)
			from := len(l.seen)
			out, err := c.run()
			if serial {
				t.Wait()
			}
			if t.Logging() {
				t.Logf("%s -> %s %v", name, txts(out), err)
			}
			l.saw("the result of "+name, out...)
			l.forget(from, c.in)
			l.check(name)
			if err != nil {
				t.Count("rejected_write", 1)
			}
			calls++
			before := ""
			if serial {
				before = m.contents()
			}
			for _, in := range c.in {
				scribble(in.ProtoReflect(), 4)
			}
			l.check("the caller modifying the message it passed to " + name)
			if serial {
				if now := m.contents(); now != before {
					t.Fail("aliased", "%s: modifying the message passed to %s changed the contents%s", m.name, name, delta(before, now))
				}
			}
		}
	}
	if serial {
		t.Repeat(3, 12, func(int) { run(draw()) })
	} else {
		var scripts [][]*step
		for i := 0; i < callers; i++ {
			var sc []*step
			t.Repeat(1, 6, func(int) { sc = append(sc, draw()) })
			scripts = append(scripts, sc)
		}
		done := 0
		for _, sc := range scripts {
			go func() {
				for _, s := range sc {
					run(s)
				}
				done++
			}()
		}
		t.Settle(time.Minute)
		if done != callers {
			t.Fail("hang", "%s: %d of %d callers finished\n%s", m.name, done, callers, t.Stacks())
		}
	}
	l.check("the run")
	if calls >= 2 {
		t.Nontrivial()
	}
}

// messageType is the type the model's first read returns.
func (m *modelInst) messageType() protoreflect.MessageDescriptor {
	if out := m.reads[0].run(); len(out) > 0 {
		return out[0].ProtoReflect().Descriptor()
	}
	return nil
}

// c07Server runs requests on a trait server.
func c07Server(t *core.T) {
	s := newServer(t)
	t.Count("server "+s.name, 1)
	l := &ledger{t: t}
	events := 0
	open := func(m *rpc, in proto.Message, count bool) context.CancelFunc {
		ctx, cancel := context.WithCancel(t.Ctx())
		t.Cleanup(cancel)
		go callStream(s.srv, m, ctx, in, func(out proto.Message) error {
			if count {
				events++
			}
			l.saw("a message of "+m.name, out)
			return nil
		})
		return cancel
	}
	for _, m := range s.methods {
		if m.server && t.Chance(80) {
			in := drawRequest(t, m)
			open(m, in, true)
		}
	}
	t.Wait()
	calls := 0
	t.Repeat(3, 12, func(int) {
		m := s.methods[t.Int(len(s.methods))]
		in := drawRequest(t, m)
		name := m.name + txt(in)
		before, evs := s.snapshot(), events
		l.check("reading the contents")
		if m.server {
			cancel := open(m, in, false)
			t.Wait()
			if t.Logging() {
				t.Logf("%s", name)
			}
			l.check(name)
			if now := s.snapshot(); now != before || events != evs {
				t.Fail("read-wrote", "%s: %s changed the contents (%d events)%s", s.name, name, events-evs, delta(before, now))
			}
			if t.Chance(50) {
				cancel()
				t.Count("cancel", 1)
			}
			return
		}
		fed := false
		// creating fills in the id of the message it is given
		if !m.reads() && !strings.HasPrefix(m.name, "Create") && t.Chance(30) {
			fed = l.feed(t, m, in)
			name = m.name + txt(in)
		}
		from := len(l.seen)
		out, err := callUnary(s.srv, m, context.Background(), in)
		t.Wait()
		if t.Logging() {
			t.Logf("%s -> %s %v", name, txt(out), err)
		}
		if err != nil {
			t.Count("rejected_write", 1)
		}
		l.saw("the result of "+name, out)
		l.forget(from, []proto.Message{in})
		l.check(name)
		if m.reads() {
			if now := s.snapshot(); now != before || events != evs {
				t.Fail("read-wrote", "%s: %s changed the contents (%d events)%s", s.name, name, events-evs, delta(before, now))
			}
			return
		}
		calls++
		if !fed {
			before = s.snapshot()
			scribble(in.ProtoReflect(), 4)
			l.check("the caller modifying the message it passed to " + name)
			if now := s.snapshot(); now != before {
				t.Fail("aliased", "%s: modifying the request of %s changed the contents%s", s.name, name, delta(before, now))
			}
		}
	})
	l.check("the run")
	if calls >= 2 {
		t.Nontrivial()
	}
}

// feed puts an obtained message into an update request.
func (l *ledger) feed(t *core.T, m *rpc, in proto.Message) bool {
	r := in.ProtoReflect()
	fs := r.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if fd.Message() == nil || fd.IsList() || fd.IsMap() || fd.Message().ParentFile().Package() == "google.protobuf" {
			continue
		}
		if o := l.obtained(t, fd.Message()); o != nil {
			r.Set(fd, protoreflect.ValueOfMessage(o.ProtoReflect()))
			t.Count("feedback", 1)
			return true
		}
	}
	return false
}

// delta shows where two texts differ.
func delta(before, now string) string {
	if before == now {
		return ""
	}
	i := 0
	for i < len(before) && i < len(now) && before[i] == now[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := max(0, i-100), min(len(s), i+160)
		return s[lo:hi]
	}
	return fmt.Sprintf("\n from ...%s...\n to   ...%s...", cut(before), cut(now))
}
