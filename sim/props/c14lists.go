package props

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	sctime "github.com/smart-core-os/sc-api/go/types/time"
	timepb "github.com/smart-core-os/sc-golang/pkg/time"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// Servers that expose a collection through a List and a Pull of additions,
// updates and removals: the streams are the edit script of the list.

type c14list struct {
	name       string
	sc         *serverCase
	list, pull *rpc
	writes     []*rpc
	res        protoreflect.MessageDescriptor
	key        protoreflect.FieldDescriptor
	items      protoreflect.FieldDescriptor // of the list response
	filter     protoreflect.FieldDescriptor // booking_intersects
	unnamed    bool                         // its changes don't say which device they're of
}

var c14lists = c14findLists()

func c14findLists() []*c14list {
	_ = c14regs // fills c14cases
	var out []*c14list
	for i := range c14cases {
		sc := &c14cases[i]
		if strings.HasPrefix(sc.name, "wastepb") {
			continue // its list is a log that also has what's been reported before
		}
		var all []*rpc
		for _, d := range sc.descs {
			all = append(all, rpcsOf(d)...)
		}
		for _, p := range all {
			stem, ok := strings.CutPrefix(p.name, "Pull")
			if !ok || !p.server {
				continue
			}
			ch := p.out.Descriptor().Fields().ByName("changes")
			if ch == nil || ch.Message().Fields().ByName("type") == nil || ch.Message().Fields().ByName("new_value") == nil {
				continue
			}
			l := &c14list{name: sc.name + " list of " + stem, sc: sc, pull: p, res: ch.Message().Fields().ByName("new_value").Message()}
			for _, m := range all {
				if m.name == "List"+stem && !m.server {
					l.list = m
				}
				if !m.reads() && !m.server && !m.client {
					l.writes = append(l.writes, m)
				}
			}
			for _, k := range []protoreflect.Name{"id", "name", "consumable"} {
				if f := l.res.Fields().ByName(k); f != nil && l.key == nil {
					l.key = f
				}
			}
			if l.list == nil || l.key == nil {
				continue
			}
			fs := l.list.out.Descriptor().Fields()
			for j := 0; j < fs.Len(); j++ {
				if fs.Get(j).IsList() && fs.Get(j).Message() == l.res {
					l.items = fs.Get(j)
				}
			}
			if l.items == nil {
				continue
			}
			l.unnamed = sc.name == "parentpb"
			l.filter = p.in.Descriptor().Fields().ByName("booking_intersects")
			out = append(out, l)
		}
	}
	if len(out) < 8 {
		panic(fmt.Sprint("lists not found: ", len(out)))
	}
	return out
}

type c14listEvent struct {
	name     string
	kind     types.ChangeType
	old, new proto.Message
}

func (e c14listEvent) String() string {
	return fmt.Sprintf("%s %q %s -> %s", e.kind, e.name, txtOr(e.old), txtOr(e.new))
}

type c14listFollow struct {
	n       int
	dev     *c14dev
	only    bool
	mask    *fieldmaskpb.FieldMask
	within  *sctime.Period
	cancel  context.CancelFunc
	initial []proto.Message // the list when it was opened, as the stream shows it

	events  []c14listEvent
	checked int
	ended   bool
	err     error
	stopped bool
}

func (f *c14listFollow) String() string {
	s := fmt.Sprintf("stream %d of %s", f.n, f.dev.name)
	if f.mask != nil {
		s += fmt.Sprintf(" mask %v", f.mask.Paths)
	}
	if f.within != nil {
		s += fmt.Sprintf(" within [%s]", txt(f.within))
	}
	if f.only {
		s += " updates only"
	}
	return s
}

func (f *c14listFollow) sees(m proto.Message) bool {
	if m == nil {
		return false
	}
	if f.within == nil {
		return true
	}
	return timepb.PeriodsIntersect(m.(*traits.Booking).Booked, f.within)
}

func (f *c14listFollow) show(m proto.Message) proto.Message {
	if m == nil {
		return nil
	}
	return projectMask(m, f.mask)
}

// view is the list as the stream has it.
func (f *c14listFollow) view(list []proto.Message) []proto.Message {
	var out []proto.Message
	for _, m := range list {
		if f.sees(m) {
			out = append(out, f.show(m))
		}
	}
	return out
}

type c14listRun struct {
	*c14run
	l    *c14list
	open []*c14listFollow
	lag  time.Duration        // how long a stream may stay behind
	sent protoreflect.Message // the last Update request that write drew
}

func (x *c14listRun) keyOf(m proto.Message) string {
	return m.ProtoReflect().Get(x.l.key).String()
}

func (x *c14listRun) readList(dev *c14dev, mask *fieldmaskpb.FieldMask, within *sctime.Period) []proto.Message {
	in := x.l.list.in.New()
	setName(in.Interface(), dev.name)
	setMask(in, "read_mask", mask)
	fs := in.Descriptor().Fields()
	if f := fs.ByName("page_size"); f != nil {
		in.Set(f, protoreflect.ValueOfInt32(1000))
	}
	if within != nil {
		in.Set(fs.ByName("booking_intersects"), protoreflect.ValueOfMessage(clone(within).ProtoReflect()))
	}
	out, err := x.call(dev, x.l.list, in.Interface())
	if err != nil {
		x.fail("list-failed", "%s of %s failed: %v", x.l.list.name, dev.name, err)
	}
	ms := out.ProtoReflect().Get(x.l.items).List()
	var res []proto.Message
	for i := 0; i < ms.Len(); i++ {
		res = append(res, ms.Get(i).Message().Interface())
	}
	return res
}

func itemsText(ms []proto.Message) string {
	var s []string
	for _, m := range ms {
		s = append(s, txt(m))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func drawPeriod(t *core.T) *sctime.Period {
	p := &sctime.Period{}
	fillMsg(t, p.ProtoReflect(), 70, 2)
	return p
}

func (x *c14listRun) drawMask() *fieldmaskpb.FieldMask {
	if !x.t.Chance(40) || x.l.list.in.Descriptor().Fields().ByName("read_mask") == nil {
		return nil
	}
	return drawMask(x.t, x.l.res, true)
}

// checkList compares lists with masks and filters with the whole one.
func (x *c14listRun) checkList(dev *c14dev, full []proto.Message) {
	f := &c14listFollow{dev: dev, mask: x.drawMask()}
	if x.l.filter != nil && x.t.Chance(60) {
		f.within = drawPeriod(x.t)
	}
	got := x.readList(dev, f.mask, f.within)
	if a, b := itemsText(got), itemsText(f.view(full)); a != b {
		x.fail("wrong-list", "%s as %s\n  returns    %s\n  instead of %s\n  of         %s", x.l.list.name, f, a, b, itemsText(full))
	}
}

func (x *c14listRun) follow(dev *c14dev) *c14listFollow {
	t, l := x.t, x.l
	x.n++
	f := &c14listFollow{n: x.n, dev: dev}
	in := l.pull.in.New()
	setName(in.Interface(), dev.name)
	fs := in.Descriptor().Fields()
	if fs.ByName("read_mask") != nil {
		f.mask = x.drawMask()
		setMask(in, "read_mask", f.mask)
	}
	if fd := fs.ByName("updates_only"); fd != nil && t.Chance(30) {
		f.only = true
		in.Set(fd, protoreflect.ValueOfBool(true))
	}
	if l.filter != nil && t.Chance(70) {
		f.within = drawPeriod(t)
		in.Set(l.filter, protoreflect.ValueOfMessage(clone(f.within).ProtoReflect()))
	}
	var pace func(int) time.Duration
	if t.Chance(30) {
		if t.Chance(4) {
			// the server waits for as long as it takes
			at, d := t.Int(3), drawLong(t)
			x.lag += d
			pace = func(i int) time.Duration {
				if i == at {
					return d
				}
				return 0
			}
		} else {
			pace = drawPace(t, 300*time.Millisecond)
		}
		t.Count("slow-reader", 1)
	}
	ctx, cancel := context.WithCancel(t.Ctx())
	f.cancel = cancel
	t.Cleanup(cancel)
	out := reflect.ValueOf(dev.clients[l.pull.service]).MethodByName(l.pull.name).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(in.Interface())})
	if err, _ := out[1].Interface().(error); err != nil {
		x.fail("pull-failed", "%s could not be opened: %v", f, err)
	}
	x.note("open %s", f)
	recv := out[0].MethodByName("Recv")
	go func() {
		for i := 0; ; i++ {
			out := recv.Call(nil)
			if err, _ := out[1].Interface().(error); err != nil {
				f.ended, f.err = true, err
				return
			}
			f.take(x, out[0].Interface().(proto.Message))
			if pace != nil {
				if d := pace(i); d > 0 {
					time.Sleep(d)
				}
			}
		}
	}()
	x.open = append(x.open, f)
	return f
}

func (f *c14listFollow) take(x *c14listRun, m proto.Message) {
	cs := m.ProtoReflect().Get(m.ProtoReflect().Descriptor().Fields().ByName("changes")).List()
	for i := 0; i < cs.Len(); i++ {
		c := cs.Get(i).Message()
		fs := c.Descriptor().Fields()
		e := c14listEvent{name: c.Get(fs.ByName("name")).String(), kind: types.ChangeType(c.Get(fs.ByName("type")).Enum())}
		if fd := fs.ByName("old_value"); c.Has(fd) {
			e.old = c.Get(fd).Message().Interface()
		}
		if fd := fs.ByName("new_value"); c.Has(fd) {
			e.new = c.Get(fd).Message().Interface()
		}
		if x.l.unnamed && e.name == "" {
			e.name = f.dev.name
		}
		if x.t.Logging() {
			x.note("%s received %s", f, e)
		}
		f.events = append(f.events, e)
	}
}

// write prepares a write. The second result says which item it returns or
// names.
func (x *c14listRun) write(dev *c14dev) (name string, run func() (proto.Message, error)) {
	x.sent = nil
	t := x.t
	var ids []string
	for _, m := range x.readList(dev, nil, nil) {
		ids = append(ids, x.keyOf(m))
	}
	drawID := func() string {
		if len(ids) > 0 && t.Chance(60) {
			return core.Choose(t, ids...)
		}
		return core.Choose(t, "a", "b", "c", "zz", "aa")
	}
	if u, ok := dev.srv.(interface{ Unwrap() any }); ok {
		switch m := u.Unwrap().(type) {
		case *parentpb.Model:
			id := drawID()
			var ts []trait.Name
			for i := t.Int(4); i > 0; i-- {
				ts = append(ts, core.Choose[trait.Name](t, "t1", "t2", "t3", "t4"))
			}
			switch t.Int(4) {
			case 0:
				c := &traits.Child{Name: id, Traits: []*traits.Trait{{Name: "t2"}}}
				return "AddChild " + txt(c), func() (proto.Message, error) { m.AddChild(c); return nil, nil }
			case 1:
				return "RemoveChildByName " + id, func() (proto.Message, error) { return nilMsg(m.RemoveChildByName(id)) }
			case 2:
				return fmt.Sprintf("RemoveChildTrait %s %v", id, ts), func() (proto.Message, error) { return nilMsg(m.RemoveChildTrait(id, ts...), nil) }
			default:
				return fmt.Sprintf("AddChildTrait %s %v", id, ts), func() (proto.Message, error) { c, _ := m.AddChildTrait(id, ts...); return nilMsg(c, nil) }
			}
		case *vendingpb.Model:
			id := drawID()
			c := rnd(t, &traits.Consumable{})
			c.Name = id
			s := rnd(t, &traits.Consumable_Stock{})
			s.Consumable = id
			switch t.Int(9) {
			case 0, 1:
				return "CreateConsumable " + txt(c), func() (proto.Message, error) { return nilMsg(m.CreateConsumable(c)) }
			case 2, 3:
				return "UpdateConsumable " + txt(c), func() (proto.Message, error) { return nilMsg(m.UpdateConsumable(c)) }
			case 4:
				return "DeleteConsumable " + id, func() (proto.Message, error) { return nilMsg(m.DeleteConsumable(id)) }
			case 5:
				return "CreateStock " + txt(s), func() (proto.Message, error) { return nilMsg(m.CreateStock(s)) }
			case 6:
				return "DeleteStock " + id, func() (proto.Message, error) { return nilMsg(m.DeleteStock(id)) }
			}
		case *hailpb.Model:
			if t.Chance(10) {
				id := drawID()
				return "DeleteHail " + id, func() (proto.Message, error) { return nilMsg(m.DeleteHail(id)) }
			}
		}
	}
	m := core.Choose(t, x.l.writes...)
	in := drawRequest(t, m)
	r := in.ProtoReflect()
	setName(in, dev.name)
	for _, k := range []protoreflect.Name{"id", "booking_id", "consumable"} {
		if f := r.Descriptor().Fields().ByName(k); f != nil && f.Kind() == protoreflect.StringKind {
			r.Set(f, protoreflect.ValueOfString(drawID()))
		}
	}
	fs := r.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if fd.Message() != x.l.res || fd.IsList() {
			continue
		}
		create := strings.HasPrefix(m.name, "Create")
		if !r.Has(fd) && create {
			r.Set(fd, protoreflect.ValueOfMessage(r.NewField(fd).Message()))
		}
		if !r.Has(fd) {
			continue
		}
		v := r.Mutable(fd).Message()
		switch {
		case create && (m.name == "CreateMode" || t.Chance(50)):
			v.Clear(x.l.key)
		default:
			v.Set(x.l.key, protoreflect.ValueOfString(drawID()))
		}
		if b, ok := v.Interface().(*traits.Booking); ok {
			b.Booked = nil
			if t.Chance(85) {
				b.Booked = drawPeriod(t)
			}
		}
	}
	if f := fs.ByName("time"); f != nil && t.Chance(40) {
		r.Clear(f) // now
	}
	if m.name == "CreateBooking" && t.Chance(5) {
		r.Clear(fs.ByName("booking"))
	}
	// only an id that's there can be named by the mask
	if f := fs.ByName("update_mask"); f != nil && r.Has(f) {
		mask := r.Get(f).Message().Interface().(*fieldmaskpb.FieldMask)
		if len(mask.Paths) > 0 && mask.Paths[0] == string(x.l.key.Name()) {
			mask.Paths = mask.Paths[1:]
		}
		if t.Chance(5) {
			mask.Paths = append(mask.Paths, "no_such_field")
		}
	}
	if strings.HasPrefix(m.name, "Update") {
		x.sent = clone(in).ProtoReflect()
	}
	return m.name + " " + txt(in), func() (proto.Message, error) { return x.call(dev, m, in) }
}

// updated checks the effect of the Update that has just succeeded.
func (x *c14listRun) updated(name string, out proto.Message, before []proto.Message) {
	if x.sent == nil || strings.HasPrefix(name, "UpdateActiveMode") || strings.HasPrefix(x.l.sc.name, "publicationpb") {
		return // they have rules of their own
	}
	var value protoreflect.FieldDescriptor
	fs := x.sent.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if fd := fs.Get(i); fd.Message() == x.l.res && !fd.IsList() {
			value = fd
		}
	}
	if value == nil || !x.sent.Has(value) {
		return
	}
	var old proto.Message
	for _, m := range before {
		if x.keyOf(m) == x.sent.Get(value).Message().Get(x.l.key).String() {
			old = m
		}
	}
	if old == nil {
		return
	}
	x.r = &c14reg{name: x.l.name, sc: x.l.sc, value: value, res: x.l.res, id: x.l.key.Name()}
	want, ok := x.expect(old, x.sent)
	if !ok {
		return
	}
	if want == nil {
		x.fail("accepted", "%s should have been rejected, the value was %s", name, txt(old))
	}
	if !same(want, out) {
		x.fail("wrong-update", "%s\n  returned   %s\n  instead of %s\n  before it was %s", name, txt(out), txt(want), txt(old))
	}
}

func nilMsg[M proto.Message](m M, err error) (proto.Message, error) {
	if isNil(m) {
		return nil, err
	}
	return m, err
}

// judge compares what a stream has received since the last time with how the
// list has changed.
func (x *c14listRun) judge(f *c14listFollow, before, after []proto.Message) {
	if f.stopped {
		return
	}
	if f.ended {
		x.fail("stream-ended", "%s ended by itself: %v", f, f.err)
	}
	events := f.events[f.checked:]
	f.checked = len(f.events)
	old := map[string]proto.Message{}
	for _, m := range before {
		old[x.keyOf(m)] = m
	}
	must, may := map[string]int{}, map[string]bool{}
	for _, m := range after {
		k := x.keyOf(m)
		o := old[k]
		delete(old, k)
		if o != nil && same(o, m) {
			if f.sees(m) {
				may[c14listEvent{f.dev.name, types.ChangeType_UPDATE, f.show(m), f.show(m)}.String()] = true
			}
			continue
		}
		x.edit(f, must, may, o, m)
	}
	for _, o := range old {
		x.edit(f, must, may, o, nil)
	}
	// hails that have been dealt with are forgotten by the next CreateHail, which
	// may be the one that has just added it
	blips := map[string]int{}
	if strings.HasPrefix(x.l.sc.name, "hailpb") {
		for _, e := range events {
			if e.kind == types.ChangeType_REMOVE && e.new == nil {
				blips[c14listEvent{e.name, types.ChangeType_ADD, nil, e.old}.String()]++
			}
		}
	}
	unblip := map[string]int{}
	for _, e := range events {
		s := e.String()
		switch {
		case must[s] > 0:
			must[s]--
		case may[s]:
		case unblip[s] > 0:
			unblip[s]--
		case e.kind == types.ChangeType_ADD && e.old == nil && blips[s] > 0:
			blips[s]--
			unblip[c14listEvent{e.name, types.ChangeType_REMOVE, e.new, nil}.String()]++
			x.t.Count("forgotten-at-once", 1)
		default:
			x.fail("wrong-event", "%s received\n    %s\n  when the list changed\n    from %s\n    to   %s", f, s, itemsText(before), itemsText(after))
		}
	}
	var missing []string
	for s, n := range must {
		if n > 0 {
			missing = append(missing, s)
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		x.fail("missing-event", "%s didn't receive\n    %s\n  when the list changed\n    from %s\n    to   %s", f, strings.Join(missing, "\n    "), itemsText(before), itemsText(after))
	}
}

func (x *c14listRun) edit(f *c14listFollow, must map[string]int, may map[string]bool, o, n proto.Message) {
	e := c14listEvent{name: f.dev.name}
	switch so, sn := f.sees(o), f.sees(n); {
	case so && sn:
		e.kind, e.old, e.new = types.ChangeType_UPDATE, f.show(o), f.show(n)
	case so:
		e.kind, e.old = types.ChangeType_REMOVE, f.show(o)
	case sn:
		e.kind, e.new = types.ChangeType_ADD, f.show(n)
	default:
		return
	}
	if e.kind == types.ChangeType_UPDATE && same(e.old, e.new) && strings.HasPrefix(x.l.sc.name, "electricpb") {
		may[e.String()] = true // its modes are kept without duplicates
		return
	}
	x.t.Nontrivial()
	must[e.String()]++
}

func (x *c14listRun) seeded(f *c14listFollow, list []proto.Message) {
	var want []proto.Message
	if !f.only {
		want = f.view(list)
	}
	var w, g []string
	for _, m := range want {
		w = append(w, c14listEvent{f.dev.name, types.ChangeType_ADD, nil, m}.String())
	}
	for _, e := range f.events[f.checked:] {
		g = append(g, e.String())
	}
	f.checked = len(f.events)
	if a, b := strings.Join(g, "\n    "), strings.Join(w, "\n    "); a != b {
		x.fail("wrong-seed", "%s starts with\n    %s\n  instead of\n    %s", f, a, b)
	}
}

func newC14list(t *core.T, l *c14list) *c14listRun {
	return &c14listRun{c14run: newC14(t, &c14reg{name: l.name, sc: l.sc}), l: l}
}

func c14List(t *core.T) { runC14List(t, core.Choose(t, c14lists...)) }

func runC14List(t *core.T, l *c14list) {
	x := newC14list(t, l)
	t.Repeat(3, 16, func(int) {
		dev := core.Choose(t, x.devs...)
		before := x.readList(dev, nil, nil)
		switch t.Weighted(60, 18, 8, 14) {
		case 0:
			name, run := x.write(dev)
			out, err := run()
			switch {
			case err != nil:
				x.note("%s fails: %v", name, err)
				t.Count("rejected-update", 1)
			case out != nil:
				x.note("%s = %s", name, txt(out))
			default:
				x.note("%s", name)
			}
			after := x.readList(dev, nil, nil)
			if err != nil {
				if code(err) == codes.Unimplemented {
					x.fail("unimplemented", "%s: %v", name, err)
				}
				if a, b := itemsText(before), itemsText(after); a != b && strings.HasPrefix(name, "Update") {
					x.fail("rejected-but-changed", "%s failed but the list changed\n  from %s\n  to   %s", name, a, b)
				}
			} else if out != nil && strings.HasPrefix(name, "Update") {
				x.readBack(name, out, before, after)
			}
			if t.Chance(2) {
				x.note("a long time passes")
				t.Settle(drawLong(t))
			}
			x.t.Settle(20*time.Second + x.lag)
			// nothing else has changed it since
			again := x.readList(dev, nil, nil)
			if a, b := itemsText(after), itemsText(again); a != b {
				x.fail("not-read-back", "%s: the list\n    %s\n  became\n    %s\n  all by itself", name, a, b)
			}
			for _, f := range x.open {
				if f.dev == dev {
					x.judge(f, before, after)
				} else {
					x.judge(f, nil, nil)
				}
			}
		case 1:
			n := 0
			for _, f := range x.open {
				if !f.stopped {
					n++
				}
			}
			if n < 3 {
				f := x.follow(dev)
				x.t.Settle(20*time.Second + x.lag)
				x.seeded(f, before)
			}
		case 2:
			for _, f := range x.open {
				if !f.stopped {
					x.note("cancel %s", f)
					t.Count("cancel", 1)
					f.stopped = true
					f.cancel()
					break
				}
			}
		case 3:
			x.checkList(dev, before)
		}
	})
	for _, f := range x.open {
		f.cancel()
	}
	t.Settle(20*time.Second + x.lag)
	for _, f := range x.open {
		if !f.ended {
			x.fail("stream-open", "%s has not ended after its context was cancelled\n%s", f, t.Stacks())
		}
	}
}

// readBack checks that what an update returned is what's listed.
func (x *c14listRun) readBack(name string, out proto.Message, before, after []proto.Message) {
	m := out
	if out.ProtoReflect().Descriptor() != x.l.res {
		m = nil
		out.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			if fd.Message() == x.l.res && !fd.IsList() {
				m = v.Message().Interface()
			}
			return true
		})
	}
	if m == nil {
		return
	}
	x.updated(name, m, before)
	for _, a := range after {
		if x.keyOf(a) == x.keyOf(m) {
			if !same(a, m) && !strings.HasPrefix(name, "UpdateActiveMode") {
				x.fail("not-read-back", "%s\n  returned %s\n  listed   %s", name, txt(m), txt(a))
			}
			return
		}
	}
	x.fail("not-read-back", "%s\n  returned %s which isn't listed", name, txt(m))
}

// c14ListConcurrent: the streams add up to the list whoever writes.
func c14ListConcurrent(t *core.T) { runC14ListConcurrent(t, core.Choose(t, c14lists...)) }

func runC14ListConcurrent(t *core.T, l *c14list) {
	x := newC14list(t, l)
	dev := x.devs[0]
	start := x.readList(dev, nil, nil)
	for i := t.Range(1, 2); i > 0; i-- {
		f := x.follow(dev)
		f.initial = f.view(start)
	}
	if t.Chance(70) {
		t.Settle(time.Hour + x.lag)
	} else {
		for _, f := range x.open {
			f.initial = nil
			if f.only {
				f.stopped = true // there's no telling what it has to add to
			}
		}
	}
	clients := t.Range(2, 3)
	left := clients
	for c := 0; c < clients; c++ {
		type op struct {
			name  string
			run   func() (proto.Message, error)
			pause time.Duration
		}
		var ops []op
		t.Repeat(1, 5, func(int) {
			name, run := x.write(dev)
			ops = append(ops, op{name, run, time.Duration(t.Int(3)) * tick})
		})
		go func() {
			for _, o := range ops {
				time.Sleep(o.pause)
				out, err := o.run()
				if err != nil {
					x.note("client %d %s fails: %v", c, o.name, err)
				} else {
					t.Nontrivial()
					x.note("client %d %s = %s", c, o.name, txtOr(out))
				}
			}
			left--
		}()
	}
	// one more, opened while they're at it
	if t.Chance(60) {
		time.Sleep(time.Duration(t.Int(4)) * tick)
		f := x.follow(dev)
		f.stopped = f.only
	}
	t.Count("concurrent-update", 1)
	t.Settle(time.Hour + x.lag)
	if left > 0 {
		x.fail("stuck", "%d clients have not returned\n%s", left, t.Stacks())
	}
	final := x.readList(dev, nil, nil)
	for i := 0; i < 2; i++ {
		x.checkList(dev, final)
	}
	for _, f := range x.open {
		if f.ended {
			x.fail("stream-ended", "%s ended by itself: %v", f, f.err)
		}
		if f.stopped {
			continue
		}
		held := map[string]int{}
		if f.only {
			for _, m := range f.initial {
				held[txt(m)]++
			}
		}
		for i, e := range f.events {
			if e.name != dev.name {
				x.fail("wrong-name", "%s received a change of %q", f, e.name)
			}
			ok := false
			switch e.kind {
			case types.ChangeType_ADD:
				ok = e.old == nil && e.new != nil
			case types.ChangeType_REMOVE:
				ok = e.old != nil && e.new == nil
			case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
				ok = e.old != nil && e.new != nil
			}
			if !ok {
				x.fail("wrong-event", "%s: event %d can't be: %s", f, i+1, e)
			}
			if e.old != nil {
				if held[txt(e.old)] == 0 {
					x.fail("wrong-event", "%s: event %d, %s, replaces what wasn't there", f, i+1, e)
				}
				held[txt(e.old)]--
			}
			if e.new != nil {
				held[txt(e.new)]++
			}
		}
		var got []string
		for s, n := range held {
			for ; n > 0; n-- {
				got = append(got, s)
			}
		}
		var want []string
		for _, m := range f.view(final) {
			want = append(want, txt(m))
		}
		sort.Strings(got)
		sort.Strings(want)
		if a, b := strings.Join(got, ", "), strings.Join(want, ", "); a != b {
			x.fail("wrong-view", "%s adds up to\n    %s\n  instead of\n    %s", f, a, b)
		}
		f.cancel()
	}
	t.Settle(time.Hour + x.lag)
}

func bookingList() *c14list {
	for _, l := range c14lists {
		if l.filter != nil {
			return l
		}
	}
	panic("no list of bookings")
}
