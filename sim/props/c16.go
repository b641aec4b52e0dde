package props

import (
	"fmt"
	"math"
	"math/big"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C16",
		SiteFilter: []string{"pkg/resource/", "internal/minibus/", "pkg/cmp/"},
		Rule:       "A stream run counts as non-trivial when at least one change was suppressed and one delivered; a comparer run when both outcomes of the comparers under test occurred.",
		Real:       []string{"pkg/resource.Value", "pkg/resource.Collection", "internal/minibus", "pkg/masks", "pkg/cmp"},
		Stub:       []string{"readers (scripted pace)", "clock"},
		Faults:     []string{"slow_reader", "subscribe_during_writes", "drift_below_tolerance", "long_pause"},
		Scenarios: []core.Scenario{
			{Name: "stream", Weight: 5, Leak: true, Run: c16Stream},
			{Name: "stream-lossy", Weight: 3, Leak: true, Run: c16Lossy},
			{Name: "default-comparer", Weight: 2, Serial: true, Run: c16Default},
			{Name: "tolerance", Weight: 3, Serial: true, Run: c16Tolerance},
			{Name: "logic", Weight: 1, Serial: true, Run: c16Logic},
		},
	})
}

// tolerances are what a comparer under test accepts, for the reference.
type tolerances struct {
	hasFloat         bool
	fraction, margin float64
	hasTime          bool
	time             time.Duration
	hasDur           bool
	dur              time.Duration
}

func (tl *tolerances) values() []cmp.Value {
	var out []cmp.Value
	if tl.hasFloat {
		out = append(out, cmp.FloatValueApprox(tl.fraction, tl.margin))
	}
	if tl.hasTime {
		out = append(out, cmp.TimeValueWithin(tl.time))
	}
	if tl.hasDur {
		out = append(out, cmp.DurationValueWithin(tl.dur))
	}
	return out
}

// refFloat says whether two floats are within tolerance.
func (tl *tolerances) refFloat(x, y float64) bool {
	if math.IsNaN(x) || math.IsNaN(y) {
		return math.IsNaN(x) && math.IsNaN(y)
	}
	if math.IsInf(x, 0) || math.IsInf(y, 0) {
		return x == y
	}
	bx, by := new(big.Rat).SetFloat64(x), new(big.Rat).SetFloat64(y)
	diff := new(big.Rat).Sub(bx, by)
	diff.Abs(diff)
	small := bx.Abs(bx)
	if by.Abs(by).Cmp(small) < 0 {
		small = by
	}
	rel := new(big.Rat).Mul(small, new(big.Rat).SetFloat64(tl.fraction))
	return diff.Cmp(rel) <= 0 || diff.Cmp(new(big.Rat).SetFloat64(tl.margin)) <= 0
}

func nanosOf(sec int64, nanos int32) *big.Int {
	n := new(big.Int).Mul(big.NewInt(sec), big.NewInt(1e9))
	return n.Add(n, big.NewInt(int64(nanos)))
}

func within(a, b *big.Int, d time.Duration) bool {
	diff := new(big.Int).Sub(a, b)
	return diff.Abs(diff).Cmp(big.NewInt(int64(d))) <= 0
}

// refValue compares singular values; ok is false where no tolerance applies.
func (tl *tolerances) refValue(fd protoreflect.FieldDescriptor, x, y protoreflect.Value) (eq, ok bool) {
	switch fd.Kind() {
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		if tl.hasFloat {
			return tl.refFloat(x.Float(), y.Float()), true
		}
	case protoreflect.MessageKind:
		switch a := x.Message().Interface().(type) {
		case *timestamppb.Timestamp:
			if b := y.Message().Interface().(*timestamppb.Timestamp); tl.hasTime {
				return within(nanosOf(a.GetSeconds(), a.GetNanos()), nanosOf(b.GetSeconds(), b.GetNanos()), tl.time), true
			}
		case *durationpb.Duration:
			if b := y.Message().Interface().(*durationpb.Duration); tl.hasDur {
				return within(nanosOf(a.GetSeconds(), a.GetNanos()), nanosOf(b.GetSeconds(), b.GetNanos()), tl.dur), true
			}
		}
	}
	return false, false
}

// refEqual is the reference of message comparison: protobuf equality except
// for change times and tolerances.
func (tl *tolerances) refEqual(x, y protoreflect.Message) bool {
	if x.Descriptor() != y.Descriptor() {
		return false
	}
	fs := x.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if fd.Name() == "change_time" && x.Descriptor().Name() == "Change" {
			continue
		}
		hx, hy := x.Has(fd), y.Has(fd)
		if !hx && !hy {
			continue
		}
		vx, vy := x.Get(fd), y.Get(fd)
		if hx != hy {
			if fd.HasPresence() || fd.IsList() || fd.IsMap() {
				return false
			}
			if eq, ok := tl.refValue(fd, vx, vy); !ok || !eq {
				return false
			}
			continue
		}
		one := func(fd protoreflect.FieldDescriptor, a, b protoreflect.Value) bool {
			if eq, ok := tl.refValue(fd, a, b); ok {
				return eq
			}
			switch fd.Kind() {
			case protoreflect.MessageKind, protoreflect.GroupKind:
				return tl.refEqual(a.Message(), b.Message())
			}
			return a.Equal(b)
		}
		switch {
		case fd.IsList():
			la, lb := vx.List(), vy.List()
			if la.Len() != lb.Len() {
				return false
			}
			for j := 0; j < la.Len(); j++ {
				if !one(fd, la.Get(j), lb.Get(j)) {
					return false
				}
			}
		case fd.IsMap():
			ma, mb := vx.Map(), vy.Map()
			if ma.Len() != mb.Len() {
				return false
			}
			eq := true
			ma.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				eq = mb.Has(k) && one(fd.MapValue(), v, mb.Get(k))
				return eq
			})
			if !eq {
				return false
			}
		default:
			if !one(fd, vx, vy) {
				return false
			}
		}
	}
	// unknown fields are compared by protobuf equality
	ux, uy := x.New(), y.New()
	ux.SetUnknown(x.GetUnknown())
	uy.SetUnknown(y.GetUnknown())
	return proto.Equal(ux.Interface(), uy.Interface())
}

func refMessage(tl *tolerances) func(a, b proto.Message) bool {
	return func(a, b proto.Message) bool {
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		x, y := a.ProtoReflect(), b.ProtoReflect()
		if x.IsValid() != y.IsValid() {
			return false
		}
		return tl.refEqual(x, y)
	}
}

// drawEquiv draws an equivalence of a resource.
func drawEquiv(t *core.T) (*equivalence, float64) {
	step := core.Choose(t, 0.25, 0.5, 1, 2)
	switch t.Int(6) {
	case 0:
		tl := &tolerances{}
		return &equivalence{name: "no duplicates", opt: resource.WithNoDuplicates(), eq: refMessage(tl)}, step
	case 1:
		tl := &tolerances{hasFloat: true, fraction: 0.125}
		return &equivalence{name: "fraction", opt: resource.WithMessageEquivalence(cmp.Equal(tl.values()...)), eq: refMessage(tl)}, step
	case 2:
		// a comparer of the application, not transitive, that takes nothing
		// for granted about nil
		f := func(a, b proto.Message) bool {
			d := asTAT(a).GetDefaultInt32() - asTAT(b).GetDefaultInt32()
			return d >= -1 && d <= 1
		}
		return &equivalence{name: "int within 1", opt: resource.WithEquivalence(resource.ComparerFunc(f)), eq: f}, step
	case 3:
		tl := &tolerances{hasFloat: true, margin: 1}
		g := func(a, b proto.Message) bool { return asTAT(a).GetDefaultString() == asTAT(b).GetDefaultString() }
		return &equivalence{name: "and", opt: resource.WithMessageEquivalence(cmp.And(g, cmp.Equal(tl.values()...))), eq: func(a, b proto.Message) bool { return g(a, b) && refMessage(tl)(a, b) }}, step
	case 4:
		g := func(a, b proto.Message) bool { return asTAT(a).GetDefaultString() == asTAT(b).GetDefaultString() }
		return &equivalence{name: "or", opt: resource.WithMessageEquivalence(cmp.Or(cmp.Equal(), g)), eq: func(a, b proto.Message) bool { return g(a, b) || same(a, b) }}, step
	}
	tl := &tolerances{hasFloat: true, margin: core.Choose(t, 0.5, 1.0, 2.0)}
	return &equivalence{name: "margin", opt: resource.WithMessageEquivalence(cmp.Equal(tl.values()...)), eq: refMessage(tl)}, step
}

// c16Script makes the values wander in small steps.
func c16Script(t *core.T, r *serialRun, step float64) {
	cur := 0.0
	base := smallMsg(t)
	for _, o := range r.script {
		if o.msg == nil {
			continue
		}
		if t.Chance(70) {
			*o = wop{kind: o.kind, id: o.id, msg: o.msg, create: true}
			o.msg.Reset()
			proto.Merge(o.msg, base)
		}
		switch t.Int(5) {
		case 0:
			cur = float64(t.Range(-4, 4)) * step
		case 1:
			cur -= step
		default:
			cur += step
			t.Count("drift_below_tolerance", 1)
		}
		o.msg.DefaultDouble = cur
		if t.Chance(12) {
			// nothing at all
			cur = 0
			o.msg.Reset()
			base.Reset()
		}
		if t.Chance(40) {
			base.DefaultInt32++
		}
		if t.Chance(10) {
			base.DefaultString = core.Choose(t, "", "x", "y")
		}
	}
}

func c16Sub(t *core.T, i int, r *serialRun) *sub {
	su := drawSub(t, i, r.isVal, r.ids)
	su.single = !r.isVal && t.Chance(15)
	if su.hasMask && t.Chance(50) {
		su.mask = append(su.mask, "default_double")
	}
	su.updates = t.Chance(20)
	if !r.isVal && t.Chance(15) {
		su.pred = drawPredicate(t, r.ids)
	}
	su.pace = drawPace(t, 500*time.Millisecond)
	if su.pace != nil {
		t.Count("slow_reader", 1)
	}
	return su
}

func c16Stream(t *core.T) {
	isVal := t.Chance(45)
	eq, step := drawEquiv(t)
	r := newSerial(t, isVal, t.Range(1, 3), eq)
	r.draw(10, false)
	c16Script(t, r, step)
	var subs []*sub
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		su := c16Sub(t, i, r)
		su.bp = true
		subs = append(subs, su)
	}
	for _, su := range subs {
		su.start(r.s, t.Chance(60), time.Duration(t.Int(5))*50*time.Millisecond)
	}
	r.write()
	t.Settle(60 * time.Second)
	for _, su := range subs {
		n := 0
		for _, e := range su.events {
			if !e.seed {
				n++
			}
		}
		if _, hi := r.window(su); n > 0 && n < len(r.commits)-hi && !su.single {
			t.Nontrivial()
		}
		r.exact(su)
		c16Held(t, r, su)
	}
}

// c16Held checks the events against what the subscriber holds, whatever was
// merged on the way.
func c16Held(t *core.T, r *serialRun, su *sub) {
	bad := func(class, format string, args ...any) {
		r.fail(class, "equivalence %q: %s\n  %s closed=%v%s", r.eq.name, fmt.Sprintf(format, args...), su, su.closed, eventsText(su.events))
	}
	held := map[string]proto.Message{}
	for i, e := range su.events {
		if e.new == nil || e.kind == types.ChangeType_REMOVE {
			if _, ok := held[e.id]; !ok && !su.updates {
				bad("ghost", "event %d removes an item the subscriber does not have", i)
			}
			delete(held, e.id)
			continue
		}
		if h, ok := held[e.id]; ok && r.eq.eq(h, e.new) {
			bad("duplicate", "event %d, %s, is equivalent to what the subscriber has, %s", i, e, txt(h))
		}
		held[e.id] = e.new
	}
	if su.closed {
		return
	}
	final := r.stateAt(len(r.commits))
	ids := r.ids
	if r.isVal {
		ids = []string{""}
	}
	if su.single {
		ids = []string{su.pullID}
	}
	for _, id := range ids {
		h, ok := held[id]
		c := final[id]
		exists := c != nil && r.match(su, id, c.new)
		if su.updates && !ok {
			continue // nothing is known about the item
		}
		if ok != exists {
			bad("stale", "item %q exists: %v, but the subscriber has %s", id, exists, txt(h))
		}
		if ok && !r.eq.eq(h, su.project(c.new)) {
			bad("suppressed", "item %q is %s, the subscriber is left with %s, which is not equivalent", id, txt(su.project(c.new)), txt(h))
		}
	}
}

func c16Lossy(t *core.T) {
	isVal := t.Chance(40)
	eq, step := drawEquiv(t)
	r := newSerial(t, isVal, t.Range(1, 3), eq)
	r.draw(12, false)
	c16Script(t, r, step)
	var subs []*sub
	end := 120 * time.Second
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		su := c16Sub(t, i, r)
		su.single = false
		su.bp = t.Chance(10)
		if !su.bp && t.Chance(30) {
			var d time.Duration
			su.pace, d = drawStops(t)
			end += d
		}
		subs = append(subs, su)
	}
	for _, su := range subs {
		su.start(r.s, t.Chance(60), time.Duration(t.Int(5))*50*time.Millisecond)
	}
	r.write()
	t.Settle(end)
	for _, su := range subs {
		if len(su.events) > 1 && len(su.events) < len(r.commits) {
			t.Nontrivial()
		}
		c16Held(t, r, su)
	}
}

var cmpTypes = []func() proto.Message{
	func() proto.Message { return &tp.TestAllTypes{} },
	func() proto.Message { return &tp.ForeignMessage{} },
	func() proto.Message { return &traits.PullOnOffResponse{} },
	func() proto.Message { return &traits.PullOnOffResponse_Change{} },
	func() proto.Message { return &traits.PullModesResponse{} },
	func() proto.Message { return &traits.EnergyLevel{} },
	func() proto.Message { return &traits.AirQuality{} }, // optional numbers
	func() proto.Message { return &traits.ElectricDemand{} },
	func() proto.Message { return &traits.ElectricMode{} },
	func() proto.Message { return &traits.PullBookingsResponse{} },
	// several types of the same short name
	func() proto.Message { return &traits.PullModesResponse_Change{} },
	func() proto.Message { return &traits.PullBookingsResponse_Change{} },
	func() proto.Message { return &traits.PullOccupancyResponse_Change{} },
	func() proto.Message { return dynChange.New().Interface() },
	func() proto.Message { return dynItem.New().Interface() },
	func() proto.Message { return &timestamppb.Timestamp{} },
	func() proto.Message { return &durationpb.Duration{} },
}

// dynChange and dynItem are messages of the application, known at run time
// only: a Change like those of the API, and one that isn't a Change but has a
// change_time.
var dynChange, dynItem = func() (protoreflect.MessageType, protoreflect.MessageType) {
	field := func(name string, n int32, typ descriptorpb.FieldDescriptorProto_Type, of string, repeated bool) *descriptorpb.FieldDescriptorProto {
		fd := &descriptorpb.FieldDescriptorProto{Name: &name, Number: &n, Type: &typ, Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
		if repeated {
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		}
		if of != "" {
			fd.TypeName = &of
		}
		return fd
	}
	const (
		str  = descriptorpb.FieldDescriptorProto_TYPE_STRING
		num  = descriptorpb.FieldDescriptorProto_TYPE_INT64
		flt  = descriptorpb.FieldDescriptorProto_TYPE_DOUBLE
		mess = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
	)
	fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
		Name: proto.String("verif/dyn.proto"), Package: proto.String("verif.dyn"), Syntax: proto.String("proto3"),
		Dependency: []string{"google/protobuf/timestamp.proto"},
		MessageType: []*descriptorpb.DescriptorProto{
			{Name: proto.String("Change"), Field: []*descriptorpb.FieldDescriptorProto{
				field("name", 1, str, "", false),
				field("change_time", 2, mess, ".google.protobuf.Timestamp", false),
				field("item", 3, mess, ".verif.dyn.Item", false),
				field("items", 4, mess, ".verif.dyn.Item", true),
				field("changes", 5, mess, ".verif.dyn.Change", true),
				field("level", 6, flt, "", false),
			}},
			{Name: proto.String("Item"), Field: []*descriptorpb.FieldDescriptorProto{
				field("name", 1, str, "", false),
				field("change_time", 2, num, "", false),
				field("change", 3, mess, ".verif.dyn.Change", false),
				field("levels", 4, flt, "", true),
			}},
		},
	}, protoregistry.GlobalFiles)
	if err != nil {
		panic(err)
	}
	return dynamicpb.NewMessageType(fd.Messages().ByName("Change")), dynamicpb.NewMessageType(fd.Messages().ByName("Item"))
}()

// mutate changes something small somewhere in m.
func mutate(t *core.T, m protoreflect.Message, depth int) {
	var set, all []protoreflect.FieldDescriptor
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		all = append(all, fs.Get(i))
		if m.Has(fs.Get(i)) {
			set = append(set, fs.Get(i))
		}
	}
	if t.Chance(8) {
		addUnknown(m.Interface(), uint64(t.Int(2)))
		return
	}
	pick := all
	if len(set) > 0 && t.Chance(75) {
		pick = set
	}
	if len(pick) == 0 {
		return
	}
	fd := pick[t.Int(len(pick))]
	isMsg := fd.Kind() == protoreflect.MessageKind
	switch m.Interface().(type) {
	case *timestamppb.Timestamp, *durationpb.Duration:
		m.Set(fd, protoreflect.ValueOf(map[bool]any{true: int64(5), false: int32(5)}[fd.Kind() == protoreflect.Int64Kind]))
		return
	}
	switch {
	case m.Has(fd) && t.Chance(20):
		m.Clear(fd)
	case isMsg && !fd.IsList() && !fd.IsMap() && m.Has(fd) && depth > 0:
		mutate(t, m.Mutable(fd).Message(), depth-1)
	case fd.IsList() && m.Has(fd):
		l := m.Mutable(fd).List()
		j := t.Int(l.Len())
		switch {
		case t.Chance(20):
			l.Truncate(l.Len() - 1)
		case isMsg && depth > 0:
			mutate(t, l.Get(j).Message(), depth-1)
		case !isMsg:
			l.Set(j, wild(t, fd))
		}
	case fd.IsMap() && m.Has(fd):
		mp := m.Mutable(fd).Map()
		mp.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
			switch {
			case t.Chance(20):
				mp.Clear(k)
			case t.Chance(30):
				// another key
				mp.Clear(k)
				mp.Set(drawScalar(t, fd.MapKey()).MapKey(), v)
			case fd.MapValue().Kind() == protoreflect.MessageKind:
				if depth > 0 {
					mutate(t, v.Message(), depth-1)
				}
			default:
				mp.Set(k, wild(t, fd.MapValue()))
			}
			return false
		})
	case !isMsg && !fd.IsList() && !fd.IsMap():
		m.Set(fd, wild(t, fd))
	default:
		setField(t, m, fd, 30, 1)
	}
}

// wild draws a scalar with the odd ones included.
func wild(t *core.T, fd protoreflect.FieldDescriptor) protoreflect.Value {
	if t.Chance(60) {
		f := core.Choose(t, math.NaN(), math.Copysign(0, -1), math.Inf(1), math.Inf(-1), 1.5, 0)
		switch fd.Kind() {
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32(float32(f))
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(f)
		}
	}
	return drawScalar(t, fd)
}

// stretch makes a list long.
func stretch(t *core.T, m protoreflect.Message) {
	var lists []protoreflect.FieldDescriptor
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if fs.Get(i).IsList() {
			lists = append(lists, fs.Get(i))
		}
	}
	if len(lists) == 0 {
		return
	}
	fd := lists[t.Int(len(lists))]
	l := m.Mutable(fd).List()
	for n := t.Range(10, 40); n > 0; n-- {
		if fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind {
			l.Append(l.NewElement())
		} else {
			l.Append(drawScalar(t, fd))
		}
	}
}

func drawAny(t *core.T, mk func() proto.Message) proto.Message {
	m := mk()
	r := m.ProtoReflect()
	pct := core.Choose(t, 50, 50, 20, 0)
	if r.Descriptor().Fields().Len() > 20 {
		pct = 8
	}
	fillMsg(t, r, pct, 2)
	if t.Chance(30) {
		mutate(t, r, 3) // odd values
	}
	if t.Chance(6) {
		stretch(t, r)
	}
	for i := t.Int(3); i > 0; i-- {
		addUnknown(m, uint64(t.Int(2)))
	}
	return m
}

// stripChangeTimes clears change_time in every Change message.
func stripChangeTimes(m protoreflect.Message) {
	if m.Descriptor().Name() == "Change" {
		if fd := m.Descriptor().Fields().ByName("change_time"); fd != nil {
			m.Clear(fd)
		}
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			if fd.MapValue().Kind() == protoreflect.MessageKind {
				v.Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool { stripChangeTimes(v.Message()); return true })
			}
		case fd.IsList():
			if fd.Kind() == protoreflect.MessageKind {
				for i := 0; i < v.List().Len(); i++ {
					stripChangeTimes(v.List().Get(i).Message())
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			stripChangeTimes(v.Message())
		}
		return true
	})
}

func c16Default(t *core.T) {
	eq := cmp.Equal()
	outcomes := map[bool]bool{}
	t.Repeat(3, 10, func(int) {
		mk := cmpTypes[t.Int(len(cmpTypes))]
		x := drawAny(t, mk)
		var y proto.Message
		switch t.Int(12) {
		case 0:
			y = nil
		case 1:
			y = drawAny(t, cmpTypes[t.Int(len(cmpTypes))])
		case 2:
			y = x.ProtoReflect().Type().Zero().Interface() // typed nil
		case 3:
			y = clone(x)
			// unknown fields in another order
			r := y.ProtoReflect()
			r.SetUnknown(append(append(protoreflect.RawFields(nil), 0x98, 0xfa, 0x08, 1), r.GetUnknown()...))
			rx := x.ProtoReflect()
			rx.SetUnknown(append(append(protoreflect.RawFields(nil), rx.GetUnknown()...), 0x98, 0xfa, 0x08, 1))
		case 4:
			y = clone(x)
		default:
			y = clone(x)
			for i := t.Range(1, 2); i > 0; i-- {
				mutate(t, y.ProtoReflect(), 3)
			}
		}
		if t.Chance(10) {
			x = x.ProtoReflect().Type().Zero().Interface()
		}
		if t.Chance(5) {
			x = nil
		}
		valid := func(m proto.Message) bool { return m != nil && m.ProtoReflect().IsValid() }
		hasChange := func(m proto.Message) bool {
			switch m.(type) {
			case *tp.TestAllTypes, *tp.ForeignMessage, *traits.EnergyLevel, *traits.AirQuality, *traits.ElectricDemand, *traits.ElectricMode, *timestamppb.Timestamp, *durationpb.Duration:
				return false
			}
			return true
		}
		if valid(x) && hasChange(x) {
			x = clone(x) // drops the sign of negative zeros, as stripping does
		}
		if valid(y) && hasChange(y) {
			y = clone(y)
		}
		strip := func(m proto.Message) proto.Message {
			if !valid(m) || !hasChange(m) {
				return m
			}
			c := clone(m)
			stripChangeTimes(c.ProtoReflect())
			return c
		}
		sx, sy := strip(x), strip(y)
		fx, fy := fingerprintAny(x), fingerprintAny(y)
		want := proto.Equal(sx, sy)
		outcomes[want] = true
		if got := eq(x, y); got != want {
			t.Fail("default", "the default comparer says %v, protobuf equality (change times aside) %v, for %T %s and %T %s", got, want, x, txt(x), y, txt(y))
		}
		if got := eq(y, x); got != want {
			t.Fail("default", "the default comparer says %v the other way round, protobuf equality %v, for %T %s and %T %s", got, want, y, txt(y), x, txt(x))
		}
		if x != nil && !eq(x, x) {
			t.Fail("reflexive", "the default comparer says a message differs from itself: %s", txt(x))
		}
		if fingerprintAny(x) != fx || fingerprintAny(y) != fy {
			t.Fail("mutated", "comparing altered a message")
		}
	})
	if len(outcomes) == 2 {
		t.Nontrivial()
	}
}

func fingerprintAny(m proto.Message) uint64 {
	if m == nil || !m.ProtoReflect().IsValid() {
		return 0
	}
	return fingerprint(m)
}

// dyadic draws a number whose sums and products with the tolerances are exact.
func dyadic(t *core.T) float64 {
	return core.Choose(t, 0, 0.25, 0.5, 1, 1.5, 2, 2.25, 4, 8, 9, 100, 112.5, 1024, 1<<30) * float64(1-2*t.Int(2))
}

func drawNanos(t *core.T, span int64) (int64, int32) {
	sec := core.Choose(t, 0, 1, 2, 59, 60, 3600, span, span-1)
	sec *= int64(1 - 2*t.Int(2))
	return sec, core.Choose[int32](t, 0, 1, 500_000_000, 999_999_999)
}

func c16Tolerance(t *core.T) {
	tl := &tolerances{}
	tl.fraction, tl.margin = core.Choose(t, 0, 0.125, 0.5), core.Choose(t, 0, 0.25, 1, 10)
	tl.time = core.Choose(t, 0, 1, time.Second, time.Hour)
	tl.dur = core.Choose(t, 0, 1, time.Second, time.Hour)
	d := (&tp.TestAllTypes{}).ProtoReflect().Descriptor().Fields()
	ffd, dfd := d.ByName("default_float"), d.ByName("default_double")
	find := func(typ protoreflect.FullName, field protoreflect.Name) protoreflect.FieldDescriptor {
		mt, err := protoregistry.GlobalTypes.FindMessageByName(typ)
		if err != nil {
			t.Fail("harness", "%v", err)
		}
		return mt.Descriptor().Fields().ByName(field)
	}
	tfd := find("smartcore.traits.PullOnOffResponse.Change", "change_time")
	durfd := (&traits.ElectricMode_Segment{}).ProtoReflect().Descriptor().Fields().ByName("length")
	outcomes := map[bool]bool{}
	one := func(name string, v cmp.Value, fd protoreflect.FieldDescriptor, x, y protoreflect.Value, want bool) {
		outcomes[want] = true
		got, ok := v(fd, x, y)
		if !ok || got != want {
			t.Fail("tolerance", "%s(%s, %s) is %v (applies: %v), want %v", name, x.String(), y.String(), got, ok, want)
		}
		got, ok = v(fd, y, x)
		if !ok || got != want {
			t.Fail("symmetric", "%s(%s, %s) is %v (applies: %v), want %v as the other way round", name, y.String(), x.String(), got, ok, want)
		}
		if got, ok := v(fd, x, x); !ok || !got {
			t.Fail("reflexive", "%s(%s, %s) is %v (applies: %v)", name, x.String(), x.String(), got, ok)
		}
	}
	t.Repeat(3, 10, func(int) {
		switch t.Int(6) {
		case 0: // floats
			tl.hasFloat = true
			x, y := dyadic(t), dyadic(t)
			if t.Chance(50) {
				y = x + core.Choose(t, tl.margin, tl.margin+0.25, tl.fraction*math.Abs(x), tl.margin-0.25)
			}
			if t.Chance(15) {
				// as near to the limit as it gets
				x = 1 + math.Ldexp(float64(t.Int(1<<20)), -40)
				y = x + tl.fraction*x + math.Ldexp(float64(t.Range(-1, 1)), -45)
			}
			if t.Chance(15) {
				x = core.Choose(t, math.NaN(), math.Inf(1), math.Inf(-1))
			}
			if t.Chance(8) {
				y = core.Choose(t, math.NaN(), math.Inf(1), math.Inf(-1))
			}
			v := cmp.FloatValueApprox(tl.fraction, tl.margin)
			name := fmt.Sprintf("FloatValueApprox(%v, %v)", tl.fraction, tl.margin)
			one(name, v, dfd, protoreflect.ValueOfFloat64(x), protoreflect.ValueOfFloat64(y), tl.refFloat(x, y))
			x32, y32 := float32(x), float32(y)
			one(name, v, ffd, protoreflect.ValueOfFloat32(x32), protoreflect.ValueOfFloat32(y32), tl.refFloat(float64(x32), float64(y32)))
		case 1: // timestamps
			s1, n1 := drawNanos(t, 60_000_000_000)
			s2, n2 := drawNanos(t, 60_000_000_000)
			if t.Chance(60) {
				s2, n2 = s1+int64(tl.time/time.Second)*int64(1-2*t.Int(2)), n1
				if t.Chance(50) && n2 < 999_999_999 {
					n2++
				}
			}
			x, y := &timestamppb.Timestamp{Seconds: s1, Nanos: n1}, &timestamppb.Timestamp{Seconds: s2, Nanos: n2}
			one(fmt.Sprintf("TimeValueWithin(%s)", tl.time), cmp.TimeValueWithin(tl.time), tfd, protoreflect.ValueOfMessage(x.ProtoReflect()), protoreflect.ValueOfMessage(y.ProtoReflect()), within(nanosOf(s1, n1), nanosOf(s2, n2), tl.time))
		case 2, 3: // durations
			// The whole range of time.Duration.
			s1, n1 := drawNanos(t, 9_000_000_000)
			s2, n2 := drawNanos(t, 9_000_000_000)
			if t.Chance(60) {
				s2, n2 = s1+int64(tl.dur/time.Second)*int64(1-2*t.Int(2)), n1
				if t.Chance(50) && n2 < 999_999_999 {
					n2++
				}
			}
			// seconds and nanos of a duration have the same sign
			fix := func(s int64, n int32) int32 {
				if s < 0 {
					return -n
				}
				return n
			}
			n1, n2 = fix(s1, n1), fix(s2, n2)
			x, y := &durationpb.Duration{Seconds: s1, Nanos: n1}, &durationpb.Duration{Seconds: s2, Nanos: n2}
			vx, vy := protoreflect.ValueOfMessage(x.ProtoReflect()), protoreflect.ValueOfMessage(y.ProtoReflect())
			a, b := nanosOf(s1, n1), nanosOf(s2, n2)
			if t.Chance(60) {
				one(fmt.Sprintf("DurationValueWithin(%s)", tl.dur), cmp.DurationValueWithin(tl.dur), durfd, vx, vy, within(a, b, tl.dur))
				break
			}
			p := core.Choose[float32](t, 0, 12.5, 50)
			v := cmp.DurationValueWithinP(p)
			name := fmt.Sprintf("DurationValueWithinP(%v)", p)
			got, ok := v(durfd, vx, vy)
			back, _ := v(durfd, vy, vx)
			self, _ := v(durfd, vx, vx)
			outcomes[got] = true
			if !ok || got != back {
				t.Fail("symmetric", "%s(%s, %s) is %v (applies: %v), the other way round %v", name, x.AsDuration(), y.AsDuration(), got, ok, back)
			}
			if !self {
				t.Fail("reflexive", "%s(%s, %s) is false", name, x.AsDuration(), x.AsDuration())
			}
			// Percent of which of the two is not stated: both extremes decide.
			diff := new(big.Rat).SetInt(new(big.Int).Abs(new(big.Int).Sub(a, b)))
			lo, hi := new(big.Rat).SetInt(new(big.Int).Abs(a)), new(big.Rat).SetInt(new(big.Int).Abs(b))
			if hi.Cmp(lo) < 0 {
				lo, hi = hi, lo
			}
			pr := new(big.Rat).SetFloat64(float64(p) / 100)
			// floating point slack at the edge
			eps := new(big.Rat).Mul(hi, big.NewRat(1, 1_000_000))
			if diff.Cmp(new(big.Rat).Sub(new(big.Rat).Mul(lo, pr), eps)) < 0 && !got {
				t.Fail("tolerance", "%s(%s, %s) is false", name, x.AsDuration(), y.AsDuration())
			}
			if diff.Cmp(new(big.Rat).Add(new(big.Rat).Mul(hi, pr), eps)) > 0 && got {
				t.Fail("tolerance", "%s(%s, %s) is true", name, x.AsDuration(), y.AsDuration())
			}
		case 4: // fields of other kinds
			fds := d
			fd := fds.Get(t.Int(fds.Len()))
			if fd.IsList() || fd.IsMap() {
				break
			}
			m := &tp.TestAllTypes{}
			setField(t, m.ProtoReflect(), fd, 30, 1)
			x, y := m.ProtoReflect().Get(fd), m.ProtoReflect().Get(fd)
			isF := fd.Kind() == protoreflect.FloatKind || fd.Kind() == protoreflect.DoubleKind
			for n, v := range map[string]cmp.Value{"FloatValueApprox": cmp.FloatValueApprox(1, 1)} {
				if _, ok := v(fd, x, y); ok != isF {
					t.Fail("kind", "%s applies to %s: %v", n, fd.FullName(), ok)
				}
			}
			name := protoreflect.FullName("")
			if fd.Message() != nil {
				name = fd.Message().FullName()
			}
			if _, ok := cmp.TimeValueWithin(time.Hour)(fd, x, y); ok != (name == "google.protobuf.Timestamp") {
				t.Fail("kind", "TimeValueWithin applies to %s: %v", fd.FullName(), ok)
			}
			if _, ok := cmp.DurationValueWithin(time.Hour)(fd, x, y); ok != (name == "google.protobuf.Duration") {
				t.Fail("kind", "DurationValueWithin applies to %s: %v", fd.FullName(), ok)
			}
			if _, ok := cmp.DurationValueWithinP(50)(fd, x, y); ok != (name == "google.protobuf.Duration") {
				t.Fail("kind", "DurationValueWithinP applies to %s: %v", fd.FullName(), ok)
			}
		default: // whole messages
			tl := *tl
			tl.hasFloat, tl.hasTime, tl.hasDur = t.Chance(60), t.Chance(50), t.Chance(50)
			eq := cmp.Equal(tl.values()...)
			x := drawAny(t, cmpTypes[t.Int(len(cmpTypes))])
			y := clone(x)
			nudge(t, y.ProtoReflect(), &tl, 4)
			if t.Chance(20) {
				mutate(t, y.ProtoReflect(), 3)
			}
			want := refMessage(&tl)(x, y)
			if tl.hasFloat && t.Chance(30) {
				// both must hold, also for what is inside of lists
				second := tl
				second.fraction, second.margin = core.Choose(t, 0, 0.125), core.Choose(t, 0, 0.5, 20)
				vs := append(tl.values(), second.values()...)
				if t.Chance(30) {
					vs = []cmp.Value{cmp.ValueAnd(vs...)}
				}
				eq = cmp.Equal(vs...)
				want = want && refMessage(&second)(x, y)
			}
			outcomes[want] = true
			if got := eq(x, y); got != want {
				t.Fail("message", "comparer with tolerances %+v says %v, want %v, for %T %s and %s", tl, got, want, x, txt(x), txt(y))
			}
			if got := eq(y, x); got != want {
				t.Fail("message", "comparer with tolerances %+v says %v, want %v, for %T %s and %s", tl, got, want, y, txt(y), txt(x))
			}
		}
	})
	if len(outcomes) == 2 {
		t.Nontrivial()
	}
}

// nudge moves floats, timestamps and durations by about a tolerance.
func nudge(t *core.T, m protoreflect.Message, tl *tolerances, depth int) {
	switch v := m.Interface().(type) {
	case *timestamppb.Timestamp:
		v.Seconds += int64(tl.time / time.Second)
		if t.Chance(40) {
			v.Seconds++
		}
		return
	case *durationpb.Duration:
		v.Seconds += int64(tl.dur / time.Second)
		if t.Chance(40) {
			v.Seconds++
		}
		return
	}
	num := func(f float64) float64 { return f + core.Choose(t, 0, tl.margin, tl.margin, tl.margin+0.25) }
	one := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) (protoreflect.Value, bool) {
		switch fd.Kind() {
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32(float32(num(v.Float()))), true
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(num(v.Float())), true
		case protoreflect.MessageKind:
			if depth > 0 {
				nudge(t, v.Message(), tl, depth-1)
			}
		}
		return v, false
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		switch {
		case fd.IsMap():
			// values of maps are nudged through their messages only
		case fd.IsList():
			if m.Has(fd) {
				l := m.Mutable(fd).List()
				for j := 0; j < l.Len(); j++ {
					if v, ok := one(fd, l.Get(j)); ok {
						l.Set(j, v)
					}
				}
			}
		case m.Has(fd):
			if v, ok := one(fd, m.Get(fd)); ok {
				m.Set(fd, v)
			}
		case t.Chance(20) && (fd.Kind() == protoreflect.DoubleKind || fd.Kind() == protoreflect.FloatKind) && fd.ContainingOneof() == nil:
			if v, ok := one(fd, m.Get(fd)); ok {
				m.Set(fd, v)
			}
		}
	}
}

func c16Logic(t *core.T) {
	n := t.Int(6)
	var bools []bool
	var ms []cmp.Message
	calls := 0
	and, or := true, false
	for i := 0; i < n; i++ {
		b := t.Chance(50)
		bools = append(bools, b)
		and, or = and && b, or || b
		ms = append(ms, func(x, y proto.Message) bool { calls++; return b })
	}
	x, y := smallMsg(t), smallMsg(t)
	if got := cmp.And(ms...)(x, y); got != and {
		t.Fail("and", "And%v is %v", bools, got)
	}
	if got := cmp.Or(ms...)(x, y); got != or {
		t.Fail("or", "Or%v is %v", bools, got)
	}
	type vr struct{ eq, ok bool }
	var vrs []vr
	var vs []cmp.Value
	anyOK, vand, vor := false, true, false
	for i := 0; i < n; i++ {
		r := vr{t.Chance(50), t.Chance(60)}
		vrs = append(vrs, r)
		vs = append(vs, func(protoreflect.FieldDescriptor, protoreflect.Value, protoreflect.Value) (bool, bool) {
			return r.eq && r.ok, r.ok
		})
		if r.ok {
			anyOK, vand, vor = true, vand && r.eq, vor || r.eq
		}
	}
	fd := x.ProtoReflect().Descriptor().Fields().ByName(core.Choose[protoreflect.Name](t, "default_int32", "repeated_int32"))
	v := protoreflect.ValueOfInt32(1)
	if eq, ok := cmp.ValueAnd(vs...)(fd, v, v); ok != anyOK || (ok && eq != vand) {
		t.Fail("and", "ValueAnd%v is %v, %v", vrs, eq, ok)
	}
	if eq, ok := cmp.ValueOr(vs...)(fd, v, v); ok != anyOK || (ok && eq != vor) {
		t.Fail("or", "ValueOr%v is %v, %v", vrs, eq, ok)
	}
	if n > 1 {
		t.Nontrivial()
	}
}
