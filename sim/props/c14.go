package props

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"slices"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID: "C14",
		Scenarios: []core.Scenario{
			{Name: "register", Weight: 7, Leak: true, Run: c14Register},
			{Name: "concurrent", Weight: 3, Leak: true, Run: c14Concurrent},
			{Name: "sensor", Weight: 2, Leak: true, Run: c14Sensor},
			{Name: "list", Weight: 4, Leak: true, Run: c14List},
			{Name: "list-concurrent", Weight: 2, Leak: true, Run: c14ListConcurrent},
			{Name: "stalls", Weight: 1, Leak: true, Stall: true, Run: c14Concurrent},
			{Name: "ramp", Weight: 1, Leak: true, Run: c14Ramp},
		},
		SiteFilter: []string{"pkg/trait/", "pkg/resource/", "internal/minibus/", "pkg/wrap/", "pkg/router/"},
		Rule:       "A run counts as non-trivial when an update changed the value, or two overlapped.",
		Real:       []string{"every server of pkg/trait with a Get, an Update and a Pull of the same resource, or a List and a Pull of its changes, and its model", "the checked-in routers and wrappers", "pkg/wrap", "pkg/router", "pkg/resource", "pkg/masks", "pkg/cmp", "internal/minibus"},
		Stub:       []string{},
		Faults:     []string{"slow-reader", "cancel", "rejected-update", "ramp", "concurrent-update", "long_pause"},
		Assume:     []string{"Readers of streams take at most half a second per message.", "Read masks name fields of the message.", "The streams of a ramping light may skip ahead only to the end of the ramp."},
	})
}

// c14reg is a resource of a server that can be read, updated and followed.
type c14reg struct {
	name              string
	sc                *serverCase
	get, pull, update *rpc
	others            []*rpc // that write too
	res               protoreflect.MessageDescriptor
	value             protoreflect.FieldDescriptor // of the update request
	id                protoreflect.Name            // of the field that says which item, if there are several

	plain    bool                // an update does no more than its masks say
	writable []string            // top level fields updates may change, when plain
	loose    bool                // streams may show steps in between
	margin   float64             // changes of numbers up to this may not be shown
	single   bool                // an update is several writes
	seeds    bool                // streams start with the value always
	norm     func(proto.Message) // takes out what isn't judged
}

var c14cases []serverCase

var c14regs = c14find()

func c14find() []*c14reg {
	c14cases = append(c14cases, serverCases...)
	c14cases = append(c14cases,
		serverCase{"openclosepb positions", []*grpc.ServiceDesc{&traits.OpenCloseApi_ServiceDesc}, func(t *core.T) any {
			return openclosepb.NewModelServer(openclosepb.NewModel(
				openclosepb.WithInitialPositions(&traits.OpenClosePosition{OpenPercent: 25}, &traits.OpenClosePosition{Direction: traits.OpenClosePosition_DOWN, OpenPercent: 50}),
				openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "a", Title: "A"}, &traits.OpenClosePosition{OpenPercent: 50}, &traits.OpenClosePosition{Direction: traits.OpenClosePosition_DOWN, OpenPercent: 25}),
				openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "b", Title: "B"}, &traits.OpenClosePosition{OpenPercent: 100}),
			))
		}},
		serverCase{"airtemperaturepb tolerant", []*grpc.ServiceDesc{&traits.AirTemperatureApi_ServiceDesc}, func(t *core.T) any {
			return airtemperaturepb.NewModelServer(airtemperaturepb.NewModel(
				resource.WithInitialValue(&traits.AirTemperature{AmbientTemperature: &types.Temperature{ValueCelsius: 20}}),
				resource.WithMessageEquivalence(cmp.Equal(cmp.FloatValueApprox(0, 0.5))),
			))
		}},
		serverCase{"airtemperaturepb limited", []*grpc.ServiceDesc{&traits.AirTemperatureApi_ServiceDesc}, func(t *core.T) any {
			return airtemperaturepb.NewModelServer(airtemperaturepb.NewModel(
				resource.WithWritablePaths(&traits.AirTemperature{}, "mode", "temperature_set_point"),
			))
		}},
		serverCase{"onoffpb distinct", []*grpc.ServiceDesc{&traits.OnOffApi_ServiceDesc}, func(t *core.T) any {
			return onoffpb.NewModelServer(onoffpb.NewModel(
				resource.WithInitialValue(&traits.OnOff{State: traits.OnOff_ON}), resource.WithMessageEquivalence(cmp.Equal()),
			))
		}},
		serverCase{"fanspeedpb presets", []*grpc.ServiceDesc{&traits.FanSpeedApi_ServiceDesc}, func(t *core.T) any {
			return fanspeedpb.NewModelServer(fanspeedpb.NewModel(fanspeedpb.WithPresets(fanspeedpb.Preset{Name: "x", Percentage: 20}, fanspeedpb.Preset{Name: "low", Percentage: 60})))
		}},
		serverCase{"modepb modes", []*grpc.ServiceDesc{&traits.ModeApi_ServiceDesc}, func(t *core.T) any {
			return modepb.NewModelServer(modepb.NewModelModes(&traits.Modes{Modes: []*traits.Modes_Mode{
				{Name: "a", Values: []*traits.Modes_Value{{Name: "x"}, {Name: "y"}}}, {Name: "b"},
			}}))
		}},
		serverCase{"hailpb kept", []*grpc.ServiceDesc{&traits.HailApi_ServiceDesc}, func(t *core.T) any {
			return hailpb.NewModelServer(hailpb.NewModel(resource.WithRNG(rand.New(rand.NewSource(1))), hailpb.WithKeepAlive(-1), resource.WithInitialRecord("a", &traits.Hail{Id: "a"}), resource.WithInitialRecord("b", &traits.Hail{Id: "b", State: traits.Hail_DEPARTED})))
		}},
		serverCase{"vendingpb stocked", []*grpc.ServiceDesc{&traits.VendingApi_ServiceDesc}, func(t *core.T) any {
			return vendingpb.NewModelServer(vendingpb.NewModel(
				vendingpb.WithInitialStock(
					&traits.Consumable_Stock{Consumable: "b", Remaining: &traits.Consumable_Quantity{Unit: traits.Consumable_LITER, Amount: 3}},
					&traits.Consumable_Stock{Consumable: "c", Used: &traits.Consumable_Quantity{Unit: traits.Consumable_CUBIC_METER}}),
			))
		}},
	)
	plain := map[string][]string{ // the writable fields, nil when all are
		"airtemperaturepb AirTemperature": nil, "airtemperaturepb tolerant AirTemperature": nil,
		"airtemperaturepb limited AirTemperature": {"mode", "temperature_set_point"},
		"airtemperaturepb memory AirTemperature":  {"mode", "temperature_set_point", "temperature_set_point_delta", "temperature_range"},
		"countpb memory Count":                    {"added", "removed"},
		"electricpb Demand":                       nil,
		"hailpb Hail":                             nil, "hailpb kept Hail": nil,
		"lightpb Brightness": nil,
		"onoffpb OnOff":      nil, "onoffpb distinct OnOff": nil,
		"presspb PressedState":    nil,
		"speakerpb memory Volume": nil,
		"vendingpb Stock":         nil, "vendingpb stocked Stock": nil,
	}
	margin := map[string]float64{"fanspeedpb": 0.01, "fanspeedpb presets": 0.01, "electricpb Demand": 0.01, "airtemperaturepb tolerant": 0.5}
	var out []*c14reg
	for i := range c14cases {
		sc := &c14cases[i]
		var all []*rpc
		for _, d := range sc.descs {
			all = append(all, rpcsOf(d)...)
		}
		for _, u := range all {
			stem, ok := strings.CutPrefix(u.name, "Update")
			if !ok || u.server || u.client {
				continue
			}
			r := &c14reg{name: sc.name + " " + stem, sc: sc, update: u, res: u.out.Descriptor()}
			for _, m := range all {
				switch {
				case m.name == "Get"+stem && !m.server:
					r.get = m
				case (m.name == "Pull"+stem || m.name == "Pull"+stem+"s") && m.server:
					if r.pull == nil || m.name == "Pull"+stem {
						r.pull = m
					}
				}
				if m != u && !m.reads() && !m.server && !m.client {
					r.others = append(r.others, m)
				}
			}
			if r.get == nil || r.pull == nil || r.get.out.Descriptor() != r.res || resourceOf(r.pull) != r.res {
				continue
			}
			fs := u.in.Descriptor().Fields()
			for j := 0; j < fs.Len(); j++ {
				if fd := fs.Get(j); fd.Message() == r.res && !fd.IsList() {
					r.value = fd
				}
			}
			if r.value == nil {
				continue
			}
			for _, id := range []protoreflect.Name{"id", "consumable"} {
				if f := r.get.in.Descriptor().Fields().ByName(id); f != nil {
					r.id = id
				}
			}
			r.writable, r.plain = plain[r.name]
			for k, v := range margin {
				if k == r.name || k == sc.name {
					r.margin = v
				}
			}
			r.loose = strings.HasPrefix(r.name, "openclosepb")
			r.single = r.loose // an update is a write per state
			out = append(out, r)
		}
	}
	return out
}

func (r *c14reg) String() string { return r.name }

// c14dev is one device behind the router.
type c14dev struct {
	name    string
	srv     any
	clients map[string]any // by service
	ids     []string
}

// c14follow is an open stream.
type c14follow struct {
	n       int
	dev     *c14dev
	id      string
	only    bool
	mask    *fieldmaskpb.FieldMask
	exclude bool
	pace    func(int) time.Duration
	in      protoreflect.Message
	ctx     context.Context
	cancel  context.CancelFunc

	states   []proto.Message // the values since it was opened, nil when there was none
	optional int             // the first states the stream may have missed
	kept     map[int]bool    // the states that lasted until the streams had caught up
	events   []c14event
	checked  int // how many events have been matched
	at       int // the state they were matched up to, -1 before the first
	last     proto.Message
	ended    bool
	err      error
	stopped  bool
}

type c14event struct {
	name  string
	value proto.Message
}

func (f *c14follow) String() string {
	s := fmt.Sprintf("stream %d of %s", f.n, f.dev.name)
	if f.id != "" {
		s += " item " + f.id
	}
	if f.mask != nil {
		s += fmt.Sprintf(" mask %v", f.mask.Paths)
	}
	if f.only {
		s += " updates only"
	}
	if f.exclude {
		s += " exclude ramping"
	}
	return s
}

func (f *c14follow) project(m proto.Message) proto.Message { return projectMask(m, f.mask) }

func projectMask(m proto.Message, mask *fieldmaskpb.FieldMask) proto.Message {
	if mask == nil {
		return m
	}
	return project(m, mask.Paths, true)
}

type c14run struct {
	t    *core.T
	r    *c14reg
	devs []*c14dev
	open []*c14follow
	hist []string
	n    int
}

func (x *c14run) note(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	x.hist = append(x.hist, s)
	if x.t.Logging() {
		x.t.Logf("%s", s)
	}
}

func (x *c14run) fail(class, format string, args ...any) {
	x.t.Fail(class, "%s: %s\n  history:\n    %s", x.r, fmt.Sprintf(format, args...), strings.Join(x.hist, "\n    "))
}

var c14names = []string{"dev", "dev/2"}

// newC14 puts one or two devices behind routers.
func newC14(t *core.T, r *c14reg) *c14run {
	x := &c14run{t: t, r: r}
	names := c14names[:t.Range(1, 2)]
	fronts := map[string]any{}
	add := map[string]func(name string, srv any){}
	for _, d := range r.sc.descs {
		for _, rc := range routerCases {
			if rc.Service != d {
				continue
			}
			rt := rc.New()
			add[d.ServiceName] = func(name string, srv any) { rt.Add(name, rc.Wrap(srv)) }
			fronts[d.ServiceName] = rc.Wrap(rt)
		}
	}
	for _, n := range names {
		dev := &c14dev{name: n, srv: r.sc.make(t), clients: fronts}
		for _, d := range r.sc.descs {
			if add[d.ServiceName] == nil {
				t.Fail("no-router", "%s has no router", d.ServiceName)
			}
			add[d.ServiceName](n, dev.srv)
		}
		if r.id != "" {
			dev.ids = append(dev.ids, modelIDs...)
		}
		x.devs = append(x.devs, dev)
	}
	return x
}

func (x *c14run) call(dev *c14dev, m *rpc, in proto.Message) (proto.Message, error) {
	c := reflect.ValueOf(dev.clients[m.service])
	out := c.MethodByName(m.name).Call([]reflect.Value{reflect.ValueOf(context.Context(x.t.Ctx())), reflect.ValueOf(in)})
	err, _ := out[1].Interface().(error)
	res, _ := out[0].Interface().(proto.Message)
	if isNil(res) {
		res = nil
	}
	if err == nil && res == nil {
		x.fail("no-response", "%s returned neither a response nor an error", m.name)
	}
	return res, err
}

// request starts a request for a device and item.
func (x *c14run) request(m *rpc, dev *c14dev, id string) protoreflect.Message {
	in := m.in.New()
	fs := in.Descriptor().Fields()
	in.Set(fs.ByName("name"), protoreflect.ValueOfString(dev.name))
	if f := fs.ByName(x.r.id); x.r.id != "" && f != nil {
		in.Set(f, protoreflect.ValueOfString(id))
	}
	return in
}

func setMask(in protoreflect.Message, field protoreflect.Name, mask *fieldmaskpb.FieldMask) {
	if f := in.Descriptor().Fields().ByName(field); f != nil && mask != nil {
		in.Set(f, protoreflect.ValueOfMessage(clone(mask).ProtoReflect()))
	}
}

// read gets the resource, nil when there's no such item.
func (x *c14run) read(dev *c14dev, id string, mask *fieldmaskpb.FieldMask) proto.Message {
	in := x.request(x.r.get, dev, id)
	setMask(in, "read_mask", mask)
	out, err := x.call(dev, x.r.get, in.Interface())
	if err != nil {
		if x.r.id != "" && code(err) == codes.NotFound {
			return nil
		}
		x.fail("get-failed", "%s of %s failed: %v", x.r.get.name, dev.name, err)
	}
	if x.r.norm != nil {
		x.r.norm(out)
	}
	return out
}

func (x *c14run) readMask() *fieldmaskpb.FieldMask {
	if x.r.get.in.Descriptor().Fields().ByName("read_mask") == nil || !x.t.Chance(50) {
		return nil
	}
	return drawMask(x.t, x.r.res, true)
}

func (x *c14run) drawID(dev *c14dev) string {
	if x.r.id == "" {
		return ""
	}
	return core.Choose(x.t, dev.ids...)
}

// drawUpdate draws an update, and says whether it's one that does no more than
// its masks say.
func (x *c14run) drawUpdate(dev *c14dev, id string, ramps bool) (in protoreflect.Message, plain bool) {
	t, r := x.t, x.r
	in = x.request(r.update, dev, id)
	fs := in.Descriptor().Fields()
	plain = r.plain
	if !t.Chance(3) || r.id != "" && !t.Chance(30) {
		v := x.drawValue(id)
		if t.Chance(20) {
			if now := x.read(dev, id, nil); now != nil {
				v = clone(now).ProtoReflect()
				shift(t, v)
			}
		}
		in.Set(r.value, protoreflect.ValueOfMessage(v))
	}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		switch {
		case fd.Name() == "update_mask":
			if !t.Chance(40) {
				continue
			}
			mask := drawMask(t, r.res, true)
			switch {
			case t.Chance(8):
				mask.Paths = append(mask.Paths, "no_such_field")
			case t.Chance(8):
				mask.Paths = append(mask.Paths, string(r.res.Fields().Get(0).Name())+".no_such_field")
			}
			if r.id != "" {
				// the id isn't there to be changed
				mask.Paths = slices.DeleteFunc(mask.Paths, func(p string) bool { return p == string(r.id) })
			}
			setMask(in, "update_mask", mask)
		case fd == r.value || fd.Name() == "name" || fd.Name() == r.id:
		case fd.Name() == "version":
			if t.Chance(20) {
				in.Set(fd, protoreflect.ValueOfString("other"))
			} else if v := x.read(dev, id, nil); v != nil && t.Chance(50) {
				in.Set(fd, v.ProtoReflect().Get(v.ProtoReflect().Descriptor().Fields().ByName("version")))
			}
		case fd.IsMap() && fd.MapValue().Kind() == protoreflect.Int32Kind, fd.Name() == "relative" && fd.Message() != nil:
			if t.Chance(30) {
				plain = false
				rel := &traits.ModeValuesRelative{Values: map[string]int32{}}
				for i := t.Range(1, 2); i > 0; i-- {
					rel.Values[core.Choose(t, "temperature", "spin", "a", "b", "zz")] = int32(t.Range(-2, 2))
				}
				in.Set(fd, protoreflect.ValueOfMessage(rel.ProtoReflect()))
			}
		default:
			if t.Chance(30) {
				plain = false
				setField(t, in, fd, 50, 2)
			}
		}
	}
	if !ramps {
		noTweens(in)
	}
	return in, plain
}

func noTweens(r protoreflect.Message) {
	r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() == nil || fd.IsList() || fd.IsMap() {
			return true
		}
		if tw, ok := v.Message().Interface().(*types.Tween); ok {
			tw.TotalDuration = nil
			return true
		}
		noTweens(v.Message())
		return true
	})
}

// shift changes a number a little.
func shift(t *core.T, m protoreflect.Message) {
	var at []protoreflect.FieldDescriptor
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if fd.IsList() || fd.IsMap() {
			continue
		}
		switch fd.Kind() {
		case protoreflect.FloatKind, protoreflect.DoubleKind:
			if o := fd.ContainingOneof(); o == nil || m.Has(fd) {
				at = append(at, fd)
			}
		case protoreflect.MessageKind:
			if m.Has(fd) {
				at = append(at, fd)
			}
		}
	}
	if len(at) == 0 {
		return
	}
	fd := core.Choose(t, at...)
	if fd.Message() != nil {
		shift(t, m.Mutable(fd).Message())
		return
	}
	x := m.Get(fd).Float() + core.Choose(t, 0.004, 0.02, -0.02, 0.05, 0.3, 0.7)
	if fd.Kind() == protoreflect.FloatKind {
		m.Set(fd, protoreflect.ValueOfFloat32(float32(x)))
	} else {
		m.Set(fd, protoreflect.ValueOfFloat64(x))
	}
}

// drawValue draws a value that isn't always refused.
func (x *c14run) drawValue(id string) protoreflect.Message {
	t, r := x.t, x.r
	v := r.update.in.New().NewField(r.value).Message()
	// mostly a few fields
	fillMsg(t, v, core.Choose(t, 20, 45, 80), 2)
	switch m := v.Interface().(type) {
	case *traits.Brightness:
		m.LevelPercent = float32(t.Int(5)) * 25
		if t.Chance(60) {
			m.Preset = nil
		} else {
			m.Preset = &traits.LightPreset{Name: core.Choose(t, "a", "b", "zz"), Title: core.Choose(t, "", "A", "T")}
		}
		if t.Chance(60) {
			m.BrightnessTween = nil
		} else if m.BrightnessTween != nil {
			m.BrightnessTween = &types.Tween{TotalDuration: durationpb.New(time.Duration(t.Int(4)) * 200 * time.Millisecond), Progress: float32(t.Int(2) * 5)}
		}
	case *traits.FanSpeed:
		m.Preset = core.Choose(t, "", "", "low", "med", "off", "x", "zz")
		m.PresetIndex = int32(t.Range(-1, 5))
		m.Percentage = core.Choose[float32](t, 0, 15, 15.005, 40, 60, 75, 50, 100, -5)
	case *traits.ModeValues:
		m.Values = map[string]string{}
		for i := t.Range(0, 2); i > 0; i-- {
			m.Values[core.Choose(t, "temperature", "spin", "a", "zz")] = core.Choose(t, "slow", "fast", "medium", "x", "y")
		}
	case *traits.OpenClosePositions:
		m.States, m.Preset = nil, nil
		if t.Chance(30) {
			m.Preset = &traits.OpenClosePositions_Preset{Name: core.Choose(t, "a", "b", "zz")}
		}
		for i := t.Int(3); i > 0; i-- {
			p := &traits.OpenClosePosition{}
			fillMsg(t, p.ProtoReflect(), 40, 1)
			p.Direction = traits.OpenClosePosition_Direction(t.Int(3))
			p.OpenPercent = float32(t.Int(5)) * 25
			m.States = append(m.States, p)
		}
	case *traits.ElectricMode:
		m.Id = core.Choose(t, "a", "b", "b", "zz", "")
	case *traits.ElectricDemand:
		m.Current = core.Choose[float32](t, 0, 1, 1.005, 1.02, 7)
	case *traits.AirTemperature:
		if m.AmbientTemperature != nil {
			m.AmbientTemperature.ValueCelsius = core.Choose(t, 20, 20.3, 20.7, 21, 25)
		}
	}
	if r.id != "" {
		f := r.res.Fields().ByName(r.id)
		v.Set(f, protoreflect.ValueOfString(id))
		if t.Chance(4) {
			v.Clear(f)
		}
	}
	return v
}

// expect is what a plain update makes of a value: nil when it's to be
// rejected, false when it's not said.
func (x *c14run) expect(before proto.Message, in protoreflect.Message) (proto.Message, bool) {
	r := x.r
	if before == nil {
		return nil, true
	}
	if !in.Has(r.value) {
		return nil, false
	}
	src := in.Get(r.value).Message()
	if r.id != "" && src.Get(r.res.Fields().ByName(r.id)).String() == "" {
		return nil, true
	}
	if b, ok := src.Interface().(*traits.Brightness); ok && b.Preset != nil {
		return nil, false // presets bring their level with them
	}
	paths, masked := []string(nil), false
	if f := in.Descriptor().Fields().ByName("update_mask"); f != nil && in.Has(f) {
		paths, masked = in.Get(f).Message().Interface().(*fieldmaskpb.FieldMask).Paths, true
	}
	if masked {
		for _, p := range paths {
			if !pathIn(r.res, p) {
				return nil, true
			}
			if r.writable != nil && !covered(p, r.writable) {
				return nil, true
			}
			if fd := r.res.Fields().ByName(protoreflect.Name(p)); fd != nil && fd.IsMap() {
				return nil, false
			}
		}
		if len(paths) == 0 {
			return nil, false
		}
		for i, p := range paths { // overlapping or rivalling paths
			fd := r.res.Fields().ByName(protoreflect.Name(strings.Split(p, ".")[0]))
			for _, q := range paths[i+1:] {
				gd := r.res.Fields().ByName(protoreflect.Name(strings.Split(q, ".")[0]))
				if fd == gd || fd.ContainingOneof() != nil && fd.ContainingOneof() == gd.ContainingOneof() {
					return nil, false
				}
			}
		}
		out := clone(before)
		for _, p := range paths {
			setPath(out.ProtoReflect(), src, strings.Split(p, "."))
		}
		return out, true
	}
	if r.writable == nil {
		return clone(src.Interface()), true
	}
	out := clone(before)
	for _, p := range r.writable {
		fd := r.res.Fields().ByName(protoreflect.Name(p))
		if fd.ContainingOneof() != nil {
			return nil, false
		}
		out.ProtoReflect().Clear(fd)
		if src.Has(fd) {
			out.ProtoReflect().Set(fd, src.Get(fd))
		}
	}
	return out, true
}

func pathIn(d protoreflect.MessageDescriptor, path string) bool {
	ps := strings.Split(path, ".")
	for i, p := range ps {
		fd := d.Fields().ByName(protoreflect.Name(p))
		if fd == nil {
			return false
		}
		if i == len(ps)-1 {
			return true
		}
		if fd.Message() == nil || fd.IsList() || fd.IsMap() {
			return false
		}
		d = fd.Message()
	}
	return false
}

// apart says whether two values differ by more than a margin that is allowed
// to numbers with a fraction.
func apart(a, b proto.Message, margin float64) bool {
	if a == nil || b == nil {
		return (a == nil) != (b == nil)
	}
	if same(a, b) {
		return false
	}
	if margin == 0 {
		return true
	}
	return apartMsg(a.ProtoReflect(), b.ProtoReflect(), margin)
}

func apartMsg(a, b protoreflect.Message, margin float64) bool {
	fs := a.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		switch {
		case a.Has(fd) != b.Has(fd) && (fd.HasPresence() || fd.IsList() || fd.IsMap()):
			return true
		case fd.IsList() || fd.IsMap():
			if !a.Get(fd).Equal(b.Get(fd)) {
				return true
			}
		case fd.Message() != nil:
			if a.Has(fd) && apartMsg(a.Get(fd).Message(), b.Get(fd).Message(), margin) {
				return true
			}
		case fd.Kind() == protoreflect.FloatKind || fd.Kind() == protoreflect.DoubleKind:
			if math.Abs(a.Get(fd).Float()-b.Get(fd).Float()) > margin*1.001 {
				return true
			}
		case !a.Get(fd).Equal(b.Get(fd)):
			return true
		}
	}
	return string(a.GetUnknown()) != string(b.GetUnknown())
}

// follow opens a stream.
func (x *c14run) follow(dev *c14dev, id string, settle bool) *c14follow {
	f := x.drawFollow(dev, id)
	if settle {
		f.optional = 0
	}
	f.begin(x)
	if settle {
		x.settle()
	}
	return f
}

// drawFollow makes up a stream that isn't open yet.
func (x *c14run) drawFollow(dev *c14dev, id string) *c14follow {
	t, r := x.t, x.r
	x.n++
	f := &c14follow{n: x.n, dev: dev, id: id, at: -1, kept: map[int]bool{}, optional: math.MaxInt}
	f.in = x.request(r.pull, dev, id)
	if t.Chance(60) {
		if r.pull.in.Descriptor().Fields().ByName("read_mask") != nil {
			f.mask = x.readMask()
			setMask(f.in, "read_mask", f.mask)
		}
		if fd := r.pull.in.Descriptor().Fields().ByName("updates_only"); fd != nil && !r.seeds && t.Chance(40) {
			f.only = true
			f.in.Set(fd, protoreflect.ValueOfBool(true))
		}
		if fd := r.pull.in.Descriptor().Fields().ByName("exclude_ramping"); fd != nil && t.Chance(40) {
			f.exclude = true
			f.in.Set(fd, protoreflect.ValueOfBool(true))
		}
	}
	if t.Chance(30) {
		f.pace = drawPace(t, 500*time.Millisecond)
		t.Count("slow-reader", 1)
	}
	f.ctx = t.Ctx()
	if t.Chance(30) {
		f.ctx = metadata.AppendToOutgoingContext(f.ctx, "k", "v")
	}
	f.ctx, f.cancel = context.WithCancel(f.ctx)
	t.Cleanup(f.cancel)
	return f
}

func (f *c14follow) begin(x *c14run) {
	f.states = append(f.states, x.read(f.dev, f.id, nil))
	out := reflect.ValueOf(f.dev.clients[x.r.pull.service]).MethodByName(x.r.pull.name).Call([]reflect.Value{reflect.ValueOf(f.ctx), reflect.ValueOf(f.in.Interface())})
	if err, _ := out[1].Interface().(error); err != nil {
		x.fail("pull-failed", "%s could not be opened: %v", f, err)
	}
	x.note("open %s", f)
	recv := out[0].MethodByName("Recv")
	go func() {
		for i := 0; ; i++ {
			out := recv.Call(nil)
			if err, _ := out[1].Interface().(error); err != nil {
				f.ended, f.err = true, err
				return
			}
			f.take(x, out[0].Interface().(proto.Message))
			if f.pace != nil {
				if d := f.pace(i); d > 0 {
					time.Sleep(d)
				}
			}
		}
	}()
	x.open = append(x.open, f)
}

func (f *c14follow) take(x *c14run, m proto.Message) {
	r := m.ProtoReflect()
	cs := r.Get(r.Descriptor().Fields().ByName("changes")).List()
	for i := 0; i < cs.Len(); i++ {
		c := cs.Get(i).Message()
		e := c14event{name: c.Get(c.Descriptor().Fields().ByName("name")).String()}
		fs := c.Descriptor().Fields()
		for j := 0; j < fs.Len(); j++ {
			if fs.Get(j).Message() == x.r.res && !fs.Get(j).IsList() {
				e.value = c.Get(fs.Get(j)).Message().Interface()
				break
			}
		}
		if x.t.Logging() {
			x.note("%s received %s", f, txt(e.value))
		}
		if x.r.norm != nil && !isNil(e.value) {
			x.r.norm(e.value)
		}
		f.events = append(f.events, e)
	}
}

// rest lets a long time pass now and then, nothing is meant to come of it.
func (x *c14run) rest() {
	if x.t.Chance(2) {
		x.note("a long time passes")
		x.t.Settle(drawLong(x.t))
	}
}

// settle waits until the streams have caught up and judges what they have.
func (x *c14run) settle() {
	x.rest()
	x.t.Settle(20 * time.Second)
	for _, f := range x.open {
		if f.stopped {
			continue
		}
		if x.r.loose || rampy(x.r) {
			// the value may have gone on by itself
			f.push(x, x.read(f.dev, f.id, nil))
		}
		f.kept[len(f.states)-1] = true
		x.judge(f)
		f.optional = min(f.optional, len(f.states)-1)
		if f.last != nil {
			f.at = len(f.states) - 1 // it has caught up
		}
	}
}

func rampy(r *c14reg) bool { return r.name == "lightpb memory Brightness" }

// push records the value after something was done.
func (f *c14follow) push(x *c14run, v proto.Message) {
	f.states = append(f.states, v)
}

// must says whether the stream has to show state k after having shown last.
func (f *c14follow) must(x *c14run, k int) bool {
	if k <= f.optional {
		// it may have been opened later
		return k == f.optional && !f.only && f.at < 0 && f.states[k] != nil
	}
	v := f.states[k]
	if v == nil || !f.kept[k] {
		return false // gone before everybody could keep up
	}
	p := f.project(v)
	prev := k - 1
	for prev > 0 && !f.kept[prev] {
		prev--
	}
	if f.states[prev] != nil && !apart(p, f.project(f.states[prev]), x.r.margin) {
		return false
	}
	if f.states[prev] == nil && f.last == nil {
		return true
	}
	return f.last == nil || apart(p, f.last, x.r.margin)
}

func (x *c14run) judge(f *c14follow) {
	loose := x.r.loose || rampy(x.r)
	trace := func() string {
		var b strings.Builder
		b.WriteString("\n  the values were")
		for i, s := range f.states {
			mark := ""
			if i <= f.optional {
				mark = " (maybe before it was open)"
			}
			if s == nil {
				fmt.Fprintf(&b, "\n    none%s", mark)
			} else {
				fmt.Fprintf(&b, "\n    %s%s", txt(f.project(s)), mark)
			}
		}
		b.WriteString("\n  the stream received")
		for i, e := range f.events {
			if i == f.checked {
				b.WriteString(" (until here fine)")
			}
			b.WriteString("\n    " + txt(e.value))
		}
		if f.ended {
			fmt.Fprintf(&b, "\n  and ended with %v", f.err)
		}
		return b.String()
	}
	gone := slices.ContainsFunc(f.states, func(m proto.Message) bool { return m == nil })
	if f.ended && !(gone && x.r.id != "") {
		x.fail("stream-ended", "%s ended by itself%s", f, trace())
	}
	if f.optional == math.MaxInt {
		f.optional = len(f.states) - 1 // it's open by now
	}
	if loose {
		x.judgeLoosely(f, trace)
		return
	}
events:
	for f.checked < len(f.events) {
		e := f.events[f.checked]
		if e.name != f.dev.name {
			x.fail("wrong-name", "%s received a change of %q%s", f, e.name, trace())
		}
		if e.value == nil || isNil(e.value) {
			x.fail("wrong-event", "%s received a change without a value%s", f, trace())
		}
		if f.at >= 0 && f.states[f.at] != nil && same(e.value, f.project(f.states[f.at])) {
			f.last = e.value
			f.checked++ // again
			continue
		}
		for k := f.at + 1; k < len(f.states); k++ {
			if f.states[k] != nil && same(e.value, f.project(f.states[k])) {
				f.at, f.last = k, e.value
				f.checked++
				continue events
			}
			if f.must(x, k) && !(f.at < 0 && k <= f.optional) {
				x.fail("missing-event", "%s doesn't show %s, but goes on with %s%s", f, txt(f.project(f.states[k])), txt(e.value), trace())
			}
		}
		x.fail("wrong-event", "%s received %s, which wasn't the value%s", f, txt(e.value), trace())
	}
	if f.ended {
		return
	}
	for k := f.at + 1; k < len(f.states); k++ {
		if k < f.optional {
			continue
		}
		if f.must(x, k) {
			class := "missing-event"
			if f.at < 0 && k <= f.optional {
				class = "no-seed"
			}
			x.fail(class, "%s doesn't show %s%s", f, txt(f.project(f.states[k])), trace())
		}
	}
	if f.only && len(f.states) == 1 && len(f.events) > 0 {
		x.fail("seeded", "%s received the current value%s", f, trace())
	}
	if now := f.states[len(f.states)-1]; now != nil && f.last != nil && apart(f.last, f.project(now), x.r.margin) {
		x.fail("wrong-event", "%s ends with %s but the value is %s%s", f, txt(f.last), txt(f.project(now)), trace())
	}
}

// judgeLoosely is for when streams show steps on the way to a value.
func (x *c14run) judgeLoosely(f *c14follow, trace func() string) {
	for ; f.checked < len(f.events); f.checked++ {
		e := f.events[f.checked]
		if e.name != f.dev.name {
			x.fail("wrong-name", "%s received a change of %q%s", f, e.name, trace())
		}
		if e.value == nil || isNil(e.value) {
			x.fail("wrong-event", "%s received a change without a value%s", f, trace())
		}
		f.last = e.value
	}
	if f.only && f.last != nil && len(f.states) == 2 && f.optional == 0 && !apart(f.states[0], f.states[1], 0) {
		x.fail("seeded", "%s received the current value%s", f, trace())
	}
	now := f.states[len(f.states)-1]
	switch {
	case now == nil:
	case f.last != nil:
		if apart(f.last, f.project(now), x.r.margin) {
			x.fail("missing-event", "%s ends with %s but the value is %s%s", f, txt(f.last), txt(f.project(now)), trace())
		}
	case !f.only:
		x.fail("no-seed", "%s doesn't show %s%s", f, txt(f.project(now)), trace())
	default:
		for i := f.optional + 1; i < len(f.states); i++ {
			if f.kept[i] && apart(f.project(f.states[f.optional]), f.project(f.states[i]), x.r.margin) {
				x.fail("missing-event", "%s doesn't show %s%s", f, txt(f.project(f.states[i])), trace())
			}
		}
	}
}

func (x *c14run) stop(f *c14follow) {
	x.note("cancel %s", f)
	x.t.Count("cancel", 1)
	f.stopped = true
	f.cancel()
}

// written tells the streams of an item about a value it has now.
func (x *c14run) written(dev *c14dev, id string, v proto.Message) {
	for _, f := range x.open {
		if f.dev == dev && f.id == id && !f.stopped {
			f.push(x, v)
		}
	}
}

func (x *c14run) checkGet(dev *c14dev, id string, want proto.Message, what string) {
	if got := x.read(dev, id, nil); apart(want, got, 0) {
		x.fail("not-read-back", "%s\n  Get returns %s\n  instead of  %s", what, txtOr(got), txtOr(want))
	}
	for i := x.t.Int(3); i > 0; i-- {
		x.masked(dev, id, want)
	}
}

func txtOr(m proto.Message) string {
	if m == nil {
		return "nothing"
	}
	return txt(m)
}

func (x *c14run) masked(dev *c14dev, id string, full proto.Message) {
	mask := x.readMask()
	if mask == nil {
		return
	}
	got := x.read(dev, id, mask)
	var want proto.Message
	if full != nil {
		want = projectMask(full, mask)
	}
	if apart(want, got, 0) {
		x.fail("not-a-projection", "Get with the mask %v\n  returns    %s\n  instead of %s\n  of         %s", mask.Paths, txtOr(got), txtOr(want), txtOr(full))
	}
}

func (x *c14run) doUpdate(dev *c14dev, id string, ramps bool) {
	t, r := x.t, x.r
	in, plain := x.drawUpdate(dev, id, ramps)
	before := x.read(dev, id, nil)
	sent := clone(in.Interface()).ProtoReflect()
	out, err := x.call(dev, r.update, in.Interface())
	if err != nil {
		x.note("%s %s fails: %v", r.update.name, txt(sent.Interface()), err)
		if code(err) == codes.Unimplemented {
			x.fail("unimplemented", "%s: %v", r.update.name, err)
		}
		t.Count("rejected-update", 1)
		if after := x.read(dev, id, nil); apart(before, after, 0) {
			x.fail("rejected-but-changed", "%s failed but the value changed\n  from %s\n  to   %s", r.update.name, txtOr(before), txtOr(after))
		}
		if plain {
			if want, ok := x.expect(before, sent); ok && want != nil {
				x.fail("refused", "%s was rejected, it would make the value %s", r.update.name, txt(want))
			}
		}
		return
	}
	x.note("%s %s = %s", r.update.name, txt(sent.Interface()), txt(out))
	if before == nil || apart(before, out, r.margin) {
		t.Nontrivial()
	}
	if plain {
		if want, ok := x.expect(before, sent); ok {
			if want == nil {
				x.fail("accepted", "%s should have been rejected, the value was %s", r.update.name, txtOr(before))
			}
			if apart(want, out, 0) {
				x.fail("wrong-update", "%s\n  returned   %s\n  instead of %s\n  before it was %s", r.update.name, txt(out), txt(want), txtOr(before))
			}
		}
	}
	x.checkGet(dev, id, out, "after "+r.update.name+" succeeded")
	x.written(dev, id, clone(out))
	if !rampy(r) {
		return
	}
	// the steps haven't started yet
	t.Settle(10 * time.Millisecond)
	for _, f := range x.open {
		if f.dev != dev || f.stopped || f.pace != nil || f.optional == math.MaxInt || !apart(f.project(before), f.project(out), r.margin) {
			continue
		}
		if n := len(f.events); n == 0 || !same(f.events[n-1].value, f.project(out)) {
			x.fail("missing-event", "%s doesn't show %s", f, txt(f.project(out)))
		}
	}
}

func (x *c14run) doOther(dev *c14dev) {
	if len(x.r.others) == 0 {
		return
	}
	t := x.t
	m := core.Choose(t, x.r.others...)
	in := drawRequest(t, m)
	setName(in, dev.name)
	if m.name == "CreateHail" && in.(*traits.CreateHailRequest).Hail == nil {
		in.(*traits.CreateHailRequest).Hail = &traits.Hail{}
	}
	if m.name == "CreateMode" {
		in.ProtoReflect().Get(in.ProtoReflect().Descriptor().Fields().ByName("mode")).Message().Clear(in.ProtoReflect().Descriptor().Fields().ByName("mode").Message().Fields().ByName("id"))
	}
	sent := txt(in)
	out, err := x.call(dev, m, in)
	if err != nil {
		x.note("%s %s fails: %v", m.name, sent, err)
	} else {
		x.note("%s %s = %s", m.name, sent, txt(out))
	}
	if x.r.id != "" && err == nil && out.ProtoReflect().Descriptor() == x.r.res {
		id := out.ProtoReflect().Get(x.r.res.Fields().ByName(x.r.id)).String()
		if id != "" && !slices.Contains(dev.ids, id) {
			dev.ids = append(dev.ids, id)
		}
	}
	seen := map[string]bool{}
	for _, f := range x.open {
		if f.dev == dev && !seen[f.id] {
			seen[f.id] = true
			x.written(dev, f.id, x.read(dev, f.id, nil))
		}
	}
}

func c14Register(t *core.T) {
	r := core.Choose(t, c14regs...)
	x := newC14(t, r)
	t.Repeat(2, 14, func(int) {
		dev := core.Choose(t, x.devs...)
		id := x.drawID(dev)
		if n := len(x.open); n > 0 && t.Chance(60) {
			dev, id = x.open[n-1].dev, x.open[n-1].id
		}
		active := 0
		for _, f := range x.open {
			if !f.stopped {
				active++
			}
		}
		switch t.Weighted(50, 20, 8, 12, 10) {
		case 0:
			x.doUpdate(dev, id, true)
			if rampy(r) {
				t.Count("ramp", 1)
				if t.Chance(50) {
					x.t.Settle(time.Duration(t.Int(5)) * 100 * time.Millisecond)
				}
				x.settle()
			}
		case 1:
			if active < 2 {
				x.follow(dev, id, t.Chance(75) || rampy(r))
			}
		case 2:
			for _, f := range x.open {
				if !f.stopped {
					x.stop(f)
					break
				}
			}
		case 3:
			x.doOther(dev)
		case 4:
			x.masked(dev, id, x.read(dev, id, nil))
		}
		if t.Chance(50) {
			x.settle()
		}
	})
	x.settle()
	x.finish()
}

// c14Concurrent: the register stays one register when several clients use it.
func c14Concurrent(t *core.T) {
	r := core.Choose(t, c14regs...)
	for t.Stalls() && r.id == "" { // writes to a value give up on a stream that's stalled for 5 s
		r = core.Choose(t, c14regs...)
	}
	x := newC14(t, r)
	dev := x.devs[0]
	id := ""
	if r.id != "" {
		id = core.Choose(t, "a", "b")
	}
	if r.id != "" && x.read(dev, id, nil) == nil {
		return
	}
	for i := t.Int(3); i > 0; i-- {
		x.follow(dev, id, false)
	}
	t.Settle(time.Hour)
	for _, f := range x.open {
		x.judge(f)
	}
	initial := x.read(dev, id, nil)
	var ops []*ruleOp
	responses := map[*ruleOp]proto.Message{}
	clients := t.Range(2, 3)
	max := []int{0, 0, 4, 3}[clients]
	var scripts [][]*ruleOp
	for c := 0; c < clients; c++ {
		var s []*ruleOp
		t.Repeat(1, max, func(int) {
			o := &ruleOp{pause: time.Duration(t.Int(3)) * tick}
			if t.Chance(30) {
				var got proto.Message
				o.name, o.read = "Get", true
				o.run = func() { got = x.read(dev, id, nil) }
				o.ret = func() string { return txtOr(got) }
				o.step = func(s any) (any, string) {
					if txtOr(got) != s.(string) {
						return nil, "not the value"
					}
					return s, ""
				}
			} else {
				in, _ := x.drawUpdate(dev, id, false)
				m := in.Interface()
				var out proto.Message
				o.name = r.update.name + " " + txt(m)
				o.run = func() {
					out, o.err = x.call(dev, r.update, m)
					if o.err == nil {
						responses[o] = clone(out)
					}
				}
				o.ret = func() string { return txtOr(out) }
				o.step = func(s any) (any, string) {
					if o.err != nil {
						return s, ""
					}
					return txt(out), ""
				}
			}
			s = append(s, o)
		})
		scripts = append(scripts, s)
	}
	var late []*c14follow
	for i := t.Int(3); i > 0; i-- {
		f, wait := x.drawFollow(dev, id), time.Duration(t.Int(5))*tick
		late = append(late, f)
		go at(wait, func() { f.begin(x) })
	}
	left := clients
	for _, s := range scripts {
		go func() {
			for _, o := range s {
				if o.pause > 0 {
					time.Sleep(o.pause)
				}
				ops = append(ops, o)
				o.inv = t.Seq()
				o.run()
				o.resp, o.done = t.Seq(), true
				x.note("%s", o)
			}
			left--
		}()
	}
	t.Settle(time.Hour)
	if left > 0 {
		x.fail("stuck", "%d clients have not returned\n%s", left, t.Stacks())
	}
	for i, a := range ops {
		for _, b := range ops[i+1:] {
			if b.inv < a.resp && !a.read && !b.read {
				t.Nontrivial()
				t.Count("concurrent-update", 1)
			}
		}
	}
	final := x.read(dev, id, nil)
	l := &linearise{ops: ops, key: func(s any) string { return s.(string) }, final: txtOr(final), seen: map[string]bool{}}
	if !r.single && !l.search(txtOr(initial), 0) {
		x.fail("not-a-register", "no order of these calls explains the results (deepest: %d calls, then %s)\n  it was %s\n  and is %s", l.deep, l.why, txtOr(initial), txtOr(final))
	}
	for _, f := range x.open {
		if f.ended {
			x.fail("stream-ended", "%s ended by itself: %v", f, f.err)
		}
		for _, e := range f.events {
			if e.name != dev.name {
				x.fail("wrong-name", "%s received a change of %q", f, e.name)
			}
			ok := same(e.value, f.project(initial))
			for _, m := range responses {
				ok = ok || same(e.value, f.project(m))
			}
			if !ok && !r.single {
				x.fail("wrong-event", "%s received %s, which was never the value", f, txt(e.value))
			}
		}
		// values soon overtaken may go unseen, the last one not
		switch {
		case len(f.events) > 0:
		case slices.Contains(late, f):
			if !f.only {
				x.fail("no-seed", "%s never received anything", f)
			}
		case apart(f.project(initial), f.project(final), r.margin):
			x.fail("missing-event", "%s never received %s", f, txt(f.project(final)))
		}
		if n := len(f.events); n > 0 && apart(f.events[n-1].value, f.project(final), r.margin) {
			x.fail("wrong-event", "%s ends with %s but the value is %s", f, txt(f.events[n-1].value), txt(f.project(final)))
		}
		f.cancel()
	}
	t.Settle(time.Hour)
}
