package props

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// The servers of the trait models, driven through their service descriptors.

// rpc is one method of a service.
type rpc struct {
	service string
	name    string // short
	full    string
	in, out protoreflect.MessageType
	client  bool // client streaming
	server  bool // server streaming
	unary   *grpc.MethodDesc
	stream  *grpc.StreamDesc
}

func (m *rpc) newIn() proto.Message  { return m.in.New().Interface() }
func (m *rpc) newOut() proto.Message { return m.out.New().Interface() }

// reads says whether the method only reads, by the naming convention of the
// API.
func (m *rpc) reads() bool {
	for _, p := range []string{"Get", "List", "Pull", "Describe"} {
		if strings.HasPrefix(m.name, p) {
			return true
		}
	}
	return false
}

func messageType(d protoreflect.MessageDescriptor) protoreflect.MessageType {
	mt, err := protoregistry.GlobalTypes.FindMessageByName(d.FullName())
	if err != nil {
		panic(err)
	}
	return mt
}

// rpcsOf lists the methods of a service, as the proto descriptor has them.
func rpcsOf(sd *grpc.ServiceDesc) []*rpc {
	d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(sd.ServiceName))
	if err != nil {
		panic(err)
	}
	var out []*rpc
	ms := d.(protoreflect.ServiceDescriptor).Methods()
	for i := 0; i < ms.Len(); i++ {
		md := ms.Get(i)
		m := &rpc{service: sd.ServiceName, name: string(md.Name()), full: "/" + sd.ServiceName + "/" + string(md.Name()),
			in: messageType(md.Input()), out: messageType(md.Output()), client: md.IsStreamingClient(), server: md.IsStreamingServer()}
		for j := range sd.Methods {
			if sd.Methods[j].MethodName == m.name {
				m.unary = &sd.Methods[j]
			}
		}
		for j := range sd.Streams {
			if sd.Streams[j].StreamName == m.name {
				m.stream = &sd.Streams[j]
			}
		}
		if m.unary == nil && m.stream == nil {
			panic("no descriptor for " + m.full)
		}
		out = append(out, m)
	}
	return out
}

// callUnary calls the Go method itself: the request isn't copied.
func callUnary(srv any, m *rpc, ctx context.Context, in proto.Message) (proto.Message, error) {
	out := reflect.ValueOf(srv).MethodByName(m.name).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(in)})
	err, _ := out[1].Interface().(error)
	res, _ := out[0].Interface().(proto.Message)
	if isNil(res) {
		return nil, err
	}
	return res, err
}

// sendStream is a server stream whose messages go to a function.
type sendStream struct {
	ctx  context.Context
	in   proto.Message
	send func(m proto.Message) error
	read bool
}

func (s *sendStream) SetHeader(metadata.MD) error  { return nil }
func (s *sendStream) SendHeader(metadata.MD) error { return nil }
func (s *sendStream) SetTrailer(metadata.MD)       {}
func (s *sendStream) Context() context.Context     { return s.ctx }
func (s *sendStream) SendMsg(m any) error          { return s.send(m.(proto.Message)) }
func (s *sendStream) RecvMsg(m any) error {
	if s.read {
		return io.EOF
	}
	s.read = true
	proto.Merge(m.(proto.Message), s.in)
	return nil
}

// callStream runs a server streaming method.
func callStream(srv any, m *rpc, ctx context.Context, in proto.Message, send func(proto.Message) error) error {
	return m.stream.Handler(srv, &sendStream{ctx: ctx, in: in, send: send})
}

type serverInst struct {
	name    string
	srv     any
	methods []*rpc
}

func (s *serverInst) String() string { return s.name }

func (s *serverInst) method(name string) *rpc {
	for _, m := range s.methods {
		if m.name == name {
			return m
		}
	}
	return nil
}

type serverCase struct {
	name  string
	descs []*grpc.ServiceDesc
	make  func(t *core.T) any
}

var serverCases = []serverCase{
	{"accesspb", []*grpc.ServiceDesc{&traits.AccessApi_ServiceDesc}, func(t *core.T) any { return accesspb.NewModelServer(accesspb.NewModel()) }},
	{"airqualitysensorpb", []*grpc.ServiceDesc{&traits.AirQualitySensorApi_ServiceDesc}, func(t *core.T) any {
		return airqualitysensorpb.NewModelServer(airqualitysensorpb.NewModel())
	}},
	{"airtemperaturepb", []*grpc.ServiceDesc{&traits.AirTemperatureApi_ServiceDesc}, func(t *core.T) any {
		return airtemperaturepb.NewModelServer(airtemperaturepb.NewModel())
	}},
	{"airtemperaturepb memory", []*grpc.ServiceDesc{&traits.AirTemperatureApi_ServiceDesc}, func(t *core.T) any { return airtemperaturepb.NewMemoryDevice() }},
	{"bookingpb", []*grpc.ServiceDesc{&traits.BookingApi_ServiceDesc}, func(t *core.T) any {
		return bookingpb.NewModelServer(bookingpb.NewModel(bookingpb.WithInitialBooking(&traits.Booking{Id: "a", Title: "one"})))
	}},
	{"countpb memory", []*grpc.ServiceDesc{&traits.CountApi_ServiceDesc}, func(t *core.T) any { return countpb.NewMemoryDevice() }},
	{"electricpb", []*grpc.ServiceDesc{&traits.ElectricApi_ServiceDesc, &electricpb.MemorySettingsApi_ServiceDesc}, func(t *core.T) any {
		return electricpb.NewModelServer(electricpb.NewModel(resource.WithRNG(rand.New(rand.NewSource(1))), electricpb.WithInitialMode(&traits.ElectricMode{Id: "a", Title: "A", Normal: true}, &traits.ElectricMode{Id: "b", Title: "B"})))
	}},
	{"emergencypb memory", []*grpc.ServiceDesc{&traits.EmergencyApi_ServiceDesc}, func(t *core.T) any { return emergencypb.NewMemoryDevice() }},
	{"energystoragepb", []*grpc.ServiceDesc{&traits.EnergyStorageApi_ServiceDesc}, func(t *core.T) any {
		return energystoragepb.NewModelServer(energystoragepb.NewModel())
	}},
	{"enterleavesensorpb", []*grpc.ServiceDesc{&traits.EnterLeaveSensorApi_ServiceDesc}, func(t *core.T) any {
		return enterleavesensorpb.NewModelServer(enterleavesensorpb.NewModel())
	}},
	{"fanspeedpb", []*grpc.ServiceDesc{&traits.FanSpeedApi_ServiceDesc}, func(t *core.T) any { return fanspeedpb.NewModelServer(fanspeedpb.NewModel()) }},
	{"hailpb", []*grpc.ServiceDesc{&traits.HailApi_ServiceDesc}, func(t *core.T) any {
		return hailpb.NewModelServer(hailpb.NewModel(resource.WithRNG(rand.New(rand.NewSource(1)))))
	}},
	{"lightpb", []*grpc.ServiceDesc{&traits.LightApi_ServiceDesc, &traits.LightInfo_ServiceDesc}, func(t *core.T) any {
		return lightpb.NewModelServer(lightpb.NewModel(lightpb.WithPreset(25, &traits.LightPreset{Name: "a", Title: "A"}), lightpb.WithPreset(75, &traits.LightPreset{Name: "b", Title: "B"})))
	}},
	{"lightpb memory", []*grpc.ServiceDesc{&traits.LightApi_ServiceDesc}, func(t *core.T) any { return lightpb.NewMemoryDevice() }},
	{"metadatapb", []*grpc.ServiceDesc{&traits.MetadataApi_ServiceDesc}, func(t *core.T) any { return metadatapb.NewModelServer(metadatapb.NewModel()) }},
	{"metadatapb collection", []*grpc.ServiceDesc{&traits.MetadataApi_ServiceDesc}, func(t *core.T) any {
		return metadatapb.NewCollectionServer(metadatapb.NewCollection(resource.WithInitialRecord("a", &traits.Metadata{Name: "a", Traits: []*traits.TraitMetadata{{Name: "t1"}}})))
	}},
	{"meterpb", []*grpc.ServiceDesc{&traits.MeterApi_ServiceDesc}, func(t *core.T) any { return meterpb.NewModelServer(meterpb.NewModel()) }},
	{"modepb", []*grpc.ServiceDesc{&traits.ModeApi_ServiceDesc}, func(t *core.T) any { return modepb.NewModelServer(modepb.NewModel()) }},
	{"occupancysensorpb", []*grpc.ServiceDesc{&traits.OccupancySensorApi_ServiceDesc}, func(t *core.T) any {
		return occupancysensorpb.NewModelServer(occupancysensorpb.NewModel())
	}},
	{"onoffpb", []*grpc.ServiceDesc{&traits.OnOffApi_ServiceDesc}, func(t *core.T) any { return onoffpb.NewModelServer(onoffpb.NewModel()) }},
	{"openclosepb", []*grpc.ServiceDesc{&traits.OpenCloseApi_ServiceDesc, &traits.OpenCloseInfo_ServiceDesc}, func(t *core.T) any {
		return openclosepb.NewModelServer(openclosepb.NewModel(
			openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "a", Title: "A"}, &traits.OpenClosePosition{OpenPercent: 50}),
			openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "b", Title: "B"}, &traits.OpenClosePosition{Direction: traits.OpenClosePosition_UP, OpenPercent: 100}, &traits.OpenClosePosition{Direction: traits.OpenClosePosition_DOWN, OpenPercent: 25}),
		))
	}},
	{"parentpb", []*grpc.ServiceDesc{&traits.ParentApi_ServiceDesc}, func(t *core.T) any {
		return parentpb.NewModelServer(parentpb.NewModel(parentpb.WithInitialChildren(&traits.Child{Name: "a", Traits: []*traits.Trait{{Name: "t1"}}})))
	}},
	{"presspb", []*grpc.ServiceDesc{&traits.PressApi_ServiceDesc}, func(t *core.T) any { return presspb.NewModelServer(presspb.NewModel(traits.PressedState_UNPRESSED)) }},
	{"publicationpb", []*grpc.ServiceDesc{&traits.PublicationApi_ServiceDesc}, func(t *core.T) any {
		return publicationpb.NewModelServer(publicationpb.NewModel(resource.WithRNG(rand.New(rand.NewSource(1))), publicationpb.WithInitialPublication(&traits.Publication{Id: "a", Body: []byte("one"), Audience: &traits.Publication_Audience{Name: "x"}})))
	}},
	{"speakerpb memory", []*grpc.ServiceDesc{&traits.SpeakerApi_ServiceDesc}, func(t *core.T) any { return speakerpb.NewMemoryDevice(&types.AudioLevel{Gain: 50}) }},
	{"vendingpb", []*grpc.ServiceDesc{&traits.VendingApi_ServiceDesc}, func(t *core.T) any {
		return vendingpb.NewModelServer(vendingpb.NewModel(
			vendingpb.WithInitialConsumable(&traits.Consumable{Name: "a"}),
			vendingpb.WithInitialStock(&traits.Consumable_Stock{Consumable: "a", Used: &traits.Consumable_Quantity{Unit: traits.Consumable_LITER}, Remaining: &traits.Consumable_Quantity{Unit: traits.Consumable_LITER, Amount: 10}})))
	}},
	{"wastepb", []*grpc.ServiceDesc{&traits.WasteApi_ServiceDesc}, func(t *core.T) any { return wastepb.NewModelServer(wastepb.NewModel()) }},
}

func newServer(t *core.T) *serverInst {
	return makeServer(t, &serverCases[t.Int(len(serverCases))])
}

func makeServer(t *core.T, c *serverCase) *serverInst {
	s := &serverInst{name: c.name, srv: c.make(t)}
	for _, d := range c.descs {
		s.methods = append(s.methods, rpcsOf(d)...)
	}
	return s
}

// resourceOf is the message a method is about: the one written by an update,
// returned by a read or carried by the change of a stream.
func resourceOf(m *rpc) protoreflect.MessageDescriptor {
	d := m.out.Descriptor()
	if !m.server {
		if strings.HasPrefix(m.name, "List") {
			fs := d.Fields()
			for i := 0; i < fs.Len(); i++ {
				if fd := fs.Get(i); fd.IsList() && fd.Message() != nil {
					return fd.Message()
				}
			}
		}
		return d
	}
	if c := d.Fields().ByName("changes"); c != nil {
		fs := c.Message().Fields()
		for i := 0; i < fs.Len(); i++ {
			if f := fs.Get(i); f.Message() != nil && !strings.HasPrefix(string(f.Message().FullName()), "google.protobuf.") {
				return f.Message()
			}
		}
	}
	return d
}

// drawMask draws a field mask for messages of a type.
func drawMask(t *core.T, d protoreflect.MessageDescriptor, nested bool) *fieldmaskpb.FieldMask {
	m := &fieldmaskpb.FieldMask{}
	fs := d.Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !t.Chance(50) {
			continue
		}
		p := string(fd.Name())
		if nested && fd.Message() != nil && !fd.IsList() && !fd.IsMap() && fd.Message().Fields().Len() > 0 && t.Chance(40) {
			p += "." + string(fd.Message().Fields().Get(t.Int(fd.Message().Fields().Len())).Name())
		}
		m.Paths = append(m.Paths, p)
	}
	return m
}

// drawRequest draws a request: small names and ids, masks that suit the
// resource.
func drawRequest(t *core.T, m *rpc) proto.Message {
	in := m.newIn()
	r := in.ProtoReflect()
	fs := r.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		switch {
		case fd.Message() != nil && fd.Message().FullName() == "google.protobuf.FieldMask":
			if t.Chance(30) {
				d := resourceOf(m)
				if fd.Name() == "update_mask" {
					d = writtenBy(r.Descriptor(), d)
				}
				r.Set(fd, protoreflect.ValueOfMessage(drawMask(t, d, true).ProtoReflect()))
			}
		case fd.Kind() == protoreflect.StringKind && !fd.IsList() && !fd.IsMap():
			s := core.Choose(t, modelIDs...)
			switch fd.Name() {
			case "page_token", "version":
				s = ""
			}
			r.Set(fd, protoreflect.ValueOfString(s))
		case fd.Name() == "page_size":
			r.Set(fd, protoreflect.ValueOfInt32(int32(t.Int(4))))
		case fd.Message() != nil && !fd.IsList() && !fd.IsMap() && fd.ContainingOneof() == nil:
			{
				v := r.Mutable(fd).Message()
				fillMsg(t, v, 50, 2)
				for _, id := range []string{"id", "name", "consumable"} {
					if f := v.Descriptor().Fields().ByName(protoreflect.Name(id)); f != nil && f.Kind() == protoreflect.StringKind {
						s := ""
						if !strings.HasPrefix(m.name, "Create") || t.Chance(20) {
							s = core.Choose(t, modelIDs...)
						}
						v.Set(f, protoreflect.ValueOfString(s))
					}
				}
			}
		default:
			if t.Chance(35) {
				setField(t, r, fd, 50, 2)
			}
		}
	}
	shortTweens(t, r)
	return in
}

// shortTweens keeps ramps under a second.
func shortTweens(t *core.T, r protoreflect.Message) {
	r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() == nil || fd.IsList() || fd.IsMap() {
			return true
		}
		if tw, ok := v.Message().Interface().(*types.Tween); ok && tw.TotalDuration != nil {
			tw.TotalDuration = durationpb.New(time.Duration(t.Int(4)) * 200 * time.Millisecond)
			return true
		}
		shortTweens(t, v.Message())
		return true
	})
}

// writtenBy finds the field of a request that holds what's written.
func writtenBy(d, res protoreflect.MessageDescriptor) protoreflect.MessageDescriptor {
	fs := d.Fields()
	for i := 0; i < fs.Len(); i++ {
		if f := fs.Get(i); f.Message() != nil && f.Message().FullName() == res.FullName() {
			return res
		}
	}
	for i := 0; i < fs.Len(); i++ {
		if f := fs.Get(i); f.Message() != nil && !strings.HasPrefix(string(f.Message().FullName()), "google.protobuf.") {
			return f.Message()
		}
	}
	return res
}

// snapshot reads everything a server shows without masks and filters.
func (s *serverInst) snapshot() string {
	var b strings.Builder
	for _, m := range s.methods {
		if m.server || !m.reads() {
			continue
		}
		ids := []string{""}
		in := m.newIn()
		idf := in.ProtoReflect().Descriptor().Fields().ByName("id")
		if idf == nil {
			idf = in.ProtoReflect().Descriptor().Fields().ByName("consumable")
		}
		if idf == nil && strings.Contains(s.name, "collection") {
			idf = in.ProtoReflect().Descriptor().Fields().ByName("name")
		}
		if idf != nil && idf.Kind() == protoreflect.StringKind {
			ids = modelIDs
		}
		for _, id := range ids {
			in := m.newIn()
			r := in.ProtoReflect()
			if f := r.Descriptor().Fields().ByName("name"); f != nil && f.Kind() == protoreflect.StringKind {
				r.Set(f, protoreflect.ValueOfString("dev"))
			}
			if id != "" {
				r.Set(idf, protoreflect.ValueOfString(id))
			}
			if f := r.Descriptor().Fields().ByName("page_size"); f != nil {
				r.Set(f, protoreflect.ValueOfInt32(1000))
			}
			out, err := callUnary(s.srv, m, context.Background(), in)
			if err != nil {
				fmt.Fprintf(&b, "%s(%s): %v\n", m.name, id, code(err))
				continue
			}
			fmt.Fprintf(&b, "%s(%s): %s\n", m.name, id, txt(out))
		}
	}
	ls := strings.SplitAfter(b.String(), "\n")
	sort.Strings(ls)
	return strings.Join(ls, "")
}
