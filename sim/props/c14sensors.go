package props

import (
	"time"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// c14sensor is a resource that is read and followed through RPCs, and written
// by whoever owns the model.
type c14sensor struct {
	reg   *c14reg
	make  func(t *core.T) (srv any, write func(t *core.T, v proto.Message) (proto.Message, error))
	value proto.Message
}

func (s *c14sensor) draw(t *core.T) proto.Message {
	v := s.value.ProtoReflect().New()
	fillMsg(t, v, core.Choose(t, 20, 45, 80), 2)
	if s.reg.margin >= 0.1 {
		coarse(v)
	}
	return v.Interface()
}

// coarse keeps times further apart than a tolerance of a second.
func coarse(m protoreflect.Message) {
	switch m := m.Interface().(type) {
	case *timestamppb.Timestamp:
		m.Seconds, m.Nanos = m.Seconds%1000*10, 0
		return
	case *durationpb.Duration:
		m.Seconds, m.Nanos = m.Seconds%1000*10, 0
		return
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
			coarse(v.Message())
		}
		return true
	})
}

func sensor[M any, V proto.Message](model func() M, server func(M) any, update func(M, V) (V, error)) func(t *core.T) (any, func(*core.T, proto.Message) (proto.Message, error)) {
	return func(t *core.T) (any, func(*core.T, proto.Message) (proto.Message, error)) {
		m := model()
		return server(m), func(t *core.T, v proto.Message) (proto.Message, error) {
			out, err := update(m, v.(V))
			if err != nil {
				return nil, err
			}
			return out, nil
		}
	}
}

var c14sensors = func() []*c14sensor {
	reg := func(d *grpc.ServiceDesc, get, pull string, v proto.Message) *c14sensor {
		r := &c14reg{name: d.ServiceName, sc: &serverCase{name: d.ServiceName, descs: []*grpc.ServiceDesc{d}}, res: v.ProtoReflect().Descriptor()}
		for _, m := range rpcsOf(d) {
			switch m.name {
			case get:
				r.get = m
			case pull:
				r.pull = m
			}
		}
		return &c14sensor{reg: r, value: v}
	}
	of := func(d *grpc.ServiceDesc, get, pull string, v proto.Message, make func(t *core.T) (any, func(*core.T, proto.Message) (proto.Message, error))) *c14sensor {
		s := reg(d, get, pull, v)
		s.make = make
		return s
	}
	out := []*c14sensor{
		of(&traits.AccessApi_ServiceDesc, "GetLastAccessAttempt", "PullAccessAttempts", &traits.AccessAttempt{}, sensor(
			func() *accesspb.Model { return accesspb.NewModel() },
			func(m *accesspb.Model) any { return accesspb.NewModelServer(m) },
			func(m *accesspb.Model, v *traits.AccessAttempt) (*traits.AccessAttempt, error) {
				return m.UpdateLastAccessAttempt(v)
			})),
		of(&traits.AirQualitySensorApi_ServiceDesc, "GetAirQuality", "PullAirQuality", &traits.AirQuality{}, sensor(
			func() *airqualitysensorpb.Model { return airqualitysensorpb.NewModel() },
			func(m *airqualitysensorpb.Model) any { return airqualitysensorpb.NewModelServer(m) },
			func(m *airqualitysensorpb.Model, v *traits.AirQuality) (*traits.AirQuality, error) {
				return m.UpdateAirQuality(v)
			})),
		of(&traits.EnergyStorageApi_ServiceDesc, "GetEnergyLevel", "PullEnergyLevel", &traits.EnergyLevel{}, sensor(
			func() *energystoragepb.Model { return energystoragepb.NewModel() },
			func(m *energystoragepb.Model) any { return energystoragepb.NewModelServer(m) },
			func(m *energystoragepb.Model, v *traits.EnergyLevel) (*traits.EnergyLevel, error) {
				return m.UpdateEnergyLevel(v)
			})),
		of(&traits.EnterLeaveSensorApi_ServiceDesc, "GetEnterLeaveEvent", "PullEnterLeaveEvents", &traits.EnterLeaveEvent{}, sensor(
			func() *enterleavesensorpb.Model { return enterleavesensorpb.NewModel() },
			func(m *enterleavesensorpb.Model) any { return enterleavesensorpb.NewModelServer(m) },
			func(m *enterleavesensorpb.Model, v *traits.EnterLeaveEvent) (*traits.EnterLeaveEvent, error) {
				if err := m.CreateEnterLeaveEvent(v); err != nil {
					return nil, err
				}
				return m.GetEnterLeaveEvent()
			})),
		of(&traits.MetadataApi_ServiceDesc, "GetMetadata", "PullMetadata", &traits.Metadata{}, sensor(
			func() *metadatapb.Model { return metadatapb.NewModel() },
			func(m *metadatapb.Model) any { return metadatapb.NewModelServer(m) },
			func(m *metadatapb.Model, v *traits.Metadata) (*traits.Metadata, error) {
				return m.UpdateMetadata(v)
			})),
		of(&traits.MetadataApi_ServiceDesc, "GetMetadata", "PullMetadata", &traits.Metadata{}, sensor(
			func() *metadatapb.Collection {
				c := metadatapb.NewCollection()
				for _, name := range c14names {
					if _, err := c.UpdateMetadata(name, &traits.Metadata{Name: "other"}, resource.WithCreateIfAbsent()); err != nil {
						panic(err)
					}
				}
				return c
			},
			func(c *metadatapb.Collection) any { return metadatapb.NewCollectionServer(c) },
			func(c *metadatapb.Collection, v *traits.Metadata) (out *traits.Metadata, err error) {
				for _, name := range c14names {
					if out, err = c.UpdateMetadata(name, v); err != nil {
						return nil, err
					}
				}
				return out, nil
			})),
		of(&traits.MeterApi_ServiceDesc, "GetMeterReading", "PullMeterReadings", &traits.MeterReading{}, sensor(
			func() *meterpb.Model { return meterpb.NewModel() },
			func(m *meterpb.Model) any { return meterpb.NewModelServer(m) },
			func(m *meterpb.Model, v *traits.MeterReading) (*traits.MeterReading, error) {
				return m.UpdateMeterReading(v)
			})),
		of(&traits.OccupancySensorApi_ServiceDesc, "GetOccupancy", "PullOccupancy", &traits.Occupancy{}, sensor(
			func() *occupancysensorpb.Model { return occupancysensorpb.NewModel() },
			func(m *occupancysensorpb.Model) any { return occupancysensorpb.NewModelServer(m) },
			func(m *occupancysensorpb.Model, v *traits.Occupancy) (*traits.Occupancy, error) {
				return m.SetOccupancy(v)
			})),
	}
	for _, s := range out {
		if s.value.ProtoReflect().Descriptor().Name() == "EnterLeaveEvent" {
			// the first of a stream says no more than the totals
			s.reg.norm = func(m proto.Message) {
				e := m.(*traits.EnterLeaveEvent)
				e.Direction, e.Occupant = 0, nil
			}
			s.reg.seeds = true
		}
		if s.value.ProtoReflect().Descriptor().Name() == "EnergyLevel" {
			s.reg.margin = 0.1 // and a second
		}
	}
	return out
}()

// c14Sensor: what is read through the stack is what the model was told.
func c14Sensor(t *core.T) {
	s := core.Choose(t, c14sensors...)
	r := *s.reg
	writes := map[any]func(*core.T, proto.Message) (proto.Message, error){}
	sc := *s.reg.sc
	sc.make = func(t *core.T) any {
		srv, w := s.make(t)
		writes[srv] = w
		return srv
	}
	r.sc = &sc
	x := newC14(t, &r)
	t.Repeat(2, 14, func(int) {
		dev := core.Choose(t, x.devs...)
		if n := len(x.open); n > 0 && t.Chance(60) {
			dev = x.open[n-1].dev
		}
		active := 0
		for _, f := range x.open {
			if !f.stopped {
				active++
			}
		}
		switch t.Weighted(50, 25, 8, 12) {
		case 0:
			v := s.draw(t)
			sent := txt(v)
			before := x.read(dev, "", nil)
			out, err := writes[dev.srv](t, v)
			if err != nil {
				x.fail("refused", "%s was rejected: %v", sent, err)
			}
			x.note("write %s = %s", sent, txt(out))
			out = clone(out)
			if r.norm != nil {
				r.norm(out)
			}
			if apart(before, out, r.margin) {
				t.Nontrivial()
			}
			x.checkGet(dev, "", out, "after a write to the model")
			x.written(dev, "", out)
		case 1:
			if active < 2 {
				x.follow(dev, "", t.Chance(75))
			}
		case 2:
			for _, f := range x.open {
				if !f.stopped {
					x.stop(f)
					break
				}
			}
		case 3:
			x.masked(dev, "", x.read(dev, "", nil))
		}
		if t.Chance(50) {
			x.settle()
		}
	})
	x.settle()
	x.finish()
}

func (x *c14run) finish() {
	for _, f := range x.open {
		f.cancel()
	}
	x.t.Settle(20 * time.Second)
	for _, f := range x.open {
		if !f.ended {
			x.fail("stream-open", "%s has not ended after its context was cancelled\n%s", f, x.t.Stacks())
		}
	}
}
