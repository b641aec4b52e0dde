package props

import (
	"context"
	"math/rand"
	"reflect"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// The trait models, each behind the same interface: calls that write, calls
// that read and subscriptions. All randomness of a call is drawn when the call
// is prepared, so that prepared calls can be run by any goroutine.

type modelCall struct {
	name string
	in   []proto.Message                 // what the caller passes in
	run  func() ([]proto.Message, error) // what it returns
}

type modelRead struct {
	name string
	run  func(opts ...resource.ReadOption) []proto.Message
}

type modelPull struct {
	name   string
	single bool // ends with the item
	quiet  bool // not every write concerns it
	open   func(ctx context.Context, opts ...resource.ReadOption) func() (any, bool)
}

type modelInst struct {
	name  string
	pulls []modelPull
	reads []modelRead
	call  func(t *core.T) *modelCall
}

func recvOf[T any](ch <-chan T) func() (any, bool) {
	return func() (any, bool) {
		v, ok := <-ch
		return v, ok
	}
}

// pullOf adapts a Pull method.
func pullOf[T any](name string, f func(ctx context.Context, opts ...resource.ReadOption) <-chan T) modelPull {
	return modelPull{name: name, open: func(ctx context.Context, opts ...resource.ReadOption) func() (any, bool) {
		return recvOf(f(ctx, opts...))
	}}
}

// pullIDOf adapts a Pull method for one item.
func pullIDOf[T any](name, id string, f func(ctx context.Context, id string, opts ...resource.ReadOption) <-chan T) modelPull {
	return modelPull{name: name + "(" + id + ")", single: true, quiet: true, open: func(ctx context.Context, opts ...resource.ReadOption) func() (any, bool) {
		return recvOf(f(ctx, id, opts...))
	}}
}

func isNil(m proto.Message) bool {
	return m == nil || !m.ProtoReflect().IsValid()
}

func one[M proto.Message](m M, err error) ([]proto.Message, error) {
	if isNil(m) {
		return nil, err
	}
	return []proto.Message{m}, err
}

func many[M proto.Message](ms []M) []proto.Message {
	var out []proto.Message
	for _, m := range ms {
		if !isNil(m) {
			out = append(out, m)
		}
	}
	return out
}

func readOf[M proto.Message](name string, f func(opts ...resource.ReadOption) (M, error)) modelRead {
	return modelRead{name, func(opts ...resource.ReadOption) []proto.Message {
		m, _ := f(opts...)
		return many([]M{m})
	}}
}

func readOk[M proto.Message](name string, f func(opts ...resource.ReadOption) M) modelRead {
	return modelRead{name, func(opts ...resource.ReadOption) []proto.Message { return many([]M{f(opts...)}) }}
}

func readFound[M proto.Message](name, id string, f func(id string, opts ...resource.ReadOption) (M, bool)) modelRead {
	return modelRead{name + "(" + id + ")", func(opts ...resource.ReadOption) []proto.Message {
		m, _ := f(id, opts...)
		return many([]M{m})
	}}
}

func readList[M proto.Message](name string, f func(opts ...resource.ReadOption) []M) modelRead {
	return modelRead{name, func(opts ...resource.ReadOption) []proto.Message { return many(f(opts...)) }}
}

// messagesIn finds the messages a change event carries.
func messagesIn(v any) []proto.Message {
	if m, ok := v.(proto.Message); ok {
		if isNil(m) {
			return nil
		}
		return []proto.Message{m}
	}
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Pointer {
		if rv.IsNil() {
			return nil
		}
		rv = rv.Elem()
	}
	var out []proto.Message
	if rv.Kind() == reflect.Struct {
		for i := 0; i < rv.NumField(); i++ {
			if !rv.Field(i).CanInterface() {
				continue
			}
			if m, ok := rv.Field(i).Interface().(proto.Message); ok && !isNil(m) {
				out = append(out, m)
			}
		}
	}
	return out
}

// rnd draws a message of any type.
func rnd[M proto.Message](t *core.T, m M) M {
	fillMsg(t, m.ProtoReflect(), 40, 2)
	return m
}

// writeCall prepares a call that takes a message and write options.
func writeCall[M proto.Message](t *core.T, name string, m M, f func(m M, opts ...resource.WriteOption) (M, error)) *modelCall {
	var opts []resource.WriteOption
	if t.Chance(25) {
		var paths []string
		fs := m.ProtoReflect().Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			if t.Chance(50) {
				paths = append(paths, string(fs.Get(i).Name()))
			}
		}
		opts = append(opts, resource.WithUpdatePaths(paths...))
	}
	return &modelCall{name, []proto.Message{m}, func() ([]proto.Message, error) { return one(f(m, opts...)) }}
}

func doneCall(name string, f func() error) *modelCall {
	return &modelCall{name: name, run: func() ([]proto.Message, error) { return nil, f() }}
}

func outCall[M proto.Message](name string, f func() (M, error)) *modelCall {
	return &modelCall{name: name, run: func() ([]proto.Message, error) { return one(f()) }}
}

// valueModel is a model with one value and nothing special about it.
func valueModel[M proto.Message, C any](
	empty func() M,
	get func(opts ...resource.ReadOption) (M, error),
	set func(m M, opts ...resource.WriteOption) (M, error),
	pull func(ctx context.Context, opts ...resource.ReadOption) <-chan C,
) *modelInst {
	return &modelInst{
		reads: []modelRead{readOf("Get", get)},
		pulls: []modelPull{pullOf("Pull", pull)},
		call: func(t *core.T) *modelCall {
			return writeCall(t, "Update", rnd(t, empty()), set)
		},
	}
}

var modelIDs = []string{"a", "b", "c"}

type modelCase struct {
	name string
	make func(t *core.T, opts ...resource.Option) *modelInst
}

func modelFactory(name string, f func(t *core.T, opts ...resource.Option) *modelInst) modelCase {
	return modelCase{name, func(t *core.T, opts ...resource.Option) *modelInst {
		m := f(t, opts...)
		m.name = name
		return m
	}}
}

var modelCases = []modelCase{
	modelFactory("onoffpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := onoffpb.NewModel(opts...)
		return valueModel(func() *traits.OnOff { return &traits.OnOff{} }, m.GetOnOff, m.UpdateOnOff, m.PullOnOff)
	}),
	modelFactory("accesspb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := accesspb.NewModel(opts...)
		return valueModel(func() *traits.AccessAttempt { return &traits.AccessAttempt{} }, m.GetLastAccessAttempt, m.UpdateLastAccessAttempt, m.PullAccessAttempts)
	}),
	modelFactory("airqualitysensorpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := airqualitysensorpb.NewModel(opts...)
		return valueModel(func() *traits.AirQuality { return &traits.AirQuality{} }, m.GetAirQuality, m.UpdateAirQuality, m.PullAirQuality)
	}),
	modelFactory("airtemperaturepb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := airtemperaturepb.NewModel(opts...)
		return valueModel(func() *traits.AirTemperature { return &traits.AirTemperature{} }, m.GetAirTemperature, m.UpdateAirTemperature, m.PullAirTemperature)
	}),
	modelFactory("energystoragepb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := energystoragepb.NewModel(opts...)
		return valueModel(func() *traits.EnergyLevel { return &traits.EnergyLevel{} }, m.GetEnergyLevel, m.UpdateEnergyLevel, m.PullEnergyLevel)
	}),
	modelFactory("occupancysensorpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := occupancysensorpb.NewModel(opts...)
		return valueModel(func() *traits.Occupancy { return &traits.Occupancy{} }, m.GetOccupancy, m.SetOccupancy, m.PullOccupancy)
	}),
	modelFactory("presspb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := presspb.NewModel(traits.PressedState_UNPRESSED)
		get := func(opts ...resource.ReadOption) (*traits.PressedState, error) {
			return m.GetPressedState(opts...), nil
		}
		return valueModel(func() *traits.PressedState { return &traits.PressedState{} }, get, m.UpdatePressedState, m.PullPressedState)
	}),
	modelFactory("lightpb", func(t *core.T, opts ...resource.Option) *modelInst {
		opts = append(opts, lightpb.WithPreset(25, &traits.LightPreset{Name: "a", Title: "A"}), lightpb.WithPreset(75, &traits.LightPreset{Name: "b", Title: "B"}))
		m := lightpb.NewModel(opts...)
		mi := valueModel(func() *traits.Brightness { return &traits.Brightness{} }, m.GetBrightness, m.UpdateBrightness, m.PullBrightness)
		mi.call = func(t *core.T) *modelCall {
			b := &traits.Brightness{LevelPercent: float32(t.Range(0, 4) * 25)}
			if t.Chance(30) {
				b = rnd(t, b)
			}
			if t.Chance(40) {
				b.Preset = &traits.LightPreset{Name: core.Choose(t, modelIDs...)}
			}
			return writeCall(t, "Update", b, m.UpdateBrightness)
		}
		mi.reads = append(mi.reads, modelRead{"ListPresets", func(...resource.ReadOption) []proto.Message { return many(m.ListPresets()) }})
		return mi
	}),
	modelFactory("fanspeedpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := fanspeedpb.NewModel(opts...)
		get := func(opts ...resource.ReadOption) (*traits.FanSpeed, error) { return m.FanSpeed(opts...), nil }
		mi := valueModel(func() *traits.FanSpeed { return &traits.FanSpeed{} }, get, m.UpdateFanSpeed, m.PullFanSpeed)
		mi.call = func(t *core.T) *modelCall {
			f := &traits.FanSpeed{Direction: traits.FanSpeed_Direction(t.Int(3))}
			switch t.Int(3) {
			case 0:
				f.Preset = core.Choose(t, "off", "low", "med", "high", "full", "bogus")
			case 1:
				f.PresetIndex = int32(t.Range(-1, 6))
			default:
				f.Percentage = float32(t.Range(0, 8)) * 12.5
			}
			return writeCall(t, "Update", f, m.UpdateFanSpeed)
		}
		return mi
	}),
	modelFactory("modepb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := modepb.NewModel()
		mi := valueModel(func() *traits.ModeValues { return &traits.ModeValues{} }, func(opts ...resource.ReadOption) (*traits.ModeValues, error) { return m.ModeValues(opts...), nil }, m.UpdateModeValues, m.PullModeValues)
		mi.call = func(t *core.T) *modelCall {
			v := &traits.ModeValues{Values: map[string]string{}}
			for i := t.Range(0, 2); i > 0; i-- {
				v.Values[core.Choose(t, "temperature", "spin", "other")] = core.Choose(t, "auto", "slow", "fast", "x")
			}
			return writeCall(t, "Update", v, m.UpdateModeValues)
		}
		mi.reads = append(mi.reads, modelRead{"Modes", func(...resource.ReadOption) []proto.Message { return many([]*traits.Modes{m.Modes()}) }})
		return mi
	}),
	modelFactory("enterleavesensorpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := enterleavesensorpb.NewModel(opts...)
		mi := valueModel(func() *traits.EnterLeaveEvent { return &traits.EnterLeaveEvent{} }, m.GetEnterLeaveEvent, nil, m.PullEnterLeaveEvents)
		mi.call = func(t *core.T) *modelCall {
			if t.Chance(15) {
				return doneCall("ResetTotals", m.ResetTotals)
			}
			e := rnd(t, &traits.EnterLeaveEvent{})
			if t.Chance(50) {
				e.EnterTotal = nil
			}
			if t.Chance(50) {
				e.LeaveTotal = nil
			}
			return &modelCall{"CreateEnterLeaveEvent", []proto.Message{e}, func() ([]proto.Message, error) { return nil, m.CreateEnterLeaveEvent(e) }}
		}
		return mi
	}),
	modelFactory("meterpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := meterpb.NewModel(opts...)
		mi := valueModel(func() *traits.MeterReading { return &traits.MeterReading{} }, m.GetMeterReading, m.UpdateMeterReading, m.PullMeterReadings)
		mi.call = func(t *core.T) *modelCall {
			switch t.Int(3) {
			case 0:
				v := float32(t.Int(5))
				return outCall("RecordReading", func() (*traits.MeterReading, error) { return m.RecordReading(v) })
			case 1:
				return outCall("Reset", m.Reset)
			}
			return writeCall(t, "Update", rnd(t, &traits.MeterReading{}), m.UpdateMeterReading)
		}
		return mi
	}),
	modelFactory("metadatapb.Model", func(t *core.T, opts ...resource.Option) *modelInst {
		m := metadatapb.NewModel(opts...)
		mi := valueModel(func() *traits.Metadata { return &traits.Metadata{} }, m.GetMetadata, m.UpdateMetadata, m.PullMetadata)
		mi.call = func(t *core.T) *modelCall {
			switch t.Int(3) {
			case 0:
				return writeCall(t, "Update", drawMetadata(t), m.UpdateMetadata)
			case 1:
				md := drawMetadata(t)
				return &modelCall{"Merge", []proto.Message{md}, func() ([]proto.Message, error) { return one(m.MergeMetadata(md)) }}
			}
			tm := drawTraitMetadata(t)
			return &modelCall{"UpdateTrait", []proto.Message{tm}, func() ([]proto.Message, error) { return one(m.UpdateTraitMetadata(tm)) }}
		}
		return mi
	}),
	modelFactory("metadatapb.Collection", func(t *core.T, opts ...resource.Option) *modelInst {
		m := metadatapb.NewCollection(opts...)
		mi := &modelInst{pulls: []modelPull{pullOf("PullAll", m.PullAllMetadata)}, reads: []modelRead{readList("List", m.ListMetadata)}}
		for _, id := range modelIDs[:2] {
			mi.pulls = append(mi.pulls, pullIDOf("Pull", id, m.PullMetadata))
			mi.reads = append(mi.reads, modelRead{"Get(" + id + ")", func(opts ...resource.ReadOption) []proto.Message {
				md, _ := m.GetMetadata(id, opts...)
				return many([]*traits.Metadata{md})
			}})
		}
		mi.call = func(t *core.T) *modelCall {
			id := core.Choose(t, modelIDs...)
			switch t.Weighted(3, 3, 3, 2) {
			case 0:
				create := t.Chance(80)
				return writeCall(t, "Update("+id+")", drawMetadata(t), func(md *traits.Metadata, opts ...resource.WriteOption) (*traits.Metadata, error) {
					if create {
						opts = append(opts, resource.WithCreateIfAbsent())
					}
					return m.UpdateMetadata(id, md, opts...)
				})
			case 1:
				md := drawMetadata(t)
				return &modelCall{"Merge(" + id + ")", []proto.Message{md}, func() ([]proto.Message, error) {
					return one(m.MergeMetadata(id, md, resource.WithCreateIfAbsent()))
				}}
			case 2:
				tm := drawTraitMetadata(t)
				return &modelCall{"UpdateTrait(" + id + ")", []proto.Message{tm}, func() ([]proto.Message, error) {
					return one(m.UpdateTraitMetadata(id, tm, resource.WithCreateIfAbsent()))
				}}
			}
			return outCall("Delete("+id+")", func() (*traits.Metadata, error) {
				return m.DeleteMetadata(id, resource.WithAllowMissing(true))
			})
		}
		return mi
	}),
	modelFactory("bookingpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := bookingpb.NewModel(append(opts, bookingpb.WithInitialBooking(&traits.Booking{Id: "a", Title: "first"}))...)
		return &modelInst{
			pulls: []modelPull{pullOf("PullBookings", m.PullBookings)},
			reads: []modelRead{readList("ListBookings", m.ListBookings)},
			call: func(t *core.T) *modelCall {
				b := rnd(t, &traits.Booking{})
				b.Id = core.Choose(t, modelIDs...)
				if t.Chance(40) {
					if t.Chance(50) {
						b.Id = ""
					}
					return &modelCall{"CreateBooking", []proto.Message{b}, func() ([]proto.Message, error) { return one(m.CreateBooking(b)) }}
				}
				return writeCall(t, "UpdateBooking", b, m.UpdateBooking)
			},
		}
	}),
	modelFactory("hailpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := hailpb.NewModel(append(opts, hailpb.WithKeepAlive(time.Hour))...)
		mi := &modelInst{
			pulls: []modelPull{pullOf("PullHails", m.PullHails), pullIDOf("PullHail", "1", m.PullHail)},
			reads: []modelRead{readList("ListHails", m.ListHails), readFound("GetHail", "1", m.GetHail)},
		}
		// Ids are generated: later calls refer to hails by position.
		id := func(n int) string {
			if hs := m.ListHails(); n < len(hs) {
				return hs[n].Id
			}
			return "none"
		}
		mi.call = func(t *core.T) *modelCall {
			h := rnd(t, &traits.Hail{})
			h.Id = ""
			n := t.Int(3)
			switch t.Weighted(4, 4, 2) {
			case 0:
				return &modelCall{"CreateHail", []proto.Message{h}, func() ([]proto.Message, error) { return one(m.CreateHail(h)) }}
			case 1:
				return writeCall(t, "UpdateHail", h, func(h *traits.Hail, opts ...resource.WriteOption) (*traits.Hail, error) {
					h.Id = id(n)
					return m.UpdateHail(h, opts...)
				})
			}
			return outCall("DeleteHail", func() (*traits.Hail, error) { return m.DeleteHail(id(n), resource.WithAllowMissing(true)) })
		}
		return mi
	}),
	modelFactory("openclosepb", func(t *core.T, opts ...resource.Option) *modelInst {
		opts = append(opts,
			openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "a", Title: "A"}, &traits.OpenClosePosition{OpenPercent: 50}),
			openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "b", Title: "B"}, &traits.OpenClosePosition{Direction: traits.OpenClosePosition_UP, OpenPercent: 100}, &traits.OpenClosePosition{Direction: traits.OpenClosePosition_DOWN, OpenPercent: 25}),
		)
		m := openclosepb.NewModel(opts...)
		return &modelInst{
			pulls: []modelPull{pullOf("PullPositions", m.PullPositions)},
			reads: []modelRead{readOf("GetPositions", m.GetPositions), readOf("GetPosition", func(opts ...resource.ReadOption) (*traits.OpenClosePosition, error) {
				return m.GetPosition(traits.OpenClosePosition_UP, opts...)
			}), {"ListPresets", func(...resource.ReadOption) []proto.Message { return many(m.ListPresets()) }}},
			call: func(t *core.T) *modelCall {
				pos := func() *traits.OpenClosePosition {
					p := &traits.OpenClosePosition{Direction: traits.OpenClosePosition_Direction(t.Int(3)), OpenPercent: float32(t.Range(0, 4)) * 25}
					if t.Chance(20) {
						p = rnd(t, p)
						p.Direction = traits.OpenClosePosition_Direction(t.Int(3))
					}
					return p
				}
				if t.Chance(30) {
					return writeCall(t, "UpdatePosition", pos(), m.UpdatePosition)
				}
				ps := &traits.OpenClosePositions{}
				if t.Chance(40) {
					ps.Preset = &traits.OpenClosePositions_Preset{Name: core.Choose(t, modelIDs...)}
				}
				for i := t.Int(3); i > 0; i-- {
					ps.States = append(ps.States, pos())
				}
				return &modelCall{"UpdatePositions", []proto.Message{ps}, func() ([]proto.Message, error) { return one(m.UpdatePositions(ps)) }}
			},
		}
	}),
	modelFactory("parentpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := parentpb.NewModel(append(opts, parentpb.WithInitialChildren(&traits.Child{Name: "a", Traits: []*traits.Trait{{Name: "t1"}, {Name: "t3"}}}))...)
		return &modelInst{
			pulls: []modelPull{pullOf("PullChildren", m.PullChildren)},
			reads: []modelRead{{"ListChildren", func(...resource.ReadOption) []proto.Message { return many(m.ListChildren()) }}},
			call: func(t *core.T) *modelCall {
				name := core.Choose(t, modelIDs...)
				var ts []trait.Name
				for i := t.Int(4); i > 0; i-- {
					ts = append(ts, trait.Name(core.Choose(t, "t1", "t2", "t3", "t4")))
				}
				switch t.Weighted(4, 4, 1, 1) {
				case 0:
					return outCall("AddChildTrait", func() (*traits.Child, error) { c, _ := m.AddChildTrait(name, ts...); return c, nil })
				case 1:
					return outCall("RemoveChildTrait", func() (*traits.Child, error) { return m.RemoveChildTrait(name, ts...), nil })
				case 2:
					c := &traits.Child{Name: name}
					for _, n := range []string{"t1", "t2", "t3"} {
						if t.Chance(50) {
							c.Traits = append(c.Traits, &traits.Trait{Name: n})
						}
					}
					return &modelCall{"AddChild", []proto.Message{c}, func() ([]proto.Message, error) { m.AddChild(c); return nil, nil }}
				}
				return outCall("RemoveChildByName", func() (*traits.Child, error) {
					return m.RemoveChildByName(name, resource.WithAllowMissing(true))
				})
			},
		}
	}),
	modelFactory("publicationpb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := publicationpb.NewModel(append(opts, publicationpb.WithInitialPublication(&traits.Publication{Id: "a", Body: []byte("one"), Audience: &traits.Publication_Audience{Name: "x"}}))...)
		mi := &modelInst{
			pulls: []modelPull{pullOf("PullPublications", m.PullPublications)},
			reads: []modelRead{readList("ListPublications", m.ListPublications)},
		}
		for _, id := range modelIDs[:2] {
			mi.pulls = append(mi.pulls, pullIDOf("PullPublication", id, m.PullPublication))
			mi.reads = append(mi.reads, readFound("GetPublication", id, m.GetPublication))
		}
		mi.call = func(t *core.T) *modelCall {
			var wo []resource.WriteOption
			if t.Chance(50) {
				wo = append(wo, publicationpb.WithNewVersion())
			}
			if t.Chance(50) {
				wo = append(wo, publicationpb.WithNewPublishTime())
			}
			if t.Chance(50) {
				wo = append(wo, publicationpb.WithResetReceipt())
			}
			p := rnd(t, &traits.Publication{})
			p.Id = core.Choose(t, modelIDs...)
			switch t.Weighted(3, 5, 2) {
			case 0:
				if t.Chance(50) {
					p.Id = ""
				}
				return &modelCall{"CreatePublication", []proto.Message{p}, func() ([]proto.Message, error) { return one(m.CreatePublication(p, wo...)) }}
			case 1:
				return writeCall(t, "UpdatePublication", p, func(p *traits.Publication, opts ...resource.WriteOption) (*traits.Publication, error) {
					return m.UpdatePublication(p.Id, p, append(opts, wo...)...)
				})
			}
			return outCall("DeletePublication", func() (*traits.Publication, error) {
				return m.DeletePublication(p.Id, resource.WithAllowMissing(true))
			})
		}
		return mi
	}),
	modelFactory("vendingpb", func(t *core.T, opts ...resource.Option) *modelInst {
		kg := traits.Consumable_KILOGRAM
		m := vendingpb.NewModel(append(opts,
			vendingpb.WithInitialStock(&traits.Consumable_Stock{Consumable: "a", Used: &traits.Consumable_Quantity{Unit: kg}, Remaining: &traits.Consumable_Quantity{Unit: kg, Amount: 10}}))...)
		mi := &modelInst{
			pulls: []modelPull{pullOf("PullConsumables", m.PullConsumables), pullOf("PullInventory", m.PullInventory)},
			reads: []modelRead{readList("ListConsumables", m.ListConsumables), readList("ListInventory", m.ListInventory)},
		}
		mi.pulls[0].quiet, mi.pulls[1].quiet = true, true
		for _, id := range modelIDs[:2] {
			mi.pulls = append(mi.pulls, pullIDOf("PullConsumable", id, m.PullConsumable), pullIDOf("PullStock", id, m.PullStock))
			mi.reads = append(mi.reads, readFound("GetConsumable", id, m.GetConsumable), readFound("GetStock", id, m.GetStock))
		}
		mi.call = func(t *core.T) *modelCall {
			id := core.Choose(t, modelIDs...)
			switch t.Weighted(2, 3, 1, 2, 3, 1, 4) {
			case 0:
				c := rnd(t, &traits.Consumable{})
				c.Name = id
				if t.Chance(40) {
					c.Name = ""
				}
				return &modelCall{"CreateConsumable", []proto.Message{c}, func() ([]proto.Message, error) { return one(m.CreateConsumable(c)) }}
			case 1:
				c := rnd(t, &traits.Consumable{})
				c.Name = id
				return writeCall(t, "UpdateConsumable", c, m.UpdateConsumable)
			case 2:
				return outCall("DeleteConsumable", func() (*traits.Consumable, error) {
					return m.DeleteConsumable(id, resource.WithAllowMissing(true))
				})
			case 3:
				s := rnd(t, &traits.Consumable_Stock{})
				s.Consumable = id
				if t.Chance(40) {
					s.Consumable = ""
				}
				return &modelCall{"CreateStock", []proto.Message{s}, func() ([]proto.Message, error) { return one(m.CreateStock(s)) }}
			case 4:
				s := rnd(t, &traits.Consumable_Stock{})
				s.Consumable = id
				return writeCall(t, "UpdateStock", s, m.UpdateStock)
			case 5:
				return outCall("DeleteStock", func() (*traits.Consumable_Stock, error) {
					return m.DeleteStock(id, resource.WithAllowMissing(true))
				})
			}
			q := &traits.Consumable_Quantity{Amount: float32(t.Int(4)), Unit: core.Choose(t, traits.Consumable_KILOGRAM, traits.Consumable_LITER, traits.Consumable_NO_UNIT)}
			return &modelCall{"DispenseInstantly(" + id + ")", []proto.Message{q}, func() ([]proto.Message, error) { return one(m.DispenseInstantly(id, q)) }}
		}
		return mi
	}),
	modelFactory("wastepb", func(t *core.T, opts ...resource.Option) *modelInst {
		m := wastepb.NewModel(opts...)
		return &modelInst{
			pulls: []modelPull{pullOf("PullWasteRecords", m.PullWasteRecords)},
			reads: []modelRead{{"ListWasteRecords", func(...resource.ReadOption) []proto.Message {
				return many(m.ListWasteRecords(m.GetWasteRecordCount(), 10))
			}}},
			call: func(t *core.T) *modelCall {
				if t.Chance(30) {
					ts := timestamppb.New(time.Unix(int64(t.Int(1000)), 0))
					return &modelCall{"GenerateWasteRecord", []proto.Message{ts}, func() ([]proto.Message, error) { return one(m.GenerateWasteRecord(ts)) }}
				}
				w := rnd(t, &traits.WasteRecord{})
				return &modelCall{"AddWasteRecord", []proto.Message{w}, func() ([]proto.Message, error) { return one(m.AddWasteRecord(w)) }}
			},
		}
	}),
	modelFactory("electricpb", func(t *core.T, opts ...resource.Option) *modelInst {
		opts = append(opts, electricpb.WithInitialMode(&traits.ElectricMode{Id: "a", Title: "A", Normal: true}, &traits.ElectricMode{Id: "b", Title: "B"}))
		m := electricpb.NewModel(opts...)
		mi := &modelInst{
			pulls: []modelPull{pullOf("PullDemand", m.PullDemand), pullOf("PullActiveMode", m.PullActiveMode), pullOf("PullModes", m.PullModes)},
			reads: []modelRead{readOk("Demand", m.Demand), readOk("ActiveMode", m.ActiveMode), readList("Modes", m.Modes),
				{"FindMode", func(...resource.ReadOption) []proto.Message {
					e, ok := m.FindMode("a")
					if !ok {
						return nil
					}
					return many([]*traits.ElectricMode{e})
				}},
				{"NormalMode", func(...resource.ReadOption) []proto.Message {
					e, ok := m.NormalMode()
					if !ok {
						return nil
					}
					return many([]*traits.ElectricMode{e})
				}}},
		}
		for i := range mi.pulls {
			mi.pulls[i].quiet = true
		}
		mi.call = func(t *core.T) *modelCall {
			e := rnd(t, &traits.ElectricMode{})
			e.Id = core.Choose(t, modelIDs...)
			switch t.Weighted(5, 2, 2, 1, 1, 1, 1, 3) {
			case 0:
				return writeCall(t, "UpdateDemand", rnd(t, &traits.ElectricDemand{}), m.UpdateDemand)
			case 1:
				return outCall("ChangeActiveMode", func() (*traits.ElectricMode, error) { return m.ChangeActiveMode(e.Id) })
			case 2:
				return &modelCall{"SetActiveMode", []proto.Message{e}, func() ([]proto.Message, error) { return nil, m.SetActiveMode(e) }}
			case 3:
				return outCall("ChangeToNormalMode", m.ChangeToNormalMode)
			case 4:
				e.Id = ""
				return &modelCall{"CreateMode", []proto.Message{e}, func() ([]proto.Message, error) { return one(m.CreateMode(e)) }}
			case 5:
				return &modelCall{"AddMode", []proto.Message{e}, func() ([]proto.Message, error) { return nil, m.AddMode(e) }}
			case 6:
				return doneCall("DeleteMode", func() error { return m.DeleteMode(e.Id) })
			}
			return writeCall(t, "UpdateMode", e, m.UpdateMode)
		}
		return mi
	}),
}

func drawTraitMetadata(t *core.T) *traits.TraitMetadata {
	tm := &traits.TraitMetadata{Name: core.Choose(t, "t1", "t2", "t3")}
	for i := t.Int(3); i > 0; i-- {
		if tm.More == nil {
			tm.More = map[string]string{}
		}
		tm.More[core.Choose(t, "k1", "k2")] = core.Choose(t, "v1", "v2", "v3")
	}
	return tm
}

func drawMetadata(t *core.T) *traits.Metadata {
	md := &traits.Metadata{}
	if t.Chance(30) {
		md = rnd(t, md)
		md.Traits = nil
	}
	if t.Chance(50) {
		md.Name = core.Choose(t, "n1", "n2")
	}
	if t.Chance(30) {
		md.Appearance = &traits.Metadata_Appearance{Title: core.Choose(t, "x", "y")}
	}
	for i := t.Int(3); i > 0; i-- {
		md.Traits = append(md.Traits, drawTraitMetadata(t))
	}
	return md
}

// newModel makes one of the models. Its clock and randomness are the
// simulator's.
func newModel(t *core.T) *modelInst {
	c := modelCases[t.Int(len(modelCases))]
	return c.make(t, resource.WithRNG(rand.New(rand.NewSource(int64(t.Int(1000))))))
}
