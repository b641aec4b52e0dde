package props

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// Models are constructed with drawn configurations, in any order of options,
// while others are constructed at the same time; each is asked for what it was
// given, and keeps to it while its presets are used by concurrent callers.

type c20cfg struct {
	t    *core.T
	opts []resource.Option
	want map[string]string // reading -> what it must be
	read map[string]func() string
}

func (c *c20cfg) expect(what, want string, read func() string) {
	c.want[what], c.read[what] = want, read
}

// c20records draws distinct records and the options that configure them.
func c20records[M proto.Message](c *c20cfg, what string, zero func() M, setID func(M, string), with func(...M) resource.Option) []M {
	t := c.t
	if t.Chance(25) {
		return nil
	}
	all := map[string]M{}
	for i := t.Range(1, 3); i > 0; i-- {
		var batch []M
		for j := t.Int(4); j > 0; j-- {
			id := core.Choose(t, "a", "b", "c", "A", "10", "9", "zz", "aa", "é")
			if _, ok := all[id]; ok {
				continue
			}
			m := rnd(t, zero())
			setID(m, id)
			all[id] = m
			batch = append(batch, clone(m))
		}
		c.opts = append(c.opts, with(batch...))
	}
	var ids []string
	for id := range all {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var out []M
	for _, id := range ids {
		out = append(out, all[id])
	}
	return out
}

func c20value[M proto.Message](c *c20cfg, m M, with func(M) resource.Option) M {
	m = rnd(c.t, m)
	if c.t.Chance(20) {
		c.opts = append(c.opts, with(clone(rnd(c.t, clone(m))))) // the last one counts
	}
	if c.t.Chance(50) {
		c.opts = append(c.opts, with(clone(m)))
	} else {
		c.opts = append(c.opts, resource.WithInitialValue(clone(m)))
	}
	return m
}

func orErr[M proto.Message](m M, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return txtOr(m)
}

var c20configs = []struct {
	name string
	f    func(c *c20cfg) (open func(opts []resource.Option), use func())
}{
	{"airquality", func(c *c20cfg) (func([]resource.Option), func()) {
		v := c20value(c, &traits.AirQuality{}, airqualitysensorpb.WithInitialAirQuality)
		return func(o []resource.Option) {
			m := airqualitysensorpb.NewModel(o...)
			c.expect("GetAirQuality", txt(v), func() string { return orErr(m.GetAirQuality()) })
		}, nil
	}},
	{"airtemperature", func(c *c20cfg) (func([]resource.Option), func()) {
		v := c20value(c, &traits.AirTemperature{}, airtemperaturepb.WithInitialAirTemperature)
		return func(o []resource.Option) {
			m := airtemperaturepb.NewModel(o...)
			c.expect("GetAirTemperature", txt(v), func() string { return orErr(m.GetAirTemperature()) })
		}, nil
	}},
	{"energystorage", func(c *c20cfg) (func([]resource.Option), func()) {
		v := c20value(c, &traits.EnergyLevel{}, energystoragepb.WithInitialEnergyLevel)
		return func(o []resource.Option) {
			m := energystoragepb.NewModel(o...)
			c.expect("GetEnergyLevel", txt(v), func() string { return orErr(m.GetEnergyLevel()) })
		}, nil
	}},
	{"enterleave", func(c *c20cfg) (func([]resource.Option), func()) {
		v := c20value(c, &traits.EnterLeaveEvent{}, enterleavesensorpb.WithInitialEnterLeaveEvent)
		return func(o []resource.Option) {
			m := enterleavesensorpb.NewModel(o...)
			c.expect("totals", fmt.Sprint(v.GetEnterTotal(), v.GetLeaveTotal()), func() string {
				e, err := m.GetEnterLeaveEvent()
				if err != nil {
					return err.Error()
				}
				return fmt.Sprint(e.GetEnterTotal(), e.GetLeaveTotal())
			})
		}, nil
	}},
	{"occupancy", func(c *c20cfg) (func([]resource.Option), func()) {
		v := c20value(c, &traits.Occupancy{}, occupancysensorpb.WithInitialOccupancy)
		return func(o []resource.Option) {
			m := occupancysensorpb.NewModel(o...)
			c.expect("GetOccupancy", txt(v), func() string { return orErr(m.GetOccupancy()) })
		}, nil
	}},
	{"onoff", func(c *c20cfg) (func([]resource.Option), func()) {
		v := c20value(c, &traits.OnOff{}, onoffpb.WithInitialOnOff)
		return func(o []resource.Option) {
			m := onoffpb.NewModel(o...)
			c.expect("GetOnOff", txt(v), func() string { return orErr(m.GetOnOff()) })
		}, nil
	}},
	{"booking", func(c *c20cfg) (func([]resource.Option), func()) {
		vs := c20records(c, "bookings", func() *traits.Booking { return &traits.Booking{} }, func(m *traits.Booking, id string) { m.Id = id }, bookingpb.WithInitialBooking)
		return func(o []resource.Option) {
			m := bookingpb.NewModel(o...)
			c.expect("ListBookings", listText(vs), func() string { return listText(m.ListBookings()) })
		}, nil
	}},
	{"hail", func(c *c20cfg) (func([]resource.Option), func()) {
		vs := c20records(c, "hails", func() *traits.Hail { return &traits.Hail{} }, func(m *traits.Hail, id string) { m.Id = id }, func(hs ...*traits.Hail) resource.Option {
			for _, h := range hs {
				c.opts = append(c.opts, resource.WithInitialRecord(h.Id, h))
			}
			return resource.EmptyOption{}
		})
		return func(o []resource.Option) {
			m := hailpb.NewModel(o...)
			c.expect("ListHails", listText(vs), func() string { return listText(m.ListHails()) })
		}, nil
	}},
	{"parent", func(c *c20cfg) (func([]resource.Option), func()) {
		vs := c20records(c, "children", func() *traits.Child { return &traits.Child{} }, func(m *traits.Child, id string) { m.Name = id }, parentpb.WithInitialChildren)
		return func(o []resource.Option) {
			m := parentpb.NewModel(o...)
			c.expect("ListChildren", listText(vs), func() string { return listText(m.ListChildren()) })
		}, nil
	}},
	{"publication", func(c *c20cfg) (func([]resource.Option), func()) {
		vs := c20records(c, "publications", func() *traits.Publication { return &traits.Publication{} }, func(m *traits.Publication, id string) { m.Id = id }, publicationpb.WithInitialPublication)
		return func(o []resource.Option) {
			m := publicationpb.NewModel(o...)
			c.expect("ListPublications", listText(vs), func() string { return listText(m.ListPublications()) })
		}, nil
	}},
	{"vending", func(c *c20cfg) (func([]resource.Option), func()) {
		cs := c20records(c, "consumables", func() *traits.Consumable { return &traits.Consumable{} }, func(m *traits.Consumable, id string) { m.Name = id }, vendingpb.WithInitialConsumable)
		ss := c20records(c, "stock", func() *traits.Consumable_Stock { return &traits.Consumable_Stock{} }, func(m *traits.Consumable_Stock, id string) { m.Consumable = id }, vendingpb.WithInitialStock)
		return func(o []resource.Option) {
			m := vendingpb.NewModel(o...)
			c.expect("ListConsumables", listText(cs), func() string { return listText(m.ListConsumables()) })
			c.expect("ListInventory", listText(ss), func() string { return listText(m.ListInventory()) })
		}, nil
	}},
	{"electric", func(c *c20cfg) (func([]resource.Option), func()) {
		vs := c20records(c, "modes", func() *traits.ElectricMode { return &traits.ElectricMode{} }, func(m *traits.ElectricMode, id string) { m.Id, m.Normal = id, false }, electricpb.WithInitialMode)
		d := rnd(c.t, &traits.ElectricDemand{})
		c.opts = append(c.opts, electricpb.WithInitialDemand(clone(d)))
		a := rnd(c.t, &traits.ElectricMode{})
		c.opts = append(c.opts, electricpb.WithInitialActiveMode(clone(a)))
		return func(o []resource.Option) {
			m := electricpb.NewModel(o...)
			c.expect("Modes", listText(vs), func() string { return listText(m.Modes()) })
			c.expect("Demand", txt(d), func() string { return txt(m.Demand()) })
			c.expect("ActiveMode", txt(a), func() string { return txt(m.ActiveMode()) })
		}, nil
	}},
	{"fanspeed", func(c *c20cfg) (func([]resource.Option), func()) {
		var ps []fanspeedpb.Preset
		for i := c.t.Range(1, 4); i > 0; i-- {
			ps = append(ps, fanspeedpb.Preset{Name: fmt.Sprint("p", i), Percentage: float32(c.t.Int(11)) * 10})
		}
		c.opts = append(c.opts, fanspeedpb.WithPresets(ps...))
		return func(o []resource.Option) {
			m := fanspeedpb.NewModel(o...)
			for _, p := range ps {
				c.expect("preset "+p.Name, fmt.Sprint(p.Percentage), func() string {
					f, err := m.UpdateFanSpeed(&traits.FanSpeed{Preset: p.Name})
					if code(err) == codes.Aborted {
						return fmt.Sprint(p.Percentage)
					}
					return fmt.Sprintf("%v%s", f.GetPercentage(), errText(err))
				})
			}
		}, nil
	}},
	{"light", func(c *c20cfg) (func([]resource.Option), func()) {
		type lp struct {
			level float32
			p     *traits.LightPreset
		}
		var ps []lp
		var all []*traits.LightPreset
		for i := c.t.Int(5); i > 0; i-- {
			p := lp{float32(c.t.Int(11)) * 10, &traits.LightPreset{Name: fmt.Sprint("p", i), Title: core.Choose(c.t, "", "A", "B")}}
			ps, all = append(ps, p), append(all, p.p)
			c.opts = append(c.opts, lightpb.WithPreset(p.level, clone(p.p)))
		}
		v := &traits.Brightness{LevelPercent: float32(c.t.Int(5)) * 25}
		c.opts = append(c.opts, lightpb.WithInitialBrightness(clone(v)))
		var m *lightpb.Model
		return func(o []resource.Option) {
				m = lightpb.NewModel(o...)
				c.expect("GetBrightness", txt(v), func() string { return orErr(m.GetBrightness()) })
				c.expect("ListPresets", listText(all), func() string { return listText(m.ListPresets()) })
				c.expect("DescribeBrightness", listText(all), func() string {
					s, err := lightpb.NewModelServer(m).DescribeBrightness(context.Background(), &traits.DescribeBrightnessRequest{})
					return listText(s.GetPresets()) + errText(err)
				})
			}, func() {
				delete(c.read, "GetBrightness")
				for _, p := range ps {
					c.expect("preset "+p.p.Name, txt(&traits.Brightness{LevelPercent: p.level, Preset: p.p}), func() string {
						b, err := m.UpdateBrightness(&traits.Brightness{Preset: &traits.LightPreset{Name: p.p.Name}})
						if code(err) == codes.Aborted {
							return txt(&traits.Brightness{LevelPercent: p.level, Preset: p.p})
						}
						return orErr(b, err)
					})
				}
			}
	}},
	{"openclose", func(c *c20cfg) (func([]resource.Option), func()) {
		dirs := []traits.OpenClosePosition_Direction{traits.OpenClosePosition_DIRECTION_UNSPECIFIED, traits.OpenClosePosition_UP, traits.OpenClosePosition_DOWN, traits.OpenClosePosition_LEFT, traits.OpenClosePosition_RIGHT, traits.OpenClosePosition_IN, traits.OpenClosePosition_OUT}
		states := func(chance int, from float32) []*traits.OpenClosePosition {
			var out []*traits.OpenClosePosition
			for _, d := range dirs {
				if c.t.Chance(chance) {
					out = append(out, &traits.OpenClosePosition{Direction: d, OpenPercent: from + float32(c.t.Int(10))})
				}
			}
			return out
		}
		init := states(40, 0)
		c.opts = append(c.opts, openclosepb.WithInitialPositions(cloneAll(init)...))
		held := map[traits.OpenClosePosition_Direction]bool{}
		for _, s := range init {
			held[s.Direction] = true
		}
		var all []*traits.OpenClosePositions_Preset
		type op struct {
			p      *traits.OpenClosePositions_Preset
			states []*traits.OpenClosePosition
		}
		var ps []op
		for i := c.t.Int(4); i > 0; i-- {
			p := op{&traits.OpenClosePositions_Preset{Name: fmt.Sprint("p", i), Title: core.Choose(c.t, "", "A", "B")}, nil}
			// every preset says where all of what there is should be, no two the same
			for _, d := range dirs {
				if held[d] {
					p.states = append(p.states, &traits.OpenClosePosition{Direction: d, OpenPercent: float32(20*i) + float32(c.t.Int(10))})
				}
			}
			if len(p.states) == 0 {
				continue
			}
			ps, all = append(ps, p), append(all, p.p)
			given := cloneAll(p.states)
			if c.t.Chance(50) {
				for i, j := 0, len(given)-1; i < j; i, j = i+1, j-1 {
					given[i], given[j] = given[j], given[i]
				}
			}
			c.opts = append(c.opts, openclosepb.WithPreset(clone(p.p), given...))
		}
		var m *openclosepb.Model
		chosen := c.t.Int(4)
		return func(o []resource.Option) {
				m = openclosepb.NewModel(o...)
				c.expect("GetPositions", txt(&traits.OpenClosePositions{States: init}), func() string { return orErr(m.GetPositions()) })
				c.expect("ListPresets", listText(all), func() string { return listText(m.ListPresets()) })
				c.expect("DescribePositions", listText(all), func() string {
					s, err := openclosepb.NewModelServer(m).DescribePositions(context.Background(), &traits.DescribePositionsRequest{})
					return listText(s.GetPresets()) + errText(err)
				})
				for _, p := range ps {
					c.expect("HasPreset "+p.p.Name, "true", func() string { return fmt.Sprint(m.HasPreset(p.p.Name)) })
				}
				c.expect("HasPreset other", "false", func() string { return fmt.Sprint(m.HasPreset("other")) })
				c.expect("preset other", "InvalidArgument", func() string {
					_, err := m.UpdatePositions(&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "other"}})
					return code(err).String()
				})
			}, func() {
				delete(c.read, "GetPositions")
				if len(ps) == 0 {
					return
				}
				last := ps[chosen%len(ps)]
				for _, p := range ps {
					if p.p != last.p {
						_, _ = m.UpdatePositions(&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: p.p.Name}})
					}
				}
				want := txt(&traits.OpenClosePositions{Preset: last.p, States: last.states})
				c.expect("preset "+last.p.Name, want, func() string {
					v, err := m.UpdatePositions(&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: last.p.Name}})
					if code(err) == codes.Aborted {
						return want
					}
					return orErr(v, err)
				})
			}
	}},
}

func cloneAll[M proto.Message](ms []M) []M {
	var out []M
	for _, m := range ms {
		out = append(out, clone(m))
	}
	return out
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return " error " + err.Error()
}

func c20Config(t *core.T) {
	var cs []*c20cfg
	var names []string
	left := 0
	for i := t.Range(1, 2); i > 0; i-- {
		e := core.Choose(t, c20configs...)
		c := &c20cfg{t: t, want: map[string]string{}, read: map[string]func() string{}}
		open, use := e.f(c)
		if t.Chance(50) {
			c.opts = append([]resource.Option{resource.EmptyOption{}}, c.opts...)
		}
		if t.Chance(30) {
			c.opts = append(c.opts, resource.WithClock(&tickClock{t: t, now: time.Unix(1000, 0)}))
		}
		cs, names = append(cs, c), append(names, e.name)
		n := len(cs) - 1
		check := func(when string) {
			var ks []string
			for k := range c.read {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if got := c.read[k](); got != c.want[k] {
					t.Fail("configuration-ignored", "%s: %s %s\n  gives      %s\n  instead of %s", names[n], k, when, got, c.want[k])
				}
			}
		}
		pause, readers := time.Duration(t.Int(3))*tick, t.Range(1, 2)
		left++
		go func() {
			time.Sleep(pause)
			open(c.opts)
			check("once constructed")
			if use != nil {
				use()
			}
			t.Nontrivial()
			for i := 0; i < readers; i++ {
				left++
				go func() {
					check("after that")
					left--
				}()
			}
			left--
		}()
	}
	t.Logf("models of %s", strings.Join(names, " and "))
	t.Settle(time.Minute)
	if left > 0 {
		t.Fail("stuck", "%d callers have not returned\n%s", left, t.Stacks())
	}
}
