package props

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb/unitpb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	p := &core.Prop{
		ID:         "C20",
		SiteFilter: []string{"pkg/trait/", "pkg/resource/"},
		Rule:       "A run counts as non-trivial when a call changed the state the rules are about, or calls that write overlapped.",
		Real:       []string{"models and model servers of parentpb, vendingpb (and unitpb), fanspeedpb, modepb, enterleavesensorpb, meterpb, publicationpb", "pkg/resource", "internal/minibus"},
		Stub:       []string{"model clock (every reading differs and is remembered)", "callers and subscribers (scripted)"},
		Faults:     []string{"aborted", "refused", "unconvertible"},
	}
	for _, m := range []struct {
		name   string
		weight int
		f      func(t *core.T, concurrent bool) *ruleModel
	}{
		{"parent", 3, c20Parent},
		{"vending", 3, c20Vending},
		{"fanspeed", 4, c20Fan},
		{"mode", 2, c20Mode},
		{"enterleave", 2, c20EnterLeave},
		{"meter", 2, c20Meter},
		{"publication", 4, c20Publication},
	} {
		for _, c := range []bool{false, true} {
			name := m.name
			if c {
				name += "-concurrent"
			}
			p.Scenarios = append(p.Scenarios, core.Scenario{Name: name, Weight: m.weight, Leak: true, Run: func(t *core.T) {
				rm := m.f(t, c)
				rm.count = func(o *ruleOp) {
					if o.err != nil {
						if o.aborted(c) {
							t.Count("aborted", 1)
						} else {
							t.Count("refused", 1)
						}
					}
				}
				runRules(t, rm, c)
			}})
		}
	}
	p.Scenarios = append(p.Scenarios, core.Scenario{Name: "configured", Weight: 1, Leak: true, Run: c20Config})
	p.Scenarios = append(p.Scenarios, core.Scenario{Name: "units", Weight: 1, Leak: true, Run: c20Units})
	core.Register(p)
}

// refused is the step of a call that must fail with one of cs and change
// nothing.
func refused(o *ruleOp, s any, cs ...codes.Code) (any, string) {
	if o.err == nil {
		return nil, fmt.Sprintf("must fail with %v", cs)
	}
	if len(cs) > 0 && !codeIn(code(o.err), cs) {
		return nil, fmt.Sprintf("failed with %v instead of one of %v", code(o.err), cs)
	}
	return s, ""
}

func unexpected(o *ruleOp) (any, string) { return nil, "unexpected error" }

func maskText(m *fieldmaskpb.FieldMask) string {
	if m == nil {
		return "all"
	}
	return fmt.Sprint(m.Paths)
}

func inMask(m *fieldmaskpb.FieldMask, path string) bool {
	if m == nil {
		return true
	}
	for _, p := range m.Paths {
		if p == path {
			return true
		}
	}
	return false
}

// ---- parent ----

type childSets map[string]map[string]bool

func (s childSets) with(name string, ts map[string]bool) childSets {
	n := childSets{}
	for k, v := range s {
		n[k] = v
	}
	if ts == nil {
		delete(n, name)
	} else {
		n[name] = ts
	}
	return n
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s childSets) String() string {
	var b strings.Builder
	for _, k := range sortedKeys(s) {
		fmt.Fprintf(&b, "%s%v ", k, sortedKeys(s[k]))
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

func traitNames(c *traits.Child) []string {
	ns := []string{}
	for _, x := range c.GetTraits() {
		ns = append(ns, x.GetName())
	}
	return ns
}

func strictlySorted(ns []string) bool {
	for i := 1; i < len(ns); i++ {
		if ns[i-1] >= ns[i] {
			return false
		}
	}
	return true
}

func childWhy(c *traits.Child, name string, want map[string]bool) string {
	if c.GetName() != name {
		return fmt.Sprintf("returned child %q", c.GetName())
	}
	if got, want := fmt.Sprint(traitNames(c)), fmt.Sprint(sortedKeys(want)); got != want {
		return fmt.Sprintf("the child's traits must be %s", want)
	}
	return ""
}

func c20Parent(t *core.T, concurrent bool) *ruleModel {
	names := []string{"a", "b", "c"}[:t.Range(1, 3)]
	all := []string{"t1", "t2", "t3", "t4", "t5", "t6"}
	init := childSets{}
	var opts []resource.Option
	set := func(pct int) (map[string]bool, *traits.Child) {
		ts, c := map[string]bool{}, &traits.Child{}
		for _, n := range all {
			if t.Chance(pct) {
				ts[n] = true
				c.Traits = append(c.Traits, &traits.Trait{Name: n})
			}
		}
		return ts, c
	}
	for _, n := range names {
		if t.Chance(50) {
			ts, c := set(50)
			c.Name = n
			init[n] = ts
			opts = append(opts, parentpb.WithInitialChildren(c))
		}
	}
	m := parentpb.NewModel(opts...)
	srv := parentpb.NewModelServer(m)
	sets := func(cs []*traits.Child) (childSets, string) {
		s := childSets{}
		for _, c := range cs {
			if !strictlySorted(traitNames(c)) {
				return nil, fmt.Sprintf("traits of %s are not sorted and distinct: %v", c.Name, traitNames(c))
			}
			ts := map[string]bool{}
			for _, n := range traitNames(c) {
				ts[n] = true
			}
			if s[c.Name] != nil {
				return nil, fmt.Sprintf("%s is listed twice", c.Name)
			}
			s[c.Name] = ts
		}
		return s, ""
	}
	key := func(s any) string { return s.(childSets).String() }
	rm := &ruleModel{init: init, key: key,
		now: func() string {
			s, why := sets(m.ListChildren())
			if why != "" {
				return why
			}
			return s.String()
		},
		check: func() string { _, why := sets(m.ListChildren()); return why },
	}
	rm.watch = func(i int) func() string {
		ctx, cancel := context.WithCancel(context.Background())
		t.Cleanup(cancel)
		ch := m.PullChildren(ctx, resource.WithBackpressure(true))
		bad := ""
		view := map[string]*traits.Child{}
		go func() {
			for e := range ch {
				if e.NewValue != nil {
					view[e.NewValue.Name] = e.NewValue
					if ns := traitNames(e.NewValue); !strictlySorted(ns) && bad == "" {
						bad = fmt.Sprintf("a subscriber received %s with traits %v, not sorted and distinct", e.NewValue.Name, ns)
					}
				} else if e.OldValue != nil {
					delete(view, e.OldValue.Name)
				}
			}
		}()
		return func() string {
			if bad != "" {
				return bad
			}
			var cs []*traits.Child
			for _, k := range sortedKeys(view) {
				cs = append(cs, view[k])
			}
			s, why := sets(cs)
			if why == "" && s.String() != rm.now() {
				why = "a subscriber ends with " + s.String()
			}
			return why
		}
	}
	rm.draw = func() *ruleOp {
		name := core.Choose(t, names...)
		var ts []trait.Name
		for i := t.Int(5); i > 0; i-- {
			ts = append(ts, trait.Name(core.Choose(t, all...)))
		}
		var c *traits.Child
		var created bool
		o := &ruleOp{ret: func() string { return txt(c) }}
		switch t.Weighted(6, 5, 2, 2, 1) {
		case 0:
			o.name = fmt.Sprintf("AddChildTrait(%s, %v)", name, ts)
			o.run = func() { c, created = m.AddChildTrait(name, ts...); c = clone(c) }
			o.step = func(s any) (any, string) {
				st := s.(childSets)
				want := map[string]bool{}
				for n := range st[name] {
					want[n] = true
				}
				for _, n := range ts {
					want[string(n)] = true
				}
				if created != (st[name] == nil) {
					return nil, fmt.Sprintf("created = %v", created)
				}
				return st.with(name, want), childWhy(c, name, want)
			}
		case 1:
			o.name = fmt.Sprintf("RemoveChildTrait(%s, %v)", name, ts)
			o.run = func() { c = m.RemoveChildTrait(name, ts...); c = clone(c) }
			o.step = func(s any) (any, string) {
				st := s.(childSets)
				if st[name] == nil {
					if c != nil {
						return nil, "there is no such child"
					}
					return st, ""
				}
				want := map[string]bool{}
				for n := range st[name] {
					want[n] = true
				}
				for _, n := range ts {
					delete(want, string(n))
				}
				return st.with(name, want), childWhy(c, name, want)
			}
		case 2:
			ts, in := set(40)
			in.Name = name
			o.ret = nil
			o.name = fmt.Sprintf("AddChild(%s)", txt(in))
			o.run = func() { m.AddChild(in) }
			o.step = func(s any) (any, string) {
				st := s.(childSets)
				if st[name] != nil {
					return st, ""
				}
				return st.with(name, ts), ""
			}
		case 3:
			allow := t.Chance(50)
			o.name = fmt.Sprintf("RemoveChildByName(%s, allow missing %v)", name, allow)
			o.run = func() { c, o.err = m.RemoveChildByName(name, resource.WithAllowMissing(allow)); c = clone(c) }
			o.step = func(s any) (any, string) {
				st := s.(childSets)
				switch {
				case o.aborted(concurrent):
					return st, ""
				case st[name] == nil && allow:
					if o.err != nil || c != nil {
						return nil, "must succeed with nothing"
					}
					return st, ""
				case st[name] == nil:
					return refused(o, s, codes.NotFound)
				case o.err != nil:
					return unexpected(o)
				}
				return st.with(name, nil), childWhy(c, name, st[name])
			}
		default:
			var got []*traits.Child
			o.name, o.read = "ListChildren", true
			o.ret = func() string { return listText(got) }
			o.run = func() {
				var resp *traits.ListChildrenResponse
				resp, o.err = srv.ListChildren(context.Background(), &traits.ListChildrenRequest{Name: "dev"})
				for _, c := range resp.GetChildren() {
					got = append(got, clone(c))
				}
			}
			o.step = func(s any) (any, string) {
				gs, why := sets(got)
				if why != "" {
					return nil, why
				}
				if o.err != nil || gs.String() != key(s) {
					return nil, "must list the children"
				}
				return s, ""
			}
		}
		return o
	}
	return rm
}

func listText[M proto.Message](ms []M) string {
	var ss []string
	for _, m := range ms {
		ss = append(ss, txt(m))
	}
	return "[" + strings.Join(ss, ", ") + "]"
}

// ---- vending ----

var c20Factors = map[traits.Consumable_Unit]struct {
	category string
	factor   *big.Rat
}{
	traits.Consumable_METER:       {"length", big.NewRat(1, 1)},
	traits.Consumable_LITER:       {"volume", big.NewRat(1, 1)},
	traits.Consumable_CUBIC_METER: {"volume", big.NewRat(1000, 1)},
	traits.Consumable_CUP:         {"volume", big.NewRat(3785411784, 16*1000000000)},
	traits.Consumable_KILOGRAM:    {"weight", big.NewRat(1, 1)},
}

var c20AllUnits = []traits.Consumable_Unit{traits.Consumable_LITER, traits.Consumable_CUBIC_METER, traits.Consumable_CUP, traits.Consumable_METER, traits.Consumable_KILOGRAM, traits.Consumable_NO_UNIT, traits.Consumable_UNIT_UNSPECIFIED}

// convert is exact.
func c20Convert(v float64, from, to traits.Consumable_Unit) (*big.Rat, bool) {
	r := new(big.Rat)
	r.SetFloat64(v)
	if from == to {
		return r, true
	}
	f, ok1 := c20Factors[from]
	g, ok2 := c20Factors[to]
	if !ok1 || !ok2 || f.category != g.category {
		return nil, false
	}
	r.Mul(r, f.factor)
	return r.Quo(r, g.factor), true
}

// near reports whether got is exact to within the precision of tol, relative to
// the magnitude of the numbers involved.
func near(got float64, want *big.Rat, scale, tol float64) bool {
	w, _ := want.Float64()
	return math.Abs(got-w) <= tol*(math.Abs(w)+math.Abs(scale))+1e-30
}

func c20Units(t *core.T) {
	t.Repeat(5, 40, func(int) {
		from, to := core.Choose(t, c20AllUnits...), core.Choose(t, c20AllUnits...)
		v := float64(t.Int(1000)) * math.Pow(10, float64(t.Range(-6, 6)))
		if t.Chance(20) {
			v = -v
		}
		want, ok := c20Convert(v, from, to)
		got, err := unitpb.Convert(v, from, to)
		if ok != (err == nil) {
			t.Fail("conversion", "Convert(%v, %v, %v) = %v, %v", v, from, to, got, err)
		}
		v32 := float32(v)
		got32, err32 := unitpb.Convert32(v32, from, to)
		if ok != (err32 == nil) {
			t.Fail("conversion", "Convert32(%v, %v, %v) = %v, %v", v32, from, to, got32, err32)
		}
		if !ok {
			t.Count("unconvertible", 1)
			return
		}
		if from != to {
			t.Nontrivial()
		}
		want32, _ := c20Convert(float64(v32), from, to)
		if !near(got, want, 0, 1e-12) || !near(float64(got32), want32, 0, 1e-6) {
			t.Fail("conversion", "Convert(%v, %v, %v) = %v and %v, want %s", v, from, to, got, got32, want.FloatString(12))
		}
		back, err := unitpb.Convert(got, to, from)
		back32, err32 := unitpb.Convert32(got32, to, from)
		r, r32 := new(big.Rat), new(big.Rat)
		r.SetFloat64(v)
		r32.SetFloat64(float64(v32))
		if err != nil || err32 != nil || !near(back, r, 0, 1e-12) || !near(float64(back32), r32, 0, 1e-6) {
			t.Fail("round-trip", "%v %v is %v %v, which is %v (%v) %v: %v %v", v, from, got, to, back, back32, from, err, err32)
		}
	})
}

type vendState struct {
	stock map[string]*traits.Consumable_Stock
	cons  map[string]*traits.Consumable
}

func (s vendState) clone() vendState {
	n := vendState{map[string]*traits.Consumable_Stock{}, map[string]*traits.Consumable{}}
	for k, v := range s.stock {
		n.stock[k] = v
	}
	for k, v := range s.cons {
		n.cons[k] = v
	}
	return n
}

func (s vendState) String() string {
	var b strings.Builder
	for _, k := range sortedKeys(s.stock) {
		fmt.Fprintf(&b, "%s:{%s} ", k, txt(s.stock[k]))
	}
	b.WriteString("| ")
	for _, k := range sortedKeys(s.cons) {
		fmt.Fprintf(&b, "%s:{%s} ", k, txt(s.cons[k]))
	}
	return b.String()
}

func c20Vending(t *core.T, concurrent bool) *ruleModel {
	names := []string{"a", "b"}[:t.Range(1, 2)]
	unitsOf := [][]traits.Consumable_Unit{
		{traits.Consumable_LITER, traits.Consumable_CUBIC_METER, traits.Consumable_CUP},
		{traits.Consumable_KILOGRAM}, {traits.Consumable_METER}, {traits.Consumable_NO_UNIT},
	}
	quantity := func() *traits.Consumable_Quantity {
		us := unitsOf[t.Weighted(8, 2, 1, 1)]
		return &traits.Consumable_Quantity{Unit: core.Choose(t, us...), Amount: float32(t.Int(40)) / 4}
	}
	stock := func(name string) *traits.Consumable_Stock {
		s := &traits.Consumable_Stock{Consumable: name, Dispensing: t.Chance(10)}
		if t.Chance(75) {
			s.Used = quantity()
		}
		if t.Chance(75) {
			s.Remaining = quantity()
		}
		if t.Chance(20) {
			s.LastDispensed = quantity()
		}
		return s
	}
	init := vendState{}.clone()
	var opts []resource.Option
	for _, n := range names {
		if t.Chance(85) {
			init.stock[n] = stock(n)
			opts = append(opts, vendingpb.WithInitialStock(clone(init.stock[n])))
		}
		if t.Chance(30) {
			init.cons[n] = &traits.Consumable{Name: n, DisplayName: "display " + n}
			opts = append(opts, vendingpb.WithInitialConsumable(clone(init.cons[n])))
		}
	}
	m := vendingpb.NewModel(opts...)
	srv := vendingpb.NewModelServer(m)
	rm := &ruleModel{init: init, key: func(s any) string { return s.(vendState).String() }}
	rm.now = func() string {
		s := vendState{}.clone()
		for _, x := range m.ListInventory() {
			s.stock[x.Consumable] = x
		}
		for _, x := range m.ListConsumables() {
			s.cons[x.Name] = x
		}
		return s.String()
	}
	rm.check = func() string {
		for _, x := range m.ListInventory() {
			if x.Remaining.GetAmount() < 0 {
				return "the remaining stock is negative: " + txt(x)
			}
		}
		return ""
	}
	rm.draw = func() *ruleOp {
		name := core.Choose(t, names...)
		var ret *traits.Consumable_Stock
		o := &ruleOp{ret: func() string { return txt(ret) }}
		switch t.Weighted(10, 2, 1, 1, 1) {
		case 0:
			q := quantity()
			if t.Chance(4) && q.Amount != 0 {
				q.Amount = -q.Amount
			}
			in := clone(q)
			byServer := t.Chance(50)
			o.name = fmt.Sprintf("Dispense(%s, %s)", name, txt(q))
			o.run = func() {
				if byServer {
					ret, o.err = srv.Dispense(context.Background(), &traits.DispenseRequest{Name: "dev", Consumable: name, Quantity: in})
				} else {
					ret, o.err = m.DispenseInstantly(name, in)
				}
				ret = clone(ret)
			}
			o.step = func(s any) (any, string) {
				st := s.(vendState)
				old := st.stock[name]
				if o.aborted(concurrent) {
					return st, ""
				}
				if old == nil {
					return refused(o, s, codes.NotFound)
				}
				var used, rem *big.Rat
				ok := true
				var dUsed, dRem *big.Rat
				if old.Used != nil {
					var c bool
					dUsed, c = c20Convert(float64(q.Amount), q.Unit, old.Used.Unit)
					ok = ok && c
					if c {
						used = new(big.Rat)
						used.SetFloat64(float64(old.Used.Amount))
						used.Add(used, dUsed)
					}
				}
				if old.Remaining != nil {
					var c bool
					dRem, c = c20Convert(float64(q.Amount), q.Unit, old.Remaining.Unit)
					ok = ok && c
					if c {
						rem = new(big.Rat)
						rem.SetFloat64(float64(old.Remaining.Amount))
						rem.Sub(rem, dRem)
						if rem.Sign() < 0 {
							rem = new(big.Rat)
						}
					}
				}
				if !ok {
					t.Count("unconvertible", 1)
					return refused(o, s)
				}
				if o.err != nil {
					return unexpected(o)
				}
				for _, x := range []struct {
					what     string
					old, new *traits.Consumable_Quantity
					want, d  *big.Rat
				}{{"used", old.Used, ret.GetUsed(), used, dUsed}, {"remaining", old.Remaining, ret.GetRemaining(), rem, dRem}} {
					if (x.old == nil) != (x.new == nil) {
						return nil, x.what + " appeared or disappeared"
					}
					if x.old == nil {
						continue
					}
					d, _ := x.d.Float64()
					if x.new.Unit != x.old.Unit || !near(float64(x.new.Amount), x.want, math.Abs(d)+math.Abs(float64(x.old.Amount)), 1e-6) {
						return nil, fmt.Sprintf("%s must be %s %v", x.what, x.want.FloatString(8), x.old.Unit)
					}
				}
				if ret.Consumable != name || !same(ret.LastDispensed, q) {
					return nil, "last dispensed must be the quantity"
				}
				n := st.clone()
				n.stock[name] = ret // exact to within rounding
				return n, ""
			}
		case 1:
			in := stock(name)
			want := clone(in)
			o.name = fmt.Sprintf("UpdateStock(%s)", txt(in))
			o.run = func() {
				ret, o.err = srv.UpdateStock(context.Background(), &traits.UpdateStockRequest{Name: "dev", Stock: in})
				ret = clone(ret)
			}
			o.step = func(s any) (any, string) {
				st := s.(vendState)
				switch {
				case o.aborted(concurrent):
					return st, ""
				case st.stock[name] == nil:
					return refused(o, s, codes.NotFound)
				case o.err != nil:
					return unexpected(o)
				case !same(ret, want):
					return nil, "must return the stock"
				}
				n := st.clone()
				n.stock[name] = want
				return n, ""
			}
		case 2:
			in := stock(name)
			want := clone(in)
			o.name = fmt.Sprintf("CreateStock(%s)", txt(in))
			o.run = func() { ret, o.err = m.CreateStock(in); ret = clone(ret) }
			o.step = func(s any) (any, string) {
				st := s.(vendState)
				switch {
				case o.aborted(concurrent):
					return st, ""
				case st.stock[name] != nil:
					return refused(o, s, codes.AlreadyExists)
				case o.err != nil:
					return unexpected(o)
				case !same(ret, want):
					return nil, "must return the stock"
				}
				n := st.clone()
				n.stock[name] = want
				return n, ""
			}
		case 3:
			o.name = fmt.Sprintf("DeleteStock(%s)", name)
			o.run = func() { ret, o.err = m.DeleteStock(name); ret = clone(ret) }
			o.step = func(s any) (any, string) {
				st := s.(vendState)
				switch {
				case o.aborted(concurrent):
					return st, ""
				case st.stock[name] == nil:
					return refused(o, s, codes.NotFound)
				case o.err != nil:
					return unexpected(o)
				case !same(ret, st.stock[name]):
					return nil, "must return the stock"
				}
				n := st.clone()
				delete(n.stock, name)
				return n, ""
			}
		default:
			o.name, o.read = fmt.Sprintf("GetStock(%s)", name), true
			o.run = func() {
				ret, o.err = srv.GetStock(context.Background(), &traits.GetStockRequest{Name: "dev", Consumable: name})
				ret = clone(ret)
			}
			o.step = func(s any) (any, string) {
				st := s.(vendState)
				switch {
				case st.stock[name] == nil:
					return refused(o, s, codes.NotFound)
				case o.err != nil:
					return unexpected(o)
				case !same(ret, st.stock[name]):
					return nil, "must return the stock"
				}
				return st, ""
			}
		}
		return o
	}
	return rm
}

// ---- fan speed ----

func c20Fan(t *core.T, concurrent bool) *ruleModel {
	presets := fanspeedpb.DefaultPresets
	var opts []resource.Option
	var start *traits.FanSpeed
	if t.Chance(60) {
		presets = nil
		pcts := []float32{0, 10, 25, 50, 75, 100, 10.5, 11, 0.25, 99.75, 30, 60}
		n := t.Weighted(2, 8, 8, 8, 8, 1, 1, 1, 1, 1) // sometimes none
		for i := 0; i < n; i++ {
			k := t.Int(len(pcts))
			presets = append(presets, fanspeedpb.Preset{Name: fmt.Sprintf("p%d", i), Percentage: pcts[k]})
			if t.Chance(80) {
				pcts = append(append([]float32(nil), pcts[:k]...), pcts[k+1:]...)
			}
		}
		opts = append(opts, fanspeedpb.WithPresets(presets...))
		if n > 0 && t.Chance(50) {
			k := t.Int(n)
			start = &traits.FanSpeed{Preset: presets[k].Name, PresetIndex: int32(k), Percentage: presets[k].Percentage, Direction: traits.FanSpeed_BACKWARD}
			opts = append(opts, fanspeedpb.WithInitialFanSpeed(clone(start)))
		}
	} else if t.Chance(50) {
		k := t.Int(len(presets))
		start = &traits.FanSpeed{Preset: presets[k].Name, PresetIndex: int32(k), Percentage: presets[k].Percentage, Direction: traits.FanSpeed_FORWARD}
		opts = append(opts, fanspeedpb.WithInitialFanSpeed(clone(start)))
	}
	m := fanspeedpb.NewModel(opts...)
	srv := fanspeedpb.NewModelServer(m)
	find := func(name string) int {
		for i, p := range presets {
			if p.Name == name {
				return i
			}
		}
		return -1
	}
	consistent := func(s *traits.FanSpeed) string {
		if s.Preset != "" {
			i := find(s.Preset)
			if i < 0 {
				return "unknown preset in " + txt(s)
			}
			if s.PresetIndex != int32(i) || s.Percentage != presets[i].Percentage {
				return fmt.Sprintf("preset, index and percentage disagree in %s; the presets are %v", txt(s), presets)
			}
			return ""
		}
		if s.PresetIndex >= 0 && int(s.PresetIndex) < len(presets) {
			return fmt.Sprintf("the index selects a preset but there is none in %s; the presets are %v", txt(s), presets)
		}
		for _, p := range presets {
			if p.Percentage == s.Percentage {
				return fmt.Sprintf("the percentage is that of a preset but there is none in %s; the presets are %v", txt(s), presets)
			}
		}
		return ""
	}
	if start == nil {
		start = clone(m.FanSpeed())
	}
	rm := &ruleModel{init: start, key: func(s any) string { return txt(s.(*traits.FanSpeed)) },
		now:   func() string { return txt(m.FanSpeed()) },
		check: func() string { return consistent(m.FanSpeed()) },
	}
	rm.watch = func(int) func() string {
		ctx, cancel := context.WithCancel(context.Background())
		t.Cleanup(cancel)
		ch := m.PullFanSpeed(ctx)
		bad := ""
		go func() {
			for e := range ch {
				if why := consistent(e.Value); why != "" && bad == "" {
					bad = "a subscriber received: " + why
				}
			}
		}()
		return func() string { return bad }
	}
	isPreset := func(s *traits.FanSpeed, i int) bool {
		return i >= 0 && i < len(presets) && s.Preset == presets[i].Name && s.PresetIndex == int32(i) && s.Percentage == presets[i].Percentage
	}
	clamp := func(i int64) int {
		return int(max(0, min(i, int64(len(presets)-1))))
	}
	rm.draw = func() *ruleOp {
		var ret *traits.FanSpeed
		o := &ruleOp{ret: func() string { return txt(ret) }}
		switch t.Weighted(10, 1, 1) {
		case 1:
			o.name = "Reverse"
			o.run = func() {
				ret, o.err = srv.ReverseFanSpeedDirection(context.Background(), &traits.ReverseFanSpeedDirectionRequest{Name: "dev"})
				ret = clone(ret)
			}
			o.step = func(s any) (any, string) {
				st := s.(*traits.FanSpeed)
				if o.aborted(concurrent) {
					return st, ""
				}
				if o.err != nil {
					if code(o.err) == codes.Unimplemented {
						return st, ""
					}
					return unexpected(o)
				}
				want := clone(st)
				switch st.Direction {
				case traits.FanSpeed_FORWARD:
					want.Direction = traits.FanSpeed_BACKWARD
				case traits.FanSpeed_BACKWARD:
					want.Direction = traits.FanSpeed_FORWARD
				default:
					want.Direction = ret.GetDirection()
				}
				if !same(ret, want) {
					return nil, "only the direction must be reversed"
				}
				return want, ""
			}
			return o
		case 2:
			o.name, o.read = "GetFanSpeed", true
			o.run = func() {
				ret, o.err = srv.GetFanSpeed(context.Background(), &traits.GetFanSpeedRequest{Name: "dev"})
				ret = clone(ret)
			}
			o.step = func(s any) (any, string) {
				if o.err != nil || !same(ret, s.(*traits.FanSpeed)) {
					return nil, "must return the fan speed"
				}
				return s, ""
			}
			return o
		}
		in := &traits.FanSpeed{}
		rel := t.Chance(45)
		var mask *fieldmaskpb.FieldMask
		what := t.Weighted(3, 4, 4, 1, 1)
		if what == 0 || what >= 3 {
			if t.Chance(10) {
				in.Preset = "unknown"
			} else if len(presets) > 0 {
				in.Preset = presets[t.Int(len(presets))].Name
			}
		}
		if what == 1 || what >= 3 {
			if rel {
				in.PresetIndex = core.Choose[int32](t, 1, -1, 2, -2, 3, 0, 5, -7, math.MaxInt32, math.MinInt32)
			} else {
				in.PresetIndex = core.Choose[int32](t, 1, 0, 2, 3, 4, 7, 8, 5, -1, math.MaxInt32)
			}
		}
		if what == 2 || what == 4 {
			if rel {
				in.Percentage = core.Choose[float32](t, 10, -10, 15, 25, 50, -25, 0, 0.5, -0.5, 0.25, 1)
			} else {
				in.Percentage = core.Choose[float32](t, 40, 10, 15, 25, 33, 50, 0, 75, 100, 10.5, 15.25, 40.5, 11, 99.75, 74.5)
			}
		}
		if t.Chance(20) {
			in.Direction = traits.FanSpeed_BACKWARD
		}
		if t.Chance(50) {
			mask = &fieldmaskpb.FieldMask{}
			if what == 0 || what >= 3 {
				mask.Paths = append(mask.Paths, "preset")
			}
			if what == 1 || what >= 3 {
				mask.Paths = append(mask.Paths, "preset_index")
			}
			if what == 2 || what == 4 {
				mask.Paths = append(mask.Paths, "percentage")
			}
			if in.Direction != 0 {
				mask.Paths = append(mask.Paths, "direction")
			}
		}
		req := clone(in)
		direct := !rel && t.Chance(30)
		how := map[bool]string{true: "relative ", false: ""}[rel]
		if direct {
			how = "model "
		}
		o.name = fmt.Sprintf("Update(%s%s, %s)", how, txt(in), maskText(mask))
		o.run = func() {
			if direct {
				ret, o.err = m.UpdateFanSpeed(in, resource.WithUpdateMask(mask))
			} else {
				ret, o.err = srv.UpdateFanSpeed(context.Background(), &traits.UpdateFanSpeedRequest{Name: "dev", FanSpeed: in, UpdateMask: mask, Relative: rel})
			}
			ret = clone(ret)
		}
		o.step = func(s any) (any, string) {
			old := s.(*traits.FanSpeed)
			if o.aborted(concurrent) {
				return old, ""
			}
			if req.Preset != "" && find(req.Preset) < 0 {
				return refused(o, s, codes.InvalidArgument)
			}
			if o.err != nil {
				return unexpected(o)
			}
			if why := consistent(ret); why != "" {
				return nil, why
			}
			pre, idx, pct := req.Preset, int64(req.PresetIndex), req.Percentage
			if !inMask(mask, "preset") {
				pre = ""
			}
			hasIdx, hasPct := inMask(mask, "preset_index"), inMask(mask, "percentage")
			if mask == nil || rel { // what's absent isn't asked for
				hasIdx, hasPct = idx != 0, pct != 0
			}
			if pre != "" {
				if isPreset(ret, find(pre)) {
					return ret, ""
				}
				if pre != old.Preset || mask == nil && !rel || !hasIdx && !hasPct {
					return nil, "the preset must be selected"
				}
				// the preset is the one selected already, so either it or the others can win
			}
			if !hasIdx {
				idx = 0
			}
			if !hasPct {
				pct = 0
			}
			if pre == "" && inMask(mask, "preset") && mask != nil { // the preset is unset explicitly
				return ret, ""
			}
			byIdx := len(presets) == 0 // nothing to select
			if len(presets) > 0 && hasIdx {
				want := idx
				if rel {
					want += int64(old.PresetIndex)
					if old.PresetIndex < 0 { // between presets, up to the model
						byIdx = true
					}
				}
				byIdx = byIdx || isPreset(ret, clamp(want))
				if !rel && idx == int64(old.PresetIndex) && idx < 0 {
					byIdx = true
				}
			}
			byPct := false
			if hasPct {
				if rel {
					sum := old.Percentage + pct
					byPct = ret.Percentage == sum || ret.Percentage == max(0, min(sum, 100))
				} else {
					byPct = ret.Percentage == pct
				}
			}
			switch {
			case hasIdx && hasPct:
				if !byIdx && !byPct {
					return nil, "neither the index nor the percentage was applied"
				}
			case hasIdx:
				if !byIdx {
					return nil, "the preset with the index must be selected"
				}
			case hasPct:
				if !byPct {
					return nil, "the percentage must be applied"
				}
			case rel || mask != nil:
				want := clone(old)
				want.Direction = ret.Direction
				if !same(want, ret) {
					return nil, "nothing was asked to change"
				}
			}
			return ret, ""
		}
		return o
	}
	return rm
}

// ---- mode ----

func c20Mode(t *core.T, concurrent bool) *ruleModel {
	modes := modepb.DefaultModes
	m := (*modepb.Model)(nil)
	if t.Chance(75) {
		modes = &traits.Modes{}
		for i := t.Range(1, 3); i > 0; i-- {
			mode := &traits.Modes_Mode{Name: fmt.Sprintf("m%d", i), Ordered: t.Chance(50)}
			for j := t.Weighted(1, 3, 4, 6, 4); j > 0; j-- {
				mode.Values = append(mode.Values, &traits.Modes_Value{Name: fmt.Sprintf("v%d", j)})
			}
			modes.Modes = append(modes.Modes, mode)
		}
		m = modepb.NewModelModes(clone(modes))
	} else {
		m = modepb.NewModel()
	}
	srv := modepb.NewModelServer(m)
	init := &traits.ModeValues{Values: map[string]string{}}
	values := map[string][]string{}
	var names []string
	for _, mode := range modes.Modes {
		names = append(names, mode.Name)
		for _, v := range mode.Values {
			values[mode.Name] = append(values[mode.Name], v.Name)
		}
		if len(mode.Values) > 0 {
			init.Values[mode.Name] = mode.Values[0].Name
		}
	}
	rm := &ruleModel{init: init, key: func(s any) string { return txt(s.(*traits.ModeValues)) },
		now: func() string { return txt(m.ModeValues()) },
		check: func() string {
			if !same(m.Modes(), modes) {
				return fmt.Sprintf("the model doesn't have the modes it was given: %s instead of %s", txt(m.Modes()), txt(modes))
			}
			for _, n := range names {
				if got := m.AvailableValues(n); len(got) != len(values[n]) {
					return fmt.Sprintf("the model doesn't have the modes it was given: %s has values %s", n, listText(got))
				}
			}
			return ""
		},
	}
	index := func(mode, v string) int {
		for i, x := range values[mode] {
			if x == v {
				return i
			}
		}
		return -1
	}
	rm.draw = func() *ruleOp {
		var ret *traits.ModeValues
		o := &ruleOp{ret: func() string { return txt(ret) }}
		if t.Chance(10) {
			o.name, o.read = "GetModeValues", true
			o.run = func() {
				ret, o.err = srv.GetModeValues(context.Background(), &traits.GetModeValuesRequest{Name: "dev"})
				ret = clone(ret)
			}
			o.step = func(s any) (any, string) {
				if o.err != nil || !same(ret, s.(*traits.ModeValues)) {
					return nil, "must return the mode values"
				}
				return s, ""
			}
			return o
		}
		var abs map[string]string
		rel := map[string]int32{}
		if t.Chance(45) {
			abs = map[string]string{}
			for _, n := range names {
				if vs := values[n]; len(vs) > 0 && t.Chance(60) {
					abs[n] = vs[t.Int(len(vs))]
					if t.Chance(10) {
						abs[n] = "elsewhere"
					}
				}
			}
		}
		if len(abs) == 0 || t.Chance(40) {
			for _, n := range append(names, "absent") {
				if t.Chance(50) && (n != "absent" || t.Chance(20)) {
					rel[n] = core.Choose[int32](t, 1, -1, 2, -2, 3, -4, 7, -11, 0, math.MaxInt32, math.MinInt32)
				}
			}
		}
		req := &traits.UpdateModeValuesRequest{Name: "dev"}
		if abs != nil {
			req.ModeValues = &traits.ModeValues{Values: map[string]string{}}
			for k, v := range abs {
				req.ModeValues.Values[k] = v
			}
		}
		if len(rel) > 0 || t.Chance(10) {
			req.Relative = &traits.ModeValuesRelative{Values: map[string]int32{}}
			for k, v := range rel {
				req.Relative.Values[k] = v
			}
		}
		if t.Chance(30) {
			req.UpdateMask = &fieldmaskpb.FieldMask{Paths: []string{"values"}}
		}
		masked := req.UpdateMask != nil
		o.name = fmt.Sprintf("UpdateModeValues(%s)", txt(req))
		o.run = func() {
			ret, o.err = srv.UpdateModeValues(context.Background(), req)
			ret = clone(ret)
		}
		o.step = func(s any) (any, string) {
			old := s.(*traits.ModeValues)
			if o.aborted(concurrent) {
				return old, ""
			}
			if o.err != nil {
				return unexpected(o)
			}
			for n, v := range ret.GetValues() {
				want, asked := abs[n]
				was, had := old.Values[n]
				d, stepped := rel[n]
				vs := values[n]
				switch {
				case stepped && len(vs) > 0 && (d != 0 || !asked):
					if i := index(n, was); !had || i < 0 {
						want = vs[0] // can't step from a value that isn't there
					} else {
						l := int64(len(vs))
						want = vs[((int64(i)+int64(d))%l+l)%l]
					}
					if d == 0 && had && v == was {
						want = was
					}
				case asked:
				default:
					want = was
					if !had {
						return nil, fmt.Sprintf("nothing asked for mode %s", n)
					}
				}
				if v != want {
					return nil, fmt.Sprintf("mode %s must be %s", n, want)
				}
			}
			for n := range old.Values {
				_, asked := abs[n]
				_, stepped := rel[n]
				_, has := ret.GetValues()[n]
				if !has && (asked || stepped && len(values[n]) > 0 || len(abs) == 0 && len(rel) > 0 || masked && len(abs) > 0) {
					return nil, fmt.Sprintf("mode %s lost its value", n)
				}
			}
			for n := range abs {
				if _, has := ret.GetValues()[n]; !has {
					return nil, fmt.Sprintf("mode %s has no value", n)
				}
			}
			for n := range rel {
				if _, has := ret.GetValues()[n]; !has && len(values[n]) > 0 {
					return nil, fmt.Sprintf("mode %s has no value", n)
				}
			}
			if ret == nil {
				return nil, "must return the mode values"
			}
			return ret, ""
		}
		return o
	}
	return rm
}

// ---- enter leave ----

func c20EnterLeave(t *core.T, concurrent bool) *ruleModel {
	event := func() *traits.EnterLeaveEvent {
		e := &traits.EnterLeaveEvent{Direction: core.Choose(t, traits.EnterLeaveEvent_ENTER, traits.EnterLeaveEvent_LEAVE, traits.EnterLeaveEvent_DIRECTION_UNSPECIFIED)}
		if t.Chance(30) {
			e.Occupant = &traits.EnterLeaveEvent_Occupant{Name: "someone"}
		}
		if t.Chance(20) {
			e.EnterTotal = proto.Int32(int32(t.Int(4)))
		}
		if t.Chance(20) {
			e.LeaveTotal = proto.Int32(int32(t.Int(4)))
		}
		return e
	}
	init := &traits.EnterLeaveEvent{EnterTotal: proto.Int32(0), LeaveTotal: proto.Int32(0)}
	var opts []resource.Option
	if t.Chance(50) {
		init = event()
		opts = append(opts, enterleavesensorpb.WithInitialEnterLeaveEvent(clone(init)))
	}
	m := enterleavesensorpb.NewModel(opts...)
	srv := enterleavesensorpb.NewModelServer(m)
	get := func() *traits.EnterLeaveEvent { e, _ := m.GetEnterLeaveEvent(); return e }
	rm := &ruleModel{init: init, key: func(s any) string { return txt(s.(*traits.EnterLeaveEvent)) }, now: func() string { return txt(get()) }}
	rm.watch = func(i int) func() string {
		// a subscriber changes nothing
		return func() string {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			before := txt(get())
			e := <-m.PullEnterLeaveEvents(ctx)
			if e.Value.GetEnterTotal() != get().GetEnterTotal() || e.Value.GetLeaveTotal() != get().GetLeaveTotal() {
				return "a subscriber starts with " + txt(e.Value)
			}
			if after := txt(get()); after != before {
				return "the stored event was " + before + " before a subscription, and is " + after
			}
			return ""
		}
	}
	adjust := func(given, cur *int32, inc bool) *int32 {
		var c int32
		if cur != nil {
			c = *cur
		}
		if given != nil && *given != c {
			return given
		}
		if inc {
			c++
		}
		return &c
	}
	rm.draw = func() *ruleOp {
		var ret *traits.EnterLeaveEvent
		o := &ruleOp{}
		switch t.Weighted(10, 2, 1) {
		case 0:
			in := event()
			req := clone(in)
			o.name = fmt.Sprintf("CreateEnterLeaveEvent(%s)", txt(in))
			o.run = func() { o.err = m.CreateEnterLeaveEvent(in) }
			o.step = func(s any) (any, string) {
				old := s.(*traits.EnterLeaveEvent)
				if o.aborted(concurrent) {
					return old, ""
				}
				if o.err != nil {
					return unexpected(o)
				}
				n := clone(req)
				n.EnterTotal = adjust(req.EnterTotal, old.EnterTotal, req.Direction == traits.EnterLeaveEvent_ENTER)
				n.LeaveTotal = adjust(req.LeaveTotal, old.LeaveTotal, req.Direction == traits.EnterLeaveEvent_LEAVE)
				return n, ""
			}
		case 1:
			o.name = "ResetTotals"
			o.run = func() {
				_, o.err = srv.ResetEnterLeaveTotals(context.Background(), &traits.ResetEnterLeaveTotalsRequest{Name: "dev"})
			}
			o.step = func(s any) (any, string) {
				if o.aborted(concurrent) {
					return s, ""
				}
				if o.err != nil {
					return unexpected(o)
				}
				n := clone(s.(*traits.EnterLeaveEvent))
				n.EnterTotal, n.LeaveTotal = proto.Int32(0), proto.Int32(0)
				return n, ""
			}
		default:
			o.name, o.read = "GetEnterLeaveEvent", true
			o.ret = func() string { return txt(ret) }
			o.run = func() {
				ret, o.err = srv.GetEnterLeaveEvent(context.Background(), &traits.GetEnterLeaveEventRequest{Name: "dev"})
				ret = clone(ret)
			}
			o.step = func(s any) (any, string) {
				if o.err != nil || !same(ret, s.(*traits.EnterLeaveEvent)) {
					return nil, "must return the event"
				}
				return s, ""
			}
		}
		return o
	}
	return rm
}

// ---- meter ----

func c20Meter(t *core.T, concurrent bool) *ruleModel {
	clk := &modelClock{t: t, now: epoch}
	if t.Chance(30) {
		clk.jump = []time.Duration{time.Duration(t.Int(100)) * time.Minute, 0, time.Duration(t.Int(5)) * time.Hour}
	}
	opts := []resource.Option{resource.WithClock(clk)}
	given := &traits.MeterReading{}
	if t.Chance(60) {
		given.Usage = float32(t.Int(8))
		if t.Chance(60) {
			given.StartTime = timestamppb.New(epoch.Add(-time.Duration(t.Range(10, 100)) * time.Hour))
			if t.Chance(60) {
				given.EndTime = timestamppb.New(epoch.Add(-time.Duration(t.Range(0, 9)) * time.Hour))
			}
		} else if t.Chance(40) {
			given.EndTime = timestamppb.New(epoch.Add(1000 * time.Hour))
		}
		opts = append(opts, resource.WithInitialValue(clone(given)))
	}
	m := meterpb.NewModel(opts...)
	srv := meterpb.NewModelServer(m)
	get := func() *traits.MeterReading { r, _ := m.GetMeterReading(); return r }
	made := t.Seq()
	init := clone(given)
	if first := get(); clk.current(first.StartTime, 0, made) && init.StartTime == nil {
		init.StartTime = first.StartTime
	}
	if first := get(); clk.current(first.EndTime, 0, made) && init.EndTime == nil {
		init.EndTime = first.EndTime
	}
	sane := func(r *traits.MeterReading) string {
		switch {
		case r.StartTime == nil || r.EndTime == nil:
			return "the reading lacks its start or end time: " + txt(r)
		case r.EndTime.AsTime().Before(r.StartTime.AsTime()):
			return "the reading ends before it starts: " + txt(r)
		}
		return ""
	}
	rm := &ruleModel{init: init, key: func(s any) string { return txt(s.(*traits.MeterReading)) }, now: func() string { return txt(get()) },
		check: func() string { return sane(get()) }}
	rm.watch = func(int) func() string {
		ctx, cancel := context.WithCancel(context.Background())
		t.Cleanup(cancel)
		ch := m.PullMeterReadings(ctx)
		bad := ""
		go func() {
			for e := range ch {
				if why := sane(e.Value); why != "" && bad == "" {
					bad = "a subscriber received: " + why
				}
			}
		}()
		return func() string { return bad }
	}
	rm.draw = func() *ruleOp {
		var ret *traits.MeterReading
		o := &ruleOp{ret: func() string { return txt(ret) }}
		val := float32(t.Int(10))
		switch t.Weighted(8, 3, 2, 1) {
		case 0:
			o.name = fmt.Sprintf("RecordReading(%v)", val)
			o.run = func() { ret, o.err = m.RecordReading(val); ret = clone(ret) }
			o.step = func(s any) (any, string) {
				old := s.(*traits.MeterReading)
				switch {
				case o.aborted(concurrent):
					return old, ""
				case o.err != nil:
					return unexpected(o)
				case ret.Usage != val:
					return nil, "the usage must be the one recorded"
				case !same(ret.StartTime, old.StartTime):
					return nil, "recording a reading must not change the start time"
				case !clk.current(ret.EndTime, o.inv, o.resp):
					return nil, "the end time must be now"
				}
				return ret, ""
			}
		case 1:
			o.name = "Reset"
			o.run = func() { ret, o.err = m.Reset(); ret = clone(ret) }
			o.step = func(s any) (any, string) {
				switch {
				case o.aborted(concurrent):
					return s, ""
				case o.err != nil:
					return unexpected(o)
				case ret.Usage != 0:
					return nil, "the usage must be zero"
				case !same(ret.StartTime, ret.EndTime) || !clk.current(ret.EndTime, o.inv, o.resp):
					return nil, "the start and end time must be now"
				}
				return ret, ""
			}
		case 2:
			o.name = fmt.Sprintf("UpdateMeterReading(usage %v)", val)
			o.run = func() {
				ret, o.err = m.UpdateMeterReading(&traits.MeterReading{Usage: val}, resource.WithUpdatePaths("usage"))
				ret = clone(ret)
			}
			o.step = func(s any) (any, string) {
				old := s.(*traits.MeterReading)
				if o.aborted(concurrent) {
					return old, ""
				}
				if o.err != nil {
					return unexpected(o)
				}
				n := clone(old)
				n.Usage = val
				if !same(n, ret) {
					return nil, "only the usage must change"
				}
				return n, ""
			}
		default:
			o.name, o.read = "GetMeterReading", true
			o.run = func() {
				ret, o.err = srv.GetMeterReading(context.Background(), &traits.GetMeterReadingRequest{Name: "dev"})
				ret = clone(ret)
			}
			o.step = func(s any) (any, string) {
				if o.err != nil || !same(ret, s.(*traits.MeterReading)) {
					return nil, "must return the reading"
				}
				return s, ""
			}
		}
		return o
	}
	return rm
}

// ---- publication ----

type pubs map[string]*traits.Publication

func (s pubs) with(id string, p *traits.Publication) pubs {
	n := pubs{}
	for k, v := range s {
		n[k] = v
	}
	if p == nil {
		delete(n, id)
	} else {
		n[id] = p
	}
	return n
}

func (s pubs) String() string {
	var b strings.Builder
	for _, k := range sortedKeys(s) {
		fmt.Fprintf(&b, "%s:{%s} ", k, txt(s[k]))
	}
	return b.String()
}

func c20Publication(t *core.T, concurrent bool) *ruleModel {
	clk := &modelClock{t: t, now: epoch}
	opts := []resource.Option{resource.WithClock(clk)}
	ids := []string{"a", "b", "ab"}[:t.Range(1, 3)]
	draw := func() *traits.Publication {
		p := &traits.Publication{
			Body:      core.Choose(t, []byte(nil), []byte("x"), []byte("xy"), []byte("y"), []byte("bx"), []byte("x:"), []byte("x\x00"), []byte("x ")),
			MediaType: core.Choose(t, "", "y", "x", "t", ":y", "\x00y", " y"),
		}
		if t.Chance(70) {
			p.Audience = &traits.Publication_Audience{Name: core.Choose(t, "", "x", "y", "t")}
			if t.Chance(20) {
				p.Audience.Receipt = traits.Publication_Audience_ACCEPTED
				p.Audience.ReceiptTime = timestamppb.New(epoch)
				p.Audience.ReceiptRejectedReason = "no"
			}
		}
		if t.Chance(10) {
			p.Version, p.PublishTime = "theirs", timestamppb.New(epoch)
		}
		return p
	}
	init := pubs{}
	for _, id := range ids {
		if t.Chance(50) {
			p := draw()
			p.Id = id
			p.Version = core.Choose(t, "v0", "")
			init[id] = p
			opts = append(opts, publicationpb.WithInitialPublication(clone(p)))
		}
	}
	m := publicationpb.NewModel(opts...)
	srv := publicationpb.NewModelServer(m)
	rm := &ruleModel{init: init, key: func(s any) string { return s.(pubs).String() }}
	rm.now = func() string {
		s := pubs{}
		for _, p := range m.ListPublications() {
			s[p.Id] = p
		}
		return s.String()
	}
	// a version identifies the content
	content := func(p *traits.Publication) string {
		return fmt.Sprintf("%q %q %q %q", p.Id, p.Body, p.MediaType, p.GetAudience().GetName())
	}
	version, contentOf := map[string]string{}, map[string]string{}
	minted := func(p *traits.Publication) string {
		c := content(p)
		if p.Version == "" {
			return "there is no version"
		}
		if v, ok := version[c]; ok && v != p.Version {
			return fmt.Sprintf("content %s had version %s before", c, v)
		}
		if d, ok := contentOf[p.Version]; ok && d != c {
			return fmt.Sprintf("the version is also that of other content, %s", d)
		}
		version[c], contentOf[p.Version] = p.Version, c
		return ""
	}
	// published checks what the model computes in ret and returns what it must be
	published := func(o *ruleOp, want, ret *traits.Publication) string {
		want.Version, want.PublishTime = ret.GetVersion(), ret.GetPublishTime()
		if want.Audience != nil {
			want.Audience.Receipt = traits.Publication_Audience_NO_SIGNAL
			want.Audience.ReceiptRejectedReason = ""
			want.Audience.ReceiptTime = nil
		}
		if !same(want, ret) {
			return "must return " + txt(want)
		}
		if !clk.current(ret.PublishTime, o.inv, o.resp) {
			return "the publish time must be now"
		}
		return minted(ret)
	}
	var live []string // versions seen, for callers to name
	rm.draw = func() *ruleOp {
		id := core.Choose(t, ids...)
		pick := t.Int(1 << 16) // which version a caller names, of those around when the call is made
		named := func() string {
			p, _ := m.GetPublication(id)
			switch {
			case pick%8 == 0:
				return "stale"
			case pick%8 == 1 && len(live) > 0:
				return live[pick/8%len(live)]
			}
			return p.GetVersion()
		}
		var ret *traits.Publication
		o := &ruleOp{ret: func() string { return txt(ret) }}
		kind := t.Weighted(3, 5, 6, 2, 1)
		verb := []string{"Create", "Update", "Acknowledge", "Delete", "Get"}[kind]
		finish := func() {
			if ret != nil {
				ret = clone(ret)
				if ret.Version != "" {
					live = append(live, ret.Version)
				}
			}
		}
		switch kind {
		case 0:
			in := draw()
			if t.Chance(80) {
				in.Id = id
			}
			req := clone(in)
			o.name = fmt.Sprintf("%s(%s)", verb, txt(in))
			o.run = func() {
				ret, o.err = srv.CreatePublication(context.Background(), &traits.CreatePublicationRequest{Name: "dev", Publication: in})
				finish()
			}
			o.step = func(s any) (any, string) {
				st := s.(pubs)
				if req.Id != "" && st[req.Id] != nil {
					return refused(o, s, codes.AlreadyExists)
				}
				if o.aborted(concurrent) {
					return s, ""
				}
				if o.err != nil {
					return unexpected(o)
				}
				want := clone(req)
				if req.Id == "" {
					want.Id = ret.GetId()
					if want.Id == "" || st[want.Id] != nil {
						return nil, "an id must be generated"
					}
				}
				if why := published(o, want, ret); why != "" {
					return nil, why
				}
				return st.with(want.Id, want), ""
			}
		case 1:
			in := draw()
			in.Id = id
			if t.Chance(5) {
				in.Id = ""
			}
			req := clone(in)
			mask := core.Choose(t, nil, []string{"body"}, []string{"media_type"}, []string{"audience.name"}, []string{"body", "media_type"}, []string{"audience"})
			check := t.Chance(40)
			var ver string
			o.name = fmt.Sprintf("%s(%s, mask %v, check version %v)", verb, txt(in), mask, check)
			o.run = func() {
				r := &traits.UpdatePublicationRequest{Name: "dev", Publication: in}
				if mask != nil {
					r.UpdateMask = &fieldmaskpb.FieldMask{Paths: mask}
				}
				if check {
					r.Version = named()
					ver = r.Version
					o.name += " " + ver
				}
				ret, o.err = srv.UpdatePublication(context.Background(), r)
				finish()
			}
			o.step = func(s any) (any, string) {
				st := s.(pubs)
				old := st[req.Id]
				if req.Id == "" {
					return refused(o, s, codes.InvalidArgument)
				}
				if o.aborted(concurrent) {
					return s, ""
				}
				if old == nil {
					return refused(o, s, codes.NotFound)
				}
				if ver != "" && old.Version != ver {
					return refused(o, s, codes.FailedPrecondition)
				}
				if o.err != nil {
					return unexpected(o)
				}
				want := clone(req)
				if mask != nil {
					want = clone(old)
					for _, p := range mask {
						setPath(want.ProtoReflect(), req.ProtoReflect(), strings.Split(p, "."))
					}
				}
				if why := published(o, want, ret); why != "" {
					return nil, why
				}
				return st.with(req.Id, want), ""
			}
		case 2:
			receipt := core.Choose(t, traits.Publication_Audience_ACCEPTED, traits.Publication_Audience_REJECTED, traits.Publication_Audience_RECEIPT_UNSPECIFIED)
			reason := ""
			if receipt == traits.Publication_Audience_REJECTED {
				reason = core.Choose(t, "", "why")
			}
			allow := t.Chance(50)
			var ver string
			noID := t.Chance(3)
			o.name = fmt.Sprintf("%s(%s, %v %q, allow acknowledged %v)", verb, id, receipt, reason, allow)
			o.run = func() {
				ver = named()
				o.name += " version " + ver
				r := &traits.AcknowledgePublicationRequest{Name: "dev", Id: id, Version: ver, Receipt: receipt, ReceiptRejectedReason: reason, AllowAcknowledged: allow}
				if noID {
					r.Id = ""
				}
				ret, o.err = srv.AcknowledgePublication(context.Background(), r)
				finish()
			}
			o.step = func(s any) (any, string) {
				st := s.(pubs)
				old := st[id]
				if noID || ver == "" {
					return refused(o, s, codes.InvalidArgument)
				}
				if o.aborted(concurrent) {
					return s, ""
				}
				if old == nil {
					return refused(o, s, codes.NotFound)
				}
				if old.Version != ver {
					return refused(o, s, codes.Aborted)
				}
				if r := old.GetAudience().GetReceipt(); r == traits.Publication_Audience_ACCEPTED || r == traits.Publication_Audience_REJECTED {
					if !allow {
						return refused(o, s, codes.FailedPrecondition)
					}
					if o.err != nil {
						return unexpected(o)
					}
					if !same(ret, old) {
						return nil, "must return the publication, unchanged"
					}
					return s, ""
				}
				if o.err != nil {
					if old.Audience == nil { // nobody is expected to acknowledge it
						return s, ""
					}
					return unexpected(o)
				}
				want := clone(old)
				if want.Audience == nil {
					want.Audience = &traits.Publication_Audience{}
				}
				want.Audience.Receipt = receipt
				if receipt == traits.Publication_Audience_RECEIPT_UNSPECIFIED {
					want.Audience.Receipt = traits.Publication_Audience_ACCEPTED
				}
				want.Audience.ReceiptRejectedReason = reason
				want.Audience.ReceiptTime = ret.GetAudience().GetReceiptTime()
				if !same(want, ret) {
					return nil, "must return " + txt(want)
				}
				if !clk.current(want.Audience.ReceiptTime, o.inv, o.resp) {
					return nil, "the receipt time must be now"
				}
				return st.with(id, want), ""
			}
		case 3:
			check, allow := t.Chance(50), t.Chance(30)
			var ver string
			o.name = fmt.Sprintf("%s(%s, check version %v, allow missing %v)", verb, id, check, allow)
			o.run = func() {
				if check {
					ver = named()
					o.name += " " + ver
				}
				ret, o.err = srv.DeletePublication(context.Background(), &traits.DeletePublicationRequest{Name: "dev", Id: id, Version: ver, AllowMissing: allow})
				finish()
			}
			o.step = func(s any) (any, string) {
				st := s.(pubs)
				old := st[id]
				if o.aborted(concurrent) {
					return s, ""
				}
				if old == nil {
					if allow && o.err == nil {
						return s, ""
					}
					if allow {
						return unexpected(o)
					}
					return refused(o, s, codes.NotFound)
				}
				if ver != "" && old.Version != ver {
					return refused(o, s, codes.FailedPrecondition)
				}
				if o.err != nil {
					return unexpected(o)
				}
				if !same(ret, old) {
					return nil, "must return the publication"
				}
				return st.with(id, nil), ""
			}
		default:
			o.read = true
			o.name = fmt.Sprintf("%s(%s)", verb, id)
			o.run = func() {
				ret, o.err = srv.GetPublication(context.Background(), &traits.GetPublicationRequest{Name: "dev", Id: id})
				finish()
			}
			o.step = func(s any) (any, string) {
				st := s.(pubs)
				if st[id] == nil {
					return refused(o, s, codes.NotFound)
				}
				if o.err != nil || !same(ret, st[id]) {
					return nil, "must return the publication"
				}
				return s, ""
			}
		}
		return o
	}
	return rm
}
