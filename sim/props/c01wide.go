package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// wideTypes are the messages of the traits, and those of the test message.
var wideTypes = sync.OnceValue(func() []protoreflect.MessageType {
	var out []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		d := mt.Descriptor()
		if strings.HasPrefix(string(d.FullName()), "smartcore.traits.") && !d.IsMapEntry() && d.Fields().Len() > 0 {
			out = append(out, mt)
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Descriptor().FullName() < out[j].Descriptor().FullName() })
	return out
})

// widePaths draws paths of a message type of which none covers another. Fields
// set in one of ms are preferred.
func widePaths(t *core.T, md protoreflect.MessageDescriptor, n int, ms ...proto.Message) []string {
	var out []string
	for ; n > 0; n-- {
		var rs []protoreflect.Message
		for _, m := range ms {
			if m != nil {
				rs = append(rs, m.ProtoReflect())
			}
		}
		var path []string
		for d, depth := md, 0; depth < 4; depth++ {
			fs := d.Fields()
			if fs.Len() == 0 {
				break
			}
			fd := fs.Get(t.Int(fs.Len()))
			if t.Chance(70) {
				var set []protoreflect.FieldDescriptor
				for i := 0; i < fs.Len(); i++ {
					for _, r := range rs {
						if r.Has(fs.Get(i)) {
							set = append(set, fs.Get(i))
							break
						}
					}
				}
				if len(set) > 0 {
					fd = set[t.Int(len(set))]
				}
			}
			path = append(path, string(fd.Name()))
			if fd.Kind() != protoreflect.MessageKind || fd.IsList() || fd.IsMap() || t.Chance(40) {
				break
			}
			var next []protoreflect.Message
			for _, r := range rs {
				if r.Has(fd) {
					next = append(next, r.Get(fd).Message())
				}
			}
			d, rs = fd.Message(), next
		}
		p := strings.Join(path, ".")
		ok := true
		for _, q := range out {
			ok = ok && !covered(p, []string{q}) && !covered(q, []string{p})
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

// c01Wide writes and reads messages of any type through masks of any path.
func c01Wide(t *core.T) {
	mt := (&tp.TestAllTypes{}).ProtoReflect().Type()
	pct, depth := 6, 3
	if t.Chance(60) {
		ts := wideTypes()
		mt, pct = ts[t.Int(len(ts))], 45
	}
	md := mt.Descriptor()
	draw := func() proto.Message {
		m := mt.New()
		p := core.Choose(t, pct, pct, pct*2, 0)
		fillMsg(t, m, p, depth)
		return m.Interface()
	}
	items := map[string]proto.Message{}
	var opts []resource.Option
	var writable []string
	if t.Chance(35) {
		m := draw()
		writable = widePaths(t, md, t.Range(1, 5), m)
		opts = append(opts, resource.WithWritablePaths(mt.New().Interface(), writable...))
	}
	var val *resource.Value
	var col *resource.Collection
	ids := []string{""}
	if t.Chance(50) {
		if t.Chance(80) {
			m := draw()
			items[""] = m
			opts = append(opts, resource.WithInitialValue(clone(m)))
		}
		val = resource.NewValue(opts...)
	} else {
		ids = []string{"a", "b"}
		for _, id := range ids {
			if t.Chance(50) {
				m := draw()
				items[id] = m
				opts = append(opts, resource.WithInitialRecord(id, clone(m)))
			}
		}
		col = resource.NewCollection(opts...)
	}
	var hist []string
	fail := func(class, format string, args ...any) {
		t.Fail(class, "%s, writable %v: %s\n    %s", md.FullName(), writable, fmt.Sprintf(format, args...), strings.Join(hist, "\n    "))
	}
	written, masked := 0, 0
	t.Repeat(2, 8, func(int) {
		id := ids[t.Int(len(ids))]
		old := items[id]
		switch {
		case old != nil && col != nil && t.Chance(8):
			got, err := col.Delete(id)
			hist = append(hist, fmt.Sprintf("Delete(%q)", id))
			if err != nil || !same(got, old) {
				fail("result", "Delete(%q) returned %s, %v, want %s", id, txt(got), err, txt(old))
			}
			delete(items, id)
		default:
			m := draw()
			if old != nil && t.Chance(30) {
				// most of what is there stays
				m = clone(old)
				fillMsg(t, m.ProtoReflect(), 5, depth)
			}
			var wo []resource.WriteOption
			var upd, reset []string
			hasUpd := t.Chance(65)
			bad := codes.OK
			if hasUpd {
				upd = widePaths(t, md, t.Range(0, 4), m, old)
				if writable != nil {
					strict := t.Chance(60)
					var in []string
					for _, p := range upd {
						// whether a message can be named of which a part is
						// writable isn't specified
						partly := false
						for _, w := range writable {
							partly = partly || w != p && covered(w, []string{p})
						}
						if !partly && (!strict || covered(p, writable)) {
							in = append(in, p)
						}
					}
					upd = in
				}
				if t.Chance(4) {
					upd = append(upd, "no_such_field")
					bad = codes.InvalidArgument
				}
				for _, p := range upd {
					if writable != nil && !covered(p, writable) {
						bad = codes.InvalidArgument
					}
				}
				mask := &fieldmaskpb.FieldMask{Paths: append([]string(nil), upd...)}
				wo = append(wo, resource.WithUpdateMask(mask))
			}
			if t.Chance(20) && !(hasUpd && len(upd) == 0) {
				reset = widePaths(t, md, t.Range(1, 2), old, m)
				wo = append(wo, resource.WithResetPaths(reset...))
			}
			want := mt.New()
			if old != nil {
				want = proto.Clone(old).ProtoReflect()
			}
			src := m.ProtoReflect()
			switch {
			case hasUpd:
				for _, p := range upd {
					if bad == codes.OK {
						setPath(want, src, strings.Split(p, "."))
					}
				}
			case writable != nil:
				for _, p := range writable {
					clearPath(want, strings.Split(p, "."))
					setPath(want, src, strings.Split(p, "."))
				}
			default:
				want = proto.Clone(m).ProtoReflect()
			}
			for _, p := range reset {
				clearPath(want, strings.Split(p, "."))
			}
			var got proto.Message
			var err error
			call := ""
			switch {
			case val != nil:
				call = "Set"
				got, err = val.Set(clone(m), wo...)
			case old == nil && t.Chance(50):
				call = "Add " + id
				got, err = col.Add(id, clone(m), wo...)
			default:
				call = "Update " + id
				if old == nil {
					wo = append(wo, resource.WithCreateIfAbsent())
				}
				got, err = col.Update(id, clone(m), wo...)
			}
			if hasUpd {
				call += fmt.Sprintf(" update=%v", upd)
			}
			call = fmt.Sprintf("%s reset=%v %s over %s", call, reset, txt(m), txt(old))
			hist = append(hist, call)
			if bad != codes.OK {
				if code(err) != bad {
					fail("code", "%s gives %v, want %s", call, err, bad)
				}
				break
			}
			if err != nil || !same(got, want.Interface()) {
				fail("result", "%s returned %s, %v, want %s", call, txt(got), err, txt(want.Interface()))
			}
			items[id] = want.Interface()
			written++
			if hasUpd && len(upd) > 0 || writable != nil {
				masked++
			}
		}
		var read []string
		var ro []resource.ReadOption
		hasRead := t.Chance(60)
		if hasRead {
			var any proto.Message
			if len(items) > 0 {
				any = items[id]
			}
			read = widePaths(t, md, t.Range(0, 3), any)
			ro = append(ro, resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: read}))
		}
		var list []proto.Message
		if col != nil {
			list = col.List(ro...)
			if len(list) != len(items) {
				fail("contents", "List has %d items, want %d", len(list), len(items))
			}
		}
		n := 0
		for _, id := range ids {
			want, ok := items[id]
			if ok {
				want = project(want, read, hasRead)
			}
			var got proto.Message
			if val != nil {
				got = val.Get(ro...)
			} else {
				got, _ = col.Get(id, ro...)
				if ok {
					if !same(list[n], want) {
						fail("contents", "List item %q with mask %v is %s, want %s", id, read, txt(list[n]), txt(want))
					}
					n++
				}
			}
			if !ok && got != nil || ok && !same(got, want) {
				fail("contents", "Get(%q) with mask %v is %s, want %s", id, read, txt(got), txt(want))
			}
		}
	})
	if written >= 2 && masked >= 1 {
		t.Nontrivial()
	}
}
