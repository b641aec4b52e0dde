package props

import (
	"fmt"
	"hash/fnv"
	"math"
	"strings"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// txt renders a message for logs and reports: deterministic, unlike prototext.
func txt(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	r := m.ProtoReflect()
	if !r.IsValid() {
		return "nil"
	}
	var b strings.Builder
	txtMsg(&b, r)
	return b.String()
}

func txtMsg(b *strings.Builder, r protoreflect.Message) {
	b.WriteByte('{')
	fs := r.Descriptor().Fields()
	first := true
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !r.Has(fd) {
			continue
		}
		if !first {
			b.WriteByte(' ')
		}
		first = false
		b.WriteString(string(fd.Name()))
		b.WriteByte(':')
		v := r.Get(fd)
		switch {
		case fd.IsList():
			b.WriteByte('[')
			for j := 0; j < v.List().Len(); j++ {
				if j > 0 {
					b.WriteByte(' ')
				}
				txtVal(b, fd, v.List().Get(j))
			}
			b.WriteByte(']')
		case fd.IsMap():
			var ks []string
			vs := map[string]string{}
			v.Map().Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
				var bb strings.Builder
				txtVal(&bb, fd.MapValue(), e)
				ks = append(ks, k.String())
				vs[k.String()] = bb.String()
				return true
			})
			sortStrings(ks)
			b.WriteByte('[')
			for j, k := range ks {
				if j > 0 {
					b.WriteByte(' ')
				}
				fmt.Fprintf(b, "%s=%s", k, vs[k])
			}
			b.WriteByte(']')
		default:
			txtVal(b, fd, v)
		}
	}
	if u := r.GetUnknown(); len(u) > 0 {
		fmt.Fprintf(b, " ?%x", []byte(u))
	}
	b.WriteByte('}')
}

func txtVal(b *strings.Builder, fd protoreflect.FieldDescriptor, v protoreflect.Value) {
	switch fd.Kind() {
	case protoreflect.MessageKind, protoreflect.GroupKind:
		txtMsg(b, v.Message())
	case protoreflect.BytesKind:
		fmt.Fprintf(b, "%x", v.Bytes())
	case protoreflect.StringKind:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprint(b, v.Interface())
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// same compares messages by content; a nil message equals only a nil message.
// It does not use the repository's comparers.
func same(a, b proto.Message) bool {
	an, bn := a == nil || !a.ProtoReflect().IsValid(), b == nil || !b.ProtoReflect().IsValid()
	if an || bn {
		return an == bn
	}
	return proto.Equal(a, b)
}

func fingerprint(m proto.Message) uint64 {
	h := fnv.New64a()
	h.Write([]byte(txt(m)))
	return h.Sum64()
}

func clone[M proto.Message](m M) M {
	return proto.Clone(m).(M)
}

// smallMsg draws a message over a small alphabet of the fields that masks and
// interceptors of the generated programs use.
func smallMsg(t *core.T) *tp.TestAllTypes {
	m := &tp.TestAllTypes{}
	m.DefaultInt32 = int32(t.Int(4))
	if t.Chance(50) {
		m.DefaultString = core.Choose(t, "x", "y", "z")
	}
	if t.Chance(30) {
		m.DefaultDouble = float64(t.Range(1, 3))
	}
	if t.Chance(40) {
		m.DefaultNestedMessage = &tp.TestAllTypes_NestedMessage{A: int32(t.Int(3))}
		if t.Chance(30) {
			m.DefaultNestedMessage.Corecursive = &tp.TestAllTypes{DefaultInt32: int32(t.Range(1, 2))}
		}
	}
	for i := t.Int(3); i > 0; i-- {
		m.RepeatedInt32 = append(m.RepeatedInt32, int32(t.Int(3)))
	}
	if t.Chance(15) {
		m.DefaultForeignMessage = &tp.ForeignMessage{C: int32(t.Int(3))}
	}
	return m
}

// smallPaths are the paths used in masks over smallMsg.
var smallPaths = []string{"default_int32", "default_string", "default_double", "repeated_int32", "default_nested_message", "default_foreign_message"}

// drawPaths draws a subset of the small paths; with nested, the nested message
// may appear by one of its fields.
func drawPaths(t *core.T, pct int, nested bool) []string {
	var out []string
	for _, p := range smallPaths {
		if !t.Chance(pct) {
			continue
		}
		if p == "default_nested_message" && nested && t.Chance(50) {
			p = core.Choose(t, "default_nested_message.a", "default_nested_message.corecursive")
		}
		out = append(out, p)
	}
	return out
}

// fillMsg sets random fields of any message type.
func fillMsg(t *core.T, m protoreflect.Message, pct, depth int) {
	switch v := m.Interface().(type) {
	case *timestamppb.Timestamp:
		v.Seconds, v.Nanos = int64(t.Int(4))*1800-1800, int32(t.Int(3))
		return
	case *durationpb.Duration:
		v.Seconds, v.Nanos = int64(t.Int(4))*1800, int32(t.Int(3))
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !t.Chance(pct) {
			continue
		}
		setField(t, m, fd, pct, depth)
	}
}

func setField(t *core.T, m protoreflect.Message, fd protoreflect.FieldDescriptor, pct, depth int) {
	isMsg := fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind
	switch {
	case fd.IsMap():
		mv := m.Mutable(fd).Map()
		for j := t.Range(1, 2); j > 0; j-- {
			k := drawScalar(t, fd.MapKey()).MapKey()
			if vk := fd.MapValue(); vk.Kind() == protoreflect.MessageKind {
				v := mv.NewValue()
				if depth > 0 {
					fillMsg(t, v.Message(), pct, depth-1)
				}
				mv.Set(k, v)
			} else {
				mv.Set(k, drawScalar(t, vk))
			}
		}
	case fd.IsList():
		l := m.Mutable(fd).List()
		for j := t.Range(1, 2); j > 0; j-- {
			if isMsg {
				v := l.NewElement()
				if depth > 0 {
					fillMsg(t, v.Message(), pct, depth-1)
				}
				l.Append(v)
			} else {
				l.Append(drawScalar(t, fd))
			}
		}
	case isMsg:
		if depth <= 0 {
			return
		}
		v := m.NewField(fd)
		fillMsg(t, v.Message(), pct, depth-1)
		m.Set(fd, v)
	default:
		m.Set(fd, drawScalar(t, fd))
	}
}

func drawScalar(t *core.T, fd protoreflect.FieldDescriptor) protoreflect.Value {
	n := t.Int(4)
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(n%2 == 1)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32([]int32{0, 1, -1, math.MaxInt32}[n])
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64([]int64{0, 1, -1, math.MaxInt64}[n])
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32([]uint32{0, 1, 2, math.MaxUint32}[n])
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64([]uint64{0, 1, 2, math.MaxUint64}[n])
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32([]float32{0, 1, -2.5, 100}[n])
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64([]float64{0, 1, -2.5, 100}[n])
	case protoreflect.StringKind:
		return protoreflect.ValueOfString([]string{"", "a", "b", "long string"}[n])
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([][]byte{{}, {1}, {2, 3}, {0}}[n])
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(n % vs.Len()).Number())
	}
	panic("kind")
}

// addUnknown appends an unknown field.
func addUnknown(m proto.Message, v uint64) {
	r := m.ProtoReflect()
	b := protowire.AppendTag(nil, 19000+20, protowire.VarintType)
	b = protowire.AppendVarint(b, v)
	r.SetUnknown(append(r.GetUnknown(), b...))
}

func code(err error) codes.Code { return status.Code(err) }

func codeIn(c codes.Code, cs []codes.Code) bool {
	for _, x := range cs {
		if x == c {
			return true
		}
	}
	return false
}

// contextErr reports whether err means that a context ended.
func contextErr(err error) bool {
	if err == nil {
		return false
	}
	switch code(err) {
	case codes.Canceled, codes.DeadlineExceeded:
		return true
	}
	return strings.Contains(err.Error(), "context canceled") || strings.Contains(err.Error(), "context deadline exceeded")
}

// scribble overwrites everything in a message, in place.
func scribble(m protoreflect.Message, depth int) {
	if !m.IsValid() {
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if fd.ContainingOneof() != nil && !m.Has(fd) {
			continue
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			mp.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				if fd.MapValue().Kind() == protoreflect.MessageKind {
					scribble(v.Message(), depth-1)
				} else {
					mp.Set(k, junk(fd.MapValue()))
				}
				return true
			})
		case fd.IsList():
			l := m.Mutable(fd).List()
			for j := 0; j < l.Len(); j++ {
				if fd.Kind() == protoreflect.MessageKind {
					scribble(l.Get(j).Message(), depth-1)
				} else {
					l.Set(j, junk(fd))
				}
			}
			if fd.Kind() == protoreflect.MessageKind {
				l.Append(l.NewElement())
			} else {
				l.Append(junk(fd))
			}
		case fd.Kind() == protoreflect.MessageKind:
			if m.Has(fd) && depth > 0 {
				scribble(m.Mutable(fd).Message(), depth-1)
			}
		default:
			m.Set(fd, junk(fd))
		}
	}
}

func junk(fd protoreflect.FieldDescriptor) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(true)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(-77)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(-77)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(77)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(77)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(-77)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(-77)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString("SCRIBBLE")
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte("SCRIBBLE"))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(fd.Enum().Values().Get(fd.Enum().Values().Len() - 1).Number())
	}
	panic("kind")
}
