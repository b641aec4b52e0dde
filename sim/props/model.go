package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// This file is the reference specification of writes: what a call with some
// options does to a plain register or map. Nothing in it uses the repository's
// mask, comparison or update code.

type opKind int

const (
	opSet opKind = iota
	opAdd
	opUpdate
	opDelete
	opGet
	opList
)

func (k opKind) String() string {
	return [...]string{"Set", "Add", "Update", "Delete", "Get", "List"}[k]
}

// check is an expected-check predicate over the current value.
type check struct {
	kind int // 0 int32 == n, 1 int32 != n, 2 always fails, 3 string != ""
	n    int32
	code codes.Code
	text bool // returns a plain error
}

var errPlain = errors.New("plain check error")

func (c *check) eval(old proto.Message) error {
	var m *tp.TestAllTypes
	if old != nil {
		m = old.(*tp.TestAllTypes)
	}
	ok := false
	switch c.kind {
	case 0:
		ok = m.GetDefaultInt32() == c.n
	case 1:
		ok = m.GetDefaultInt32() != c.n
	case 3:
		ok = m.GetDefaultString() != ""
	}
	if ok {
		return nil
	}
	if c.text {
		return errPlain
	}
	return status.Error(c.code, "check failed")
}

// wop is one call with its options.
type wop struct {
	kind  opKind
	id    string
	alias bool // by another name for it
	msg   *tp.TestAllTypes

	update  []string // update mask paths
	hasUpd  bool
	more    []string // WithMoreUpdatePaths
	reset   []string
	expVal  *tp.TestAllTypes
	chk     *check
	absent  bool // WithExpectAbsent
	create  bool // WithCreateIfAbsent
	missing bool // WithAllowMissing
	genID   bool
	before  int // 0 none, 1 add old int32, 2 set string to before:old
	after   int // 0 none, 1 count changes into double, 2 append to the list
	moreW   []string
	// the paths of moreW come as options of their own
	moreWsplit bool
	allW       bool
	wtime      *time.Time
	readMask   []string
	hasRead    bool
	useRaw     bool // masks through WithUpdateMask instead of WithUpdatePaths
	readPaths  bool // the read mask through WithReadPaths

	slow  time.Duration // how long callbacks take
	pause time.Duration // before the call
}

func (o *wop) String() string {
	var b strings.Builder
	if o.pause > 0 {
		fmt.Fprintf(&b, "after %s ", o.pause)
	}
	fmt.Fprintf(&b, "%s(", o.kind)
	if o.kind != opSet && o.kind != opList {
		fmt.Fprintf(&b, "%q", o.id)
	}
	if o.msg != nil {
		fmt.Fprintf(&b, " %s", txt(o.msg))
	}
	if o.hasUpd {
		fmt.Fprintf(&b, " update=%v", o.update)
	}
	if o.more != nil {
		fmt.Fprintf(&b, " moreUpdate=%v", o.more)
	}
	if o.reset != nil {
		fmt.Fprintf(&b, " reset=%v", o.reset)
	}
	if o.expVal != nil {
		fmt.Fprintf(&b, " expect=%s", txt(o.expVal))
	}
	if o.chk != nil {
		fmt.Fprintf(&b, " check=%+v", *o.chk)
	}
	for _, f := range []struct {
		on bool
		n  string
	}{{o.absent, "expectAbsent"}, {o.create, "createIfAbsent"}, {o.missing, "allowMissing"}, {o.genID, "genID"}, {o.allW, "allWritable"}} {
		if f.on {
			b.WriteString(" " + f.n)
		}
	}
	if o.moreW != nil {
		fmt.Fprintf(&b, " moreWritable=%v", o.moreW)
	}
	if o.before != 0 {
		fmt.Fprintf(&b, " before=%d", o.before)
	}
	if o.after != 0 {
		fmt.Fprintf(&b, " after=%d", o.after)
	}
	if o.wtime != nil {
		fmt.Fprintf(&b, " writeTime=%s", o.wtime.Format("15:04:05.000"))
	}
	if o.hasRead {
		fmt.Fprintf(&b, " read=%v", o.readMask)
	}
	b.WriteString(")")
	return b.String()
}

func beforeFn(k int, old, change *tp.TestAllTypes) {
	switch k {
	case 1:
		change.DefaultInt32 += old.GetDefaultInt32()
	case 2:
		change.DefaultString = "b" + old.GetDefaultString()
		if len(change.DefaultString) > 3 {
			change.DefaultString = change.DefaultString[:3]
		}
	}
}

func afterFn(k int, old, res *tp.TestAllTypes) {
	switch k {
	case 1:
		res.DefaultDouble = old.GetDefaultDouble() + 1
	case 2:
		if len(res.RepeatedInt32) > 4 {
			res.RepeatedInt32 = nil
		}
		res.RepeatedInt32 = append(res.RepeatedInt32, old.GetDefaultInt32())
	}
}

func asTAT(m proto.Message) *tp.TestAllTypes {
	if m == nil {
		return nil
	}
	return m.(*tp.TestAllTypes)
}

// observed is what the callbacks of a call saw.
type observed struct {
	ids     []string
	created int
	olds    []string // old value seen by each check/interceptor, rendered
	inNow   func() string
	touch   bool // only read what is shown
}

// options builds the real options.
func (o *wop) options(ob *observed) []resource.WriteOption {
	var out []resource.WriteOption
	if o.hasUpd {
		if o.useRaw {
			out = append(out, resource.WithUpdateMask(&fieldmaskpb.FieldMask{Paths: append([]string(nil), o.update...)}))
		} else {
			out = append(out, resource.WithUpdatePaths(append([]string(nil), o.update...)...))
		}
	}
	if o.more != nil {
		out = append(out, resource.WithMoreUpdatePaths(o.more...))
	}
	if o.reset != nil {
		out = append(out, resource.WithResetPaths(o.reset...))
	}
	if o.expVal != nil {
		out = append(out, resource.WithExpectedValue(clone(o.expVal)))
	}
	if o.chk != nil {
		out = append(out, resource.WithExpectedCheck(func(m proto.Message) error {
			ob.see(m)
			o.dawdle()
			return o.chk.eval(m)
		}))
	}
	if o.absent {
		out = append(out, resource.WithExpectAbsent())
	}
	if o.create {
		out = append(out, resource.WithCreateIfAbsent())
	}
	if o.missing {
		out = append(out, resource.WithAllowMissing(true))
	}
	if o.genID {
		out = append(out, resource.WithGenIDIfAbsent())
	}
	if o.kind != opSet || o.genID || o.create {
		out = append(out, resource.WithIDCallback(func(id string) { ob.ids = append(ob.ids, id) }),
			resource.WithCreatedCallback(func() { ob.created++ }))
	}
	if o.before != 0 {
		out = append(out, resource.InterceptBefore(func(old, change proto.Message) {
			ob.see(old)
			o.dawdle()
			beforeFn(o.before, asTAT(old), change.(*tp.TestAllTypes))
		}))
	}
	if o.after != 0 {
		out = append(out, resource.InterceptAfter(func(old, res proto.Message) {
			ob.see(old)
			afterFn(o.after, asTAT(old), res.(*tp.TestAllTypes))
		}))
	}
	for i, p := range o.moreW {
		if o.moreWsplit || i == 0 {
			paths := o.moreW
			if o.moreWsplit {
				paths = []string{p}
			}
			out = append(out, resource.WithMoreWritablePaths(paths...))
		}
	}
	if o.allW {
		out = append(out, resource.WithAllFieldsWritable())
	}
	if o.wtime != nil {
		out = append(out, resource.WithWriteTime(*o.wtime))
	}
	return out
}

func (o *wop) dawdle() {
	if o.slow > 0 {
		time.Sleep(o.slow)
	}
}

func (ob *observed) see(m proto.Message) {
	if ob.touch {
		touch(m)
		return
	}
	ob.olds = append(ob.olds, txt(m))
}

func (o *wop) readOpts() []resource.ReadOption {
	if !o.hasRead {
		return nil
	}
	if o.readPaths {
		return []resource.ReadOption{resource.WithReadPaths(&tp.TestAllTypes{}, o.readMask...)}
	}
	return []resource.ReadOption{resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: o.readMask})}
}

// store is a Value or a Collection with the configuration the model needs.
type store struct {
	val *resource.Value
	col *resource.Collection

	writable    []string // nil: everything
	hasWritable bool
	intercept   func(string) string
	alias       string // a prefix the resource ignores in ids
}

// named is an id as one of the callers writes it.
func (s *store) named(id string, alias bool) string {
	if alias {
		return s.alias + id
	}
	return id
}

// state of the reference: a Value has the single key "".
type state struct {
	items map[string]*tp.TestAllTypes
}

func (s state) clone() state {
	c := state{items: map[string]*tp.TestAllTypes{}}
	for k, v := range s.items {
		c.items[k] = v
	}
	return c
}

func (s state) ids() []string {
	var out []string
	for k := range s.items {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (s state) String() string {
	var b strings.Builder
	for _, k := range s.ids() {
		fmt.Fprintf(&b, "%q=%s ", k, txt(s.items[k]))
	}
	return b.String()
}

// outcome is what the reference says about a call: either it fails with one of
// the codes and changes nothing, or it succeeds.
type outcome struct {
	codes   []codes.Code
	ret     proto.Message // returned message on success
	failRet []proto.Message
	id      string // affected id
	old     *tp.TestAllTypes
	new     *tp.TestAllTypes // nil after a delete or when nothing changes
	kind    byte             // 'A' add, 'U' update, 'R' remove, 0 no write
	created bool
	gen     bool // an id must have been generated
}

// setPath applies one path of a mask, src to dst.
func setPath(dst, src protoreflect.Message, path []string) {
	fd := dst.Descriptor().Fields().ByName(protoreflect.Name(path[0]))
	if len(path) > 1 {
		if !src.Has(fd) {
			if dst.Has(fd) {
				clearPath(dst.Mutable(fd).Message(), path[1:])
			}
			return
		}
		setPath(dst.Mutable(fd).Message(), src.Get(fd).Message(), path[1:])
		return
	}
	if !src.Has(fd) {
		dst.Clear(fd)
		return
	}
	switch {
	case fd.IsList():
		l := dst.Mutable(fd).List()
		sl := src.Get(fd).List()
		for i := 0; i < sl.Len(); i++ {
			if fd.Kind() == protoreflect.MessageKind {
				l.Append(protoreflect.ValueOfMessage(proto.Clone(sl.Get(i).Message().Interface()).ProtoReflect()))
			} else {
				l.Append(sl.Get(i))
			}
		}
	case fd.IsMap():
		// the entries of src replace those of dst with the same keys
		d := dst.Mutable(fd).Map()
		src.Get(fd).Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
			if fd.MapValue().Kind() == protoreflect.MessageKind {
				v = protoreflect.ValueOfMessage(proto.Clone(v.Message().Interface()).ProtoReflect())
			}
			d.Set(k, v)
			return true
		})
	case fd.Kind() == protoreflect.MessageKind:
		proto.Merge(dst.Mutable(fd).Message().Interface(), src.Get(fd).Message().Interface())
	default:
		dst.Set(fd, src.Get(fd))
	}
}

func clearPath(dst protoreflect.Message, path []string) {
	fd := dst.Descriptor().Fields().ByName(protoreflect.Name(path[0]))
	if len(path) == 1 {
		dst.Clear(fd)
		return
	}
	if dst.Has(fd) {
		clearPath(dst.Mutable(fd).Message(), path[1:])
	}
}

func validPath(p string) bool {
	fds := (&tp.TestAllTypes{}).ProtoReflect().Descriptor().Fields()
	parts := strings.Split(p, ".")
	for i, n := range parts {
		fd := fds.ByName(protoreflect.Name(n))
		if fd == nil {
			return false
		}
		if i < len(parts)-1 {
			if fd.Kind() != protoreflect.MessageKind || fd.IsList() || fd.IsMap() {
				return false
			}
			fds = fd.Message().Fields()
		}
	}
	return true
}

func covered(p string, by []string) bool {
	for _, b := range by {
		if p == b || strings.HasPrefix(p, b+".") {
			return true
		}
	}
	return false
}

// masks returns the effective update mask and writable fields of o, with the
// error codes their validation gives.
func (s *store) masks(o *wop) (upd []string, hasUpd bool, wr []string, hasWr bool, bad []codes.Code) {
	upd, hasUpd = o.update, o.hasUpd
	if hasUpd && o.more != nil {
		for _, p := range o.more {
			if !covered(p, upd) {
				upd = append(append([]string(nil), upd...), p)
			}
		}
	}
	wr, hasWr = s.writable, s.hasWritable
	if o.allW {
		hasWr = false
	} else if hasWr && o.moreW != nil {
		wr = append(append([]string(nil), wr...), o.moreW...)
	}
	if hasUpd {
		for _, p := range upd {
			if !validPath(p) {
				bad = append(bad, codes.InvalidArgument)
			} else if hasWr && !covered(p, wr) {
				bad = append(bad, codes.InvalidArgument)
			}
		}
	}
	for _, p := range o.reset {
		if !validPath(p) {
			bad = append(bad, codes.Internal)
		}
	}
	return
}

// merged is the value a write stores, given the old value (nil when there is
// none).
func (s *store) merged(o *wop, old *tp.TestAllTypes) *tp.TestAllTypes {
	upd, hasUpd, wr, hasWr, _ := s.masks(o)
	src := clone(o.msg)
	beforeFn(o.before, old, src)
	dst := &tp.TestAllTypes{}
	if old != nil {
		dst = clone(old)
	}
	switch {
	case hasUpd:
		for _, p := range upd {
			setPath(dst.ProtoReflect(), src.ProtoReflect(), strings.Split(p, "."))
		}
	case hasWr:
		for _, p := range wr {
			clearPath(dst.ProtoReflect(), strings.Split(p, "."))
			setPath(dst.ProtoReflect(), src.ProtoReflect(), strings.Split(p, "."))
		}
	default:
		dst = src
	}
	for _, p := range o.reset {
		clearPath(dst.ProtoReflect(), strings.Split(p, "."))
	}
	afterFn(o.after, old, dst)
	return dst
}

func (s *store) icpt(id string) string {
	if s.intercept != nil {
		return s.intercept(id)
	}
	return id
}

// expect computes what a write does in a state. newID is the generated id that
// was reported, when one had to be.
func (s *store) expect(o *wop, st state, newID string) outcome {
	var out outcome
	id := s.icpt(o.id)
	if s.val != nil {
		id = ""
	}
	out.id = id
	if o.kind == opDelete {
		old, ok := st.items[id]
		if !ok {
			if !o.missing {
				out.codes = append(out.codes, codes.NotFound)
			}
			return out
		}
		s.preconditions(o, old, &out)
		out.old, out.ret, out.kind = old, old, 'R'
		out.failRet = []proto.Message{nil, old}
		return out
	}
	_, _, _, _, bad := s.masks(o)
	out.codes = bad
	if s.val != nil {
		old := st.items[id]
		if o.absent && old != nil {
			out.codes = append(out.codes, codes.AlreadyExists)
		}
		s.preconditions(o, old, &out)
		if len(out.codes) > 0 {
			return out
		}
		out.old, out.new, out.kind = old, s.merged(o, old), 'U'
		out.ret = out.new
		return out
	}
	create, absent := o.create, o.absent
	if o.kind == opAdd {
		create, absent = true, true
	}
	if id == "" && o.genID {
		out.gen = true
		if newID != "" {
			id = s.icpt(newID)
			out.id = id
		}
	}
	old, ok := st.items[id]
	if out.gen {
		ok = false
	}
	base := old
	switch {
	case ok && absent:
		out.codes = append(out.codes, codes.AlreadyExists)
	case !ok && !create:
		out.codes = append(out.codes, codes.NotFound)
	case !ok:
		base = &tp.TestAllTypes{}
		out.created = true
	}
	if base != nil {
		s.preconditions(o, base, &out)
	}
	if len(out.codes) > 0 {
		out.created = false
		return out
	}
	out.new = s.merged(o, base)
	out.ret = out.new
	out.kind = 'U'
	out.old = old
	if !ok {
		out.kind, out.old = 'A', nil
	}
	return out
}

func (s *store) preconditions(o *wop, old *tp.TestAllTypes, out *outcome) {
	var m proto.Message
	if old != nil {
		m = old
	}
	if o.expVal != nil && !same(m, o.expVal) {
		out.codes = append(out.codes, codes.FailedPrecondition)
	}
	if o.chk != nil {
		if err := o.chk.eval(m); err != nil {
			out.codes = append(out.codes, code(err))
		}
	}
}

// apply returns the state after a successful outcome.
func (s *store) apply(st state, out outcome) state {
	switch out.kind {
	case 'A', 'U':
		st = st.clone()
		st.items[out.id] = out.new
	case 'R':
		st = st.clone()
		delete(st.items, out.id)
	}
	return st
}

// exec performs the call on the real store.
func (s *store) exec(o *wop, ob *observed) (ret proto.Message, ok bool, list []proto.Message, err error) {
	switch o.kind {
	case opSet:
		ret, err = s.val.Set(clone(o.msg), o.options(ob)...)
	case opAdd:
		ret, err = s.col.Add(s.named(o.id, o.alias), clone(o.msg), o.options(ob)...)
	case opUpdate:
		ret, err = s.col.Update(s.named(o.id, o.alias), clone(o.msg), o.options(ob)...)
	case opDelete:
		ret, err = s.col.Delete(s.named(o.id, o.alias), o.options(ob)...)
	case opGet:
		if s.val != nil {
			ret, ok = s.val.Get(o.readOpts()...), true
		} else {
			ret, ok = s.col.Get(s.named(o.id, o.alias), o.readOpts()...)
		}
	case opList:
		list = s.col.List(o.readOpts()...)
	}
	return
}

// project is the reference of read masks.
func project(m proto.Message, paths []string, has bool) proto.Message {
	if m == nil || !has {
		return m
	}
	out := m.ProtoReflect().New()
	for _, p := range paths {
		projectPath(out, m.ProtoReflect(), strings.Split(p, "."))
	}
	return out.Interface()
}

func projectPath(dst, src protoreflect.Message, path []string) {
	fd := src.Descriptor().Fields().ByName(protoreflect.Name(path[0]))
	if fd == nil || !src.Has(fd) {
		return
	}
	if len(path) == 1 {
		c := proto.Clone(src.Interface()).ProtoReflect()
		dst.Set(fd, c.Get(fd))
		return
	}
	projectPath(dst.Mutable(fd).Message(), src.Get(fd).Message(), path[1:])
}

// drawIDs draws n different ids: usually single letters, sometimes ids of
// different lengths and alphabets, for which orders differ.
func drawIDs(t *core.T, n int) []string {
	if n <= 4 && t.Chance(60) {
		return []string{"b", "a", "c", "d"}[:n]
	}
	pool := []string{"b", "a", "aa", "ab", "B", "10", "9", "100", "a/b", "a.b", "é", "e", "z", "Z9", " ", "id-10", "id-9", "", "a b", "~",
		"floor-1/room-10", "floor-1/room-9", "floor-1/room-1", "floor-1/room-", strings.Repeat("long", 40) + "b", strings.Repeat("long", 40) + "ab"}
	for i := 0; len(pool) < n; i++ {
		pool = append(pool, fmt.Sprintf("%x%d", i*7919%256, i))
	}
	for i := 0; i < n; i++ {
		j := i + t.Int(len(pool)-i)
		pool[i], pool[j] = pool[j], pool[i]
	}
	return pool[:n:n]
}

// drawOp draws a call. ids is the alphabet of ids; kinds are weights of
// Set/Add/Update/Delete/Get/List.
type opGen struct {
	kinds   [6]int
	ids     []string
	plain   bool // no masks
	rich    bool // masks, reset, writable options, invalid paths
	genID   int  // percent of adds with an empty id and generation
	current func(id string) *tp.TestAllTypes
	clock   func() time.Time
}

func (g *opGen) draw(t *core.T) *wop {
	o := &wop{kind: opKind(t.Weighted(g.kinds[:]...)), alias: t.Chance(50)}
	if len(g.ids) > 0 {
		o.id = g.ids[t.Int(len(g.ids))]
	}
	switch o.kind {
	case opGet, opList:
		if t.Chance(40) {
			o.hasRead = true
			o.readMask = drawPaths(t, 40, true)
			o.readPaths = t.Chance(25)
		}
		return o
	case opDelete:
		o.missing = t.Chance(30)
	default:
		o.msg = smallMsg(t)
		if o.kind == opSet && g.rich {
			o.absent = t.Chance(8)
			// these are about items of a collection: nothing to a Value
			o.create = t.Chance(10)
			o.missing = t.Chance(8)
			o.genID = t.Chance(8)
		}
		if o.kind == opUpdate {
			o.create = t.Chance(40)
			o.absent = t.Chance(12)
		}
		if o.kind != opSet && g.genID > 0 && t.Chance(g.genID) {
			o.id = ""
			o.genID = true
		} else if g.genID > 0 {
			o.genID = t.Chance(10)
		}
		if g.rich {
			if t.Chance(40) {
				o.hasUpd = true
				o.update = drawPaths(t, 35, true)
				o.useRaw = t.Chance(30)
				if t.Chance(4) {
					o.update = append(o.update, core.Choose(t, "nope", "default_int32.x", "default_nested_message.zz"))
				}
				// WithMoreUpdatePaths unions the masks, which may absorb an
				// invalid path: such combinations are not generated.
				if (len(o.update) == 0 || validPath(o.update[len(o.update)-1])) && t.Chance(12) {
					o.more = []string{core.Choose(t, "default_double", "default_int32", "default_string")}
				}
			} else if t.Chance(5) {
				// there is nothing to add to: everything is updated anyway
				o.more = []string{core.Choose(t, "default_double", "default_int32", "default_string")}
			}
			if t.Chance(15) && !(o.hasUpd && len(o.update) == 0 && o.more == nil) {
				o.reset = []string{core.Choose(t, smallPaths...)}
				if t.Chance(6) {
					o.reset = []string{"nope"}
				}
			}
			if t.Chance(8) {
				o.allW = true
			}
			if t.Chance(10) {
				o.moreW = []string{core.Choose(t, "default_double", "default_string")}
				if t.Chance(40) {
					o.moreW = append(o.moreW, core.Choose(t, "default_int32", "repeated_int32", "default_foreign_message"))
					o.moreWsplit = t.Chance(60)
				}
			}
		}
		if t.Chance(20) {
			o.before = t.Range(1, 2)
		}
		if t.Chance(20) {
			o.after = t.Range(1, 2)
		}
	}
	if t.Chance(15) {
		if cur := g.current; cur != nil && t.Chance(70) {
			if m := cur(o.id); m != nil {
				o.expVal = clone(m)
			}
		}
		if o.expVal == nil {
			o.expVal = smallMsg(t)
		}
	}
	if t.Chance(20) {
		o.chk = &check{kind: t.Int(4), n: int32(t.Int(3)), code: core.Choose(t, codes.FailedPrecondition, codes.PermissionDenied, codes.InvalidArgument), text: t.Chance(15)}
	}
	if g.clock != nil && t.Chance(20) {
		w := g.clock().Add(time.Duration(t.Range(-3, 3)) * time.Hour)
		o.wtime = &w
	}
	return o
}
