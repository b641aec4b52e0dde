package props

import (
	"context"
	"errors"
	"io"
	"math/rand"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/minibus"
	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"github.com/smart-core-os/sc-golang/pkg/group"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:   "C11",
		Race: true,
		Scenarios: []core.Scenario{
			{Name: "value", Weight: 3, Run: func(t *core.T) { c11Store(t, true) }},
			{Name: "collection", Weight: 6, Run: func(t *core.T) { c11Store(t, false) }},
			{Name: "model", Weight: 8, Run: c11Model},
			{Name: "server", Weight: 8, Run: c11Server},
			{Name: "routed", Weight: 4, Run: c11Routed},
			{Name: "router", Weight: 3, Run: c11Router},
			{Name: "wrap", Weight: 6, Run: c11Wrap},
			{Name: "bus", Weight: 3, Run: c11Bus},
			{Name: "group", Weight: 4, Run: c11Group},
			{Name: "trait-group", Weight: 3, Run: c11TraitGroup},
			{Name: "independent", Weight: 3, Run: c11Independent},
		},
		Rule:   "4-16 goroutines of the harness use one object at once; every callback reads the messages it is given, every message obtained from a read, a write result or an event is read when it is obtained and again later; the program is built with the Go race detector, which must report nothing. The harness adds no synchronisation between the goroutines: their scripts are drawn before they start",
		Real:   []string{"pkg/resource", "pkg/masks", "pkg/cmp", "pkg/router", "internal/minibus", "pkg/wrap", "pkg/group", "pkg/trait/* models, model servers, memory devices, routers, wrappers and groups"},
		Stub:   []string{"the callers, callbacks and consumers (scripted)"},
		Faults: []string{"cancel", "deadline", "member_failure", "server_error"},
		Assume: []string{"the Go race detector (ThreadSanitizer) orders accesses as the Go memory model does; it remembers a few accesses per memory word, so a race is seen in most but not all of the schedules that contain it"},
	})
}

// touch reads everything in a message, without writing or locking anything.
func touch(m proto.Message) uint64 {
	if isNil(m) {
		return 0
	}
	return touchMsg(m.ProtoReflect())
}

func touchMsg(m protoreflect.Message) uint64 {
	var s uint64
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			v.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				s += touchVal(fd.MapKey(), k.Value()) + touchVal(fd.MapValue(), v)
				return true
			})
		case fd.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				s += touchVal(fd, l.Get(i))
			}
		default:
			s += touchVal(fd, v)
		}
		return true
	})
	for _, b := range m.GetUnknown() {
		s += uint64(b)
	}
	return s
}

func touchVal(fd protoreflect.FieldDescriptor, v protoreflect.Value) uint64 {
	switch fd.Kind() {
	case protoreflect.MessageKind, protoreflect.GroupKind:
		return touchMsg(v.Message())
	case protoreflect.StringKind:
		var s uint64
		for _, c := range []byte(v.String()) {
			s += uint64(c)
		}
		return s
	case protoreflect.BytesKind:
		var s uint64
		for _, c := range v.Bytes() {
			s += uint64(c)
		}
		return s
	case protoreflect.BoolKind:
		if v.Bool() {
			return 1
		}
	case protoreflect.EnumKind:
		return uint64(v.Enum())
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		return uint64(v.Float())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind, protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return uint64(v.Int())
	default:
		return v.Uint()
	}
	return 0
}

// racer is one goroutine of a workload. Nothing of it is shared: all of it is
// set before it starts, and it only reports to its parent by ending.
type racer struct {
	acts []func(w *racer)
	held []proto.Message
	mds  []metadata.MD
	outs [][]proto.Message
	stop []context.CancelFunc
	kids sync.WaitGroup
	sum  uint64
}

// saw reads messages and keeps them.
func (w *racer) saw(ms ...proto.Message) {
	for _, m := range ms {
		if isNil(m) {
			continue
		}
		w.sum += touch(m)
		if len(w.held) < 60 {
			w.held = append(w.held, m)
		}
	}
}

// again reads what the goroutine has seen before.
func (w *racer) again() {
	from := 0
	if len(w.held) > 8 {
		from = len(w.held) - 8
		w.sum += touch(w.held[0])
	}
	for _, m := range w.held[from:] {
		w.sum += touch(m)
	}
	for _, md := range w.mds {
		for k, vs := range md {
			w.sum += uint64(len(k))
			for _, v := range vs {
				w.sum += uint64(len(v))
			}
		}
	}
	for _, ms := range w.outs {
		for _, m := range ms {
			w.sum += touch(m)
		}
	}
}

func (w *racer) run() {
	for _, a := range w.acts {
		a(w)
		w.again()
	}
	for _, c := range w.stop {
		c()
	}
	w.kids.Wait()
	w.again()
}

// child starts a goroutine that ends before its parent does.
func (w *racer) child(f func(w *racer)) {
	w.kids.Add(1)
	go func() {
		defer w.kids.Done()
		c := &racer{}
		f(c)
		for _, s := range c.stop {
			s()
		}
		c.kids.Wait()
		c.again()
	}()
}

// context returns a context of the goroutine's own, which ends with it or
// after d.
func (w *racer) context(d time.Duration) context.Context {
	if d > 0 {
		ctx, cancel := context.WithTimeout(context.Background(), d)
		w.stop = append(w.stop, cancel)
		return ctx
	}
	ctx, cancel := context.WithCancel(context.Background())
	w.stop = append(w.stop, cancel)
	return ctx
}

// reading is how a consumer behaves.
type reading struct {
	max    int           // leaves after that many events
	life   time.Duration // or after that long
	pause  time.Duration // between events
	inline bool          // the goroutine itself reads
}

func drawReading(t *core.T) reading {
	return reading{max: t.Range(1, 6), life: time.Duration(t.Range(1, 40)) * 100 * time.Microsecond, pause: time.Duration(t.Int(3)) * 300 * time.Microsecond, inline: t.Chance(30)}
}

// consume subscribes, reads and leaves. A cancelled subscription is read until
// it is closed.
func (w *racer) consume(r reading, open func(ctx context.Context) func() (any, bool)) {
	ctx, cancel := context.WithTimeout(context.Background(), r.life)
	next := open(ctx)
	read := func(w *racer) {
		defer cancel()
		for i := 0; ; i++ {
			if r.pause > 0 {
				time.Sleep(r.pause)
			}
			v, ok := next()
			if !ok {
				return
			}
			w.saw(messagesIn(v)...)
			w.again()
			if i+1 == r.max {
				cancel()
			}
		}
	}
	if r.inline {
		read(w)
		return
	}
	w.child(read)
}

// race runs workers at once.
func race(t *core.T, ws []*racer) {
	acts := 0
	var wg sync.WaitGroup
	for _, w := range ws {
		acts += len(w.acts)
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.run()
		}()
	}
	wg.Wait()
	t.Count("goroutines", len(ws))
	t.Count("actions", acts)
	if acts > len(ws) {
		t.Nontrivial()
	}
}

// racers draws workers with actions.
func racers(t *core.T, max int, act func() func(w *racer)) []*racer {
	var ws []*racer
	for n := t.Range(4, max); n > 0; n-- {
		w := &racer{}
		t.Repeat(1, 6, func(int) {
			if t.Chance(15) {
				d := time.Duration(t.Range(1, 20)) * 100 * time.Microsecond
				w.acts = append(w.acts, func(*racer) { time.Sleep(d) })
			}
			w.acts = append(w.acts, act())
		})
		ws = append(ws, w)
	}
	return ws
}

// Resources.

func c11Store(t *core.T, isVal bool) {
	ids := []string{"a", "b", "c"}[:t.Range(1, 3)]
	g := &opGen{rich: true, clock: time.Now}
	if isVal {
		g.kinds = [6]int{opSet: 6, opGet: 4}
	} else {
		g.kinds = [6]int{opAdd: 4, opUpdate: 6, opDelete: 2, opGet: 2, opList: 2}
		g.ids = ids
		g.genID = core.Choose(t, 0, 30, 80)
	}
	var extra []resource.Option
	switch t.Int(5) {
	case 0:
		extra = append(extra, resource.WithNoDuplicates())
	case 1:
		extra = append(extra, resource.WithMessageEquivalence(cmp.Equal(cmp.FloatValueApprox(0, 1))))
	case 2:
		eq := cmp.Equal()
		extra = append(extra, resource.WithMessageEquivalence(func(x, y proto.Message) bool {
			touch(x)
			touch(y)
			return eq(x, y)
		}))
	}
	if t.Chance(40) {
		extra = append(extra, resource.WithRNG(rand.New(rand.NewSource(int64(t.Int(1000))))))
	}
	if !isVal && t.Chance(20) {
		extra = append(extra, resource.WithIDInterceptor(func(id string) string { return "_" + id }))
	}
	if t.Chance(20) {
		extra = append(extra, resource.WithWritablePaths(&tp.TestAllTypes{}, "default_int32", "default_nested_message", "repeated_int32"))
	}
	s, _ := newStore(t, isVal, ids, extra...)
	s.alias = "" // extra may have an interceptor of its own

	// what callers may well share
	sharedMsg := smallMsg(t)
	shared := &fieldmaskpb.FieldMask{Paths: make([]string, 0, 8)}
	shared.Paths = append(shared.Paths, "default_int32", "default_nested_message")
	rdOpts := append(make([]resource.ReadOption, 0, 8), resource.WithReadMask(shared))
	wrOpts := append(make([]resource.WriteOption, 0, 8), resource.WithUpdateMask(shared))
	wrOpts = append(wrOpts, resource.InterceptAfter(func(old, new proto.Message) {
		touch(old)
		touch(new)
	}))
	var sharedIn func(id string, m proto.Message) bool
	{
		p := drawPredicate(t, ids)
		sharedIn = func(id string, m proto.Message) bool {
			touch(m)
			return p.include(id, m)
		}
	}
	n := 0
	race(t, racers(t, 16, func() func(w *racer) {
		n++
		switch t.Weighted(6, 3, 1, 1) {
		case 3:
			// writing a message that others use too
			id := core.Choose(t, ids...)
			held := t.Chance(50)
			return func(w *racer) {
				m := sharedMsg
				if held {
					for _, h := range w.held {
						if h, ok := h.(*tp.TestAllTypes); ok {
							m = h
						}
					}
				}
				var x proto.Message
				if s.val != nil {
					x, _ = s.val.Set(m)
				} else {
					x, _ = s.col.Update(id, m, resource.WithCreateIfAbsent())
				}
				w.saw(x)
			}
		case 1:
			su := drawSub(t, n, isVal, ids)
			opts := su.opts()
			if t.Chance(40) {
				opts = append(opts, resource.WithInclude(sharedIn))
			}
			if t.Chance(30) {
				opts = rdOpts
			}
			r := drawReading(t)
			return func(w *racer) {
				w.consume(r, func(ctx context.Context) func() (any, bool) {
					switch {
					case s.val != nil:
						return recvOf(s.val.Pull(ctx, opts...))
					case su.single:
						return recvOf(s.col.PullID(ctx, su.pullID, opts...))
					}
					return recvOf(s.col.Pull(ctx, opts...))
				})
			}
		case 2:
			// a call with the shared options
			id := core.Choose(t, ids...)
			m := smallMsg(t)
			read := t.Chance(50)
			return func(w *racer) {
				switch {
				case s.val != nil && read:
					w.saw(s.val.Get(rdOpts...))
				case s.val != nil:
					x, _ := s.val.Set(m, wrOpts...)
					w.saw(x)
				case read:
					x, _ := s.col.Get(id, rdOpts...)
					w.saw(x)
					w.saw(s.col.List(rdOpts...)...)
				default:
					x, _ := s.col.Update(id, m, wrOpts...)
					w.saw(x)
				}
			}
		}
		o := g.draw(t)
		if o.msg != nil {
			o.msg.DefaultDouble = float64(10 + n)
		}
		scrib := t.Chance(50)
		return func(w *racer) {
			if o.kind == opGet || o.kind == opList {
				ret, _, list, _ := s.exec(o, &observed{})
				w.saw(ret)
				w.saw(list...)
				return
			}
			ret, _ := s.writeWith(o, &observed{touch: true})
			w.saw(ret)
			if scrib && o.msg != nil {
				scribble(o.msg.ProtoReflect(), 3)
			}
		}
	}))
}

// Trait models.

func c11ModelAct(t *core.T, m *modelInst) func(w *racer) {
	switch t.Weighted(6, 2, 3) {
	case 1:
		r := m.reads[t.Int(len(m.reads))]
		var opts []resource.ReadOption
		if ms := m.messageType(); ms != nil && t.Chance(25) {
			opts = append(opts, resource.WithReadMask(drawMask(t, ms, false)))
		}
		return func(w *racer) { w.saw(r.run(opts...)...) }
	case 2:
		p := m.pulls[t.Int(len(m.pulls))]
		opts := []resource.ReadOption{resource.WithUpdatesOnly(t.Chance(30)), resource.WithBackpressure(t.Chance(50))}
		r := drawReading(t)
		return func(w *racer) {
			w.consume(r, func(ctx context.Context) func() (any, bool) { return p.open(ctx, opts...) })
		}
	}
	c := m.call(t)
	return func(w *racer) {
		out, _ := c.run()
		w.saw(out...)
		// the caller still has what it passed in
		w.saw(c.in...)
	}
}

func c11Model(t *core.T) {
	m := newModel(t)
	ms := []*modelInst{m}
	if t.Chance(25) {
		ms = append(ms, newModel(t))
	}
	t.Count("model "+m.name, 1)
	var pool []func(w *racer)
	race(t, racers(t, 10, func() func(w *racer) {
		if len(pool) > 0 && t.Chance(20) {
			// the same call, with the same messages, by another goroutine
			return pool[t.Int(len(pool))]
		}
		m := ms[t.Int(len(ms))]
		if t.Chance(15) {
			c := m.call(t)
			// creating fills in the id of the message it is given; hail calls look theirs up
			if !strings.HasPrefix(c.name, "Create") && m.name != "hailpb" {
				pool = append(pool, func(w *racer) {
					out, _ := c.run()
					w.saw(out...)
					w.saw(c.in...)
				})
				return pool[len(pool)-1]
			}
		}
		return c11ModelAct(t, m)
	}))
}

// Models created with nothing but defaults and used by unrelated goroutines.
func c11Independent(t *core.T) {
	kinds := []func(w *racer, n int){
		func(w *racer, n int) {
			m := electricpb.NewModel()
			for i := 0; i < n; i++ {
				x, _ := m.CreateMode(&traits.ElectricMode{Title: "t"})
				w.saw(x)
			}
		},
		func(w *racer, n int) {
			m := hailpb.NewModel()
			for i := 0; i < n; i++ {
				x, _ := m.CreateHail(&traits.Hail{})
				w.saw(x)
			}
		},
		func(w *racer, n int) {
			m := publicationpb.NewModel()
			for i := 0; i < n; i++ {
				x, _ := m.CreatePublication(&traits.Publication{Body: []byte("x")})
				w.saw(x)
			}
		},
		func(w *racer, n int) {
			c := resource.NewCollection()
			for i := 0; i < n; i++ {
				x, _ := c.Add("", &tp.TestAllTypes{DefaultInt32: 1}, resource.WithGenIDIfAbsent())
				w.saw(x)
			}
		},
	}
	one := core.Choose(t, -1, t.Int(len(kinds)))
	race(t, racers(t, 8, func() func(w *racer) {
		if t.Chance(30) {
			// any model, made here, used there
			m := modelCases[t.Int(len(modelCases))].make(t)
			var acts []func(w *racer)
			t.Repeat(1, 3, func(int) { acts = append(acts, c11ModelAct(t, m)) })
			return func(w *racer) {
				for _, a := range acts {
					a(w)
				}
			}
		}
		k := one
		if k < 0 {
			k = t.Int(len(kinds))
		}
		n := t.Range(1, 3)
		return func(w *racer) { kinds[k](w, n) }
	}))
}

// Servers.

// invoke calls the Go method through its handler, without copying what it
// returns.
func invoke(srv any, m *rpc, ctx context.Context, in proto.Message) (proto.Message, error) {
	out, err := m.unary.Handler(srv, ctx, func(v any) error {
		proto.Merge(v.(proto.Message), in)
		return nil
	}, nil)
	res, _ := out.(proto.Message)
	return res, err
}

func c11ServerAct(t *core.T, methods []*rpc, conn grpc.ClientConnInterface, srv any) func(w *racer) {
	m := methods[t.Int(len(methods))]
	in := drawRequest(t, m)
	r := drawReading(t)
	life := time.Duration(0)
	if t.Chance(15) {
		life = time.Duration(t.Range(0, 10)) * 100 * time.Microsecond
		t.Count("deadline", 1)
	}
	if !m.server {
		return func(w *racer) {
			ctx := w.context(life)
			if conn == nil {
				out, err := invoke(srv, m, ctx, in)
				if err == nil {
					w.saw(out)
				}
				return
			}
			out := m.newOut()
			var h, tr metadata.MD
			_ = conn.Invoke(ctx, m.full, in, out, grpc.Header(&h), grpc.Trailer(&tr))
			w.mds = append(w.mds, h, tr)
			w.saw(out)
			w.held = append(w.held, in)
		}
	}
	return func(w *racer) {
		ctx, cancel := context.WithTimeout(context.Background(), r.life)
		read := func(w *racer) {
			defer cancel()
			n := 0
			if conn == nil {
				_ = callStream(srv, m, ctx, in, func(out proto.Message) error {
					if r.pause > 0 {
						time.Sleep(r.pause)
					}
					w.saw(out)
					w.again()
					if n++; n == r.max {
						cancel()
					}
					return nil
				})
				return
			}
			cs, err := conn.NewStream(ctx, m.stream, m.full)
			if err != nil {
				return
			}
			if cs.SendMsg(in) != nil || cs.CloseSend() != nil {
				return
			}
			for {
				if r.pause > 0 {
					time.Sleep(r.pause)
				}
				out := m.newOut()
				if cs.RecvMsg(out) != nil {
					w.mds = append(w.mds, cs.Trailer())
					return
				}
				w.saw(out)
				if n++; n == r.max {
					cancel()
				}
			}
		}
		if r.inline {
			read(w)
			return
		}
		w.child(read)
	}
}

func c11Server(t *core.T) {
	s := newServer(t)
	t.Count("server "+s.name, 1)
	var conns []grpc.ClientConnInterface
	for _, d := range serverDescs(s.name) {
		conns = append(conns, wrap.ServerToClient(*d, s.srv))
	}
	race(t, racers(t, 10, func() func(w *racer) {
		if t.Chance(50) {
			return c11ServerAct(t, s.methods, nil, s.srv)
		}
		i := t.Int(len(conns))
		return c11ServerAct(t, rpcsOf(serverDescs(s.name)[i]), conns[i], nil)
	}))
}

func serverDescs(name string) []*grpc.ServiceDesc {
	for i := range serverCases {
		if serverCases[i].name == name {
			return serverCases[i].descs
		}
	}
	panic(name)
}

// Servers behind a router whose registry changes.
func c11Routed(t *core.T) {
	s := newServer(t)
	d := serverDescs(s.name)[0]
	var rc *RouterCase
	for _, c := range routerCases {
		if c.Service == d {
			rc = c
		}
	}
	if rc == nil {
		return
	}
	t.Count("router "+rc.Name, 1)
	newClient := func() any { return rc.NewClient(wrap.ServerToClient(*d, s.srv)) }
	var opts []router.Option
	switch t.Int(3) {
	case 0:
		opts = append(opts, router.WithFactory(func(name string) (any, error) { return newClient(), nil }))
	case 1:
		opts = append(opts, router.WithFallback(func(name string) (any, error) { return newClient(), nil }))
	}
	if t.Chance(30) {
		opts = append(opts, router.WithOnChange(func(c router.Change) {
			if c.New == nil && c.Old == nil {
				panic("no change")
			}
		}))
	}
	r := rc.New(opts...)
	for _, id := range modelIDs {
		if t.Chance(60) {
			r.Add(id, newClient())
		}
	}
	ms := rpcsOf(d)
	conn := wrap.ServerToClient(*d, r)
	race(t, racers(t, 10, func() func(w *racer) {
		id := core.Choose(t, modelIDs...)
		switch t.Weighted(8, 1, 1, 1) {
		case 1:
			return func(*racer) { r.Add(id, newClient()) }
		case 2:
			return func(*racer) { r.Remove(id) }
		case 3:
			return func(*racer) {
				r.Has(id)
				_, _ = r.Get(id)
			}
		}
		if t.Chance(50) {
			return c11ServerAct(t, ms, nil, r)
		}
		return c11ServerAct(t, ms, conn, nil)
	}))
}

// The registry itself.

type racerClient struct{ n int }

func c11Router(t *core.T) {
	var opts []router.Option
	if t.Chance(60) {
		fails := t.Chance(20)
		opts = append(opts, router.WithFactory(func(name string) (any, error) {
			if fails {
				return nil, errPlain
			}
			return &racerClient{len(name)}, nil
		}))
	}
	if t.Chance(30) {
		fails := t.Chance(50)
		opts = append(opts, router.WithFallback(func(name string) (any, error) {
			if fails {
				return nil, status.Error(codes.NotFound, name)
			}
			return &racerClient{len(name)}, nil
		}))
	}
	var r router.Router
	if t.Chance(60) {
		nested := t.Chance(30)
		opts = append(opts, router.WithOnChange(func(c router.Change) {
			for _, x := range []any{c.Old, c.New} {
				if x, ok := x.(*racerClient); ok && x.n < 0 {
					panic("negative")
				}
			}
			if nested {
				r.Has(c.Name)
			}
		}))
	}
	r = router.NewRouter(opts...)
	ids := []string{"a", "b", "c", "d"}[:t.Range(1, 4)]
	use := func(w *racer, c any) {
		if c, ok := c.(*racerClient); ok {
			w.sum += uint64(c.n)
		}
	}
	race(t, racers(t, 16, func() func(w *racer) {
		id := core.Choose(t, ids...)
		switch t.Weighted(4, 2, 2, 2) {
		case 0:
			return func(w *racer) {
				c, _ := r.Get(id)
				use(w, c)
			}
		case 1:
			return func(w *racer) { use(w, r.Add(id, &racerClient{1})) }
		case 2:
			return func(w *racer) { use(w, r.Remove(id)) }
		}
		return func(w *racer) {
			r.Has(id)
			r.HoldsType(w)
		}
	}))
}

// Wrapped clients.

// racerCall is what the server does in a call.
type racerCall struct {
	ops   []freeOp
	recv  int // receives in a goroutine of its own, that many messages
	leave bool
	err   error
	res   *tp.TestAllTypes
	scrib bool
}

type racerServer struct{ calls []*racerCall }

func (s *racerServer) simHandle(sc *simCall) error {
	md, _ := metadata.FromIncomingContext(sc.ctx)
	i := 0
	for _, c := range md.Get("call")[0] {
		i = i*10 + int(c-'0')
	}
	c := s.calls[i]
	w := &racer{}
	w.mds = append(w.mds, md)
	w.saw(sc.req)
	md["x"] = []string{"mine"}
	if c.recv > 0 && sc.ss != nil && sc.shape != shapeServer {
		got := func(w *racer) {
			for n := 0; n < c.recv; n++ {
				m := &tp.TestAllTypes{}
				if sc.ss.RecvMsg(m) != nil {
					return
				}
				w.saw(m)
				if c.scrib {
					scribble(m.ProtoReflect(), 3)
				}
			}
		}
		w.child(got)
	}
	for _, o := range c.ops {
		switch o.kind {
		case -1:
			select {
			case <-time.After(o.sleep):
			case <-sc.ctx.Done():
			}
		case sSend:
			if sc.ss == nil || sc.shape == shapeClient {
				break
			}
			_ = sc.ss.SendMsg(o.msg)
			if c.scrib {
				scribble(o.msg.ProtoReflect(), 3)
			} else {
				w.held = append(w.held, o.msg)
			}
		case sSetHeader, sSendHeader, sSetTrailer:
			switch {
			case o.kind == sSetHeader && (sc.ss == nil || o.viaCx):
				_ = grpc.SetHeader(sc.ctx, o.md)
			case o.kind == sSetHeader:
				_ = sc.ss.SetHeader(o.md)
			case o.kind == sSendHeader && (sc.ss == nil || o.viaCx):
				_ = grpc.SendHeader(sc.ctx, o.md)
			case o.kind == sSendHeader:
				_ = sc.ss.SendHeader(o.md)
			case sc.ss == nil || o.viaCx:
				_ = grpc.SetTrailer(sc.ctx, o.md)
			default:
				sc.ss.SetTrailer(o.md)
			}
			scribbleMD(o.md)
		}
		w.again()
	}
	if sc.shape == shapeClient && c.err == nil {
		_ = sc.ss.SendMsg(c.res)
	}
	if !c.leave {
		w.kids.Wait()
	}
	w.again()
	sc.res = c.res
	return c.err
}

func c11Wrap(t *core.T) {
	srv := &racerServer{}
	var conn grpc.ClientConnInterface = wrapConn(srv)
	// one context's metadata may serve many calls
	sharedMD := metadata.Pairs("k", "v", "x", "y")
	race(t, racers(t, 6, func() func(w *racer) {
		id := len(srv.calls)
		c := &racerCall{leave: t.Chance(40), res: smallMsg(t), scrib: t.Chance(50), recv: t.Int(5)}
		if t.Chance(30) {
			c.err = status.Error(codes.Code(t.Range(1, 16)), "failed")
			t.Count("server_error", 1)
		}
		t.Repeat(0, 7, func(int) {
			o := freeOp{kind: core.Choose(t, -1, sSend, sSend, sSetHeader, sSendHeader, sSetTrailer)}
			switch o.kind {
			case -1:
				o.sleep = time.Duration(t.Range(1, 10)) * 100 * time.Microsecond
			case sSend:
				o.msg = smallMsg(t)
			default:
				o.md = drawMD(t)
				o.viaCx = t.Chance(30)
			}
			c.ops = append(c.ops, o)
		})
		srv.calls = append(srv.calls, c)
		shape := t.Int(len(shapeNames))
		md := metadata.Pairs("call", itoa(id))
		useShared := t.Chance(40)
		req := smallMsg(t)
		var sends []*tp.TestAllTypes
		for n := t.Int(4); n > 0; n-- {
			sends = append(sends, smallMsg(t))
		}
		if shape == shapeServer || shape == shapeServerRaw || shape == shapeUnaryStream {
			sends = []*tp.TestAllTypes{req}
		}
		scrib := t.Chance(50)
		headers := t.Int(3)
		life := time.Duration(t.Range(1, 60)) * 100 * time.Microsecond
		if t.Chance(30) {
			life = 0
		} else {
			t.Count("deadline", 1)
		}
		recvMax := t.Range(1, 5)
		pause := time.Duration(t.Int(2)) * 200 * time.Microsecond
		slow := time.Duration(t.Int(3)) * 200 * time.Microsecond
		return func(w *racer) {
			base := context.Background()
			var ctx context.Context
			var cancel context.CancelFunc
			if life > 0 {
				ctx, cancel = context.WithTimeout(base, life)
			} else {
				ctx, cancel = context.WithCancel(base)
			}
			defer cancel()
			if useShared {
				ctx = metadata.NewOutgoingContext(ctx, sharedMD)
				ctx = metadata.AppendToOutgoingContext(ctx, "call", md["call"][0])
			} else {
				ctx = metadata.NewOutgoingContext(ctx, md)
			}
			if shape == shapeUnary {
				res := &tp.TestAllTypes{}
				var h, tr metadata.MD
				_ = conn.Invoke(ctx, simMethod(shape), req, res, grpc.Header(&h), grpc.Trailer(&tr))
				w.mds = append(w.mds, h, tr)
				w.saw(res)
				if scrib {
					scribble(req.ProtoReflect(), 3)
				}
				return
			}
			cs, err := conn.NewStream(ctx, shapeDesc(shape), simMethod(shape))
			if err != nil {
				return
			}
			for i := 0; i < headers; i++ {
				w.child(func(w *racer) {
					h, _ := cs.Header()
					if scrib {
						scribbleMD(h)
					}
					w.mds = append(w.mds, h)
				})
			}
			w.child(func(w *racer) {
				for _, m := range sends {
					if pause > 0 {
						time.Sleep(pause)
					}
					if cs.SendMsg(m) != nil {
						break
					}
					if scrib {
						scribble(m.ProtoReflect(), 3)
					} else {
						w.held = append(w.held, m)
					}
				}
				_ = cs.CloseSend()
			})
			for n := 0; ; n++ {
				if slow > 0 {
					time.Sleep(slow)
				}
				m := &tp.TestAllTypes{}
				if cs.RecvMsg(m) != nil {
					break
				}
				w.saw(m)
				if scrib {
					scribble(m.ProtoReflect(), 2)
				}
				if n+1 == recvMax {
					cancel()
				}
			}
			tr := cs.Trailer()
			h, _ := cs.Header()
			w.mds = append(w.mds, tr, h)
		}
	}))
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		if n /= 10; n == 0 {
			return s
		}
	}
}

// The event bus.

func c11Bus(t *core.T) {
	b := &minibus.Bus{}
	race(t, racers(t, 12, func() func(w *racer) {
		if t.Chance(50) {
			m := smallMsg(t)
			life := time.Duration(t.Range(1, 30)) * 100 * time.Microsecond
			return func(w *racer) {
				w.saw(m)
				b.Send(w.context(life), m)
			}
		}
		r := drawReading(t)
		drop := t.Chance(40)
		return func(w *racer) {
			w.consume(r, func(ctx context.Context) func() (any, bool) {
				ch := b.Listen(ctx)
				if drop {
					ch = minibus.DropExcess(ch)
				}
				return recvOf(ch)
			})
		}
	}))
}

// Group execution.

func c11Group(t *core.T) {
	type shared struct {
		members []group.Member
	}
	draw := func() group.Member {
		msg := smallMsg(t)
		d := time.Duration(t.Int(6)) * 200 * time.Microsecond
		fails := t.Chance(40)
		deaf := t.Chance(40)
		if fails {
			t.Count("member_failure", 1)
		}
		return func(ctx context.Context) (proto.Message, error) {
			touch(msg)
			if d > 0 {
				if deaf {
					time.Sleep(d)
				} else {
					select {
					case <-time.After(d):
					case <-ctx.Done():
						return nil, ctx.Err()
					}
				}
			}
			if fails {
				return nil, errPlain
			}
			return clone(msg), nil
		}
	}
	var sh shared
	for n := t.Int(6); n > 0; n-- {
		sh.members = append(sh.members, draw())
	}
	race(t, racers(t, 8, func() func(w *racer) {
		ms := sh.members
		if t.Chance(50) {
			ms = nil
			for n := t.Int(6); n > 0; n-- {
				ms = append(ms, draw())
			}
		}
		st := grpStrategies[t.Int(len(grpStrategies))]
		life := time.Duration(0)
		if t.Chance(30) {
			life = time.Duration(t.Range(0, 12)) * 100 * time.Microsecond
			t.Count("cancel", 1)
		}
		return func(w *racer) {
			res, err := group.Execute(w.context(life), st, ms)
			if err != nil && errors.Is(err, io.EOF) {
				w.sum++
			}
			w.saw(res...)
			w.outs = append(w.outs, res)
		}
	}))
}

func c11TraitGroup(t *core.T) {
	light := t.Chance(50)
	strategies := grpStrategies[:len(grpStrategies)-1]
	rs, ws := strategies[t.Int(len(strategies))], strategies[t.Int(len(strategies))]
	names := modelIDs[:t.Range(1, len(modelIDs))]
	var srv any
	var d *grpc.ServiceDesc
	if light {
		d = &traits.LightApi_ServiceDesc
		r := lightpb.NewApiRouter()
		for _, n := range names {
			var dev traits.LightApiServer
			if t.Chance(50) {
				dev = lightpb.NewMemoryDevice()
			} else {
				dev = lightpb.NewModelServer(lightpb.NewModel(lightpb.WithPreset(25, &traits.LightPreset{Name: "a"})))
			}
			r.Add(n, lightpb.WrapApi(dev))
		}
		g := lightpb.NewGroup(lightpb.WrapApi(r), names...)
		g.ReadExecution, g.WriteExecution = rs, ws
		srv = g
	} else {
		d = &traits.OnOffApi_ServiceDesc
		r := onoffpb.NewApiRouter()
		for _, n := range names {
			r.Add(n, onoffpb.WrapApi(onoffpb.NewModelServer(onoffpb.NewModel())))
		}
		g := onoffpb.NewGroup(onoffpb.WrapApi(r), names...)
		g.ReadExecution, g.WriteExecution = rs, ws
		srv = g
	}
	conn := wrap.ServerToClient(*d, srv)
	ms := rpcsOf(d)
	race(t, racers(t, 8, func() func(w *racer) {
		if t.Chance(50) {
			return c11ServerAct(t, ms, nil, srv)
		}
		return c11ServerAct(t, ms, conn, nil)
	}))
}
