package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"slices"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/protoadapt"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"

	"github.com/smart-core-os/sc-api/go/traits"
	namemw "github.com/smart-core-os/sc-golang/pkg/middleware/name"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C12",
		SiteFilter: []string{"pkg/router/", "pkg/wrap/", "pkg/trait/", "pkg/middleware/", "gen/"},
		Rule:       "A run counts as non-trivial when a client was called through a router, or a registry changed while another call was running.",
		Real:       []string{"pkg/router", "all checked-in routers and wrappers", "the routers and wrappers the generators produce now", "cmd/protoc-gen-router and cmd/protoc-gen-wrapper (run by the build)", "pkg/wrap", "pkg/middleware/name", "google.golang.org/grpc over bufconn in part of the runs"},
		Stub:       []string{"connections behind the registered clients (scripted, recording)", "protoc (its request is built from the linked descriptors)"},
		Faults:     []string{"child_error", "child_start_error", "caller_cancel", "caller_deadline", "caller_send_failure", "slow_caller", "slow_child", "registry_change_during_call", "factory_failure", "long_pause"},
		Assume:     []string{"The registered clients are the generated gRPC clients over a scripted connection.", "No method of the API streams from the client; one that did would be reported as unrouted."},
		Scenarios: []core.Scenario{
			{Name: "route", Weight: 12, Leak: true, Run: c12Route},
			{Name: "registry", Weight: 4, Leak: true, Run: c12Registry},
			{Name: "registry-race", Weight: 6, Leak: true, Stall: true, Run: c12RegistryRace},
			{Name: "reentrant", Weight: 1, Leak: true, Run: c12Reentrant},
			{Name: "default-name", Weight: 2, Leak: true, Run: c12Names},
			{Name: "shape", Weight: 1, Leak: true, Run: c12Shape},
		},
	})
}

// RouterCase is one generated router with its wrapper.
type RouterCase struct {
	Name      string
	Service   *grpc.ServiceDesc
	Client    string // name of the client interface
	New       func(opts ...router.Option) router.Router
	NewClient func(cc grpc.ClientConnInterface) any
	Wrap      func(srv any) any
	Factory   func(f func(string) (any, error)) router.Option

	rpcs []*rpc
}

var routerCases []*RouterCase

// RegisterRouters adds routers to the table.
func RegisterRouters(cs []RouterCase) {
	for i := range cs {
		routerCases = append(routerCases, &cs[i])
	}
}

// drawRouter draws a router that has something to route.
func drawRouter(t *core.T) *RouterCase {
	i := t.Int(len(routerCases))
	for len(routerCases[i].methods()) == 0 {
		i = (i + 1) % len(routerCases)
	}
	return routerCases[i]
}

func (rc *RouterCase) methods() []*rpc {
	if rc.rpcs == nil {
		rc.rpcs = rpcsOf(rc.Service)
	}
	return rc.rpcs
}

// The mark identifies a call by an unknown field of its request.
func markOf(m proto.Message) (int, bool) {
	b := m.ProtoReflect().GetUnknown()
	id, ok := 0, false
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return 0, false
		}
		if num == 19000+20 && typ == protowire.VarintType {
			v, k := protowire.ConsumeVarint(b[n:])
			if k < 0 {
				return 0, false
			}
			id, ok = int(v), true
		}
		k := protowire.ConsumeFieldValue(num, typ, b[n:])
		if k < 0 {
			return 0, false
		}
		b = b[n+k:]
	}
	return id, ok
}

// c12back is the connection of one registered client.
type c12back struct {
	x     *c12run
	label string
}

func (b *c12back) String() string { return b.label }

type c12arrival struct {
	back   *c12back
	method string
	req    proto.Message
	ctx    context.Context
	at     time.Duration
}

// c12call is the script of one call and what was seen of it.
type c12call struct {
	id   int
	m    *rpc
	name string
	req  proto.Message

	// the client's side
	startErr    error
	delay       time.Duration // until the response, or the stream exists
	res         proto.Message
	err         error // of a unary call, or the end of the stream (nil means io.EOF)
	header      metadata.MD
	headerErr   error
	headerDelay time.Duration
	msgs        []proto.Message
	gaps        []time.Duration // before each message
	endGap      time.Duration
	trailer     metadata.MD
	missing     string // the stream's context never ended

	// the caller's side
	cancelAt, deadline time.Duration // after the start, 0 for never
	sendFail           int           // direct: index of the Send that fails, -1 for none
	sendErr            error
	slow               time.Duration // direct: every Send takes that long

	start    time.Duration
	ctx      context.Context
	ended    bool // the caller's context ended before the call did
	arrivals []c12arrival
	hdr      metadata.MD
	hdrAt    time.Duration
	hdrDone  bool
	got      []proto.Message
	gotAt    []time.Duration
	gotTrail metadata.MD
	result   error
	done     bool
	doneAt   time.Duration
	resp     proto.Message
	sends    int
	after    bool // something was sent after the handler returned
	cutAtRet bool // the client's context had ended when the handler returned

	allowed map[*c12back]bool
	none    bool // NotFound is a possible outcome
}

func (c *c12call) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "call %d %s name %q", c.id, c.m.full, c.name)
	if c.m.server {
		fmt.Fprintf(&b, " startErr %v delay %s header %s/%v after %s, %d messages %v end %v after %s trailer %s", c.startErr, c.delay, mdText(c.header), c.headerErr, c.headerDelay, len(c.msgs), c.gaps, c.err, c.endGap, mdText(c.trailer))
	} else {
		fmt.Fprintf(&b, " delay %s err %v", c.delay, c.err)
	}
	fmt.Fprintf(&b, " cancelAt %s deadline %s sendFail %d slow %s allowed %v none %v", c.cancelAt, c.deadline, c.sendFail, c.slow, c.allowed, c.none)
	fmt.Fprintf(&b, "; started %s,", c.start)
	for _, a := range c.arrivals {
		fmt.Fprintf(&b, " arrived at %s (%s)", a.back, a.at)
	}
	fmt.Fprintf(&b, ", header %v %s at %s, got %d at %v, done %v at %s: %v, trailer %s", c.hdrDone, mdText(c.hdr), c.hdrAt, len(c.got), c.gotAt, c.done, c.doneAt, c.result, mdText(c.gotTrail))
	return b.String()
}

func (b *c12back) arrive(ctx context.Context, method string, in proto.Message) *c12call {
	x := b.x
	x.t.Nontrivial()
	id, ok := markOf(in)
	if !ok || id >= len(x.calls) {
		x.t.Fail("request", "%s: client %s received a request that nobody sent: %s %s", x, b, method, txt(in))
	}
	c := x.calls[id]
	c.arrivals = append(c.arrivals, c12arrival{b, method, clone(in), ctx, x.t.Elapsed()})
	if len(c.arrivals) > 1 {
		x.fail(c, "exactly-once", "the request was forwarded %d times", len(c.arrivals))
	}
	if x.logOn() {
		x.t.Logf("call %d arrives at %s", id, b)
	}
	return c
}

func (b *c12back) Invoke(ctx context.Context, method string, args, reply any, opts ...grpc.CallOption) error {
	c := b.arrive(ctx, method, args.(proto.Message))
	if c.m.server {
		b.x.fail(c, "method", "a streaming method was invoked")
	}
	if err := pause(ctx, c.delay); err != nil {
		return err
	}
	if c.err != nil {
		return c.err
	}
	proto.Merge(reply.(proto.Message), c.res)
	return nil
}

func pause(ctx context.Context, d time.Duration) error {
	if ctx.Err() == nil && d > 0 {
		tm := time.NewTimer(d)
		defer tm.Stop()
		select {
		case <-tm.C:
		case <-ctx.Done():
		}
	}
	if err := ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	return nil
}

func (b *c12back) NewStream(ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	if !desc.ServerStreams || desc.ClientStreams {
		b.x.t.Fail("method", "%s: stream descriptor %+v", method, desc)
	}
	return &c12stream{b: b, ctx: ctx, method: method}, nil
}

// c12stream is the stream a client gives the router. The request identifies
// the script, so the call starts with SendMsg, which the generated client
// makes before it returns the stream.
type c12stream struct {
	b      *c12back
	c      *c12call
	ctx    context.Context
	method string
	closed bool
	base   time.Duration // when the stream was made
	pos    int
	end    error
}

func (s *c12stream) Context() context.Context { return s.ctx }
func (s *c12stream) CloseSend() error {
	s.closed = true
	if s.c == nil {
		s.b.x.t.Fail("request", "%s: the stream was closed before the request was sent", s.method)
	}
	return nil
}

func (s *c12stream) SendMsg(m any) error {
	if s.c != nil {
		s.b.x.fail(s.c, "exactly-once", "a second request was sent")
	}
	s.c = s.b.arrive(s.ctx, s.method, m.(proto.Message))
	if !s.c.m.server {
		s.b.x.fail(s.c, "method", "a unary method was streamed")
	}
	if err := pause(s.ctx, s.c.delay); err != nil {
		return err
	}
	s.base = s.b.x.t.Elapsed()
	return s.c.startErr
}

// until waits for a moment after the stream was made.
func (s *c12stream) until(d time.Duration) error {
	return pause(s.ctx, s.base+d-s.b.x.t.Elapsed())
}

func (s *c12stream) Header() (metadata.MD, error) {
	if err := s.until(s.c.headerDelay); err != nil {
		return nil, err
	}
	if s.c.headerErr != nil {
		return nil, s.c.headerErr
	}
	return s.c.header.Copy(), nil
}

func (s *c12stream) RecvMsg(m any) error {
	if s.end != nil {
		return s.end
	}
	if !s.closed {
		s.b.x.fail(s.c, "request", "the request stream was not closed")
	}
	c := s.c
	at := c.headerDelay
	for i := 0; i <= s.pos && i < len(c.msgs); i++ {
		at += c.gaps[i]
	}
	if s.pos >= len(c.msgs) {
		at += c.endGap
	}
	if err := s.until(at); err != nil {
		s.end = err
		return err
	}
	if s.pos >= len(c.msgs) {
		s.end = c.err
		if s.end == nil {
			s.end = io.EOF
		}
		return s.end
	}
	proto.Merge(m.(proto.Message), c.msgs[s.pos])
	s.pos++
	return nil
}

func (s *c12stream) Trailer() metadata.MD {
	if s.end == nil {
		return nil
	}
	return s.c.trailer.Copy()
}

// c12run is one router with calls going through it.
type c12run struct {
	quiet    bool // no change callback
	t        *core.T
	rc       *RouterCase
	via      int
	unit     time.Duration
	nested   bool
	defName  string // default name interceptor, "" for none
	r        router.Router
	conn     any // typed client for the wrapped and the real transport
	desc     *grpc.ServiceDesc
	impl     any
	calls    []*c12call
	nbacks   int
	clients  map[any]*c12back
	model    map[string]*c12back
	factory  map[string]int // outcome by name
	fallback map[string]*c12back
	fbErr    error
	hist     []string
	changes  []string
	wantCh   []string
	cancels  []func()
	inBurst  bool
	made     map[string][]*c12back
}

const (
	viaDirect = iota
	viaWrap
	viaGRPC
)

func (x *c12run) logOn() bool { return x.t.Logging() }

func (x *c12run) String() string {
	return fmt.Sprintf("%s via %s nested %v default %q", x.rc.Name, []string{"descriptor", "wrapper", "gRPC"}[x.via], x.nested, x.defName)
}

func (x *c12run) fail(c *c12call, class, format string, args ...any) {
	x.t.Fail(class, "%s\n  %s\n  %s\n  history:\n    %s", fmt.Sprintf(format, args...), x, c, strings.Join(x.hist, "\n    "))
}

func (x *c12run) note(format string, args ...any) {
	x.hist = append(x.hist, fmt.Sprintf(format, args...))
	if x.logOn() {
		x.t.Logf(format, args...)
	}
}

// client makes a client with its own connection.
func (x *c12run) client(kind string) any {
	x.nbacks++
	b := &c12back{x: x, label: fmt.Sprintf("%s%d", kind, x.nbacks)}
	c := x.rc.NewClient(b)
	if x.nested {
		leaf := c
		inner := x.rc.New(router.WithFallback(func(string) (any, error) { return leaf, nil }))
		c = x.rc.Wrap(inner)
	}
	x.clients[c] = b
	return c
}

func clientText(x *c12run, c any) string {
	if c == nil {
		return "nil"
	}
	if b := x.clients[c]; b != nil {
		return b.label
	}
	return fmt.Sprintf("unknown %T", c)
}

func changeText(x *c12run, c router.Change) string {
	return fmt.Sprintf("{%q old %s new %s auto %v}", c.Name, clientText(x, c.Old), clientText(x, c.New), c.Auto)
}

// registrar records what a router registers.
type registrar struct {
	desc *grpc.ServiceDesc
	impl any
	n    int
}

func (g *registrar) RegisterService(d *grpc.ServiceDesc, impl any) {
	g.desc, g.impl, g.n = d, impl, g.n+1
}

func c12Route(t *core.T) {
	x := &c12run{t: t, clients: map[any]*c12back{}, model: map[string]*c12back{}, factory: map[string]int{}, fallback: map[string]*c12back{}, made: map[string][]*c12back{}}
	x.rc = drawRouter(t)
	x.via = t.Weighted(5, 4, 1)
	x.unit = drawUnit(t, time.Second)
	x.nested = t.Chance(20)
	names := drawNames(t, 5)
	var opts []router.Option
	if t.Chance(40) {
		for _, n := range names {
			x.factory[n] = t.Int(3) // none, error, client
		}
		opts = append(opts, x.rc.Factory(func(name string) (any, error) {
			switch x.factory[name] {
			case 1:
				t.Count("factory_failure", 1)
				return nil, errors.New("factory")
			case 2:
				c := x.client("auto")
				x.made[name] = append(x.made[name], x.clients[c])
				return c, nil
			}
			return nil, nil
		}))
	}
	if t.Chance(30) {
		fbs := map[string]any{}
		for _, n := range names {
			if t.Chance(40) {
				fbs[n] = x.client("fallback")
				x.fallback[n] = x.clients[fbs[n]]
			}
		}
		if t.Chance(50) {
			x.fbErr = status.Error(codes.Unavailable, "fallback")
		}
		opts = append(opts, router.WithFallback(func(name string) (any, error) {
			if c := fbs[name]; c != nil {
				return c, nil
			}
			return nil, x.fbErr
		}))
	}
	x.quiet = t.Chance(15)
	if !x.quiet {
		opts = append(opts, router.WithOnChange(func(c router.Change) {
			x.changes = append(x.changes, changeText(x, c))
		}))
	}
	x.r = x.rc.New(opts...)
	if t.Chance(25) {
		x.defName = core.Choose(t, "a", "b", "zz")
	}
	x.connect()

	// the script
	type step struct {
		kind  int // 0 calls, 1 add, 2 remove
		name  string
		calls []*c12call
		race  int // mutation next to the calls: 0 none, 1 add, 2 remove
		rname string
	}
	var steps []step
	t.Repeat(1, 8, func(i int) {
		s := step{kind: t.Weighted(6, 3, 1), name: names[t.Int(len(names))]}
		if i == 0 && t.Chance(80) {
			s.kind = 1
		}
		if s.kind == 0 {
			n := 1
			if t.Chance(30) {
				n = t.Range(2, 4)
			}
			for ; n > 0; n-- {
				s.calls = append(s.calls, x.drawCall(names))
			}
			if t.Chance(15) {
				s.race, s.rname = t.Range(1, 2), names[t.Int(len(names))]
			}
		}
		steps = append(steps, s)
	})

	for _, s := range steps {
		switch s.kind {
		case 1:
			x.add(s.name)
		case 2:
			x.remove(s.name)
		case 0:
			x.burst(s.calls, s.race, s.rname)
		}
	}
	t.Settle(time.Hour + 60*x.unit)
	for _, c := range x.calls {
		x.judge(c)
	}
	for _, f := range x.cancels {
		f()
	}
	t.Wait()
	for _, c := range x.calls {
		for _, a := range c.arrivals {
			if a.ctx.Err() == nil {
				x.fail(c, "client-context", "the context the client was called with did not end with the caller's")
			}
		}
	}
	x.checkChanges()
}

// connect builds what the callers use.
func (x *c12run) connect() {
	t := x.t
	reg := &registrar{}
	x.r.(interface{ Register(grpc.ServiceRegistrar) }).Register(reg)
	if reg.n != 1 || reg.desc.ServiceName != x.rc.Service.ServiceName {
		t.Fail("register", "%s: Register registered %+v", x, reg)
	}
	if reg.impl != any(x.r) {
		t.Fail("register", "%s: Register registered a %T", x, reg.impl)
	}
	x.desc, x.impl = reg.desc, reg.impl
	switch x.via {
	case viaWrap:
		x.conn = x.rc.Wrap(x.r)
		if x.defName != "" {
			x.defName = ""
		}
	case viaGRPC:
		lis := bufconn.Listen(1 << 16)
		var so []grpc.ServerOption
		if x.defName != "" {
			so = append(so, grpc.ChainUnaryInterceptor(namemw.IfAbsentUnaryInterceptor(x.defName)), grpc.ChainStreamInterceptor(namemw.IfAbsentStreamInterceptor(x.defName)))
		}
		s := grpc.NewServer(so...)
		x.r.(interface{ Register(grpc.ServiceRegistrar) }).Register(s)
		go s.Serve(lis)
		conn, err := grpc.NewClient("passthrough:///sim", grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return lis.DialContext(ctx) }))
		if err != nil {
			panic(err)
		}
		x.conn = x.rc.NewClient(conn)
		conn.Connect()
		t.Wait()
		t.Cleanup(func() { conn.Close(); s.Stop() })
	}
}

func (x *c12run) drawCall(names []string) *c12call {
	t := x.t
	ms := x.rc.methods()
	c := &c12call{id: len(x.calls), m: ms[t.Int(len(ms))], sendFail: -1}
	x.calls = append(x.calls, c)
	c.name = names[t.Int(len(names))]
	if t.Chance(8) {
		c.name = core.Choose(t, "nobody", " a", "A")
	}
	c.req = c.m.newIn()
	fillMsg(t, c.req.ProtoReflect(), t.Range(0, 50), 2)
	setName(c.req, c.name)
	addUnknown(c.req, uint64(c.id))
	dur := func() time.Duration {
		if t.Chance(40) {
			t.Count("slow_child", 1)
			return time.Duration(t.Range(1, 5)) * x.unit
		}
		return 0
	}
	msg := func() proto.Message {
		m := c.m.newOut()
		fillMsg(t, m.ProtoReflect(), t.Range(0, 50), 2)
		if t.Chance(20) {
			addUnknown(m, uint64(t.Int(9)))
		}
		return m
	}
	cerr := func(pct int) error {
		if !t.Chance(pct) {
			return nil
		}
		err := drawServerErr(t)
		for errors.Is(err, io.EOF) {
			err = drawServerErr(t)
		}
		if t.Chance(20) {
			s, _ := status.New(codes.Code(t.Range(1, 16)), "detailed").WithDetails(protoadapt.MessageV1Of(msg()))
			err = s.Err()
		}
		t.Count("child_error", 1)
		return err
	}
	c.delay = dur()
	if !c.m.server {
		c.res = msg()
		c.err = cerr(30)
	} else {
		if t.Chance(10) {
			if c.startErr = cerr(100); c.startErr != nil {
				t.Count("child_start_error", 1)
			}
		}
		if t.Chance(60) {
			c.header = drawMD(t)
		}
		c.headerDelay = dur()
		if t.Chance(6) {
			c.headerErr = cerr(100)
		}
		for n := t.Int(4); n > 0; n-- {
			c.msgs = append(c.msgs, msg())
			c.gaps = append(c.gaps, dur())
		}
		c.endGap = dur()
		c.err = cerr(40)
		if t.Chance(60) {
			c.trailer = drawMD(t)
		}
		if x.via == viaDirect {
			if t.Chance(25) && len(c.msgs) > 0 {
				c.sendFail = t.Int(len(c.msgs))
				c.sendErr = status.Error(codes.Unavailable, "caller is gone")
				if t.Chance(30) {
					c.sendErr = io.EOF
				}
			}
			if t.Chance(15) {
				c.slow = time.Duration(t.Range(1, 4)) * x.unit
				t.Count("slow_caller", 1)
			}
		}
	}
	switch t.Int(8) {
	case 0:
		c.cancelAt = time.Duration(t.Range(0, 12))*x.unit + time.Millisecond
		t.Count("caller_cancel", 1)
	case 1:
		c.deadline = time.Duration(t.Range(0, 12))*x.unit + time.Millisecond
		t.Count("caller_deadline", 1)
	}
	return c
}

func setName(m proto.Message, name string) {
	r := m.ProtoReflect()
	fd := r.Descriptor().Fields().ByName("name")
	if fd == nil {
		panic("no name in " + string(r.Descriptor().FullName()))
	}
	r.Set(fd, protoreflect.ValueOfString(name))
}

func getName(m proto.Message) string {
	r := m.ProtoReflect()
	return r.Get(r.Descriptor().Fields().ByName("name")).String()
}

func (x *c12run) add(name string) {
	c := x.client("client")
	old := x.r.Add(name, c)
	x.note("Add(%q, %s) = %s", name, clientText(x, c), clientText(x, old))
	x.expectOld("Add", name, old)
	x.wantCh = append(x.wantCh, changeText(x, router.Change{Name: name, Old: old, New: c}))
	x.model[name] = x.clients[c]
	x.checkHas(name)
}

func (x *c12run) remove(name string) {
	old := x.r.Remove(name)
	x.note("Remove(%q) = %s", name, clientText(x, old))
	x.expectOld("Remove", name, old)
	if old != nil {
		x.wantCh = append(x.wantCh, changeText(x, router.Change{Name: name, Old: old}))
	}
	delete(x.model, name)
	x.checkHas(name)
}

func (x *c12run) expectOld(op, name string, old any) {
	want := x.model[name]
	if (want == nil) != (old == nil) || want != nil && x.clients[old] != want {
		x.t.Fail("registry", "%s: %s(%q) returns %s, want %v\n    %s", x, op, name, clientText(x, old), want, strings.Join(x.hist, "\n    "))
	}
}

func (x *c12run) checkHas(name string) {
	if has := x.r.Has(name); has != (x.model[name] != nil) {
		x.t.Fail("registry", "%s: Has(%q) is %v\n    %s", x, name, has, strings.Join(x.hist, "\n    "))
	}
}

// burst starts calls at once, maybe next to a change of the registry.
func (x *c12run) burst(calls []*c12call, race int, rname string) {
	t := x.t
	before := map[string]*c12back{}
	for n, b := range x.model {
		before[n] = b
	}
	made := map[string]int{}
	for n, bs := range x.made {
		made[n] = len(bs)
	}
	for _, c := range calls {
		x.note("start call %d %s %q", c.id, c.m.name, c.name)
		x.run(c)
	}
	if race > 0 {
		t.Count("registry_change_during_call", 1)
		if race == 1 {
			x.raceAdd(rname)
		} else {
			x.raceRemove(rname)
		}
	}
	t.Wait()
	// what each call may have seen
	seen := map[string]bool{}
	for _, c := range calls {
		n := c.target(x)
		c.allowed = map[*c12back]bool{}
		if b := before[n]; b != nil {
			c.allowed[b] = true
		}
		raced := race > 0 && n == rname
		if raced && x.model[n] != nil {
			c.allowed[x.model[n]] = true
		}
		absent := before[n] == nil || raced && race == 2
		if absent {
			switch {
			case x.fallback[n] != nil:
				c.allowed[x.fallback[n]] = true
			case x.factory[n] == 2:
				auto := x.made[n][made[n]:]
				if raced {
					for _, b := range auto {
						c.allowed[b] = true
					}
					break
				}
				// one client was committed, all calls went to it
				if len(auto) == 0 {
					x.fail(c, "factory", "no client was created")
				}
				if !seen[n] {
					seen[n] = true
					got, err := x.r.Get(n)
					b := x.clients[got]
					in := false
					for _, a := range auto {
						in = in || a == b
					}
					if err != nil || b == nil || !in {
						x.fail(c, "factory", "after the calls, Get(%q) gives %s %v, created were %v", n, clientText(x, got), err, auto)
					}
					x.model[n] = b
					x.wantCh = append(x.wantCh, changeText(x, router.Change{Name: n, New: got, Auto: true}))
				}
				c.allowed[x.model[n]] = true
			default:
				c.none = true
			}
		}
	}
	if race > 0 {
		// a created client may have been committed next to the change
		auto := x.made[rname][made[rname]:]
		if x.r.Has(rname) != (x.model[rname] != nil) || len(auto) > 0 {
			x.resync(rname, auto)
		}
	}
}

// target is the name the router sees.
func (c *c12call) target(x *c12run) string {
	if c.name == "" && x.defName != "" {
		return x.defName
	}
	return c.name
}

func (x *c12run) raceAdd(name string) {
	c := x.client("client")
	old := x.r.Add(name, c)
	x.note("Add(%q, %s) = %s", name, clientText(x, c), clientText(x, old))
	x.model[name] = x.clients[c]
	x.wantCh = append(x.wantCh, changeText(x, router.Change{Name: name, Old: old, New: c}))
	if b := x.clients[old]; old != nil && strings.HasPrefix(b.label, "auto") && !slices.Contains(x.wantCh, changeText(x, router.Change{Name: name, New: old, Auto: true})) {
		x.wantCh = append(x.wantCh, changeText(x, router.Change{Name: name, New: old, Auto: true}))
	}
}

func (x *c12run) raceRemove(name string) {
	old := x.r.Remove(name)
	x.note("Remove(%q) = %s", name, clientText(x, old))
	delete(x.model, name)
	if old == nil {
		return
	}
	x.wantCh = append(x.wantCh, changeText(x, router.Change{Name: name, Old: old}))
	if b := x.clients[old]; strings.HasPrefix(b.label, "auto") && !slices.Contains(x.wantCh, changeText(x, router.Change{Name: name, New: old, Auto: true})) {
		x.wantCh = append(x.wantCh, changeText(x, router.Change{Name: name, New: old, Auto: true}))
	}
}

// resync takes a client the factory created during a race into the model.
func (x *c12run) resync(name string, auto []*c12back) {
	if !x.r.Has(name) {
		if x.model[name] != nil {
			x.t.Fail("registry", "%s: %q was added and is missing\n    %s", x, name, strings.Join(x.hist, "\n    "))
		}
		return
	}
	got, err := x.r.Get(name)
	b := x.clients[got]
	if err == nil && b != nil {
		if b == x.model[name] {
			return
		}
		for _, a := range auto {
			if a == b && x.model[name] == nil {
				x.model[name] = b
				x.wantCh = append(x.wantCh, changeText(x, router.Change{Name: name, New: got, Auto: true}))
				return
			}
		}
	}
	x.t.Fail("registry", "%s: Get(%q) gives %s %v, want %v or one of %v\n    %s", x, name, clientText(x, got), err, x.model[name], auto, strings.Join(x.hist, "\n    "))
}

func (x *c12run) checkChanges() {
	if x.quiet {
		return
	}
	a, b := append([]string(nil), x.changes...), append([]string(nil), x.wantCh...)
	sortStrings(a)
	sortStrings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		x.t.Fail("change-callback", "%s: the callbacks reported\n    %s\n  the changes were\n    %s\n  history:\n    %s", x, strings.Join(a, "\n    "), strings.Join(b, "\n    "), strings.Join(x.hist, "\n    "))
	}
}

// run starts a call.
func (x *c12run) run(c *c12call) {
	t := x.t
	ctx, cancel := context.WithCancel(context.Background())
	if c.deadline > 0 {
		ctx, cancel = context.WithTimeout(context.Background(), c.deadline)
	}
	c.ctx = ctx
	c.start = t.Elapsed()
	x.cancels = append(x.cancels, cancel)
	if c.cancelAt > 0 {
		tm := time.AfterFunc(c.cancelAt, cancel)
		t.Cleanup(func() { tm.Stop() })
	}
	finish := func(err error) {
		c.ended = ctx.Err() != nil
		c.result, c.done, c.doneAt = err, true, t.Elapsed()
		if x.logOn() {
			t.Logf("call %d ends: %v", c.id, err)
		}
	}
	sent := clone(c.req)
	same12 := func() {
		if !same(sent, c.req) {
			x.fail(c, "request-modified", "the caller's request was changed to %s", txt(c.req))
		}
	}
	if x.via == viaDirect {
		intercept := grpc.UnaryServerInterceptor(nil)
		handle := func(ss grpc.ServerStream, h grpc.StreamHandler) error { return h(x.impl, ss) }
		if x.defName != "" {
			intercept = namemw.IfAbsentUnaryInterceptor(x.defName)
			si := namemw.IfAbsentStreamInterceptor(x.defName)
			handle = func(ss grpc.ServerStream, h grpc.StreamHandler) error {
				return si(x.impl, ss, &grpc.StreamServerInfo{FullMethod: c.m.full, IsServerStream: true}, h)
			}
		}
		go func() {
			if !c.m.server {
				md := findMethod(x.desc, c.m.name)
				if md == nil {
					x.fail(c, "unrouted", "the registered service has no such method")
				}
				res, err := md.Handler(x.impl, ctx, func(m any) error { proto.Merge(m.(proto.Message), c.req); return nil }, intercept)
				if err == nil {
					c.resp, _ = res.(proto.Message)
				}
				finish(err)
			} else {
				sd := findStream(x.desc, c.m.name)
				if sd == nil {
					x.fail(c, "unrouted", "the registered service has no such method")
				}
				ss := &c12server{x: x, c: c, ctx: ctx}
				err := handle(ss, sd.Handler)
				ss.returned = true
				t.Seq()
				ss.sendHeader() // at the latest now
				for _, a := range c.arrivals {
					c.cutAtRet = a.ctx.Err() != nil
				}
				finish(err)
			}
			same12()
			if c.sendFail < 0 {
				cancel() // the server ends the context of a call with the call
			}
		}()
		return
	}
	go func() {
		out := reflect.ValueOf(x.conn).MethodByName(c.m.name).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(c.req)})
		err, _ := out[1].Interface().(error)
		if !c.m.server {
			if err == nil {
				c.resp, _ = out[0].Interface().(proto.Message)
			}
			finish(err)
			same12()
			return
		}
		if err != nil {
			finish(err)
			same12()
			return
		}
		cs := out[0].Interface().(grpc.ClientStream)
		go func() {
			h, err := cs.Header()
			if err == nil {
				c.hdr, c.hdrAt, c.hdrDone = h, t.Elapsed(), true
			}
		}()
		for {
			m := c.m.newOut()
			if err = cs.RecvMsg(m); err != nil {
				break
			}
			c.got = append(c.got, m)
			c.gotAt = append(c.gotAt, t.Elapsed())
		}
		c.gotTrail = cs.Trailer()
		if err == io.EOF {
			err = nil
		}
		finish(err)
		same12()
	}()
}

func findMethod(d *grpc.ServiceDesc, name string) *grpc.MethodDesc {
	for i := range d.Methods {
		if d.Methods[i].MethodName == name {
			return &d.Methods[i]
		}
	}
	return nil
}

func findStream(d *grpc.ServiceDesc, name string) *grpc.StreamDesc {
	for i := range d.Streams {
		if d.Streams[i].StreamName == name {
			return &d.Streams[i]
		}
	}
	return nil
}

// c12server is the caller's side of a stream as the handler sees it.
type c12server struct {
	x        *c12run
	c        *c12call
	ctx      context.Context
	read     bool
	returned bool
	pending  metadata.MD
}

func (s *c12server) Context() context.Context { return s.ctx }

func (s *c12server) use() {
	if s.returned {
		s.c.after = true
		s.x.fail(s.c, "after-return", "the stream was used after the handler returned")
	}
}

func (s *c12server) SetHeader(md metadata.MD) error {
	s.use()
	if s.c.hdrDone {
		return status.Error(codes.Internal, "header already sent")
	}
	s.pending = metadata.Join(s.pending, md)
	return nil
}

func (s *c12server) sendHeader() {
	if !s.c.hdrDone {
		s.c.hdr, s.c.hdrDone, s.c.hdrAt = s.pending, true, s.x.t.Elapsed()
	}
}

func (s *c12server) SendHeader(md metadata.MD) error {
	if err := s.SetHeader(md); err != nil {
		return err
	}
	s.sendHeader()
	return nil
}

func (s *c12server) SetTrailer(md metadata.MD) {
	s.use()
	s.c.gotTrail = metadata.Join(s.c.gotTrail, md)
}

func (s *c12server) SendMsg(m any) error {
	s.use()
	s.sendHeader()
	s.c.sends++
	if s.c.slow > 0 {
		if err := pause(s.ctx, s.c.slow); err != nil {
			return err
		}
	}
	if s.c.sendFail >= 0 && len(s.c.got) >= s.c.sendFail {
		s.x.t.Count("caller_send_failure", 1)
		if s.c.sends > s.c.sendFail+1 {
			s.x.fail(s.c, "send-after-failure", "a message was sent after the caller had gone")
		}
		return s.c.sendErr
	}
	if err := s.ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	s.c.got = append(s.c.got, clone(m.(proto.Message)))
	s.c.gotAt = append(s.c.gotAt, s.x.t.Elapsed())
	return nil
}

func (s *c12server) RecvMsg(m any) error {
	s.use()
	if s.read {
		return io.EOF
	}
	s.read = true
	proto.Merge(m.(proto.Message), s.c.req)
	return nil
}

// statusText renders an error with its details.
func statusText(err error) string {
	if err == nil {
		return "ok"
	}
	s := status.Convert(err)
	return fmt.Sprintf("%s %q %s", s.Code(), s.Message(), txt(s.Proto()))
}

// expectErr is the status the caller gets for the client's error.
func (x *c12run) expectErr(err error) string {
	if err == nil {
		return "ok"
	}
	if x.via != viaDirect || x.nested {
		err = fromServer(err)
	}
	return statusText(err)
}

func (x *c12run) judge(c *c12call) {
	t := x.t
	if !c.done {
		x.fail(c, "hang", "the call has not returned\n%s", t.Stacks())
	}
	if len(c.arrivals) == 0 {
		early := c.ended && (c.cancelAt > 0 || c.deadline > 0) && contextErr(c.result)
		switch {
		case early:
		case !c.none:
			x.fail(c, "not-forwarded", "the request reached no client: %v", c.result)
		case code(c.result) != codes.NotFound:
			x.fail(c, "not-found", "no client has the name, and the call ends with %v", c.result)
		case len(c.got) > 0 || c.resp != nil:
			x.fail(c, "not-found", "no client has the name, and the caller got a response")
		}
		return
	}
	a := c.arrivals[0]
	want := clone(c.req)
	setName(want, c.target(x))
	switch {
	case len(c.arrivals) > 1:
		x.fail(c, "exactly-once", "the request was forwarded %d times", len(c.arrivals))
	case !c.allowed[a.back]:
		x.fail(c, "wrong-client", "the request went to %s", a.back)
	case a.method != c.m.full:
		x.fail(c, "method", "the method called on the client was %s", a.method)
	case !same(a.req, want):
		x.fail(c, "request", "the client received\n    %s\n  want\n    %s", txt(a.req), txt(want))
	case a.at != c.start:
		x.fail(c, "delayed", "the client was called at %s", a.at)
	}
	limit := time.Duration(0) // when the caller went away
	if c.cancelAt > 0 {
		limit = c.start + c.cancelAt
	}
	if c.deadline > 0 {
		limit = c.start + c.deadline
	}
	by := func(at time.Duration) bool { return limit == 0 || at < limit }
	gone := func() { // the caller left first
		if !contextErr(c.result) {
			x.fail(c, "status", "the caller's context ended first, and the call ends with %v", c.result)
		}
		if c.doneAt != limit {
			x.fail(c, "delayed", "the caller's context ended at %s, and the call at %s", limit, c.doneAt)
		}
	}
	if !c.m.server {
		at := c.start + c.delay
		if !by(at) {
			gone()
			return
		}
		if got, want := statusText(c.result), x.expectErr(c.err); got != want {
			x.fail(c, "status", "the call ends with\n    %s\n  want\n    %s", got, want)
		}
		if c.err == nil && (c.resp == nil || !same(c.resp, c.res)) {
			x.fail(c, "response", "the response is\n    %s\n  want\n    %s", txt(c.resp), txt(c.res))
		}
		if c.doneAt != at {
			x.fail(c, "delayed", "the response arrived at %s, want %s", c.doneAt, at)
		}
		return
	}
	// the stream as the client made it
	base := c.start + c.delay
	hdrAt := base + c.headerDelay
	end, endAt := c.err, time.Duration(0)
	var msgs []proto.Message
	var ats []time.Duration
	switch {
	case c.startErr != nil:
		end, endAt, hdrAt = c.startErr, base, base
	case c.headerErr != nil:
		end, endAt = c.headerErr, hdrAt
	default:
		at := hdrAt
		now := hdrAt // when the router asks for the next message
		for i, m := range c.msgs {
			at += c.gaps[i]
			now = max(now, at) + c.slow
			msgs = append(msgs, m)
			ats = append(ats, now)
		}
		at += c.endGap
		endAt = max(now, at)
	}
	header, trailer := c.header, c.trailer
	if c.startErr != nil || c.headerErr != nil {
		header, trailer = nil, nil
	}
	// the caller's own faults
	if c.sendFail >= 0 && len(msgs) > c.sendFail && by(ats[c.sendFail]) {
		endAt = ats[c.sendFail]
		msgs, ats = msgs[:c.sendFail], ats[:c.sendFail]
		if statusText(c.result) != statusText(c.sendErr) {
			x.fail(c, "status", "sending to the caller failed with %v, and the call ends with %v", c.sendErr, c.result)
		}
		if !c.cutAtRet {
			x.fail(c, "client-context", "the caller is gone, and the client's call goes on")
		}
	} else if !by(endAt) {
		gone()
		n := 0
		for n < len(ats) && by(ats[n]) {
			n++
		}
		msgs, ats = msgs[:n], ats[:n]
		if !by(hdrAt) {
			header, hdrAt = nil, 0
		}
		trailer = nil
		endAt = limit
	} else {
		if got, want := statusText(c.result), x.expectErr(end); got != want {
			x.fail(c, "status", "the call ends with\n    %s\n  want\n    %s", got, want)
		}
		if got, want := mdText(c.gotTrail), mdText(trailer); got != want {
			x.fail(c, "trailer", "the trailer is %s, want %s", got, want)
		}
		if c.doneAt != endAt {
			x.fail(c, "delayed", "the call ended at %s, want %s", c.doneAt, endAt)
		}
	}
	if len(c.got) != len(msgs) {
		x.fail(c, "messages", "the caller received %d messages, want %d", len(c.got), len(msgs))
	}
	for i, m := range msgs {
		if !same(c.got[i], m) {
			x.fail(c, "messages", "message %d is\n    %s\n  want\n    %s", i, txt(c.got[i]), txt(m))
		}
		if c.gotAt[i] != ats[i] {
			x.fail(c, "delayed", "message %d arrived at %s, want %s", i, c.gotAt[i], ats[i])
		}
	}
	if by(hdrAt) && hdrAt > 0 {
		if !c.hdrDone {
			if len(mdText(header)) > 2 {
				x.fail(c, "header", "the caller has no header")
			}
		} else if mdText(c.hdr) != mdText(header) {
			x.fail(c, "header", "the header is %s, want %s", mdText(c.hdr), mdText(header))
		} else if c.hdrAt != hdrAt {
			x.fail(c, "delayed", "the header arrived at %s, want %s", c.hdrAt, hdrAt)
		}
	}
}

// Registry.

// c12reg is a registry under test.
type c12reg struct {
	quiet  bool // no change callback
	t      *core.T
	rc     *RouterCase // nil for the plain router
	r      router.Router
	label  map[any]string
	added  []any // clients added before
	n      int
	events []string
	calls  map[string][]*c12create // by name
	plan   map[string][]c12plan
	fb, fa bool
	cur    *c12regOp // sequential runs
}

// c12plan is what the k-th invocation for a name does.
type c12plan struct {
	kind  int // 0 nil, 1 error, 2 client, 3 client and error
	delay time.Duration
}

type c12create struct {
	factory  bool
	inv, end uint64
	kind     int
	client   any
}

func (g *c12reg) newClient(kind string) any {
	g.n++
	var c any
	if g.rc != nil {
		c = g.rc.NewClient(&c12back{label: "x"})
	} else {
		c = &struct{ n int }{g.n}
	}
	g.label[c] = fmt.Sprintf("%s%d", kind, g.n)
	return c
}

func (g *c12reg) text(c any) string {
	if c == nil {
		return "nil"
	}
	if l, ok := g.label[c]; ok {
		return l
	}
	return fmt.Sprintf("unknown %T", c)
}

func (g *c12reg) event(c router.Change) string {
	return fmt.Sprintf("{%q %s -> %s auto %v}", c.Name, g.text(c.Old), g.text(c.New), c.Auto)
}

// create is the factory, or the fallback.
func (g *c12reg) create(factory bool, name string) (any, error) {
	k := len(g.calls[name])
	cr := &c12create{factory: factory, inv: g.t.Seq()}
	g.calls[name] = append(g.calls[name], cr)
	p := c12plan{}
	if ps := g.plan[name]; len(ps) > 0 {
		p = ps[k%len(ps)]
	}
	cr.kind = p.kind
	var c any
	kind := "fallback"
	if factory {
		kind = "auto"
	}
	if p.kind >= 2 {
		c = g.newClient(kind)
		cr.client = c
	}
	if p.delay > 0 {
		time.Sleep(p.delay)
	}
	g.r.Has(name) // no lock is held
	cr.end = g.t.Seq()
	switch p.kind {
	case 1:
		g.t.Count("factory_failure", 1)
		return nil, errors.New("no such device")
	case 3:
		g.t.Count("factory_failure", 1)
		return c, status.Error(codes.Unavailable, "half made")
	}
	return c, nil
}

// c12state is the reference: an immutable map.
type c12state map[string]string

func (s c12state) with(name, c string) c12state {
	n := c12state{}
	for k, v := range s {
		n[k] = v
	}
	if c == "" {
		delete(n, name)
	} else {
		n[name] = c
	}
	return n
}

func (s c12state) key() string {
	var ks []string
	for k, v := range s {
		ks = append(ks, fmt.Sprintf("%q:%s", k, v))
	}
	sortStrings(ks)
	return strings.Join(ks, " ")
}

type c12regOp struct {
	kind   int // 0 add, 1 remove, 2 has, 3 get, 4 holds, 5 bad add
	name   string
	typed  bool
	client any
	*ruleOp
	got      any
	has      bool
	panicked bool
	err      error
	from     int // invocations before the call (sequential)
	to       int
}

func c12NewReg(t *core.T) (*c12reg, []string) {
	g := &c12reg{t: t, label: map[any]string{}, calls: map[string][]*c12create{}, plan: map[string][]c12plan{}}
	if t.Chance(60) {
		g.rc = routerCases[t.Int(len(routerCases))]
	}
	names := drawNames(t, 3)
	for _, n := range names {
		for i := t.Range(1, 3); i > 0; i-- {
			p := c12plan{kind: t.Weighted(1, 1, 4, 1)}
			if t.Chance(40) {
				p.delay = time.Duration(t.Range(1, 3)) * tick
			}
			g.plan[n] = append(g.plan[n], p)
		}
	}
	var opts []router.Option
	if t.Chance(75) {
		g.fa = true
		f := func(name string) (any, error) { return g.create(true, name) }
		if g.rc != nil && t.Chance(70) {
			opts = append(opts, g.rc.Factory(f))
		} else {
			opts = append(opts, router.WithFactory(f))
		}
	}
	if t.Chance(35) {
		g.fb = true
		opts = append(opts, router.WithFallback(func(name string) (any, error) { return g.create(false, name) }))
	}
	slow := time.Duration(0)
	if t.Chance(20) {
		slow = tick
	}
	g.quiet = t.Chance(15)
	if !g.quiet {
		opts = append(opts, router.WithOnChange(func(c router.Change) {
			g.events = append(g.events, g.event(c))
			g.r.Has(c.Name) // no lock is held
			if slow > 0 {
				time.Sleep(slow)
			}
		}))
	}
	if g.rc != nil {
		g.r = g.rc.New(opts...)
	} else {
		g.r = router.NewRouter(opts...)
	}
	return g, names
}

func (g *c12reg) method(prefix string, args ...any) []reflect.Value {
	m := reflect.ValueOf(g.r).MethodByName(prefix + g.rc.Client)
	var in []reflect.Value
	for i, a := range args {
		v := reflect.ValueOf(a)
		if !v.IsValid() {
			v = reflect.Zero(m.Type().In(i))
		}
		in = append(in, v)
	}
	return m.Call(in)
}

func (g *c12reg) do(o *c12regOp) {
	value := func(v reflect.Value) any {
		if v.IsNil() {
			return nil
		}
		return v.Interface()
	}
	switch o.kind {
	case 0:
		if o.typed {
			o.got = value(g.method("Add", o.name, o.client)[0])
		} else {
			o.got = g.r.Add(o.name, o.client)
		}
	case 1:
		if o.typed {
			o.got = value(g.method("Remove", o.name)[0])
		} else {
			o.got = g.r.Remove(o.name)
		}
	case 2:
		o.has = g.r.Has(o.name)
	case 3:
		if o.typed {
			out := g.method("Get", o.name)
			o.got = value(out[0])
			o.err, _ = out[1].Interface().(error)
		} else {
			o.got, o.err = g.r.Get(o.name)
		}
		o.ruleOp.err = o.err
	case 4:
		o.has = g.r.HoldsType(o.client)
	case 5:
		func() {
			defer func() { o.panicked = recover() != nil }()
			g.r.Add(o.name, o.client)
		}()
	}
}

// holds says whether the typed router holds a client.
func (g *c12reg) holds(c any) bool {
	if g.rc == nil {
		return true
	}
	m, _ := reflect.TypeOf(g.r).MethodByName("Get" + g.rc.Client)
	return c != nil && reflect.TypeOf(c).Implements(m.Type.Out(0))
}

func (g *c12reg) model(names []string, concurrent bool) (*ruleModel, *[]*c12regOp) {
	t := g.t
	var ops []*c12regOp
	total := func(name string) int { return len(g.calls[name]) }
	m := &ruleModel{
		init: c12state{},
		key:  func(s any) string { return s.(c12state).key() },
		now: func() string {
			s := c12state{}
			for _, n := range names {
				if !g.r.Has(n) {
					continue
				}
				before := total(n)
				c, err := g.r.Get(n)
				if err != nil || total(n) != before {
					return fmt.Sprintf("Has(%q) holds and Get gives %s %v", n, g.text(c), err)
				}
				s[n] = g.text(c)
			}
			return s.key()
		},
	}
	m.draw = func() *ruleOp {
		o := &c12regOp{kind: t.Weighted(4, 3, 2, 7, 1, 1), name: names[t.Int(len(names))], ruleOp: &ruleOp{}}
		if g.rc != nil {
			o.typed = t.Chance(50)
		}
		label := ""
		switch o.kind {
		case 0:
			if o.client = g.newClient("client"); len(g.added) > 0 && t.Chance(25) {
				// one that may be there already, under this name or another
				o.client = g.added[t.Int(len(g.added))]
			}
			g.added = append(g.added, o.client)
			label = fmt.Sprintf("Add(%q, %s)", o.name, g.text(o.client))
		case 1:
			label = fmt.Sprintf("Remove(%q)", o.name)
		case 2:
			o.read = true
			label = fmt.Sprintf("Has(%q)", o.name)
		case 3:
			label = fmt.Sprintf("Get(%q)", o.name)
		case 4, 5:
			other := routerCases[t.Int(len(routerCases))]
			o.client = core.Choose[any](t, other.NewClient(&c12back{label: "y"}), nil, "a string", other.New())
			label = fmt.Sprintf("HoldsType(%T)", o.client)
			o.read = true
			if o.kind == 5 {
				if g.holds(o.client) {
					o.kind = 4 // would be added
				} else {
					label = fmt.Sprintf("Add(%q, %T)", o.name, o.client)
				}
			}
		}
		o.ruleOp.name = label
		o.ret = func() string {
			switch o.kind {
			case 2, 4:
				return fmt.Sprint(o.has)
			case 5:
				return fmt.Sprint("panics ", o.panicked)
			}
			return g.text(o.got)
		}
		o.run = func() {
			o.from = total(o.name)
			g.do(o)
			o.to = total(o.name)
		}
		o.step = func(sa any) (any, string) {
			s := sa.(c12state)
			cur, has := s[o.name]
			if !has {
				cur = "nil"
			}
			got := g.text(o.got)
			switch o.kind {
			case 0, 1:
				if got != cur {
					return nil, "the client was " + cur
				}
				if o.kind == 0 {
					return s.with(o.name, g.text(o.client)), ""
				}
				return s.with(o.name, ""), ""
			case 2:
				if o.has != has {
					return nil, "wrong"
				}
				return s, ""
			case 4:
				if o.has != g.holds(o.client) {
					return nil, "wrong"
				}
				return s, ""
			case 5:
				if !o.panicked {
					return nil, "a client of another type was accepted"
				}
				return s, ""
			}
			// Get
			if !concurrent {
				return g.seqGet(o, s, cur, has)
			}
			if has {
				if o.err != nil || got != cur {
					return nil, "the client is " + cur
				}
				return s, ""
			}
			if o.err != nil {
				if code(o.err) != codes.NotFound || o.got != nil {
					return nil, "want NotFound"
				}
				for _, f := range []bool{false, true} {
					if f && !g.fa || !f && !g.fb {
						continue
					}
					if !g.within(o, func(c *c12create) bool { return c.factory == f && c.kind != 2 }) {
						return nil, "nothing failed to make a client"
					}
				}
				return s, ""
			}
			if g.within(o, func(c *c12create) bool { return c.client == o.got && c.kind == 2 && !c.factory }) {
				return s, ""
			}
			if g.within(o, func(c *c12create) bool { return c.client == o.got && c.kind == 2 && c.factory }) {
				return s.with(o.name, got), ""
			}
			return nil, "there is no client"
		}
		ops = append(ops, o)
		return o.ruleOp
	}
	return m, &ops
}

// within says whether an invocation made during the call satisfies f.
func (g *c12reg) within(o *c12regOp, f func(*c12create) bool) bool {
	for _, c := range g.calls[o.name] {
		if c.inv > o.inv && c.end < o.resp && c.end != 0 && f(c) {
			return true
		}
	}
	return false
}

// seqGet checks a Get nothing else ran next to.
func (g *c12reg) seqGet(o *c12regOp, s c12state, cur string, has bool) (any, string) {
	made := g.calls[o.name][o.from:o.to]
	if has {
		switch {
		case len(made) > 0:
			return nil, "a client is registered, and the factory or the fallback was asked"
		case o.err != nil || g.text(o.got) != cur:
			return nil, "the client is " + cur
		}
		return s, ""
	}
	var order []bool
	if g.fb {
		order = append(order, false)
	}
	if g.fa {
		order = append(order, true)
	}
	for i, f := range order {
		if len(made) <= i || made[i].factory != f {
			return nil, "the fallback and then the factory were to be asked"
		}
		if made[i].kind != 2 {
			continue
		}
		if len(made) > i+1 {
			return nil, "something was asked after a client was found"
		}
		if o.err != nil || o.got != made[i].client {
			return nil, "the client is " + g.text(made[i].client)
		}
		if f {
			return s.with(o.name, g.text(o.got)), ""
		}
		return s, ""
	}
	if len(made) != len(order) {
		return nil, "the fallback or the factory was asked again"
	}
	if code(o.err) != codes.NotFound || o.got != nil {
		return nil, "want NotFound"
	}
	return s, ""
}

func c12Registry(t *core.T) {
	g, names := c12NewReg(t)
	m, ops := g.model(names, false)
	runRules(t, m, false)
	g.finish(*ops, false)
}

func c12RegistryRace(t *core.T) {
	g, names := c12NewReg(t)
	m, ops := g.model(names, true)
	runRules(t, m, true)
	g.finish(*ops, true)
}

// finish compares the callbacks with the transitions the results imply.
func (g *c12reg) finish(ops []*c12regOp, concurrent bool) {
	var want []string
	auto := map[any]bool{}
	saw := func(name string, c any) {
		if c == nil || auto[c] {
			return
		}
		for _, cr := range g.calls[name] {
			if cr.client == c && cr.factory {
				auto[c] = true
				want = append(want, g.event(router.Change{Name: name, New: c, Auto: true}))
			}
		}
	}
	for _, o := range ops {
		switch o.kind {
		case 0:
			want = append(want, g.event(router.Change{Name: o.name, Old: o.got, New: o.client}))
			saw(o.name, o.got)
		case 1:
			if o.got != nil {
				want = append(want, g.event(router.Change{Name: o.name, Old: o.got}))
			}
			saw(o.name, o.got)
		case 3:
			saw(o.name, o.got)
		}
	}
	got := append([]string(nil), g.events...)
	if concurrent {
		sortStrings(got)
		sortStrings(want)
	}
	if !g.quiet && strings.Join(got, "\n") != strings.Join(want, "\n") {
		t := g.t
		h := ""
		for _, o := range ops {
			h += "\n    " + o.ruleOp.String()
		}
		t.Fail("change-callback", "the callbacks reported\n    %s\n  the transitions were\n    %s\n  calls:%s", strings.Join(got, "\n    "), strings.Join(want, "\n    "), h)
	}
	for name, crs := range g.calls {
		gets, n := 0, map[bool]int{}
		for _, o := range ops {
			if o.kind == 3 && o.name == name {
				gets++
			}
		}
		for _, c := range crs {
			n[c.factory]++
		}
		if n[true] > gets || n[false] > gets {
			g.t.Fail("factory", "%d calls of Get(%q) asked the factory %d times and the fallback %d times", gets, name, n[true], n[false])
		}
	}
}

// c12Reentrant uses the router from its own callbacks.
func c12Reentrant(t *core.T) {
	var r router.Router
	type cl struct{ n int }
	n := 0
	mk := func() any { n++; return &cl{n} }
	var events []string
	depth := 0
	act := t.Int(5)
	var opts []router.Option
	fn := func(name string) (any, error) {
		if name != "a" {
			return nil, errors.New("no")
		}
		switch act {
		case 0:
			r.Add("b", mk())
		case 1:
			r.Remove("c")
		case 2:
			if _, err := r.Get("c"); err != nil {
				return nil, err
			}
		case 3:
			// the device registers itself while it is being created
			c := mk()
			r.Add("a", c)
			return c, nil
		case 4:
			if _, err := r.Get("zz"); code(err) != codes.NotFound {
				t.Fail("registry", "Get of an unknown name gives %v", err)
			}
		}
		return mk(), nil
	}
	fallback := t.Chance(30)
	if fallback {
		opts = append(opts, router.WithFallback(fn))
	} else {
		opts = append(opts, router.WithFactory(fn))
	}
	drop := t.Chance(50)
	opts = append(opts, router.WithOnChange(func(c router.Change) {
		events = append(events, c.Name)
		depth++
		if drop && depth == 1 && c.New != nil {
			r.Remove(c.Name)
		}
		depth--
	}))
	r = router.NewRouter(opts...)
	returned := false
	go func() {
		r.Add("c", mk())
		if r.Has("c") == drop {
			t.Fail("registry", "after the callback, Has is %v, removed %v", r.Has("c"), drop)
		}
		c, err := r.Get("a")
		if act == 2 && drop {
			if code(err) != codes.NotFound {
				t.Fail("registry", "Get gives %v %v, want NotFound", c, err)
			}
		} else if err != nil || c == nil {
			t.Fail("registry", "Get gives %v %v", c, err)
		}
		t.Nontrivial()
		returned = true
	}()
	t.Settle(time.Hour)
	if !returned {
		t.Fail("hang", "using the router from its own callbacks blocks (%d)\n%s", act, t.Stacks())
	}
}

// drawNames draws up to n device names, mostly plain, some only slightly
// different from others.
func drawNames(t *core.T, n int) []string {
	names := []string{"a", "b", "a/b", "", "ü"}[:t.Range(1, n)]
	if t.Chance(65) {
		return names
	}
	odd := []string{" ", "a ", " a", "A", "a.", "a/", "/a", "a%2Fb", "Ü", "u\u0308", "a\x00", "*", strings.Repeat("long/", 60) + "a", strings.Repeat("long/", 60) + "b"}
	for i := range names {
		if t.Chance(50) {
			k := t.Int(len(odd))
			names[i] = odd[k]
			odd = append(odd[:k:k], odd[k+1:]...)
		}
	}
	return names
}

// c12Names drives the default name interceptors with every request type.
func c12Names(t *core.T) {
	def := core.Choose(t, "server", "a", "", "ü/x")
	draw := func() any {
		switch t.Weighted(10, 2, 1, 2) {
		case 3:
			// messages of anybody's API
			ms := otherNamed()
			m := dynamicpb.NewMessage(ms[t.Int(len(ms))])
			fillMsg(t, m, t.Range(0, 70), 2)
			if fd := m.Descriptor().Fields().ByName("name"); fd.Kind() == protoreflect.StringKind && !fd.IsList() && t.Chance(50) {
				m.Set(fd, protoreflect.ValueOfString(core.Choose(t, "", "", "x")))
			}
			return m
		case 0:
			rc := drawRouter(t)
			ms := rc.methods()
			m := ms[t.Int(len(ms))].newIn()
			fillMsg(t, m.ProtoReflect(), t.Range(0, 70), 2)
			setName(m, core.Choose(t, "", "", "x", " ", "server"))
			if t.Chance(20) {
				addUnknown(m, 7)
			}
			return m
		case 1:
			// any message at all
			all := allMessages()
			m := all[t.Int(len(all))].New().Interface()
			fillMsg(t, m.ProtoReflect(), t.Range(0, 70), 2)
			return m
		}
		return core.Choose[any](t, "text", 7, struct{ Name string }{}, &struct{ Name string }{})
	}
	expect := func(v any) any {
		m, ok := v.(proto.Message)
		if !ok {
			return v
		}
		w := clone(m)
		fd := w.ProtoReflect().Descriptor().Fields().ByName("name")
		if fd != nil && fd.Kind() == protoreflect.StringKind && fd.Cardinality() != protoreflect.Repeated && w.ProtoReflect().Get(fd).String() == "" {
			w.ProtoReflect().Set(fd, protoreflect.ValueOfString(def))
		}
		return w
	}
	equal := func(a, b any) bool {
		am, ok := a.(proto.Message)
		bm, ok2 := b.(proto.Message)
		if ok || ok2 {
			return ok && ok2 && same(am, bm)
		}
		return reflect.DeepEqual(a, b)
	}
	show := func(v any) string {
		if m, ok := v.(proto.Message); ok {
			return txt(m)
		}
		return fmt.Sprintf("%#v", v)
	}
	type key struct{}
	ctx := context.WithValue(context.Background(), key{}, 1)
	t.Nontrivial()
	if t.Chance(50) {
		req := draw()
		want := expect(req)
		var rerr error
		if t.Chance(40) {
			rerr = drawServerErr(t)
		}
		res := any(draw())
		calls := 0
		got, err := namemw.IfAbsentUnaryInterceptor(def)(ctx, req, &grpc.UnaryServerInfo{FullMethod: "/x/Y"}, func(c context.Context, r any) (any, error) {
			calls++
			if c.Value(key{}) != 1 {
				t.Fail("default-name", "the handler's context is not the caller's")
			}
			if !equal(r, want) {
				t.Fail("default-name", "default %q: the handler gets %s, want %s", def, show(r), show(want))
			}
			return res, rerr
		})
		if calls != 1 || err != rerr || got != res {
			t.Fail("default-name", "%d calls, result %v %v, want %v %v", calls, got, err, res, rerr)
		}
		return
	}
	var in []any
	t.Repeat(0, 5, func(int) {
		if m, ok := draw().(proto.Message); ok {
			in = append(in, m)
		}
	})
	failAt := -1
	if t.Chance(30) {
		failAt = t.Int(len(in) + 1)
	}
	ss := &c12names{ctx: ctx, in: in, failAt: failAt, fail: errors.New("recv")}
	var rerr error
	if t.Chance(40) {
		rerr = drawServerErr(t)
	}
	calls := 0
	srv := &struct{ n int }{}
	err := namemw.IfAbsentStreamInterceptor(def)(srv, ss, &grpc.StreamServerInfo{FullMethod: "/x/Y"}, func(s any, st grpc.ServerStream) error {
		calls++
		if s != any(srv) || st.Context().Value(key{}) != 1 {
			t.Fail("default-name", "the handler's arguments are not the caller's")
		}
		for i := 0; ; i++ {
			var dst proto.Message
			if i < len(in) {
				dst = in[i].(proto.Message).ProtoReflect().New().Interface()
			} else {
				dst = (&traits.GetOnOffRequest{}).ProtoReflect().New().Interface()
			}
			err := st.RecvMsg(dst)
			if i == failAt || i >= len(in) {
				w := io.EOF
				if i == failAt {
					w = ss.fail
				}
				if err != w {
					t.Fail("default-name", "RecvMsg gives %v, want %v", err, w)
				}
				break
			}
			if want := expect(in[i]); err != nil || !equal(dst, want) {
				t.Fail("default-name", "default %q: message %d is %s %v, want %s", def, i, show(dst), err, show(want))
			}
		}
		out := (&traits.GetOnOffRequest{}).ProtoReflect().New().Interface()
		st.SendMsg(out)
		if len(ss.out) != 1 || ss.out[0] != any(out) || getName(out) != "" {
			t.Fail("default-name", "a sent message was changed")
		}
		st.SetTrailer(metadata.Pairs("a", "b"))
		if !ss.trailer {
			t.Fail("default-name", "the trailer was lost")
		}
		return rerr
	})
	if calls != 1 || err != rerr {
		t.Fail("default-name", "%d calls, result %v, want %v", calls, err, rerr)
	}
}

type c12names struct {
	grpc.ServerStream
	ctx     context.Context
	in      []any
	pos     int
	failAt  int
	fail    error
	out     []any
	trailer bool
}

func (s *c12names) Context() context.Context { return s.ctx }
func (s *c12names) SetTrailer(metadata.MD)   { s.trailer = true }
func (s *c12names) SendMsg(m any) error      { s.out = append(s.out, m); return nil }
func (s *c12names) RecvMsg(m any) error {
	i := s.pos
	s.pos++
	if i == s.failAt {
		return s.fail
	}
	if i >= len(s.in) {
		return io.EOF
	}
	proto.Reset(m.(proto.Message))
	proto.Merge(m.(proto.Message), s.in[i].(proto.Message))
	return nil
}

var allMsgs []protoreflect.MessageType

func allMessages() []protoreflect.MessageType {
	if allMsgs == nil {
		byName := map[string]protoreflect.MessageType{}
		var names []string
		protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
			n := string(mt.Descriptor().FullName())
			if !strings.HasPrefix(n, "smartcore.") || mt.Descriptor().IsMapEntry() {
				return true
			}
			names = append(names, n)
			byName[n] = mt
			return true
		})
		sortStrings(names)
		for _, n := range names {
			allMsgs = append(allMsgs, byName[n])
		}
	}
	return allMsgs
}

var otherNamedMsgs []protoreflect.MessageDescriptor

// otherNamed are messages with a field called name: of several kinds, anywhere
// in the message.
func otherNamed() []protoreflect.MessageDescriptor {
	if otherNamedMsgs == nil {
		const str, byt, num = descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_BYTES, descriptorpb.FieldDescriptorProto_TYPE_INT32
		opt, rep := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		field := func(name string, n int32, ty descriptorpb.FieldDescriptorProto_Type, label *descriptorpb.FieldDescriptorProto_Label) *descriptorpb.FieldDescriptorProto {
			return &descriptorpb.FieldDescriptorProto{Name: &name, Number: &n, Type: ty.Enum(), Label: label}
		}
		oneof := func(f *descriptorpb.FieldDescriptorProto, optional bool) *descriptorpb.FieldDescriptorProto {
			f.OneofIndex = proto.Int32(0)
			if optional {
				f.Proto3Optional = proto.Bool(true)
			}
			return f
		}
		msg := func(name, oneof string, fields ...*descriptorpb.FieldDescriptorProto) *descriptorpb.DescriptorProto {
			m := &descriptorpb.DescriptorProto{Name: &name, Field: fields}
			if oneof != "" {
				m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: &oneof}}
			}
			return m
		}
		fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{
			Name: proto.String("verif/named.proto"), Package: proto.String("verif.named"), Syntax: proto.String("proto3"),
			MessageType: []*descriptorpb.DescriptorProto{
				msg("Second", "", field("id", 1, str, opt), field("name", 2, str, opt)),
				msg("Far", "", field("id", 1, str, opt), field("title", 2, str, opt), field("name", 2000, str, opt)),
				msg("Bytes", "", field("name", 1, byt, opt), field("id", 2, str, opt)),
				msg("Number", "", field("name", 1, num, opt), field("id", 2, str, opt)),
				msg("List", "", field("name", 1, str, rep), field("id", 2, str, opt)),
				msg("Optional", "_name", oneof(field("name", 3, str, opt), true)),
			},
		}, protoregistry.GlobalFiles)
		if err != nil {
			panic(err)
		}
		for i := 0; i < fd.Messages().Len(); i++ {
			otherNamedMsgs = append(otherNamedMsgs, fd.Messages().Get(i))
		}
	}
	return otherNamedMsgs
}

// c12Shape checks what is fixed when the code is generated.
func c12Shape(t *core.T) {
	rc := routerCases[t.Int(len(routerCases))]
	t.Nontrivial()
	// every service has a router
	have := map[string]bool{}
	var twin *RouterCase
	for _, o := range routerCases {
		if !strings.HasPrefix(o.Name, "generated ") {
			have[o.Service.ServiceName] = true
			if o.Service == rc.Service && o != rc {
				twin = o
			}
		}
	}
	protoregistry.GlobalFiles.RangeFiles(func(fd protoreflect.FileDescriptor) bool {
		for i := 0; i < fd.Services().Len(); i++ {
			if n := string(fd.Services().Get(i).FullName()); strings.HasPrefix(n, "smartcore.traits.") && !have[n] {
				t.Fail("unrouted", "service %s has no router", n)
			}
		}
		return true
	})
	// what is checked in has what the generator produces now
	if twin != nil {
		srv, tsrv := rc.New(), twin.New()
		for _, p := range [][2]any{{srv, tsrv}, {rc.Wrap(srv), twin.Wrap(tsrv)}} {
			a, b := reflect.TypeOf(p[0]), reflect.TypeOf(p[1])
			for i := 0; i < a.NumMethod(); i++ {
				m := a.Method(i)
				tm, ok := b.MethodByName(m.Name)
				if !ok || sig(m.Type) != sig(tm.Type) {
					t.Fail("stale", "the generators produce %s for %v, which %v does not have", m.Name, a, b)
				}
			}
		}
	}
	// a wrapper is its server
	srv := rc.New()
	w := rc.Wrap(srv)
	if u, ok := w.(interface{ Unwrap() any }); !ok || u.Unwrap() != any(srv) {
		t.Fail("wrapper", "%s: Unwrap does not return the server", rc.Name)
	}
	if got := reflect.ValueOf(w).MethodByName("UnwrapServer").Call(nil)[0].Interface(); got != any(srv) {
		t.Fail("wrapper", "%s: UnwrapServer does not return the server", rc.Name)
	}
	s, ok := w.(interface {
		UnwrapService() (grpc.ClientConnInterface, grpc.ServiceDesc)
	})
	if !ok {
		t.Fail("wrapper", "%s: UnwrapService is missing", rc.Name)
	}
	conn, desc := s.UnwrapService()
	if desc.ServiceName != rc.Service.ServiceName || conn == nil {
		t.Fail("wrapper", "%s: UnwrapService returns %v %q", rc.Name, conn, desc.ServiceName)
	}
	ms := rc.methods()
	if len(ms) == 0 {
		return
	}
	m := ms[t.Int(len(ms))]
	if !m.server {
		if err := conn.Invoke(t.Ctx(), m.full, m.newIn(), m.newOut()); code(err) != codes.NotFound {
			t.Fail("wrapper", "%s: a call of %s through UnwrapService's connection gives %v, want NotFound", rc.Name, m.full, err)
		}
	}
}

// sig is a method's signature without its receiver.
func sig(t reflect.Type) string {
	var b strings.Builder
	for i := 1; i < t.NumIn(); i++ {
		b.WriteString(t.In(i).PkgPath() + t.In(i).String() + ",")
	}
	b.WriteString("->")
	for i := 0; i < t.NumOut(); i++ {
		b.WriteString(t.Out(i).PkgPath() + t.Out(i).String() + ",")
	}
	return b.String()
}
