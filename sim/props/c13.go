package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/dynamicpb"

	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C13",
		SiteFilter: []string{"pkg/wrap/"},
		Rule:       "A run counts as non-trivial when the server's handler ran and at least one fault (cancel, deadline, server error, early half-close) or two messages happened.",
		Real:       []string{"pkg/wrap", "google.golang.org/grpc over bufconn (the reference)"},
		Stub:       []string{"service implementation and client (scripted)", "network (bufconn, in the same simulated process)"},
		Faults:     []string{"client_cancel", "client_deadline", "server_error", "half_close", "long_pause"},
		Assume:     []string{"google.golang.org/grpc v1.67.1 over bufconn is the meaning of 'a real gRPC connection'."},
		Scenarios: []core.Scenario{
			{Name: "compare", Weight: 10, Leak: true, Run: c13Compare},
			{Name: "free", Weight: 10, Leak: true, Run: c13Free},
			{Name: "free-stall", Weight: 4, Leak: true, Stall: true, Run: c13Free},
			{Name: "generated", Weight: 3, Leak: true, Run: c13Generated},
		},
	})
}

// The service used on both transports: four call shapes over TestAllTypes.

const simService = "sim.Test"

type simServer interface{ simHandle(*simCall) error }

// simCall is one call as the server sees it.
type simCall struct {
	shape int
	ctx   context.Context
	ss    grpc.ServerStream // nil for unary
	req   proto.Message     // unary and server streaming
	res   proto.Message     // set by unary handlers
}

const (
	shapeUnary = iota
	shapeServer
	shapeClient
	shapeBidi
	shapeUnaryStream // a unary method opened with NewStream
	shapeServerRaw   // a server streaming method opened with NewStream, request sent separately
)

var shapeNames = []string{"unary", "server-streaming", "client-streaming", "bidi", "unary-as-stream", "server-streaming-raw"}
var shapeMethods = []string{"Unary", "ServerStream", "ClientStream", "BidiStream", "Unary", "ServerStream"}

var simDesc = grpc.ServiceDesc{
	ServiceName: simService,
	HandlerType: (*simServer)(nil),
	Methods: []grpc.MethodDesc{{
		MethodName: "Unary",
		Handler: func(srv any, ctx context.Context, dec func(any) error, interceptor grpc.UnaryServerInterceptor) (any, error) {
			in := &tp.TestAllTypes{}
			if err := dec(in); err != nil {
				return nil, err
			}
			c := &simCall{shape: shapeUnary, ctx: ctx, req: in}
			if err := srv.(simServer).simHandle(c); err != nil {
				return c.res, err
			}
			return c.res, nil
		},
	}},
	Streams: []grpc.StreamDesc{
		{StreamName: "ServerStream", ServerStreams: true, Handler: func(srv any, ss grpc.ServerStream) error {
			in := &tp.TestAllTypes{}
			if err := ss.RecvMsg(in); err != nil {
				return err
			}
			return srv.(simServer).simHandle(&simCall{shape: shapeServer, ctx: ss.Context(), ss: ss, req: in})
		}},
		{StreamName: "ClientStream", ClientStreams: true, Handler: func(srv any, ss grpc.ServerStream) error {
			return srv.(simServer).simHandle(&simCall{shape: shapeClient, ctx: ss.Context(), ss: ss})
		}},
		{StreamName: "BidiStream", ServerStreams: true, ClientStreams: true, Handler: func(srv any, ss grpc.ServerStream) error {
			return srv.(simServer).simHandle(&simCall{shape: shapeBidi, ctx: ss.Context(), ss: ss})
		}},
	},
}

func simMethod(shape int) string { return "/" + simService + "/" + shapeMethods[shape] }

func shapeDesc(shape int) *grpc.StreamDesc {
	return &grpc.StreamDesc{
		StreamName:    shapeMethods[shape],
		ServerStreams: shape == shapeServer || shape == shapeBidi || shape == shapeServerRaw,
		ClientStreams: shape == shapeClient || shape == shapeBidi,
	}
}

// wrapConn is the connection under test.
func wrapConn(srv simServer) grpc.ClientConnInterface { return wrap.ServerToClient(simDesc, srv) }

// realConn is gRPC over an in-memory pipe, in the same simulated process.
func realConn(t *core.T, desc *grpc.ServiceDesc, srv any) (grpc.ClientConnInterface, func()) {
	lis := bufconn.Listen(1 << 16)
	s := grpc.NewServer()
	s.RegisterService(desc, srv)
	go s.Serve(lis)
	conn, err := grpc.NewClient("passthrough:///sim",
		grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return lis.DialContext(ctx) }))
	if err != nil {
		panic(err)
	}
	return conn, func() {
		conn.Close()
		s.Stop()
	}
}

// A second, unrelated descriptor for the same message type: what a proxy that
// built its types from reflection would use.
var otherTypes = func() protoreflect.MessageDescriptor {
	md := (&tp.TestAllTypes{}).ProtoReflect().Descriptor()
	fd, err := protodesc.NewFile(protodesc.ToFileDescriptorProto(md.ParentFile()), protoregistry.GlobalFiles)
	if err != nil {
		panic(err)
	}
	return fd.Messages().ByName("TestAllTypes")
}()

func toDynamic(m proto.Message) proto.Message {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	d := dynamicpb.NewMessage(otherTypes)
	if err := proto.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

// Commands.

const (
	cRecv = iota
	cSend
	cClose
	cCancel
	cExpire
	cHeader
	sRecv
	sSend
	sSetHeader
	sSendHeader
	sSetTrailer
	sReturn
	cTrailer
)

var cmdNames = []string{"client Recv", "client Send", "client CloseSend", "client cancel", "client deadline passes", "client Header",
	"server Recv", "server Send", "server SetHeader", "server SendHeader", "server SetTrailer", "server return", "client Trailer"}

type c13op struct {
	kind  int
	msg   *tp.TestAllTypes // message to send, or initial content of the message to receive into
	md    metadata.MD
	err   error
	viaCx bool          // header/trailer through the context rather than the stream
	rest  time.Duration // before it
}

func (o *c13op) String() string {
	s := cmdNames[o.kind]
	if o.msg != nil {
		s += " " + txt(o.msg)
	}
	if o.md != nil {
		s += " " + mdText(o.md)
	}
	if o.kind == sReturn {
		s += fmt.Sprintf(" %v", o.err)
	}
	return s
}

type c13rec struct {
	op       *c13op
	done     bool
	doneStep int
	res      string
	err      error
}

type c13call struct {
	shape    int
	req      *tp.TestAllTypes
	md       metadata.MD
	deadline time.Duration
	cause    error // why the client's context ends, for its own use
	dynamic  bool
	callerMD metadata.MD // metadata of a call that the client itself is serving
	helper   bool        // the handler starts a goroutine that lives as long as its context
}

func mdText(md metadata.MD) string {
	var ks []string
	for k := range md {
		if k == "content-type" || k == "user-agent" || strings.HasPrefix(k, ":") || strings.HasPrefix(k, "grpc-") || len(md[k]) == 0 {
			continue
		}
		ks = append(ks, k)
	}
	sortStrings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q ", k, md[k])
	}
	return "[" + strings.TrimSpace(b.String()) + "]"
}

func scribbleMD(md metadata.MD) {
	if md == nil {
		return
	}
	for k, v := range md {
		for i := range v {
			v[i] = "scribble"
		}
		md[k] = append(v, "more")
	}
	md["scribble"] = []string{"x"}
}

// terminalText renders a terminal error as a client sees it. When the client's own
// context ended, the plain context error is as good as the status.
func terminalText(err error, ended bool) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	case ended && errors.Is(err, context.Canceled):
		return "status Canceled: context canceled"
	case ended && errors.Is(err, context.DeadlineExceeded):
		return "status DeadlineExceeded: context deadline exceeded"
	}
	s := status.Convert(err)
	return fmt.Sprintf("status %s: %s", s.Code(), s.Message())
}

// c13run executes commands against one transport, one at a time, each run to quiescence.
type c13run struct {
	t      *core.T
	name   string
	call   *c13call
	conn   grpc.ClientConnInterface
	ctx    context.Context
	cancel context.CancelFunc
	cs     grpc.ClientStream
	recs   []*c13rec
	step   int

	srv        *simCall
	inMD       string
	method     string // what the handler is told about the call
	ret        chan error
	returned   bool
	helperDone bool

	startErr                        string
	started                         bool // NewStream returned (or Invoke in flight)
	recvPend, sendPend, hdrPend     bool
	srvRecvPend, closedSend, sent   bool
	ended                           bool // client context ended
	terminal                        bool // the client has read the end of the call
	endedStep, returnStep, termStep int
	header, trailer                 metadata.MD // unary call options
	got                             []proto.Message
	gotText                         []string
	invokeDone                      bool
	sentOne                         bool
}

func (x *c13run) simHandle(c *simCall) error {
	x.srv = c
	md, _ := metadata.FromIncomingContext(c.ctx)
	x.inMD = mdText(md)
	m, ok := grpc.Method(c.ctx)
	_, timed := c.ctx.Deadline()
	x.method = fmt.Sprintf("%q %v with a deadline: %v", m, ok, timed)
	if x.call.helper {
		go func() {
			<-c.ctx.Done()
			x.helperDone = true
		}()
	}
	return <-x.ret
}

func (x *c13run) newDst(init *tp.TestAllTypes) proto.Message {
	var m proto.Message = &tp.TestAllTypes{}
	if init != nil {
		m = clone(init)
	}
	if x.call.dynamic {
		return toDynamic(m)
	}
	return m
}

func (x *c13run) src(m *tp.TestAllTypes) proto.Message {
	if x.call.dynamic {
		return toDynamic(m)
	}
	return clone(m)
}

// asText renders a message independently of the Go type that holds it.
func asText(m proto.Message) string {
	b, err := proto.Marshal(m)
	if err != nil {
		return "marshal error " + err.Error()
	}
	n := &tp.TestAllTypes{}
	if err := proto.Unmarshal(b, n); err != nil {
		return "unmarshal error " + err.Error()
	}
	return txt(n)
}

// begin starts the call.
func (x *c13run) begin() {
	c := x.call
	x.ret = make(chan error, 1)
	base := context.Background()
	if c.callerMD != nil {
		base = metadata.NewIncomingContext(base, c.callerMD.Copy())
	}
	if c.deadline != 0 {
		x.ctx, x.cancel = context.WithTimeout(base, c.deadline)
		if c.cause != nil {
			x.ctx, x.cancel = context.WithTimeoutCause(base, c.deadline, c.cause)
		}
	} else {
		ctx, cancel := context.WithCancelCause(base)
		x.ctx, x.cancel = ctx, func() { cancel(c.cause) }
	}
	md := c.md.Copy()
	ctx := x.ctx
	if c.md != nil {
		ctx = metadata.NewOutgoingContext(ctx, md)
	}
	rec := &c13rec{op: &c13op{kind: cRecv}}
	go func() {
		switch c.shape {
		case shapeUnary:
			x.recs = append(x.recs, rec)
			x.recvPend = true
			req, res := x.src(c.req), x.newDst(nil)
			x.started = true
			err := x.conn.Invoke(ctx, simMethod(c.shape), req, res, grpc.Header(&x.header), grpc.Trailer(&x.trailer))
			x.recvPend = false
			x.terminal, x.termStep = true, x.step
			rec.done, rec.doneStep, rec.err = true, x.step, err
			rec.res = terminalText(err, x.ended)
			if err == nil {
				rec.res = "message " + asText(res)
			}
			rec.res += " header " + mdText(x.header)
			if !x.ended {
				rec.res += " trailer " + mdText(x.trailer)
			}
			if err == nil {
				scribble(res.ProtoReflect(), 3)
			}
		default:
			cs, err := x.conn.NewStream(ctx, shapeDesc(c.shape), simMethod(c.shape))
			if err != nil {
				x.startErr = terminalText(err, x.ended)
				x.terminal = true
				return
			}
			x.cs = cs
			x.started = true
			if c.shape == shapeServer {
				req := x.src(c.req)
				err := cs.SendMsg(req)
				scribble(req.ProtoReflect(), 3)
				if err != nil {
					x.startErr = terminalText(err, x.ended)
					x.terminal = true
					return
				}
				if err := cs.CloseSend(); err != nil {
					x.startErr = terminalText(err, x.ended)
					x.terminal = true
				}
				x.closedSend, x.sent = true, true
			}
		}
	}()
	x.t.Wait()
	if c.md != nil {
		scribbleMD(md)
	}
}

func (x *c13run) do(o *c13op) {
	if o.rest > 0 {
		x.t.Settle(o.rest)
	}
	x.step++
	rec := &c13rec{op: o}
	x.recs = append(x.recs, rec)
	fin := func(err error, res string) {
		rec.done, rec.doneStep, rec.res, rec.err = true, x.step, res, err
	}
	plain := func(err error) string {
		switch {
		case err == nil:
			return "ok"
		case err == io.EOF:
			return "EOF"
		}
		return "error"
	}
	switch o.kind {
	case cRecv:
		x.recvPend = true
		go func() {
			m := x.newDst(o.msg)
			err := x.cs.RecvMsg(m)
			x.recvPend = false
			if err != nil {
				x.terminal, x.termStep = true, x.step
				fin(err, terminalText(err, x.ended))
				return
			}
			x.got, x.gotText = append(x.got, m), append(x.gotText, asText(m))
			fin(nil, "message "+asText(m))
		}()
	case cSend:
		x.sendPend = true
		go func() {
			m := x.src(o.msg)
			err := x.cs.SendMsg(m)
			scribble(m.ProtoReflect(), 3)
			x.sendPend, x.sent = false, true
			fin(err, plain(err))
		}()
	case cClose:
		x.closedSend = true
		go func() {
			err := x.cs.CloseSend()
			fin(err, plain(err))
		}()
	case cCancel:
		x.ended, x.endedStep = true, x.step
		x.cancel()
		fin(nil, "")
	case cExpire:
		x.ended, x.endedStep = true, x.step
		time.Sleep(time.Hour)
		fin(nil, "")
	case cHeader:
		x.hdrPend = true
		go func() {
			md, err := x.cs.Header()
			x.hdrPend = false
			fin(err, plain(err)+" "+mdText(md))
			scribbleMD(md)
		}()
	case cTrailer:
		md := x.cs.Trailer()
		text := mdText(md)
		scribbleMD(md)
		if again := mdText(x.cs.Trailer()); again != text {
			text += ", later " + again
		}
		fin(nil, text)
	case sRecv:
		x.srvRecvPend = true
		go func() {
			m := proto.Message(&tp.TestAllTypes{})
			if o.msg != nil {
				m = clone(o.msg)
			}
			err := x.srv.ss.RecvMsg(m)
			x.srvRecvPend = false
			if err != nil {
				fin(err, plain(err))
				return
			}
			x.got, x.gotText = append(x.got, m), append(x.gotText, asText(m))
			fin(nil, "message "+asText(m))
		}()
	case sSend:
		x.sentOne = true
		go func() {
			m := clone(o.msg)
			err := x.srv.ss.SendMsg(m)
			scribble(m.ProtoReflect(), 3)
			fin(err, plain(err))
		}()
	case sSetHeader, sSendHeader:
		var err error
		md := o.md.Copy()
		switch {
		case o.kind == sSetHeader && (x.srv.ss == nil || o.viaCx):
			err = grpc.SetHeader(x.srv.ctx, md)
		case o.kind == sSetHeader:
			err = x.srv.ss.SetHeader(md)
		case x.srv.ss == nil || o.viaCx:
			err = grpc.SendHeader(x.srv.ctx, md)
		default:
			err = x.srv.ss.SendHeader(md)
		}
		scribbleMD(md)
		fin(err, plain(err))
	case sSetTrailer:
		md := o.md.Copy()
		if x.srv.ss == nil || o.viaCx {
			grpc.SetTrailer(x.srv.ctx, md)
		} else {
			x.srv.ss.SetTrailer(md)
		}
		scribbleMD(md)
		fin(nil, "ok")
	case sReturn:
		x.returned, x.returnStep = true, x.step
		if o.msg != nil {
			x.srv.res = clone(o.msg)
		} else {
			x.srv.res = (*tp.TestAllTypes)(nil)
		}
		x.ret <- o.err
		fin(nil, "")
	}
	x.t.Wait()
}

func (x *c13run) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s call %+v: started=%v startErr=%q incoming=%s\n", x.name, shapeNames[x.call.shape], *x.call, x.started, x.startErr, x.inMD)
	for i, r := range x.recs {
		fmt.Fprintf(&b, "  %2d %s -> done=%v@%d %s\n", i, r.op, r.done, r.doneStep, r.res)
	}
	return b.String()
}

func drawMD(t *core.T) metadata.MD {
	md := metadata.MD{}
	for i := t.Range(1, 3); i > 0; i-- {
		k := core.Choose(t, "a", "b", "key-bin")
		md[k] = append(md[k], core.Choose(t, "v1", "v2", "", "v 3"))
	}
	return md
}

func drawPayload(t *core.T) *tp.TestAllTypes {
	m := smallMsg(t)
	if t.Chance(10) {
		fillMsg(t, m.ProtoReflect(), 15, 2)
	}
	if t.Chance(15) {
		m.DefaultBytes = []byte{1, 2, 3}
		m.RepeatedBytes = [][]byte{{4}, {5, 6}}
	}
	if t.Chance(10) {
		addUnknown(m, uint64(t.Int(5)))
	}
	// normalise what the wire cannot tell apart
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	n := &tp.TestAllTypes{}
	if err := proto.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

func drawServerErr(t *core.T) error {
	switch t.Int(9) {
	case 0:
		return status.Error(codes.Code(t.Range(1, 16)), core.Choose(t, "boom", "", "with: colon", "käse % \n x"))
	case 1:
		return errors.New("plain")
	case 2:
		return context.Canceled
	case 3:
		return context.DeadlineExceeded
	case 4:
		return io.EOF
	case 5:
		return fmt.Errorf("wrapped: %w", status.Error(codes.FailedPrecondition, "inner"))
	case 6:
		return fmt.Errorf("wrapped: %w", core.Choose(t, context.Canceled, io.EOF, io.ErrUnexpectedEOF))
	case 7:
		return status.Error(codes.Canceled, "server says no")
	}
	return status.Error(codes.NotFound, "missing")
}

// c13Next draws the next command that is possible in the state of the reference run.
// A send is possible only when the other side is waiting for it.
func (x *c13run) next(t *core.T) *c13op {
	type cand struct {
		w int
		f func() *c13op
	}
	var cs []cand
	add := func(ok bool, w int, f func() *c13op) {
		if ok {
			cs = append(cs, cand{w, f})
		}
	}
	c := x.call
	stream := c.shape != shapeUnary
	dst := func() *tp.TestAllTypes {
		if t.Chance(25) {
			return drawPayload(t)
		}
		return nil
	}
	unaryRaw := c.shape == shapeUnaryStream
	clientStreams := c.shape == shapeClient || c.shape == shapeBidi
	over := x.ended || x.returned
	// client
	if stream && x.cs != nil {
		add(!x.recvPend, 8, func() *c13op { return &c13op{kind: cRecv, msg: dst()} })
		canSend := false
		if clientStreams {
			canSend = x.srvRecvPend || over
		} else {
			canSend = !x.sent
		}
		add(!x.closedSend && !x.sendPend && canSend, 8, func() *c13op { return &c13op{kind: cSend, msg: drawPayload(t)} })
		add(clientStreams || x.sent || over, 3, func() *c13op { return &c13op{kind: cClose} })
		add(!x.hdrPend, 2, func() *c13op { return &c13op{kind: cHeader} })
	}
	add(!x.ended, 1, func() *c13op {
		if c.deadline != 0 && t.Chance(70) {
			return &c13op{kind: cExpire}
		}
		return &c13op{kind: cCancel}
	})
	// server
	if x.srv != nil && !x.returned {
		add(clientStreams && !x.srvRecvPend, 8, func() *c13op { return &c13op{kind: sRecv, msg: dst()} })
		many := c.shape == shapeServer || c.shape == shapeBidi || c.shape == shapeServerRaw
		canSend := many || c.shape == shapeClient && !x.sentOne
		add(canSend && (x.recvPend || x.ended), 8, func() *c13op { return &c13op{kind: sSend, msg: drawPayload(t)} })
		add(true, 2, func() *c13op { return &c13op{kind: sSetHeader, md: drawMD(t), viaCx: t.Chance(30)} })
		add(true, 2, func() *c13op { return &c13op{kind: sSendHeader, md: drawMD(t), viaCx: t.Chance(30)} })
		add(true, 2, func() *c13op { return &c13op{kind: sSetTrailer, md: drawMD(t), viaCx: t.Chance(30)} })
		unaryLike := c.shape == shapeUnary || unaryRaw
		add(true, 3, func() *c13op {
			o := &c13op{kind: sReturn}
			needMsg := unaryLike && !x.recvPend && !x.ended
			if needMsg || t.Chance(45) {
				o.err = drawServerErr(t)
			}
			if unaryLike && (o.err == nil || t.Chance(30)) && !t.Chance(10) {
				o.msg = drawPayload(t)
			}
			return o
		})
	}
	if len(cs) == 0 {
		return nil
	}
	ws := make([]int, len(cs))
	for i, c := range cs {
		ws[i] = c.w
	}
	return cs[t.Weighted(ws...)].f()
}

func c13Compare(t *core.T) {
	c := &c13call{shape: t.Int(6), dynamic: t.Chance(15), helper: t.Chance(30)}
	if t.Chance(40) {
		c.cause = errors.New("the cause")
		if t.Chance(30) {
			c.cause = status.Error(codes.DataLoss, "the cause")
		}
	}
	if c.shape == shapeUnary || c.shape == shapeServer {
		c.req = drawPayload(t)
	}
	if t.Chance(50) {
		c.md = drawMD(t)
	}
	if t.Chance(25) {
		c.callerMD = drawMD(t)
	}
	if t.Chance(20) {
		c.deadline = 30 * time.Minute
	}
	ref := &c13run{t: t, name: "gRPC", call: c}
	conn, stop := realConn(t, &simDesc, ref)
	ref.conn = conn
	ref.begin()
	restAt := -1
	if c.deadline == 0 && t.Chance(4) {
		restAt = t.Int(8)
	}
	t.Repeat(1, 24, func(i int) {
		if o := ref.next(t); o != nil {
			if i == restAt {
				o.rest = drawLong(t)
			}
			ref.do(o)
		}
	})
	// bring the call to its end
	if ref.srv == nil && !ref.ended {
		ref.do(&c13op{kind: cCancel})
	}
	if ref.srv != nil && !ref.returned {
		var err error
		if t.Chance(50) || (c.shape == shapeUnaryStream && !ref.recvPend) {
			err = drawServerErr(t)
		}
		o := &c13op{kind: sReturn, err: err}
		if c.shape == shapeUnary || c.shape == shapeUnaryStream {
			o.msg = drawPayload(t)
		}
		ref.do(o)
	}
	if ref.cs != nil {
		for i := 0; i < 3 && !ref.terminal && !ref.recvPend; i++ {
			ref.do(&c13op{kind: cRecv})
		}
		if !ref.hdrPend {
			ref.do(&c13op{kind: cHeader})
		}
		if ref.terminal {
			ref.do(&c13op{kind: cTrailer})
			ref.do(&c13op{kind: cRecv})
		}
	}
	if ref.startErr == "" && !ref.terminal {
		panic("the reference call did not end:\n" + ref.String())
	}
	ref.cancel()
	stop()
	t.Settle(time.Minute)

	got := &c13run{t: t, name: "wrap", call: c}
	got.conn = wrapConn(got)
	live := t.Live()
	got.begin()
	skip := 0
	if c.shape == shapeUnary {
		skip = 1
	}
	both := func() string { return ref.String() + got.String() }
	for _, r := range ref.recs[skip:] {
		o := r.op
		if o.kind >= sRecv && o.kind <= sReturn && got.srv == nil {
			t.Fail("handler-not-started", "the server's handler runs over gRPC but not over the wrapper\n%s", both())
		}
		if got.cs == nil && (o.kind < sRecv || o.kind == cTrailer) && o.kind != cCancel && o.kind != cExpire {
			t.Fail("stream-not-started", "the client's stream opens over gRPC but not over the wrapper\n%s", both())
		}
		if o.kind == cRecv && got.recvPend || o.kind == cSend && got.sendPend || o.kind == cHeader && got.hdrPend || o.kind == sRecv && got.srvRecvPend {
			break // compared below
		}
		got.do(o)
		if t.Logging() {
			t.Logf("%s", o)
		}
	}
	c13Judge(t, ref, got, both)
	if !got.ended && got.srv != nil && got.returned {
		t.Wait()
		if l := t.Live(); l != live {
			if c.helper && !got.helperDone {
				t.Fail("handler-context-survives", "the handler returned but its context did not end, a goroutine waiting for it is left behind\n%s", both())
			}
			t.Fail("leak", "%d goroutines left by a finished call\n%s%s", l-live, both(), t.Stacks())
		}
	}
	got.cancel()
	t.Settle(time.Minute)
	if l := t.Live(); l != live {
		t.Fail("leak", "%d goroutines left by an ended call\n%s%s", l-live, both(), t.Stacks())
	}
	for i, m := range got.got {
		if s := asText(m); s != got.gotText[i] {
			t.Fail("received-message-changed", "message received as %s is now %s\n%s", got.gotText[i], s, both())
		}
	}
	if got.srv != nil && (len(got.recs) > 6 || got.ended) {
		t.Nontrivial()
	}
	t.Count("call "+shapeNames[c.shape], 1)
	for _, r := range got.recs {
		switch r.op.kind {
		case cCancel:
			t.Count("client_cancel", 1)
		case cExpire:
			t.Count("client_deadline", 1)
		case cClose:
			t.Count("half_close", 1)
		case sReturn:
			if r.op.err != nil {
				t.Count("server_error", 1)
			}
		}
	}
}

func c13Judge(t *core.T, ref, got *c13run, both func() string) {
	if ref.startErr != got.startErr {
		t.Fail("start", "the call starts with %q over gRPC, %q over the wrapper\n%s", ref.startErr, got.startErr, both())
	}
	if (ref.srv == nil) != (got.srv == nil) {
		t.Fail("handler-not-started", "the server's handler runs on one side only\n%s", both())
	}
	if ref.srv != nil {
		if ref.method != got.method {
			t.Fail("handler-context", "the handler is told its method is %s over gRPC, %s over the wrapper\n%s", ref.method, got.method, both())
		}
		if ref.inMD != got.inMD {
			t.Fail("incoming-metadata", "the server receives metadata %s over gRPC, %s over the wrapper\n%s", ref.inMD, got.inMD, both())
		}
		if ref.srv.req != nil && asText(ref.srv.req) != asText(got.srv.req) {
			t.Fail("request", "the server receives %s over gRPC, %s over the wrapper\n%s", asText(ref.srv.req), asText(got.srv.req), both())
		}
	}
	// The client's context ended after the server returned and before the
	// client had read that: either end may be what it reads.
	loose := ref.ended && ref.returned && ref.returnStep < ref.endedStep && (!ref.terminal || ref.termStep >= ref.endedStep)
	var final error
	var ctxEnd string
	if loose {
		for _, r := range ref.recs {
			switch r.op.kind {
			case sReturn:
				final = r.op.err
			case cCancel:
				if ctxEnd == "" {
					ctxEnd = terminalText(context.Canceled, true)
				}
			case cExpire:
				if ctxEnd == "" {
					ctxEnd = terminalText(context.DeadlineExceeded, true)
				}
			}
		}
	}
	sticky, expired := "", false
	closedStep := len(ref.recs) + 1
	for _, r := range ref.recs {
		if r.op.kind == cClose && r.done && r.doneStep < closedStep {
			closedStep = r.doneStep
		}
		if r.op.kind == cExpire {
			expired = true
		}
	}
	for i, r := range ref.recs {
		if i >= len(got.recs) {
			t.Fail("diverged", "command %d %s completes over gRPC but is still waiting over the wrapper\n%s", i, r.op, both())
		}
		g := got.recs[i]
		k := r.op.kind
		if k == cRecv && g.done && !strings.HasPrefix(g.res, "message") {
			if sticky != "" && sticky != g.res {
				t.Fail("end-not-stable", "the client reads the end of the call as %q and later as %q\n%s", sticky, g.res, both())
			}
			sticky = g.res
		}
		if loose && r.doneStep >= ref.endedStep && (k == cRecv || k == cTrailer || k == sRecv || k == cSend) {
			if !g.done {
				t.Fail("hang", "command %d %s never completes over the wrapper\n%s", i, r.op, both())
			}
			if k == cRecv {
				server := "EOF"
				if final != nil {
					server = terminalText(fromServer(final), false)
				}
				if g.res != server && g.res != ctxEnd {
					t.Fail("outcome", "command %d %s gives %q over the wrapper, want %q or %q\n%s", i, r.op, g.res, server, ctxEnd, both())
				}
			}
			continue
		}
		if r.done && !g.done {
			t.Fail("hang", "command %d %s completes over gRPC but not over the wrapper\n%s", i, r.op, both())
		}
		if !r.done && g.done {
			t.Fail("too-early", "command %d %s completes over the wrapper but not over gRPC\n%s", i, r.op, both())
		}
		if !r.done {
			continue
		}
		if r.doneStep != g.doneStep && (k == cRecv || k == cHeader || k == sRecv) {
			t.Fail("when", "command %d %s completes after command %d over gRPC, %d over the wrapper\n%s", i, r.op, r.doneStep, g.doneStep, both())
		}
		clientOver := ref.ended && r.doneStep >= ref.endedStep
		if k == sRecv && clientOver && closedStep < ref.endedStep {
			continue // the half-close and the cancellation race to the server
		}
		// At the deadline a gRPC server with a pending receive answers by itself,
		// with what it has of header and trailer, in a race with the client giving up.
		if expired && clientOver && (k == cHeader && g.res == "ok []" || k == cTrailer && g.res == "[]") {
			continue
		}
		switch k {
		case cSend:
			if (r.res == "ok") != (g.res == "ok") && !(clientOver || ref.returned && r.doneStep >= ref.returnStep) {
				t.Fail("send", "command %d %s gives %q over gRPC, %q over the wrapper\n%s", i, r.op, r.res, g.res, both())
			}
			if g.res == "error" {
				t.Fail("send", "command %d %s gives error %v over the wrapper, want nil or EOF\n%s", i, r.op, g.err, both())
			}
		case sSend, sSetHeader, sSendHeader:
			if (r.res == "ok") != (g.res == "ok") && !clientOver {
				t.Fail("server-call", "command %d %s gives %q over gRPC, %q over the wrapper\n%s", i, r.op, r.res, g.res, both())
			}
		case cTrailer, cHeader, cRecv, sRecv, cClose:
			if r.res != g.res {
				class := map[int]string{cTrailer: "trailer", cHeader: "header", cRecv: "receive", sRecv: "server-receive", cClose: "close-send"}[k]
				t.Fail(class, "command %d %s gives %q over gRPC, %q over the wrapper\n%s", i, r.op, r.res, g.res, both())
			}
		}
	}
}

// fromServer is the status a gRPC server derives from its handler's error.
func fromServer(err error) error {
	if s, ok := status.FromError(err); ok {
		return s.Err()
	}
	return status.FromContextError(err).Err()
}
