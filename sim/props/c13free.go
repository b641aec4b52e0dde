package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"

	tp "github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// c13Free runs whole calls through the wrapper with both sides at full speed,
// the simulator choosing every interleaving, and checks what gRPC guarantees
// about any such call.

type freeOp struct {
	kind  int // sRecv, sSend, sSetHeader, sSendHeader, sSetTrailer, or -1: sleep
	msg   *tp.TestAllTypes
	md    metadata.MD
	sleep time.Duration
	viaCx bool
}

type freeCall struct {
	t     *core.T
	id    int
	shape int
	req   *tp.TestAllTypes
	md    metadata.MD

	// client script
	sends     []*tp.TestAllTypes
	gap       []time.Duration
	closeSend bool
	recvMax   int // cancel after receiving that many, -1 never
	cancelAt  time.Duration
	deadline  time.Duration
	cause     error // why the client's context ends, for its own use
	scribbles bool  // senders change messages once sent
	headers   int   // number of concurrent Header calls

	// server script
	ops      []freeOp
	drain    bool // receive until the end after ops
	parallel bool // receive in a separate goroutine
	err      error
	res      *tp.TestAllTypes

	// observed, server
	ran, returned bool
	srvIn         string
	srvReq        string
	srvGot        []string
	srvGotMsg     []proto.Message
	srvEnd        error
	srvSent       []string // attempted
	srvOK         int      // sends that returned nil
	srvSentMsg    []proto.Message
	header        metadata.MD
	headerSent    bool
	headerText    string
	trailer       metadata.MD

	// observed, client
	ctx             context.Context
	cliSent         []string
	cliOK           int
	cliSentMsg      []proto.Message
	sendEnd         error
	closed          bool
	got             []string
	gotMsg          []proto.Message
	end             error
	ended           bool // client context had ended when end was read
	hasEnd          bool
	again           error
	hdrs            []string
	endHdr, endTrlr string
	done            bool
}

func (c *freeCall) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "call %d %s md=%s\n  client: sends=%d gap=%v close=%v recvMax=%d cancelAt=%s deadline=%s\n  server:", c.id, shapeNames[c.shape], mdText(c.md), len(c.sends), c.gap, c.closeSend, c.recvMax, c.cancelAt, c.deadline)
	for _, o := range c.ops {
		if o.kind < 0 {
			fmt.Fprintf(&b, " sleep %s;", o.sleep)
			continue
		}
		fmt.Fprintf(&b, " %s", cmdNames[o.kind])
		if o.msg != nil {
			fmt.Fprintf(&b, " %s", txt(o.msg))
		}
		if o.md != nil {
			fmt.Fprintf(&b, " %s", mdText(o.md))
		}
		b.WriteString(";")
	}
	fmt.Fprintf(&b, " drain=%v parallel=%v return %v\n", c.drain, c.parallel, c.err)
	fmt.Fprintf(&b, "  server saw: ran=%v returned=%v received %v end=%v, sent %v (%d accepted) header %s (sent %v) trailer %s\n", c.ran, c.returned, c.srvGot, c.srvEnd, c.srvSent, c.srvOK, mdText(c.header), c.headerSent, mdText(c.trailer))
	fmt.Fprintf(&b, "  client saw: sent %v (%d accepted, %v) closed=%v received %v end=%v (own context ended %v) headers %v then %s trailer %s\n", c.cliSent, c.cliOK, c.sendEnd, c.closed, c.got, c.end, c.ended, c.hdrs, c.endHdr, c.endTrlr)
	return b.String()
}

// simHandle is the server's side.
type freeServer struct{ calls []*freeCall }

func (s *freeServer) simHandle(sc *simCall) error {
	md, _ := metadata.FromIncomingContext(sc.ctx)
	id := int(md.Get("call")[0][0] - '0')
	c := s.calls[id]
	md = md.Copy()
	delete(md, "call")
	c.srvIn = mdText(md)
	return c.serve(sc)
}

func (c *freeCall) serve(sc *simCall) (err error) {
	c.ran = true
	defer func() {
		c.returned = true
		if !c.headerSent && len(c.header) > 0 && err == nil {
			c.markHeader()
		}
	}()
	if sc.req != nil {
		c.srvReq = txt(sc.req)
	}
	recv := func() bool {
		m := &tp.TestAllTypes{RepeatedInt32: []int32{9, 9}, DefaultInt64: 3} // receiving replaces the content
		err := sc.ss.RecvMsg(m)
		if err != nil {
			c.srvEnd = err
			return false
		}
		c.srvGot = append(c.srvGot, txt(m))
		c.srvGotMsg = append(c.srvGotMsg, m)
		return true
	}
	wait := make(chan struct{})
	if c.parallel {
		go func() {
			defer close(wait)
			for recv() {
			}
		}()
	}
	for _, o := range c.ops {
		switch o.kind {
		case -1:
			select {
			case <-time.After(o.sleep):
			case <-sc.ctx.Done():
			}
		case sRecv:
			if c.srvEnd == nil {
				recv()
			}
		case sSend:
			m := clone(o.msg)
			c.srvSent = append(c.srvSent, txt(m))
			if !c.headerSent {
				c.markHeader()
			}
			if err := sc.ss.SendMsg(m); err != nil {
				if err == io.EOF {
					c.t.Fail("server-send-eof", "Send on the server fails with io.EOF\n%s", c)
				}
				break
			}
			c.srvOK++
			if c.scribbles {
				scribble(m.ProtoReflect(), 3)
			} else {
				c.srvSentMsg = append(c.srvSentMsg, m)
			}
		case sSetHeader, sSendHeader:
			md := o.md.Copy()
			if !c.headerSent {
				c.header = metadata.Join(c.header, md)
				if o.kind == sSendHeader {
					c.markHeader()
				}
			}
			var err error
			switch {
			case o.kind == sSetHeader && (sc.ss == nil || o.viaCx):
				err = grpc.SetHeader(sc.ctx, md)
			case o.kind == sSetHeader:
				err = sc.ss.SetHeader(md)
			case sc.ss == nil || o.viaCx:
				err = grpc.SendHeader(sc.ctx, md)
			default:
				err = sc.ss.SendHeader(md)
			}
			_ = err
			scribbleMD(md)
		case sSetTrailer:
			md := o.md.Copy()
			c.trailer = metadata.Join(c.trailer, md)
			if sc.ss == nil || o.viaCx {
				grpc.SetTrailer(sc.ctx, md)
			} else {
				sc.ss.SetTrailer(md)
			}
			scribbleMD(md)
		}
	}
	if c.drain && !c.parallel {
		for recv() {
		}
	}
	if c.parallel && c.drain {
		<-wait
	}
	if !c.headerSent && len(c.header) > 0 {
		c.markHeader()
	}
	sc.res = clone(c.res)
	return c.err
}

func (c *freeCall) markHeader() {
	c.headerSent = true
	c.headerText = mdText(c.header)
}

// client is the client's side.
func (c *freeCall) client(conn grpc.ClientConnInterface) {
	defer func() { c.done = true }()
	ctx, end := context.WithCancelCause(context.Background())
	cancel := func() { end(c.cause) }
	if c.deadline > 0 {
		ctx, cancel = context.WithTimeoutCause(context.Background(), c.deadline, c.cause)
	}
	defer cancel()
	c.ctx = ctx
	stopTimer := make(chan struct{})
	defer close(stopTimer)
	if c.cancelAt >= 0 {
		go func() {
			select {
			case <-time.After(c.cancelAt):
				cancel()
			case <-stopTimer:
			}
		}()
	}
	md := metadata.Join(c.md, metadata.Pairs("call", fmt.Sprint(c.id)))
	ctx = metadata.NewOutgoingContext(ctx, md)
	if c.shape == shapeUnary {
		var hdr, trl metadata.MD
		req, res := clone(c.req), &tp.TestAllTypes{RepeatedInt32: []int32{9}}
		err := conn.Invoke(ctx, simMethod(c.shape), req, res, grpc.Header(&hdr), grpc.Trailer(&trl))
		c.ended = ctx.Err() != nil
		c.hasEnd = true
		c.end = err
		if err == nil {
			c.end = io.EOF
			c.got = append(c.got, txt(res))
			c.gotMsg = append(c.gotMsg, res)
		}
		c.again = c.end
		c.endHdr, c.endTrlr = mdText(hdr), mdText(trl)
		scribble(req.ProtoReflect(), 3)
		return
	}
	cs, err := conn.NewStream(ctx, shapeDesc(c.shape), simMethod(c.shape))
	fail := func(err error) {
		c.ended = ctx.Err() != nil
		c.hasEnd, c.end, c.again = true, err, err
	}
	if err != nil {
		fail(err)
		return
	}
	sent := make(chan struct{})
	if c.shape == shapeServer {
		req := clone(c.req)
		err := cs.SendMsg(req)
		scribble(req.ProtoReflect(), 3)
		if err == nil {
			err = cs.CloseSend()
		}
		if err != nil && err != io.EOF {
			fail(err)
			return
		}
		close(sent)
	} else {
		go func() {
			defer close(sent)
			for i, m := range c.sends {
				if c.gap[i] > 0 {
					time.Sleep(c.gap[i])
				}
				m := clone(m)
				c.cliSent = append(c.cliSent, txt(m))
				if err := cs.SendMsg(m); err != nil {
					c.sendEnd = err
					break
				}
				c.cliOK++
				if c.scribbles {
					scribble(m.ProtoReflect(), 3)
				} else {
					c.cliSentMsg = append(c.cliSentMsg, m)
				}
			}
			if c.closeSend {
				c.closed = true
				if err := cs.CloseSend(); err != nil {
					c.t.Fail("close-send", "CloseSend fails: %v\n%s", err, c)
				}
			}
		}()
	}
	hdrDone := make(chan struct{}, c.headers)
	for i := 0; i < c.headers; i++ {
		go func() {
			md, err := cs.Header()
			if err != nil {
				c.t.Fail("header-error", "Header fails: %v\n%s", err, c)
			}
			c.hdrs = append(c.hdrs, mdText(md))
			scribbleMD(md)
			hdrDone <- struct{}{}
		}()
	}
	for {
		if c.recvMax >= 0 && len(c.got) >= c.recvMax {
			cancel()
		}
		m := &tp.TestAllTypes{RepeatedInt32: []int32{9, 9}, DefaultInt64: 3}
		err := cs.RecvMsg(m)
		if err != nil {
			c.ended = ctx.Err() != nil
			c.hasEnd, c.end = true, err
			break
		}
		c.got = append(c.got, txt(m))
		c.gotMsg = append(c.gotMsg, m)
		if len(c.got) > len(c.ops)+2 {
			c.t.Fail("receives-forever", "the client receives more messages than the server sends\n%s", c)
		}
	}
	c.again = cs.RecvMsg(&tp.TestAllTypes{})
	hd, err := cs.Header()
	if err != nil {
		c.t.Fail("header-error", "Header fails after the end: %v\n%s", err, c)
	}
	c.endHdr = mdText(hd)
	c.endTrlr = mdText(cs.Trailer())
	<-sent
	// a finished stream tolerates more calls
	cs.CloseSend()
	if c.shape != shapeServer {
		if err := cs.SendMsg(&tp.TestAllTypes{}); err == nil {
			c.t.Fail("send-after-end", "Send succeeds on a call that has ended and whose sending side is closed\n%s", c)
		}
	}
	for i := 0; i < c.headers; i++ {
		<-hdrDone
	}
}

func drawFree(t *core.T, id int, unit time.Duration) *freeCall {
	c := &freeCall{t: t, id: id, shape: t.Int(4), recvMax: -1, cancelAt: -1}
	c.md = metadata.MD{}
	if t.Chance(50) {
		c.md = drawMD(t)
	}
	c.scribbles = t.Chance(60)
	if t.Chance(40) {
		c.cause = errors.New("the cause")
	}
	c.req, c.res = drawPayload(t), drawPayload(t)
	delay := func() time.Duration {
		if !t.Chance(25) {
			return 0
		}
		return time.Duration(t.Range(1, 4)) * unit
	}
	if c.shape == shapeClient || c.shape == shapeBidi {
		t.Repeat(0, 4, func(int) {
			c.sends = append(c.sends, drawPayload(t))
			c.gap = append(c.gap, delay())
		})
		c.closeSend = t.Chance(75)
		c.drain = c.closeSend && t.Chance(60)
		c.parallel = t.Chance(30)
	}
	c.headers = t.Int(3)
	switch t.Int(6) {
	case 1:
		c.cancelAt = time.Duration(t.Int(5)) * unit
	case 2:
		c.deadline = time.Duration(t.Range(1, 5)) * unit
	case 3:
		c.recvMax = t.Int(3)
	}
	sentOne := false
	t.Repeat(0, 7, func(int) {
		o := freeOp{kind: core.Choose(t, sSend, sSend, sRecv, sSetHeader, sSendHeader, sSetTrailer, -1), viaCx: t.Chance(25)}
		switch o.kind {
		case -1:
			o.sleep = time.Duration(t.Range(1, 4)) * unit
		case sSend:
			if c.shape == shapeUnary || c.shape == shapeClient && sentOne {
				return
			}
			sentOne = true
			o.msg = drawPayload(t)
		case sRecv:
			if c.sends == nil || c.parallel {
				return
			}
		default:
			o.md = drawMD(t)
		}
		c.ops = append(c.ops, o)
	})
	if t.Chance(40) {
		c.err = drawServerErr(t)
	}
	return c
}

func c13Free(t *core.T) {
	srv := &freeServer{}
	n := 1
	unit := drawUnit(t, time.Second)
	if t.Chance(20) {
		n = 2
	}
	for i := 0; i < n; i++ {
		srv.calls = append(srv.calls, drawFree(t, i, unit))
	}
	conn := wrapConn(srv)
	live := t.Live()
	for _, c := range srv.calls {
		// a server waiting for a message that a client never sends nor gives up on waits forever, on any transport
		recvs := 0
		for _, o := range c.ops {
			if o.kind == sRecv {
				recvs++
			}
		}
		if !c.closeSend && recvs > len(c.sends) && c.cancelAt < 0 && c.deadline == 0 {
			c.deadline = 20 * unit
		}
		go c.client(conn)
	}
	t.Settle(time.Hour + 100*unit)
	for _, c := range srv.calls {
		c13FreeJudge(t, c)
	}
	if l := t.Live(); l != live {
		t.Fail("leak", "%d goroutines left by finished calls\n%s%s", l-live, srv.calls[0], t.Stacks())
	}
}

func c13FreeJudge(t *core.T, c *freeCall) {
	if !c.done {
		t.Fail("hang", "the client's side of the call hangs\n%s%s", c, t.Stacks())
	}
	if c.ran && !c.returned {
		t.Fail("handler-hang", "the handler hangs\n%s%s", c, t.Stacks())
	}
	if c.ran && c.srvIn != mdText(c.md) {
		t.Fail("incoming-metadata", "the server receives metadata %s, the client sent %s\n%s", c.srvIn, mdText(c.md), c)
	}
	if c.ran && (c.shape == shapeUnary || c.shape == shapeServer) && c.srvReq != txt(c.req) {
		t.Fail("request", "the server receives request %s, the client sent %s\n%s", c.srvReq, txt(c.req), c)
	}
	sent := c.srvSent
	if c.shape == shapeUnary {
		sent = []string{txt(c.res)}
	}
	if len(c.got) > len(sent) || strings.Join(c.got, "|") != strings.Join(sent[:len(c.got)], "|") {
		t.Fail("messages", "the client received messages the server did not send in that order\n%s", c)
	}
	if len(c.srvGot) > len(c.cliSent) || strings.Join(c.srvGot, "|") != strings.Join(c.cliSent[:len(c.srvGot)], "|") {
		t.Fail("server-messages", "the server received messages the client did not send in that order\n%s", c)
	}
	if c.srvEnd == io.EOF && (!c.closed || len(c.srvGot) != c.cliOK) {
		t.Fail("server-eof", "the server was told that the client finished sending; closed=%v, it received %d of %d messages\n%s", c.closed, len(c.srvGot), c.cliOK, c)
	}
	if c.srvEnd != nil && c.srvEnd != io.EOF && !c.ended && !c.returned {
		t.Fail("server-receive", "Recv on the server fails with %v in a live call\n%s", c.srvEnd, c)
	}
	// outcome
	fromSrv := "EOF"
	if c.err != nil {
		fromSrv = terminalText(fromServer(c.err), false)
	}
	end := terminalText(c.end, c.ended)
	isServer := end == fromSrv && c.ran
	isCtx := c.ended && (end == terminalText(context.Canceled, true) || end == terminalText(context.DeadlineExceeded, true))
	switch {
	case !c.ended && !isServer:
		t.Fail("outcome", "the call ends with %q, the server ended it with %q\n%s", end, fromSrv, c)
	case c.ended && !isServer && !isCtx:
		t.Fail("outcome", "the cancelled call ends with %q, the server ended it with %q\n%s", end, fromSrv, c)
	case isServer && !isCtx && !c.returned:
		t.Fail("outcome", "the call ends with %q before the server ended it\n%s", end, c)
	}
	if again := terminalText(c.again, true); again != terminalText(c.end, true) {
		t.Fail("end-not-stable", "the client reads the end of the call as %q and then as %q\n%s", c.end, c.again, c)
	}
	if isServer && !isCtx {
		t.Nontrivial()
		n := c.srvOK
		if c.shape == shapeUnary {
			n = 1
		}
		if (c.shape == shapeUnary || c.shape == shapeClient) && c.err != nil {
			n = 0
		}
		if len(c.got) != n {
			t.Fail("lost-messages", "the server sent %d messages, the client received %d and then %q\n%s", n, len(c.got), end, c)
		}
		if c.srvEnd == nil || c.srvEnd == io.EOF || c.returned {
			if c.endHdr != c.headerText && !(c.endHdr == "[]" && c.headerText == "") {
				t.Fail("header", "the client has header %s, the server sent %s\n%s", c.endHdr, c.headerText, c)
			}
			if c.endTrlr != mdText(c.trailer) {
				t.Fail("trailer", "the client has trailer %s, the server set %s\n%s", c.endTrlr, mdText(c.trailer), c)
			}
		}
	}
	for _, h := range append(c.hdrs, c.endHdr) {
		if h != c.headerText && !(h == "[]" && (isCtx || c.headerText == "")) && c.shape != shapeUnary {
			t.Fail("header", "the client got header %s, the server sent %s\n%s", h, c.headerText, c)
		}
	}
	// copies
	for i, m := range c.gotMsg {
		if txt(m) != c.got[i] {
			t.Fail("received-message-changed", "message %d received as %s is now %s\n%s", i, c.got[i], txt(m), c)
		}
		scribble(m.ProtoReflect(), 3)
	}
	for i, m := range c.srvGotMsg {
		if txt(m) != c.srvGot[i] {
			t.Fail("received-message-changed", "message %d received by the server as %s is now %s\n%s", i, c.srvGot[i], txt(m), c)
		}
		scribble(m.ProtoReflect(), 3)
	}
	for i, m := range c.srvSentMsg {
		if txt(m) != c.srvSent[i] {
			t.Fail("sent-message-changed", "the server's message %s is now %s\n%s", c.srvSent[i], txt(m), c)
		}
	}
	for i, m := range c.cliSentMsg {
		if txt(m) != c.cliSent[i] {
			t.Fail("sent-message-changed", "the client's message %s is now %s\n%s", c.cliSent[i], txt(m), c)
		}
	}
	t.Count("free "+shapeNames[c.shape], 1)
	if isCtx {
		t.Count("client_cancel", 1)
	}
	if c.err != nil {
		t.Count("server_error", 1)
	}
}

// c13Generated checks unknown methods and mismatched shapes, on the generated test service.
type idleServer struct{ tp.UnimplementedTestApiServer }

func (idleServer) Unary(ctx context.Context, r *tp.UnaryRequest) (*tp.UnaryResponse, error) {
	return &tp.UnaryResponse{Msg: r.Msg}, nil
}
func (idleServer) ServerStream(r *tp.ServerStreamRequest, s tp.TestApi_ServerStreamServer) error {
	<-s.Context().Done()
	return nil
}
func (idleServer) ClientStream(s tp.TestApi_ClientStreamServer) error {
	<-s.Context().Done()
	return nil
}
func (idleServer) BidiStream(s tp.TestApi_BidiStreamServer) error {
	<-s.Context().Done()
	return nil
}

func c13Generated(t *core.T) {
	conn := wrap.ServerToClient(tp.TestApi_ServiceDesc, idleServer{})
	live := t.Live()
	svc := "/" + tp.TestApi_ServiceDesc.ServiceName + "/"
	shapes := map[string][2]bool{"Unary": {false, false}, "ServerStream": {true, false}, "ClientStream": {false, true}, "BidiStream": {true, true}}
	n := t.Range(1, 4)
	for i := 0; i < n; i++ {
		name := core.Choose(t, "Unary", "ServerStream", "ClientStream", "BidiStream", "Missing", "unary", "")
		method := svc + name
		switch t.Int(6) {
		case 0:
			method = "/other.Service/" + name
		case 1:
			method = name
		}
		want, known := shapes[name]
		known = known && method == svc+name
		ctx, cancel := context.WithCancel(context.Background())
		if t.Chance(10) && method == svc+name && known {
			// a context that has ended before the call
			cancel()
			var err error
			done := false
			go func() {
				defer func() { done = true }()
				if name == "Unary" {
					err = conn.Invoke(ctx, method, &tp.UnaryRequest{}, &tp.UnaryResponse{})
					return
				}
				var cs grpc.ClientStream
				cs, err = conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: want[0], ClientStreams: want[1]}, method)
				if err == nil {
					if err = cs.SendMsg(&tp.UnaryRequest{}); err == nil || err == io.EOF {
						err = cs.RecvMsg(&tp.UnaryResponse{})
					}
				}
			}()
			t.Wait()
			if !done {
				t.Fail("hang", "a call to %q with a cancelled context hangs\n%s", method, t.Stacks())
			}
			if !errors.Is(err, context.Canceled) && code(err) != codes.Canceled {
				t.Fail("outcome", "a call to %q with a cancelled context ends with %v", method, err)
			}
			t.Count("client_cancel", 1)
			continue
		}
		if t.Chance(30) {
			res := &tp.UnaryResponse{}
			err := make(chan error, 1)
			go func() { err <- conn.Invoke(ctx, method, &tp.UnaryRequest{Msg: "x"}, res) }()
			t.Wait()
			select {
			case err := <-err:
				switch {
				case !known && code(err) != codes.Unimplemented:
					t.Fail("unknown-method", "Invoke of unknown method %q gives %v, want Unimplemented", method, err)
				case known && name == "Unary" && (err != nil || res.Msg != "x"):
					t.Fail("invoke", "Invoke of %q gives %v %v", method, res, err)
				case known && name != "Unary" && code(err) != codes.Internal && code(err) != codes.Unimplemented:
					t.Fail("shape", "Invoke of streaming method %q gives %v, want Internal", method, err)
				}
			default:
				t.Fail("hang", "Invoke of %q hangs\n%s", method, t.Stacks())
			}
			cancel()
			t.Wait()
			continue
		}
		desc := &grpc.StreamDesc{StreamName: name, ServerStreams: t.Chance(50), ClientStreams: t.Chance(50)}
		match := known && want == [2]bool{desc.ServerStreams, desc.ClientStreams}
		var end error
		done := false
		go func() {
			defer func() { done = true }()
			cs, err := conn.NewStream(ctx, desc, method)
			if err != nil {
				end = err
				return
			}
			end = cs.RecvMsg(&tp.UnaryResponse{})
		}()
		t.Wait()
		switch {
		case match && done:
			t.Fail("match", "NewStream of %q with its own shape ends with %v", method, end)
		case !match && !done:
			t.Fail("shape", "NewStream of %q with shape %+v, want an error", method, *desc)
		case !match && !known && code(end) != codes.Unimplemented:
			t.Fail("unknown-method", "NewStream of unknown method %q gives %v, want Unimplemented", method, end)
		case !match && known && code(end) != codes.Internal:
			t.Fail("shape", "NewStream of %q with shape %+v gives %v, want Internal", method, *desc, end)
		}
		cancel()
		t.Wait()
		if !done {
			t.Fail("hang", "a cancelled call to %q hangs\n%s", method, t.Stacks())
		}
		if match && !errors.Is(end, context.Canceled) && code(end) != codes.Canceled {
			t.Fail("outcome", "a cancelled call to %q ends with %v", method, end)
		}
		t.Nontrivial()
	}
	if l := t.Live(); l != live {
		t.Fail("leak", "%d goroutines left\n%s", l-live, t.Stacks())
	}
}
