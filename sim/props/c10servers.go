package props

import (
	"context"
	"fmt"
	"reflect"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// streamQuit is the client of a streaming RPC who leaves at some point.
type streamQuit struct {
	m      *rpc
	in     proto.Message
	delay  time.Duration
	ctx    context.Context
	cancel context.CancelFunc

	stopAfter, cancelAfter int // messages, -1 never
	pauseAfter             int
	pause                  time.Duration
	cancelAt               time.Duration // -1 never

	got           int
	opened, ended bool
	endedAt       time.Duration
	err           error
	isCancelled   bool
	cancelled     time.Duration
}

func (q *streamQuit) String() string {
	return fmt.Sprintf("%s{%s} delay=%s stopAfter=%d pauseAfter=%d+%s cancelAfter=%d cancelAt=%s: got %d, cancelled=%v@%s ended=%v@%s %v", q.m.name, txt(q.in), q.delay, q.stopAfter, q.pauseAfter, q.pause, q.cancelAfter, q.cancelAt, q.got, q.isCancelled, q.cancelled, q.ended, q.endedAt, q.err)
}

// c10Servers cancels the streams of trait servers.
func c10Servers(t *core.T) {
	var srv any
	var all []*rpc
	clients := map[string]any{}
	var writes []func() (string, func() error)
	descs := serverCases[0].descs
	if n := t.Int(len(serverCases) + len(c14sensors)); n < len(serverCases) {
		sc := &serverCases[n]
		descs = sc.descs
		srv = sc.make(t)
		t.Count("server "+sc.name, 1)
	} else {
		s := c14sensors[n-len(serverCases)]
		descs = s.reg.sc.descs
		var w func(*core.T, proto.Message) (proto.Message, error)
		srv, w = s.make(t)
		writes = append(writes, func() (string, func() error) {
			v := s.draw(t)
			return "write " + txt(v), func() error { _, err := w(t, v); return err }
		})
		t.Count("server "+s.reg.name, 1)
	}
	for _, d := range descs {
		all = append(all, rpcsOf(d)...)
		for _, rc := range routerCases {
			if rc.Service == d {
				clients[d.ServiceName] = rc.Wrap(srv)
			}
		}
	}
	if u, ok := srv.(interface{ Unwrap() any }); ok {
		if m, ok := u.Unwrap().(*wastepb.Model); ok {
			writes = append(writes, func() (string, func() error) {
				v := rnd(t, &traits.WasteRecord{})
				return "AddWasteRecord " + txt(v), func() error { _, err := m.AddWasteRecord(v); return err }
			})
		}
	}
	var pulls, others []*rpc
	for _, m := range all {
		switch {
		case m.client:
		case m.server:
			pulls = append(pulls, m)
		default:
			others = append(others, m)
		}
	}
	if len(pulls) == 0 {
		return
	}
	t.Settle(time.Second)
	base := t.Live()
	scale := drawScale(t)
	method := func(m *rpc) reflect.Value { return reflect.ValueOf(clients[m.service]).MethodByName(m.name) }
	var qs []*streamQuit
	for n := t.Range(1, 4); n > 0; n-- {
		q := &streamQuit{m: pulls[t.Int(len(pulls))], stopAfter: -1, cancelAfter: -1, cancelAt: -1}
		q.in = drawRequest(t, q.m)
		q.ctx, q.cancel = context.WithCancel(t.Ctx())
		if t.Chance(40) {
			q.delay = time.Duration(t.Range(1, 6)) * tick * scale
		}
		switch t.Int(5) {
		case 0:
			if t.Chance(65) {
				q.pauseAfter, q.pause = t.Int(4), time.Duration(t.Range(1, 30))*tick*scale
				t.Count("slow_reader", 1)
			}
		case 1, 2:
			q.stopAfter = t.Int(4)
			if t.Chance(20) {
				q.stopAfter = t.Int(60)
			}
			q.cancelAt = time.Duration(t.Range(0, 10)) * tick * scale
		case 3:
			q.cancelAt = time.Duration(t.Range(0, 10)) * tick * scale
		default:
			q.cancelAfter = t.Int(4)
			if t.Chance(20) {
				q.cancelAfter = t.Int(60)
			}
		}
		qs = append(qs, q)
	}
	type timed struct {
		gap          time.Duration
		name         string
		run          func() error
		began, ended time.Duration
		done         bool
		err          error
	}
	var ts []*timed
	t.Repeat(1, 7, func(int) {
		x := &timed{gap: time.Duration(t.Int(4)) * tick * scale}
		if len(writes) > 0 && (len(others) == 0 || t.Chance(70)) {
			x.name, x.run = writes[t.Int(len(writes))]()
		} else if len(others) > 0 {
			m := others[t.Int(len(others))]
			in := drawRequest(t, m)
			x.name = m.name + " " + txt(in)
			x.run = func() error {
				out := method(m).Call([]reflect.Value{reflect.ValueOf(t.Ctx()), reflect.ValueOf(in)})
				err, _ := out[1].Interface().(error)
				return err
			}
		} else {
			return
		}
		ts = append(ts, x)
	})
	quit := func(q *streamQuit) {
		if q.isCancelled {
			return
		}
		q.isCancelled, q.cancelled = true, t.Elapsed()
		q.cancel()
		t.Count("cancel", 1)
		if t.Logging() {
			t.Logf("cancel %s", q.m.name)
		}
	}
	run := func(q *streamQuit) {
		if q.delay > 0 {
			time.Sleep(q.delay)
		}
		if q.cancelAt >= 0 {
			go at(q.cancelAt, func() { quit(q) })
		}
		out := method(q.m).Call([]reflect.Value{reflect.ValueOf(q.ctx), reflect.ValueOf(q.in)})
		q.opened = true
		if q.err, _ = out[1].Interface().(error); q.err != nil {
			q.ended, q.endedAt = true, t.Elapsed()
			return
		}
		recv := out[0].MethodByName("Recv")
		for {
			if q.cancelAfter >= 0 && q.got >= q.cancelAfter {
				quit(q)
			}
			if q.stopAfter >= 0 && q.got >= q.stopAfter {
				t.Count("stopped_reading", 1)
				<-q.ctx.Done()
				time.Sleep(tick)
			}
			if q.pause > 0 && q.got == q.pauseAfter {
				time.Sleep(q.pause)
				q.pause = 0
			}
			out := recv.Call(nil)
			if q.err, _ = out[1].Interface().(error); q.err != nil {
				q.ended, q.endedAt = true, t.Elapsed()
				return
			}
			if q.isCancelled && t.Elapsed() > q.cancelled {
				t.Fail("after-cancel", "a message arrived long after the cancel: %v\n  %s", out[0].Interface(), q)
			}
			q.got++
		}
	}
	for _, q := range qs {
		go run(q)
	}
	if t.Chance(50) {
		t.Wait()
	}
	go func() {
		for _, x := range ts {
			if x.gap > 0 {
				time.Sleep(x.gap)
			}
			x.began = t.Elapsed()
			x.err = x.run()
			x.ended, x.done = t.Elapsed(), true
			if t.Logging() {
				t.Logf("%s %v (%s)", x.name, x.err, x.ended-x.began)
			}
		}
	}()
	t.Settle(2 * time.Minute * scale)
	text := func() string {
		out := ""
		for _, q := range qs {
			out += "\n    " + q.String()
		}
		for _, x := range ts {
			out += fmt.Sprintf("\n    %s..%s %s done=%v %v", x.began, x.ended, x.name, x.done, x.err)
		}
		return out
	}
	for _, x := range ts {
		if !x.done {
			t.Fail("stuck", "%s has not returned although every subscriber reads or was cancelled%s\n%s", x.name, text(), t.Stacks())
		}
		if x.ended > x.began {
			t.Nontrivial()
		}
	}
	for _, q := range qs {
		if !q.opened {
			t.Fail("stuck", "opening %s has not returned%s\n%s", q.m.name, text(), t.Stacks())
		}
		if q.isCancelled && !q.ended {
			t.Fail("not-closed", "%s has not ended after the cancel%s\n%s", q.m.name, text(), t.Stacks())
		}
	}
	for _, q := range qs {
		quit(q)
	}
	t.Settle(2 * time.Hour) // models may hold timers
	if n := t.Live(); n != base {
		t.Fail("leak", "%d goroutine(s) remain after every stream was cancelled%s\n%s", n-base, text(), t.Stacks())
	}
}
