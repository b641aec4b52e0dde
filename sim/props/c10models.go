package props

import (
	"context"
	"fmt"
	"time"

	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

type modelQuit struct {
	pull      modelPull
	updates   bool
	bp        bool
	pre       bool
	delay     time.Duration
	stopAfter int
	cancelAt  time.Duration
	ctx       context.Context
	cancel    context.CancelFunc

	got         int
	opened      bool
	pauseAfter  int
	pause       time.Duration
	resumed     time.Duration
	closed      bool
	closedAt    time.Duration
	isCancelled bool
	cancelled   time.Duration
}

func (q *modelQuit) String() string {
	return fmt.Sprintf("%s updatesOnly=%v backpressure=%v pre=%v delay=%s stopAfter=%d cancelAt=%s: got %d, cancelled=%v@%s closed=%v@%s", q.pull.name, q.updates, q.bp, q.pre, q.delay, q.stopAfter, q.cancelAt, q.got, q.isCancelled, q.cancelled, q.closed, q.closedAt)
}

// c10Models cancels subscriptions of trait models.
func c10Models(t *core.T) {
	m := newModel(t)
	t.Count("model "+m.name, 1)
	t.Settle(time.Second)
	base := t.Live()
	scale := drawScale(t)
	var qs []*modelQuit
	for n := t.Range(1, 4); n > 0; n-- {
		q := &modelQuit{pull: m.pulls[t.Int(len(m.pulls))], updates: t.Chance(30), bp: t.Chance(80), stopAfter: -1, cancelAt: -1}
		q.ctx, q.cancel = context.WithCancel(context.Background())
		if t.Chance(40) {
			q.delay = time.Duration(t.Range(1, 6)) * tick * scale
		}
		switch t.Int(5) {
		case 0:
			if t.Chance(65) {
				// stops reading, and goes on later
				q.pauseAfter, q.pause = t.Int(4), time.Duration(t.Range(1, 30))*tick*scale
				t.Count("slow_reader", 1)
			}
		case 1, 2:
			q.stopAfter = t.Int(4)
			q.cancelAt = time.Duration(t.Range(0, 10)) * tick
		case 3:
			q.cancelAt = time.Duration(t.Range(0, 10)) * tick
		default:
			q.pre = t.Chance(30)
			q.cancelAt = time.Duration(t.Range(0, 3)) * tick
		}
		if q.cancelAt > 0 {
			q.cancelAt *= scale
		}
		qs = append(qs, q)
	}
	var calls []*modelCall
	var gaps []time.Duration
	t.Repeat(1, 7, func(int) {
		calls = append(calls, m.call(t))
		gaps = append(gaps, time.Duration(t.Int(4))*tick*scale)
	})
	quit := func(q *modelQuit) {
		if q.isCancelled {
			return
		}
		q.isCancelled, q.cancelled = true, t.Elapsed()
		q.cancel()
		t.Count("cancel", 1)
		if t.Logging() {
			t.Logf("cancel %s", q.pull.name)
		}
	}
	run := func(q *modelQuit) {
		if q.delay > 0 {
			time.Sleep(q.delay)
		}
		if q.pre {
			quit(q)
			t.Count("cancelled_before_subscribe", 1)
		}
		recv := q.pull.open(q.ctx, resource.WithUpdatesOnly(q.updates), resource.WithBackpressure(q.bp))
		q.opened = true
		if q.cancelAt >= 0 {
			go at(q.cancelAt, func() { quit(q) })
		}
		for {
			if q.stopAfter >= 0 && q.got >= q.stopAfter {
				t.Count("stopped_reading", 1)
				<-q.ctx.Done()
				time.Sleep(tick)
			}
			if q.pause > 0 && q.got == q.pauseAfter {
				time.Sleep(q.pause)
				q.pause, q.resumed = 0, t.Elapsed()
			}
			v, ok := recv()
			if !ok {
				q.closed, q.closedAt = true, t.Elapsed()
				return
			}
			if q.isCancelled && t.Elapsed() > q.cancelled {
				t.Fail("after-cancel", "%s: an event arrived long after the cancel: %v\n  %s", m.name, v, q)
			}
			q.got++
			if t.Logging() {
				t.Logf("%s got %v", q.pull.name, messagesIn(v))
			}
		}
	}
	for _, q := range qs {
		go run(q)
	}
	if t.Chance(50) {
		t.Wait()
	}
	type timed struct {
		name         string
		began, ended time.Duration
		done         bool
		err          error
	}
	var ts []*timed
	go func() {
		for i, c := range calls {
			if gaps[i] > 0 {
				time.Sleep(gaps[i])
			}
			x := &timed{name: c.name, began: t.Elapsed()}
			ts = append(ts, x)
			_, x.err = c.run()
			x.ended, x.done = t.Elapsed(), true
			if t.Logging() {
				t.Logf("%s %v (%s)", c.name, x.err, x.ended-x.began)
			}
		}
	}()
	t.Settle(2 * time.Minute * scale)
	text := func() string {
		out := ""
		for _, q := range qs {
			out += "\n    " + q.String()
		}
		for _, x := range ts {
			out += fmt.Sprintf("\n    %s..%s %s done=%v %v", x.began, x.ended, x.name, x.done, x.err)
		}
		return out
	}
	for _, x := range ts {
		if !x.done {
			t.Fail("stuck", "%s: %s has not returned although every subscriber reads or was cancelled%s\n%s", m.name, x.name, text(), t.Stacks())
		}
		if x.ended == x.began {
			continue
		}
		why := (x.ended-x.began)%(5*time.Second) == 0 // the send timeout
		for _, q := range qs {
			if q.isCancelled && q.cancelled == x.ended || q.resumed != 0 && q.resumed == x.ended {
				why = true
			}
		}
		t.Nontrivial()
		if !why {
			t.Fail("stalled", "%s: %s returned late for no reason%s", m.name, x.name, text())
		}
	}
	for _, q := range qs {
		if !q.opened {
			t.Fail("stuck", "%s: subscribing has not returned%s\n%s", m.name, text(), t.Stacks())
		}
		if q.isCancelled && !q.closed {
			t.Fail("not-closed", "%s: the channel of %s was not closed after the cancel%s\n%s", m.name, q.pull.name, text(), t.Stacks())
		}
		if q.isCancelled && q.closed && q.stopAfter < 0 && !q.pre && q.closedAt > q.cancelled {
			t.Fail("not-closed", "%s: the channel of %s was closed late%s", m.name, q.pull.name, text())
		}
		if q.closed && !q.isCancelled && !q.pull.single {
			t.Fail("closed", "%s: the channel of %s was closed without a cancel%s", m.name, q.pull.name, text())
		}
	}
	for _, q := range qs {
		quit(q)
	}
	t.Settle(2 * time.Hour) // models may hold timers
	if n := t.Live(); n != base {
		t.Fail("leak", "%s: %d goroutine(s) remain after every subscription was cancelled%s\n%s", m.name, n-base, text(), t.Stacks())
	}
}
