package props

import (
	"context"
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

func init() {
	core.Register(&core.Prop{
		ID:         "C10",
		SiteFilter: []string{"internal/minibus/", "pkg/resource/", "pkg/trait/"},
		Rule:       "A run counts as non-trivial when a subscription was cancelled while an event was being delivered or a writer was waiting.",
		Real:       []string{"internal/minibus", "pkg/resource.Value", "pkg/resource.Collection", "models and servers of pkg/trait", "pkg/wrap"},
		Stub:       []string{"readers (scripted pace, may stop reading)", "writers (scripted)"},
		Faults:     []string{"cancel", "cancelled_before_subscribe", "stopped_reading", "long_pause", "send_deadline", "slow_reader"},
		Scenarios: []core.Scenario{
			{Name: "bus", Weight: 6, Leak: true, Run: func(t *core.T) { c10Bus(t, false) }},
			{Name: "bus-stall", Weight: 2, Leak: true, Stall: true, Run: func(t *core.T) { c10Bus(t, true) }},
			{Name: "bus-lossy", Weight: 1, Leak: true, Run: c10Drop},
			{Name: "value", Weight: 3, Leak: true, Run: func(t *core.T) { c10Store(t, true) }},
			{Name: "collection", Weight: 5, Leak: true, Run: func(t *core.T) { c10Store(t, false) }},
			{Name: "removed", Weight: 2, Leak: true, Run: c10Removed},
			{Name: "models", Weight: 6, Leak: true, Run: c10Models},
			{Name: "servers", Weight: 3, Leak: true, Run: c10Servers},
		},
	})
}

const tick = 10 * time.Millisecond

// at runs f after d.
func at(d time.Duration, f func()) {
	if d > 0 {
		time.Sleep(d)
	}
	f()
}

// ---- the bus itself

type busRecv struct {
	ev  [2]int
	seq uint64
	at  time.Duration
}

type busListener struct {
	n         int
	ctx       context.Context
	cancel    context.CancelFunc
	delay     time.Duration // before Listen
	pre       bool          // cancelled before Listen
	stopAfter int           // stop receiving after so many, -1 never
	pace      time.Duration
	cancelAt  time.Duration // -1 never
	cancelOn  int           // cancel in the middle of receiving this many, -1
	probe     bool          // receive again after the cancel

	callSeq, openSeq uint64
	opened           bool
	cancelSeq        uint64
	cancelled        time.Duration
	isCancelled      bool
	got              []busRecv
	closed           bool
	closedAt         time.Duration
	stopped          bool
}

func (l *busListener) String() string {
	s := fmt.Sprintf("listener %d delay=%s pre=%v stopAfter=%d pace=%s cancelAt=%s cancelOn=%d listen=[%d,%d] cancelled=%v@%s(%d) closed=%v@%s got", l.n, l.delay, l.pre, l.stopAfter, l.pace, l.cancelAt, l.cancelOn, l.callSeq, l.openSeq, l.isCancelled, l.cancelled, l.cancelSeq, l.closed, l.closedAt)
	for _, g := range l.got {
		s += fmt.Sprintf(" %d.%d@%s(%d)", g.ev[0], g.ev[1], g.at, g.seq)
	}
	return s
}

type busSend struct {
	ev        [2]int
	ctx       context.Context
	timeout   time.Duration
	inv, resp uint64
	began     time.Duration
	ended     time.Duration
	done      bool
	ok        bool
	ctxDone   bool
}

func (s *busSend) String() string {
	return fmt.Sprintf("send %d.%d timeout=%s [%d,%d] %s..%s done=%v ok=%v", s.ev[0], s.ev[1], s.timeout, s.inv, s.resp, s.began, s.ended, s.done, s.ok)
}

func c10Bus(t *core.T, stalls bool) {
	var bus minibus.Bus
	settle := time.Minute
	if stalls {
		settle = time.Hour
	}
	nl := t.Int(7)
	if t.Chance(5) {
		nl = t.Range(8, 20)
	}
	var ls []*busListener
	for i := 0; i < nl; i++ {
		l := &busListener{n: i, stopAfter: -1, cancelAt: -1, cancelOn: -1}
		l.ctx, l.cancel = context.WithCancel(context.Background())
		if t.Chance(40) {
			l.delay = time.Duration(t.Range(1, 8)) * tick
		}
		switch t.Int(6) {
		case 0, 1:
		case 2:
			l.stopAfter = t.Int(4)
			l.cancelAt = time.Duration(t.Range(0, 10)) * tick
		case 3:
			l.cancelAt = time.Duration(t.Range(0, 10)) * tick
		case 4:
			l.cancelOn = t.Int(4)
		default:
			l.pre = t.Chance(30)
			l.cancelAt = time.Duration(t.Range(0, 10)) * tick
		}
		if t.Chance(15) {
			l.pace = time.Duration(t.Range(1, 3)) * tick
			t.Count("slow_reader", 1)
		}
		l.probe = t.Chance(50)
		ls = append(ls, l)
	}
	var scripts [][]*busSend
	var gaps [][]time.Duration
	ns := t.Range(1, 3)
	if t.Chance(5) {
		ns = t.Range(6, 14)
	}
	for s := ns; s > 0; s-- {
		var sc []*busSend
		var gp []time.Duration
		n := len(scripts)
		t.Repeat(1, 5, func(i int) {
			x := &busSend{ev: [2]int{n, i}}
			if t.Chance(20) {
				x.timeout = time.Duration(t.Range(1, 6)) * tick
			}
			g := time.Duration(0)
			if t.Chance(50) {
				g = time.Duration(t.Range(1, 4)) * tick
			}
			sc, gp = append(sc, x), append(gp, g)
		})
		scripts, gaps = append(scripts, sc), append(gaps, gp)
	}
	paced := stalls
	for _, l := range ls {
		paced = paced || l.pace > 0
	}

	cancel := func(l *busListener) {
		if l.isCancelled {
			return
		}
		l.cancelSeq = t.Seq()
		l.isCancelled, l.cancelled = true, t.Elapsed()
		l.cancel()
		t.Count("cancel", 1)
	}
	run := func(l *busListener) {
		if l.delay > 0 {
			time.Sleep(l.delay)
		}
		if l.pre {
			cancel(l)
			t.Count("cancelled_before_subscribe", 1)
		}
		l.callSeq = t.Seq()
		ch := bus.Listen(l.ctx)
		l.openSeq = t.Seq()
		l.opened = true
		if l.cancelAt >= 0 {
			go at(l.cancelAt, func() { cancel(l) })
		}
		for {
			if l.stopAfter >= 0 && len(l.got) >= l.stopAfter {
				l.stopped = true
				t.Count("stopped_reading", 1)
				if !l.probe {
					return
				}
				<-l.ctx.Done()
				time.Sleep(tick) // the channel has to be closed by then, unless it is about to deliver
			}
			if l.pace > 0 {
				time.Sleep(l.pace)
			}
			if l.cancelOn >= 0 && len(l.got) >= l.cancelOn {
				go cancel(l)
			}
			v, ok := <-ch
			if !ok {
				l.closed, l.closedAt = true, t.Elapsed()
				if t.Logging() {
					t.Logf("listener %d closed", l.n)
				}
				return
			}
			l.got = append(l.got, busRecv{v.([2]int), t.Seq(), t.Elapsed()})
			if t.Logging() {
				t.Logf("listener %d got %v", l.n, v)
			}
			if l.stopped && l.isCancelled && !stalls {
				t.Fail("after-cancel", "an event arrived long after the cancel\n  %s", l)
			}
		}
	}
	text := func() string {
		out := ""
		for _, l := range ls {
			out += "\n    " + l.String()
		}
		for _, sc := range scripts {
			for _, s := range sc {
				out += "\n    " + s.String()
			}
		}
		return out
	}
	fail := func(class, format string, args ...any) {
		t.Fail(class, "%s%s", fmt.Sprintf(format, args...), text())
	}
	for _, l := range ls {
		if l.delay == 0 && t.Chance(50) {
			// present before the first event
			started := make(chan struct{})
			go func() {
				close(started)
				run(l)
			}()
			<-started
		} else {
			go run(l)
		}
	}
	if t.Chance(50) {
		t.Wait()
	}
	for n, sc := range scripts {
		go func() {
			for i, s := range sc {
				if g := gaps[n][i]; g > 0 {
					time.Sleep(g)
				}
				s.ctx = context.Background()
				stop := func() {}
				if s.timeout > 0 {
					s.ctx, stop = context.WithTimeout(s.ctx, s.timeout)
					t.Count("send_deadline", 1)
				}
				s.began = t.Elapsed()
				s.inv = t.Seq()
				ok := bus.Send(s.ctx, s.ev)
				s.resp = t.Seq()
				s.ended, s.ok, s.done = t.Elapsed(), ok, true
				s.ctxDone = s.ctx.Err() != nil
				stop()
				if t.Logging() {
					t.Logf("%s", s)
				}
			}
		}()
	}
	t.Settle(settle)

	// ---- every listener is by now either reading or cancelled
	for _, sc := range scripts {
		for _, s := range sc {
			if !s.done {
				fail("stuck", "a Send has not returned although every listener reads or was cancelled\n%s", t.Stacks())
			}
			if !s.ok && !s.ctxDone {
				fail("send-result", "Send returned false although its context was live: %s", s)
			}
			if s.ended == s.began {
				continue
			}
			// It waited: nothing but a cancel, its deadline or a slow reader explains it.
			why := paced || (s.timeout > 0 && s.ended == s.began+s.timeout)
			for _, l := range ls {
				if l.isCancelled && l.cancelled == s.ended {
					why = true
				}
			}
			if !why {
				fail("stalled", "a Send returned late for no reason: %s", s)
			}
			t.Nontrivial()
		}
	}
	byEv := map[[2]int]*busSend{}
	for _, sc := range scripts {
		for _, s := range sc {
			byEv[s.ev] = s
		}
	}
	for _, l := range ls {
		seen := map[[2]int]bool{}
		lastOf := map[int]int{}
		for _, g := range l.got {
			if seen[g.ev] {
				fail("duplicate", "event %v was received twice by listener %d", g.ev, l.n)
			}
			seen[g.ev] = true
			if p, ok := lastOf[g.ev[0]]; ok && p > g.ev[1] {
				fail("order", "events of sender %d arrived out of order at listener %d", g.ev[0], l.n)
			}
			lastOf[g.ev[0]] = g.ev[1]
			if s := byEv[g.ev]; s.resp < l.callSeq {
				fail("ghost", "event %v was over before listener %d existed", g.ev, l.n)
			} else if g.seq < s.inv {
				fail("ghost", "event %v arrived before it was sent", g.ev)
			}
		}
		for _, sc := range scripts {
			for _, s := range sc {
				if s.ok && !seen[s.ev] && l.opened && l.openSeq < s.inv && (!l.isCancelled || l.cancelSeq > s.resp) && !l.stopped {
					fail("lost", "event %v was not received by listener %d, which was live for the whole send", s.ev, l.n)
				}
			}
		}
		if l.isCancelled && !l.stopped {
			if !l.closed {
				fail("not-closed", "the channel of listener %d was not closed after the cancel\n%s", l.n, t.Stacks())
			}
			if !paced && l.opened && l.closedAt != l.cancelled && !(l.pre && l.closedAt >= l.cancelled) {
				fail("not-closed", "the channel of listener %d was closed late", l.n)
			}
		}
		if l.isCancelled && l.stopped && l.probe && !l.closed {
			fail("not-closed", "the channel of listener %d was not closed after the cancel\n%s", l.n, t.Stacks())
		}
		if !l.isCancelled && l.closed {
			fail("closed", "the channel of listener %d was closed without a cancel", l.n)
		}
	}
	// The run's own goroutine, the reading listeners and their forwarders.
	for _, l := range ls {
		cancel(l)
	}
	t.Settle(settle)
	if n := t.Live(); n != 1 {
		fail("leak", "%d goroutine(s) remain after every listener was cancelled\n%s", n-1, t.Stacks())
	}
	// A bus without listeners delivers at once.
	if began := t.Elapsed(); !bus.Send(context.Background(), [2]int{-1, 0}) || t.Elapsed() != began {
		if !stalls {
			fail("stuck", "Send on a bus without listeners")
		}
	}
}

// c10Drop is DropExcess between a bus and a reader that may go away.
func c10Drop(t *core.T) {
	var bus minibus.Bus
	ctx, cancel := context.WithCancel(context.Background())
	in := bus.Listen(ctx)
	out := minibus.DropExcess(in)
	n := t.Range(1, 6)
	reads := t.Int(n + 1)
	cancelAt := time.Duration(t.Range(0, 6)) * tick
	pace := time.Duration(t.Int(4)) * tick
	drain := t.Chance(50)
	gaps := make([]time.Duration, n)
	for i := range gaps {
		gaps[i] = time.Duration(t.Int(3)) * tick
	}
	var got []int
	closed := false
	go func() {
		for i := 0; drain || i < reads; i++ {
			if pace > 0 {
				time.Sleep(pace)
			}
			v, ok := <-out
			if !ok {
				closed = true
				return
			}
			got = append(got, v.(int))
		}
		t.Count("stopped_reading", 1)
	}()
	var late time.Duration
	go func() {
		for i := 0; i < n; i++ {
			if gaps[i] > 0 {
				time.Sleep(gaps[i])
			}
			b := t.Elapsed()
			bus.Send(context.Background(), i)
			if d := t.Elapsed() - b; d > late {
				late = d
			}
		}
	}()
	go at(cancelAt, func() { cancel(); t.Count("cancel", 1); t.Nontrivial() })
	t.Settle(time.Minute)
	if late > 0 {
		t.Fail("stalled", "a lossy listener delayed a Send by %s", late)
	}
	for i := 1; i < len(got); i++ {
		if got[i] <= got[i-1] {
			t.Fail("order", "received %v", got)
		}
	}
	if drain && !closed {
		t.Fail("not-closed", "the channel was not closed after the cancel; received %v", got)
	}
	if live := t.Live(); live != 1 {
		t.Fail("leak", "%d goroutine(s) remain after the cancel\n%s", live-1, t.Stacks())
	}
}

// ---- resources

// quitter is a subscription that is cancelled at some moment.
type quitter struct {
	*sub
	delay     time.Duration
	pre       bool
	stopAfter int
	cancelAt  time.Duration // after subscribing; -1 never
	cancelOn  int

	stopped     bool
	isCancelled bool
	cancelled   time.Duration
	cancelSeq   uint64
}

func (q *quitter) String() string {
	return fmt.Sprintf("%s delay=%s pre=%v stopAfter=%d cancelAt=%s cancelOn=%d cancelled=%v@%s(%d) closed=%v@%s", q.sub, q.delay, q.pre, q.stopAfter, q.cancelAt, q.cancelOn, q.isCancelled, q.cancelled, q.cancelSeq, q.closed, q.closedAt)
}

// drawScale sometimes stretches a run to days.
func drawScale(t *core.T) time.Duration {
	if !t.Chance(6) {
		return 1
	}
	t.Count("long_pause", 1)
	return core.Choose[time.Duration](t, 1000, 30_000, 1_000_000)
}

func drawQuitter(t *core.T, n int, isVal bool, ids []string, scale time.Duration) *quitter {
	q := &quitter{sub: drawSub(t, n, isVal, ids), stopAfter: -1, cancelAt: -1, cancelOn: -1}
	q.ctx, q.cancel = context.WithCancel(context.Background())
	if !isVal && !q.single && t.Chance(20) {
		q.pred = drawPredicate(t, ids)
	}
	if t.Chance(50) {
		q.delay = time.Duration(t.Range(1, 8)) * tick
	}
	defer func() {
		q.delay *= scale
		if q.cancelAt > 0 {
			q.cancelAt *= scale
		}
	}()
	switch t.Int(6) {
	case 0:
	case 1, 2:
		q.stopAfter = t.Int(4)
		q.cancelAt = time.Duration(t.Range(0, 12)) * tick
	case 3:
		q.cancelAt = time.Duration(t.Range(0, 12)) * tick
	case 4:
		q.cancelOn = t.Int(4)
	default:
		q.pre = t.Chance(40)
		q.cancelAt = time.Duration(t.Range(0, 3)) * tick
	}
	return q
}

func (q *quitter) quit() {
	if q.isCancelled {
		return
	}
	q.cancelSeq = q.t.Seq()
	q.isCancelled, q.cancelled = true, q.t.Elapsed()
	q.cancel()
	q.t.Count("cancel", 1)
	if q.t.Logging() {
		q.t.Logf("sub %d cancelled", q.n)
	}
}

func (q *quitter) run(s *store) {
	t := q.t
	if q.delay > 0 {
		time.Sleep(q.delay)
	}
	if q.pre {
		q.quit()
		t.Count("cancelled_before_subscribe", 1)
	}
	q.open(s)
	if q.cancelAt >= 0 {
		go at(q.cancelAt, q.quit)
	}
	for {
		if q.stopAfter >= 0 && len(q.events) >= q.stopAfter {
			q.stopped = true
			t.Count("stopped_reading", 1)
			<-q.ctx.Done()
			time.Sleep(tick)
			if e := q.next(); e != nil {
				t.Fail("after-cancel", "an event arrived long after the cancel: %s\n  %s", e, q)
			}
			q.closed, q.closedAt = true, t.Elapsed()
			return
		}
		if q.cancelOn >= 0 && len(q.events) >= q.cancelOn {
			go q.quit()
		}
		e := q.next()
		if e == nil {
			q.closed, q.closedAt = true, t.Elapsed()
			if t.Logging() {
				t.Logf("sub %d closed", q.n)
			}
			return
		}
		q.events = append(q.events, e)
		if t.Logging() {
			t.Logf("sub %d: %s", q.n, e)
		}
	}
}

func c10Store(t *core.T, isVal bool) {
	ids := []string{"a", "b"}[:t.Range(1, 2)]
	s, initial := newStore(t, isVal, ids)
	g := &opGen{kinds: [6]int{opAdd: 2, opUpdate: 5, opDelete: 3}, ids: ids}
	if isVal {
		g = &opGen{kinds: [6]int{opSet: 1}}
	}
	nw, scale := t.Range(1, 2), drawScale(t)
	scripts := writeScripts(t, g, nw, 4)
	gaps := make([][]time.Duration, nw)
	for w, sc := range scripts {
		for _, o := range sc {
			o.expVal, o.chk = nil, nil
			if o.kind == opUpdate {
				o.create, o.absent = true, false
			}
			d := time.Duration(0)
			if t.Chance(60) {
				d = time.Duration(t.Range(1, 5)) * tick * scale
			}
			gaps[w] = append(gaps[w], d)
		}
	}
	var qs []*quitter
	for i, n := 0, t.Range(1, 5); i < n; i++ {
		qs = append(qs, drawQuitter(t, i, isVal, ids, scale))
	}
	for _, q := range qs {
		go q.run(s)
	}
	if t.Chance(50) {
		t.Wait()
	}
	type timed struct {
		h            *hop
		began, ended time.Duration
		done         bool
	}
	var ws []*timed
	for w, sc := range scripts {
		go func() {
			for i, o := range sc {
				if d := gaps[w][i]; d > 0 {
					time.Sleep(d)
				}
				x := &timed{h: &hop{op: o}, began: t.Elapsed()}
				ws = append(ws, x)
				x.h.inv = t.Seq()
				x.h.ret, x.h.ok, _, x.h.err = s.exec(o, &x.h.ob)
				x.h.resp = t.Seq()
				x.ended, x.done = t.Elapsed(), true
				if t.Logging() {
					t.Logf("%s (%s)", x.h, x.ended-x.began)
				}
			}
		}()
	}
	t.Settle(time.Minute * scale)
	var hs []*hop
	for _, x := range ws {
		hs = append(hs, x.h)
	}
	fail := func(class, format string, args ...any) {
		out := ""
		for _, q := range qs {
			out += "\n    " + q.String() + eventsText(q.events)
		}
		for _, x := range ws {
			out += fmt.Sprintf("\n    %s..%s %s", x.began, x.ended, x.h)
		}
		t.Fail(class, "%s\n  initial %s%s", fmt.Sprintf(format, args...), initial, out)
	}
	for _, x := range ws {
		if !x.done {
			fail("stuck", "a write has not returned although every subscriber reads or was cancelled\n%s", t.Stacks())
		}
		if x.ended == x.began {
			continue
		}
		why := isVal && x.ended == x.began+5*time.Second
		for _, q := range qs {
			if q.isCancelled && q.cancelled == x.ended {
				why = true
			}
		}
		if !why {
			fail("stalled", "a write returned late for no reason: %s", x.h)
		}
		t.Nontrivial()
		if x.h.err != nil && x.ended != x.began+5*time.Second {
			fail("write-error", "a write that waited for a cancelled subscriber failed: %s", x.h)
		}
	}
	// Those that stayed see everything.
	final := map[string]proto.Message{}
	if !isVal {
		for _, id := range ids {
			if m, ok := s.col.Get(id); ok {
				final[id] = m
			}
		}
	}
	for _, q := range qs {
		if !q.opened {
			fail("stuck", "subscribing has not returned\n%s", t.Stacks())
		}
		if q.isCancelled {
			if !q.closed {
				fail("not-closed", "the channel of sub %d was not closed after the cancel\n%s", q.n, t.Stacks())
			}
			if !q.stopped && q.closedAt > q.cancelled && !q.pre {
				fail("not-closed", "the channel of sub %d was closed late", q.n)
			}
			continue
		}
		timedOut := false
		for _, x := range ws {
			timedOut = timedOut || (x.h.err != nil && x.ended > x.began)
		}
		switch {
		case timedOut:
		case isVal:
			c03Value(t, q.sub, hs, s.val.Get())
		case q.pred != nil:
		case q.single:
			c03Single(t, q.sub, hs, initial, final)
		default:
			c03Collection(t, q.sub, ids, hs, initial, final)
		}
	}
	for _, q := range qs {
		q.quit()
	}
	t.Settle(time.Minute)
	if n := t.Live(); n != 1 {
		fail("leak", "%d goroutine(s) remain after every subscription was cancelled\n%s", n-1, t.Stacks())
	}
}

// c10Removed is about single item subscriptions that are never cancelled: they
// end with the item.
func c10Removed(t *core.T) {
	ids := []string{"a", "b"}
	s, _ := newStore(t, false, ids)
	var qs []*quitter
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		su := drawSub(t, i, false, ids)
		su.single = t.Chance(85)
		if su.single {
			su.pullID = ids[t.Int(2)]
			if t.Chance(20) {
				su.pred = &predicate{values: [4]bool{true, true, true, true}, onNil: t.Chance(50)}
			}
		} else {
			su.pullID = ""
		}
		su.ctx, su.cancel = context.WithCancel(context.Background())
		q := &quitter{sub: su, stopAfter: -1, cancelAt: -1, cancelOn: -1}
		if t.Chance(40) {
			q.delay = time.Duration(t.Range(1, 5)) * tick
		}
		qs = append(qs, q)
		go q.run(s)
	}
	var hs []*hop
	do := func(o *wop) {
		h := &hop{op: o, inv: t.Seq()}
		h.ret, h.ok, _, h.err = s.exec(o, &h.ob)
		h.resp = t.Seq()
		hs = append(hs, h)
		if t.Logging() {
			t.Logf("%s", h)
		}
	}
	g := &opGen{kinds: [6]int{opAdd: 2, opUpdate: 5, opDelete: 3}, ids: ids}
	for _, o := range writeScripts(t, g, 1, 5)[0] {
		o.expVal, o.chk = nil, nil
		if t.Chance(50) {
			time.Sleep(time.Duration(t.Range(1, 3)) * tick)
		}
		do(o)
	}
	rest := time.Second
	if t.Chance(10) {
		rest = drawLong(t)
	}
	t.Settle(rest)
	// Each item exists and is then removed, with everyone idle in between.
	for _, id := range ids {
		do(&wop{kind: opUpdate, id: id, create: true, msg: smallMsg(t)})
	}
	t.Settle(rest)
	for _, id := range ids {
		do(&wop{kind: opDelete, id: id})
	}
	t.Settle(time.Second)
	for _, q := range qs {
		if q.single {
			t.Nontrivial()
			if !q.closed {
				t.Fail("not-closed", "the item was removed but the stream did not end\n  %s%s\n  history:%s\n%s", q, eventsText(q.events), historyText(hs), t.Stacks())
			}
		} else {
			if q.closed {
				t.Fail("closed", "the stream ended without a cancel\n  %s", q)
			}
			q.quit()
		}
	}
	t.Settle(time.Minute)
	if n := t.Live(); n != 1 {
		t.Fail("leak", "%d goroutine(s) remain after every item was removed\n  history:%s\n%s", n-1, historyText(hs), t.Stacks())
	}
}
