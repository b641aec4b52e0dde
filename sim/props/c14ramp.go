package props

import (
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/verifsim/core"
)

// c14Ramp: a light that ramps stays a register. Its value goes on by itself
// until it is where the last update wants it, or until another update; what an
// update without a ramp writes stays.
func c14Ramp(t *core.T) {
	var r *c14reg
	for _, c := range c14regs {
		if rampy(c) {
			r = c
		}
	}
	x := newC14(t, r)
	dev := x.devs[0]
	for i := t.Int(3); i > 0; i-- {
		x.follow(dev, "", false)
	}
	get := func() *traits.Brightness {
		b, _ := x.read(dev, "", nil).(*traits.Brightness)
		if b == nil {
			x.fail("no-response", "Get returns nothing")
		}
		return clone(b)
	}
	settled := get() // what the value is to be until the next update, nil while it ramps
	var target float32
	var done time.Duration // when a ramp is over
	ramping := func() bool { return settled == nil }
	check := func(when string) {
		now := get()
		switch {
		case !ramping():
			if apart(settled, now, 0) {
				x.fail("changed-by-itself", "%s Get returns %s, the last update left %s", when, txt(now), txt(settled))
			}
		case t.Elapsed() >= done:
			if now.LevelPercent != target || now.TargetLevelPercent != 0 {
				x.fail("ramp-not-done", "%s Get returns %s, the last update was to reach %v", when, txt(now), target)
			}
			settled = now
		}
	}
	t.Repeat(2, 9, func(i int) {
		in := &traits.UpdateBrightnessRequest{Name: dev.name, Brightness: &traits.Brightness{LevelPercent: float32(t.Int(11) * 10)}}
		in.Delta = t.Chance(20)
		if in.Delta {
			in.Brightness.LevelPercent -= 50
		}
		var d time.Duration
		if t.Chance(60) {
			d = core.Choose(t, time.Millisecond, 30*time.Millisecond, 66*time.Millisecond, 70*time.Millisecond, 200*time.Millisecond, time.Second, 10*time.Second)
			in.Brightness.BrightnessTween = &types.Tween{TotalDuration: durationpb.New(d)}
		}
		sent := txt(in)
		out, err := x.call(dev, r.update, in)
		if err != nil {
			// lost against a step of the ramp
			x.note("%s fails: %v", sent, err)
			if !ramping() {
				x.fail("refused", "%s failed: %v", sent, err)
			}
		} else {
			x.note("%s = %s", sent, txt(out))
			b := clone(out).(*traits.Brightness)
			if d > 0 {
				settled, target, done = nil, b.TargetLevelPercent, t.Elapsed()+12*time.Second // an earlier ramp may bring it there too
				t.Count("ramp", 1)
			} else {
				if ramping() {
					t.Count("ramp-interrupted", 1)
					t.Nontrivial()
				}
				settled = b
				check("right after it")
			}
		}
		wait := core.Choose(t, 0, time.Millisecond, 20*time.Millisecond, 65*time.Millisecond, 67*time.Millisecond, 100*time.Millisecond, 134*time.Millisecond, 300*time.Millisecond, time.Second, 20*time.Second)
		if wait > 0 {
			t.Settle(wait)
			x.note("%s later", wait)
		}
		check(fmt.Sprintf("%s later", wait))
	})
	t.Settle(time.Minute)
	check("at the end")
	final := proto.Message(get())
	for _, f := range x.open {
		for _, e := range f.events {
			if e.name != dev.name {
				x.fail("wrong-name", "%s received a change of %q", f, e.name)
			}
		}
		if n := len(f.events); n > 0 && apart(f.events[n-1].value, f.project(final), 0) {
			x.fail("wrong-event", "%s ends with %s but the value is %s", f, txt(f.events[n-1].value), txt(f.project(final)))
		} else if n == 0 && !f.only {
			x.fail("no-seed", "%s never received anything", f)
		}
	}
	x.finish()
}
