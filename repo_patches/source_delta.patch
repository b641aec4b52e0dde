From 535fa103e421c74030f3930d519710ab5756fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 01/62] fix: store generated collection ids under their
 intercepted form

---
 pkg/resource/collection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 82fba45..604f472 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -343,13 +343,17 @@ func (c *Collection) itemSlice(readConfig *ReadRequest) []idItem {
 }
 
 func (c *Collection) genID() (string, error) {
-	return GenerateUniqueId(c.rng, func(candidate string) bool {
+	id, err := GenerateUniqueId(c.rng, func(candidate string) bool {
 		if c.idInterceptor != nil {
 			candidate = c.idInterceptor(candidate)
 		}
 		_, exists := c.byId[candidate]
 		return exists
 	})
+	if err == nil && c.idInterceptor != nil {
+		id = c.idInterceptor(id) // the id is looked up using its intercepted form
+	}
+	return id, err
 }
 
 type item struct {
-- 
2.43.0


From 8b343dfe6045452d07fbac0db2712f4dd565a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 02/62] fix: a nested update mask path absent from the update
 only clears that path

---
 pkg/masks/update.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index cdf66a0..22d4d70 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -104,11 +104,12 @@ func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
 		if !ok {
 			return true
 		}
-		if !srcPr.Has(d) {
+		nested := d.Kind() == protoreflect.MessageKind && d.Cardinality() != protoreflect.Repeated
+		if !srcPr.Has(d) && (!nested || len(fieldMask) == 0) {
 			dstPr.Clear(d)
 			return true
 		}
-		if d.Kind() == protoreflect.MessageKind && d.Cardinality() != protoreflect.Repeated {
+		if nested {
 			pruneEmpty(dstPr.Get(d).Message().Interface(), srcPr.Get(d).Message().Interface(), fieldMask)
 		}
 		return true
-- 
2.43.0


From 373ceacd8c49411836d30f99419c9795d1c360da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 03/62] fix: Value honours WithExpectAbsent

---
 pkg/resource/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 1a81a43..d193712 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -62,6 +62,9 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
 		func() (proto.Message, error) {
+			if request.expectAbsent && r.value != nil {
+				return nil, ExpectAbsentPreconditionFailed
+			}
 			return r.value, nil
 		},
 		request.changeFn(writer, value),
-- 
2.43.0


From 0a9d1106a2e57403bce7bd471968dc895cd12723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 04/62] fix: concurrent creates of one collection id do not
 overwrite each other

---
 pkg/resource/atomic.go     | 8 ++++++--
 pkg/resource/collection.go | 7 +++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/atomic.go b/pkg/resource/atomic.go
index 2753f30..e553236 100644
--- a/pkg/resource/atomic.go
+++ b/pkg/resource/atomic.go
@@ -29,7 +29,8 @@ type SaveFn func(msg proto.Message)
 // mu.Lock will be held during the save call.
 // No locks will be held during the change call.
 //
-// An error will be returned if the value returned by get changes during the change call.
+// An error will be returned if the value returned by get changes during the change call,
+// or if get no longer succeeds after the change call.
 func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (oldValue proto.Message, newValue proto.Message, err error) {
 	mu.RLock()
 	oldValue, err = get()
@@ -45,7 +46,10 @@ func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (ol
 
 	mu.Lock()
 	defer mu.Unlock()
-	oldValueAgain, _ := get()
+	oldValueAgain, err := get()
+	if err != nil {
+		return oldValue, newValue, err
+	}
 	if !proto.Equal(oldValue, oldValueAgain) {
 		return oldValue, newValue, status.Errorf(codes.Aborted, "concurrent update detected")
 	}
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 604f472..990024e 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -109,6 +109,13 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		&c.mu,
 		func() (item proto.Message, err error) {
 			if created != nil {
+				// check again, a concurrent call may have created the item since we last looked
+				if _, exists := c.byId[id]; exists {
+					if writeRequest.expectAbsent {
+						return nil, ExpectAbsentPreconditionFailed
+					}
+					return nil, status.Error(codes.Aborted, "concurrent update detected")
+				}
 				return created, nil
 			}
 
-- 
2.43.0


From 9e96cbbf7840aba932548121b046c1eb242894fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 05/62] fix: publish resource changes in the order they are
 committed

Events were sent after releasing the lock, so concurrent writers could publish
in a different order than they committed and subscribers ended up with stale
views. Events are now queued per listener while the lock is held and delivered
after it is released. Collection.Delete no longer blocks readers while it waits
for subscribers.
---
 internal/minibus/bus.go    | 196 +++++++++++++++++++++++++------------
 pkg/resource/collection.go |  34 ++++---
 pkg/resource/value.go      |  12 ++-
 3 files changed, 158 insertions(+), 84 deletions(-)

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index d90ab28..baa08d6 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -10,106 +10,174 @@ type Bus struct {
 	listeners []*listener
 }
 
+// Send delivers event to all current listeners, waiting for each of them to receive it.
+// Send returns false if ctx is done before all the listeners have received the event,
+// listeners that haven't received the event by then won't be sent it.
 func (b *Bus) Send(ctx context.Context, event any) (ok bool) {
-	// create a copy of the listeners so avoid holding the mutex a long time
-	var listeners []*listener
+	return b.Publish(event).Wait(ctx)
+}
+
+// Publish queues event for delivery to all current listeners without waiting for them to receive it.
+// Each listener receives events in the order they were published.
+// The caller must call Wait on the returned Delivery.
+func (b *Bus) Publish(event any) *Delivery {
 	b.listenerM.RLock()
+	defer b.listenerM.RUnlock()
+
+	d := &Delivery{
+		event:     event,
+		pending:   len(b.listeners),
+		delivered: make(chan struct{}),
+		abandoned: make(chan struct{}),
+	}
+	if d.pending == 0 {
+		close(d.delivered)
+	}
 	for _, l := range b.listeners {
-		listeners = append(listeners, l)
+		l.push(d)
 	}
-	b.listenerM.RUnlock()
-
-	needGc := false
+	return d
+}
 
-	// send the event to each listener that's not closed
-	for _, l := range listeners {
-		ok, active := l.send(ctx, event)
-		if !ok {
-			return false
-		}
-		if !active {
-			// the listen context on this listener has been cancelled, we need to collect the garbage
-			needGc = true
-		}
+// Listen returns a chan that receives all events sent after Listen returns.
+// The chan will be closed when ctx is done.
+func (b *Bus) Listen(ctx context.Context) <-chan any {
+	l := &listener{
+		ch:   make(chan any),
+		ctx:  ctx,
+		wake: make(chan struct{}, 1),
 	}
 
-	if needGc {
-		b.collect()
-	}
+	// store the listener
+	b.listenerM.Lock()
+	b.listeners = append(b.listeners, l)
+	b.listenerM.Unlock()
+
+	go func() {
+		defer close(l.ch)
+		l.forward()
+		b.remove(l)
+		l.drain()
+	}()
 
-	return true
+	return l.ch
 }
 
-func (b *Bus) collect() {
+func (b *Bus) remove(l *listener) {
 	b.listenerM.Lock()
 	defer b.listenerM.Unlock()
 
 	var activeListeners []*listener
-	for _, l := range b.listeners {
-		if l.alive() {
-			activeListeners = append(activeListeners, l)
+	for _, other := range b.listeners {
+		if other != l {
+			activeListeners = append(activeListeners, other)
 		}
 	}
-
 	b.listeners = activeListeners
 }
 
-func (b *Bus) Listen(ctx context.Context) <-chan any {
-	ch := make(chan any)
+// Delivery tracks an event on its way to the listeners.
+type Delivery struct {
+	event any
 
-	l := &listener{
-		ch:  ch,
-		ctx: ctx,
-	}
+	m         sync.Mutex
+	pending   int           // number of listeners that haven't received the event yet
+	delivered chan struct{} // closed when pending reaches 0
+	abandoned chan struct{} // closed when nobody waits for delivery anymore
+}
 
-	go func() {
-		<-ctx.Done()
-		l.stop()
-	}()
+// Wait waits for all listeners to have received the event.
+// Listeners that have been cancelled are not waited for.
+// If ctx is done first then false is returned and any remaining listeners won't be sent the event.
+func (d *Delivery) Wait(ctx context.Context) (ok bool) {
+	select {
+	case <-d.delivered:
+		return true
+	default:
+	}
 
-	// store the listener
-	b.listenerM.Lock()
-	defer b.listenerM.Unlock()
-	b.listeners = append(b.listeners, l)
+	select {
+	case <-d.delivered:
+		return true
+	case <-ctx.Done():
+		close(d.abandoned)
+		return false
+	}
+}
 
-	return ch
+func (d *Delivery) done() {
+	d.m.Lock()
+	defer d.m.Unlock()
+	d.pending--
+	if d.pending == 0 {
+		close(d.delivered)
+	}
 }
 
 type listener struct {
-	m   sync.RWMutex
-	ch  chan any
-	ctx context.Context
+	ch   chan any
+	ctx  context.Context
+	wake chan struct{} // has capacity 1, signals that the queue isn't empty
+
+	m     sync.Mutex
+	queue []*Delivery
 }
 
-func (l *listener) send(ctx context.Context, event any) (ok bool, active bool) {
-	l.m.RLock()
-	defer l.m.RUnlock()
+func (l *listener) push(d *Delivery) {
+	l.m.Lock()
+	l.queue = append(l.queue, d)
+	l.m.Unlock()
 
 	select {
-	case <-ctx.Done():
-		// send context cancelled
-		return false, true
-
-	case <-l.ctx.Done():
-		// listen context cancelled
-		// this is considered a success even though the message is not sent
-		return true, false
-
-	case l.ch <- event:
-		// event sent successfully
-		return true, true
+	case l.wake <- struct{}{}:
+	default:
 	}
 }
 
-func (l *listener) stop() {
+// pop removes and returns the first delivery in the queue, or nil if the queue is empty.
+func (l *listener) pop() *Delivery {
 	l.m.Lock()
 	defer l.m.Unlock()
-	if l.ch != nil {
-		close(l.ch)
-		l.ch = nil
+	if len(l.queue) == 0 {
+		return nil
+	}
+	d := l.queue[0]
+	l.queue = l.queue[1:]
+	return d
+}
+
+// forward sends queued events to ch until ctx is done.
+func (l *listener) forward() {
+	for {
+		d := l.pop()
+		if d == nil {
+			select {
+			case <-l.ctx.Done():
+				return
+			case <-l.wake:
+				continue
+			}
+		}
+
+		select {
+		case <-l.ctx.Done():
+			// listen context cancelled
+			// this is considered a success even though the message is not sent
+			d.done()
+			return
+		case <-d.abandoned:
+			// send context cancelled
+			d.done()
+		case l.ch <- d.event:
+			// event sent successfully
+			d.done()
+		}
 	}
 }
 
-func (l *listener) alive() bool {
-	return l.ctx.Err() == nil
+// drain completes all the deliveries left in the queue.
+func (l *listener) drain() {
+	for d := l.pop(); d != nil; d = l.pop() {
+		d.done()
+	}
 }
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 990024e..c2ae03e 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -104,8 +104,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		return nil, err
 	}
 
+	var delivery *minibus.Delivery
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
-	oldValue, newValue, err := GetAndUpdate(
+	_, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
 			if created != nil {
@@ -148,7 +149,20 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		},
 		writeRequest.changeFn(writer, msg),
 		func(msg proto.Message) {
-			c.byId[id] = &item{body: msg, changeTime: writeRequest.updateTime(c.clock)}
+			item := &item{body: msg, changeTime: writeRequest.updateTime(c.clock)}
+			change := &CollectionChange{
+				Id:         id,
+				ChangeTime: item.changeTime,
+				ChangeType: types.ChangeType_ADD,
+				NewValue:   msg,
+			}
+			if old, exists := c.byId[id]; exists {
+				change.ChangeType = types.ChangeType_UPDATE
+				change.OldValue = old.body
+			}
+			c.byId[id] = item
+			// publish while holding the lock so that events are in the same order as the changes they describe
+			delivery = c.bus.Publish(change)
 		})
 
 	if err != nil {
@@ -157,18 +171,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		}
 		return nil, err
 	}
-	changeType := types.ChangeType_UPDATE
-	if oldValue == nil || created != nil {
-		changeType = types.ChangeType_ADD
-		oldValue = nil
-	}
-	c.bus.Send(context.TODO(), &CollectionChange{
-		Id:         id,
-		ChangeTime: writeRequest.updateTime(c.clock),
-		ChangeType: changeType,
-		OldValue:   oldValue,
-		NewValue:   newValue,
-	})
+	delivery.Wait(context.TODO())
 	return newValue, nil
 }
 
@@ -214,13 +217,14 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 
 		// actually do the delete
 		delete(c.byId, id)
-		c.bus.Send(context.TODO(), &CollectionChange{
+		delivery := c.bus.Publish(&CollectionChange{
 			Id:         id,
 			ChangeTime: c.clock.Now(),
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
 		c.mu.Unlock()
+		delivery.Wait(context.TODO())
 		return oldVal.body, nil
 	}
 
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index d193712..938054e 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -58,6 +58,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		return nil, err
 	}
 
+	var delivery *minibus.Delivery
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
@@ -71,6 +72,11 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		func(message proto.Message) {
 			r.value = message
 			r.changeTime = request.updateTime(r.clock)
+			// publish while holding the lock so that events are in the same order as the changes they describe
+			delivery = r.bus.Publish(&ValueChange{
+				Value:      message,
+				ChangeTime: r.changeTime,
+			})
 		},
 	)
 	disarm()
@@ -81,11 +87,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 
 	ctx, cancel := context.WithTimeout(context.TODO(), time.Second*5)
 	defer cancel()
-	r.bus.Send(ctx, &ValueChange{
-		Value:      newValue,
-		ChangeTime: request.updateTime(r.clock),
-	})
-	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
+	if !delivery.Wait(ctx) {
 		return nil, errors.New("bus.Send blocked for too long")
 	}
 
-- 
2.43.0


From b333a6735d26475404c9e958c54da2f09b46cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 06/62] fix: a single item subscription releases its collection
 subscription when it ends

---
 pkg/resource/collection.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index c2ae03e..2c7e003 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -293,9 +293,13 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 	}
 
 	send := make(chan *ValueChange)
+	ctx, stop := context.WithCancel(ctx)
+	// subscribe before returning, changes made after that should be reported
+	changes := c.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range c.Pull(ctx, opts...) {
+		defer stop() // we might return before changes is closed
+		for change := range changes {
 			if change.Id != id {
 				continue
 			}
@@ -313,7 +317,7 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 			select {
 			case <-ctx.Done():
 				return
-			case send <- &ValueChange{ChangeTime: change.ChangeTime, Value: change.NewValue, SeedValue: change.SeedValue, LastSeedValue: change.LastSeedValue}:
+			case send <- &ValueChange{ChangeTime: change.ChangeTime, Value: change.NewValue, SeedValue: change.SeedValue, LastSeedValue: change.SeedValue}:
 			}
 		}
 	}()
-- 
2.43.0


From 17b0ca25ada5b4baafb82021d25731cee68025c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 07/62] fix: message comparers treat unset change_time as
 ignored and unset floats as zero

---
 pkg/cmp/cmp.go | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/pkg/cmp/cmp.go b/pkg/cmp/cmp.go
index 5d37979..fdd8927 100644
--- a/pkg/cmp/cmp.go
+++ b/pkg/cmp/cmp.go
@@ -42,34 +42,55 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 		return false
 	}
 
-	nx := 0
 	equal := true
 	mx.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
-		nx++
-		vy := my.Get(fd)
-		equal = my.Has(fd) && eq.equalField(fd, vx, vy)
+		if my.Has(fd) {
+			equal = eq.equalField(fd, vx, my.Get(fd))
+		} else {
+			equal = eq.equalAbsent(fd, vx, my.Get(fd))
+		}
 		return equal
 	})
 	if !equal {
 		return false
 	}
-	ny := 0
-	my.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
-		ny++
-		return true
+	my.Range(func(fd pref.FieldDescriptor, vy pref.Value) bool {
+		if !mx.Has(fd) {
+			equal = eq.equalAbsent(fd, mx.Get(fd), vy)
+		}
+		return equal
 	})
-	if nx != ny {
+	if !equal {
 		return false
 	}
 
 	return eq.equalUnknown(mx.GetUnknown(), my.GetUnknown())
 }
 
+// ignored returns whether fd plays no part in the comparison.
+// This is the case we've added, ignore PullResponse.Change.change_time
+func ignored(fd pref.FieldDescriptor) bool {
+	return fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change"
+}
+
+// equalAbsent compares a field that is populated in only one of the messages, one of x and y is the default value.
+func (eq equator) equalAbsent(fd pref.FieldDescriptor, x, y pref.Value) bool {
+	if ignored(fd) {
+		return true
+	}
+	// without presence the field still has a value, the default, which custom comparisons might accept
+	if eq.cmpValue != nil && !fd.HasPresence() && !fd.IsList() && !fd.IsMap() {
+		if equal, ok := eq.cmpValue(fd, x, y); ok {
+			return equal
+		}
+	}
+	return false
+}
+
 // equalField compares two fields.
 func (eq equator) equalField(fd pref.FieldDescriptor, x, y pref.Value) bool {
 	switch {
-	// This is the case we've added, ignore PullResponse.Change.change_time
-	case fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change":
+	case ignored(fd):
 		return true
 	case fd.IsList():
 		return eq.equalList(fd, x.List(), y.List())
-- 
2.43.0


From 69d94b51152d017396dda95a87685d57e90392a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 08/62] fix: FloatValueApprox is reflexive for NaN and
 infinities

---
 pkg/cmp/number.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cmp/number.go b/pkg/cmp/number.go
index b874ff2..9840f7c 100644
--- a/pkg/cmp/number.go
+++ b/pkg/cmp/number.go
@@ -14,6 +14,12 @@ func FloatValueApprox(fraction, margin float64) Value {
 			return false, false
 		}
 		fx, fy := x.Float(), y.Float()
+		if math.IsNaN(fx) || math.IsNaN(fy) {
+			return math.IsNaN(fx) && math.IsNaN(fy), true
+		}
+		if math.IsInf(fx, 0) || math.IsInf(fy, 0) {
+			return fx == fy, true // differences and fractions of infinity are meaningless
+		}
 		relMarg := fraction * math.Min(math.Abs(fx), math.Abs(fy))
 		return math.Abs(fx-fy) <= math.Max(margin, relMarg), true
 	}
-- 
2.43.0


From cf6275cbb4f656206a009c095c1915034b5c6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 09/62] fix: duration comparers are reflexive, symmetric and
 don't overflow

---
 pkg/cmp/time.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pkg/cmp/time.go b/pkg/cmp/time.go
index f7b980a..cb4c5bf 100644
--- a/pkg/cmp/time.go
+++ b/pkg/cmp/time.go
@@ -1,6 +1,7 @@
 package cmp
 
 import (
+	"math"
 	"time"
 
 	pref "google.golang.org/protobuf/reflect/protoreflect"
@@ -45,10 +46,7 @@ func DurationValueWithin(d time.Duration) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		if xd < yd {
-			return yd-xd <= d, true
-		}
-		return xd-yd <= d, true
+		return durationDiff(xd, yd) <= d, true
 	}
 }
 
@@ -59,12 +57,21 @@ func DurationValueWithinP(p float32) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		pd := float32(xd) / float32(yd)
-		if pd < 0 {
-			pd = -pd
-		}
-		return pd < p, true
+		margin := float64(p) / 100 * math.Min(math.Abs(float64(xd)), math.Abs(float64(yd)))
+		return math.Abs(float64(xd)-float64(yd)) <= margin, true
+	}
+}
+
+// durationDiff returns the absolute difference between x and y, or the maximum duration if that is larger.
+func durationDiff(x, y time.Duration) time.Duration {
+	if x < y {
+		x, y = y, x
+	}
+	diff := x - y
+	if diff < 0 {
+		return math.MaxInt64 // overflow
 	}
+	return diff
 }
 
 func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration, equal, ok, returnEarly bool) {
-- 
2.43.0


From f4db9f7e9a1122a5492b7a00028820925cca2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 10/62] fix: Delete honours WithWriteTime

---
 pkg/resource/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 2c7e003..802db7e 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -219,7 +219,7 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 		delete(c.byId, id)
 		delivery := c.bus.Publish(&CollectionChange{
 			Id:         id,
-			ChangeTime: c.clock.Now(),
+			ChangeTime: args.updateTime(c.clock),
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
-- 
2.43.0


From ed41c19d0dd8c3981a4a815525d268458192efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 11/62] fix: equivalence compares changes with the value the
 subscriber was last sent

---
 pkg/resource/collection.go | 22 ++++++++++++++++++++--
 pkg/resource/value.go      |  5 +++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 802db7e..b77b2c4 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -241,6 +241,9 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 	go func() {
 		defer close(send)
 
+		// the values the receiver has been sent, used to decide if later values are equivalent
+		held := make(map[string]proto.Message)
+
 		if len(currentValues) > 0 {
 			sort.Slice(currentValues, func(i, j int) bool {
 				return currentValues[i].id < currentValues[j].id
@@ -256,6 +259,9 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 					LastSeedValue: i == lastIndex,
 				}
 				change = change.filter(filter)
+				if c.equivalence != nil {
+					held[change.Id] = change.NewValue
+				}
 				select {
 				case <-ctx.Done():
 					return
@@ -271,8 +277,20 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 				continue
 			}
 			change = change.filter(filter)
-			if c.equivalence != nil && c.equivalence.Compare(change.OldValue, change.NewValue) {
-				continue
+			if c.equivalence != nil {
+				if change.NewValue == nil {
+					delete(held, change.Id)
+				} else {
+					last, ok := held[change.Id]
+					if !ok && change.OldValue != nil {
+						last, ok = change.OldValue, true
+						held[change.Id] = last
+					}
+					if ok && c.equivalence.Compare(last, change.NewValue) {
+						continue
+					}
+					held[change.Id] = change.NewValue
+				}
 			}
 			select {
 			case send <- change:
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 938054e..ad53ec3 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -106,9 +106,11 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 	go func() {
 		defer close(typedEvents)
 
+		var last proto.Message // the value the receiver was last sent
 		if currentValue != nil {
 			change := &ValueChange{Value: currentValue, ChangeTime: changeTime, SeedValue: true, LastSeedValue: true}
 			change = change.filter(filter)
+			last = change.Value
 			select {
 			case <-ctx.Done():
 				return // give up sending
@@ -116,10 +118,9 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 			}
 		}
 
-		last := currentValue
 		for event := range on {
 			change := event.(*ValueChange).filter(filter)
-			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {
+			if r.equivalence != nil && last != nil && r.equivalence.Compare(last, change.Value) {
 				continue
 			}
 			last = change.Value
-- 
2.43.0


From 29b5ad30432f3addf64e4984c8301bcfb1993680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 12/62] fix: an item that doesn't exist does not match an
 include predicate

---
 pkg/resource/change.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index b52cf69..3a8bb38 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -84,8 +84,9 @@ func (c *CollectionChange) include(includeFunc FilterFunc) (newChange *Collectio
 		return c, true
 	}
 
-	oldInclude := includeFunc(c.Id, c.OldValue)
-	newInclude := includeFunc(c.Id, c.NewValue)
+	// a value that doesn't exist is not included
+	oldInclude := c.OldValue != nil && includeFunc(c.Id, c.OldValue)
+	newInclude := c.NewValue != nil && includeFunc(c.Id, c.NewValue)
 	if oldInclude == newInclude {
 		// the only time we want to skip sending the update is if both the old and new values are excluded
 		return c, !newInclude
-- 
2.43.0


From 4e8c1c254a8944afc912fd1d295c81684b9bfb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 13/62] fix: pull with an include predicate delivers changes to
 included items only

---
 pkg/resource/change.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index 3a8bb38..0b9887a 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -89,7 +89,7 @@ func (c *CollectionChange) include(includeFunc FilterFunc) (newChange *Collectio
 	newInclude := c.NewValue != nil && includeFunc(c.Id, c.NewValue)
 	if oldInclude == newInclude {
 		// the only time we want to skip sending the update is if both the old and new values are excluded
-		return c, !newInclude
+		return c, newInclude
 	}
 
 	if newInclude {
-- 
2.43.0


From 86e1529ff2ad2ace00bb9dd7944605f4f110a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 14/62] fix: model Pull methods release their goroutine when
 cancelled with a change undelivered

---
 pkg/trait/accesspb/model.go           |  6 +++++-
 pkg/trait/airqualitysensorpb/model.go |  6 +++++-
 pkg/trait/airtemperaturepb/model.go   |  6 +++++-
 pkg/trait/electricpb/model.go         | 19 +++++++++++++++----
 pkg/trait/energystoragepb/model.go    |  6 +++++-
 pkg/trait/lightpb/model.go            |  6 +++++-
 pkg/trait/meterpb/model.go            |  6 +++++-
 pkg/trait/occupancysensorpb/model.go  |  6 +++++-
 pkg/trait/onoffpb/model.go            |  6 +++++-
 pkg/trait/parentpb/model.go           |  6 +++++-
 pkg/trait/presspb/model.go            |  6 +++++-
 pkg/trait/wastepb/model.go            |  6 +++++-
 12 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/pkg/trait/accesspb/model.go b/pkg/trait/accesspb/model.go
index d80e66c..0eb27c9 100644
--- a/pkg/trait/accesspb/model.go
+++ b/pkg/trait/accesspb/model.go
@@ -41,9 +41,13 @@ func (m *Model) PullAccessAttempts(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AccessAttempt)
-			send <- PullAccessAttemptsChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAccessAttemptsChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airqualitysensorpb/model.go b/pkg/trait/airqualitysensorpb/model.go
index 4903204..cc059c4 100644
--- a/pkg/trait/airqualitysensorpb/model.go
+++ b/pkg/trait/airqualitysensorpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirQuality(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirQuality)
-			send <- PullAirQualityChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirQualityChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airtemperaturepb/model.go b/pkg/trait/airtemperaturepb/model.go
index bb14527..3f77644 100644
--- a/pkg/trait/airtemperaturepb/model.go
+++ b/pkg/trait/airtemperaturepb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirTemperature(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirTemperature)
-			send <- PullAirTemperatureChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirTemperatureChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 585c87d..99fc037 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -78,9 +78,13 @@ func (m *Model) PullDemand(ctx context.Context, opts ...resource.ReadOption) <-c
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.ElectricDemand)
-			send <- PullDemandChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullDemandChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -121,9 +125,13 @@ func (m *Model) PullActiveMode(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			activeMode := change.Value.(*traits.ElectricMode)
-			send <- PullActiveModeChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullActiveModeChange{
 				ActiveMode: activeMode,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -328,7 +336,6 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 
 	go func() {
 		defer close(send)
-		// no need to listen to ctx.Done, as modes.Pull does that.
 		for change := range recv {
 			var newValue, oldValue *traits.ElectricMode
 			if change.NewValue != nil {
@@ -344,7 +351,11 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 				NewValue:   newValue,
 				OldValue:   oldValue,
 			}
-			send <- pullChange
+			select {
+			case <-ctx.Done():
+				return
+			case send <- pullChange:
+			}
 		}
 	}()
 
diff --git a/pkg/trait/energystoragepb/model.go b/pkg/trait/energystoragepb/model.go
index ef06c0b..095f5fb 100644
--- a/pkg/trait/energystoragepb/model.go
+++ b/pkg/trait/energystoragepb/model.go
@@ -45,9 +45,13 @@ func (m *Model) PullEnergyLevel(ctx context.Context, opts ...resource.ReadOption
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.EnergyLevel)
-			send <- PullEnergyLevelChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullEnergyLevelChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index 10c40b6..ff0b583 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -44,9 +44,13 @@ func (m *Model) PullBrightness(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Brightness)
-			send <- PullBrightnessChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullBrightnessChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index bfccd5a..220e3a3 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -72,9 +72,13 @@ func (m *Model) PullMeterReadings(ctx context.Context, opts ...resource.ReadOpti
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.MeterReading)
-			send <- PullMeterReadingChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullMeterReadingChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/occupancysensorpb/model.go b/pkg/trait/occupancysensorpb/model.go
index 05fca65..77daed9 100644
--- a/pkg/trait/occupancysensorpb/model.go
+++ b/pkg/trait/occupancysensorpb/model.go
@@ -40,9 +40,13 @@ func (m *Model) PullOccupancy(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Occupancy)
-			send <- PullOccupancyChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOccupancyChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/onoffpb/model.go b/pkg/trait/onoffpb/model.go
index 0870db7..e505b3d 100644
--- a/pkg/trait/onoffpb/model.go
+++ b/pkg/trait/onoffpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullOnOff(ctx context.Context, opts ...resource.ReadOption) <-ch
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.OnOff)
-			send <- PullOnOffChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOnOffChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index a7a8c95..041a09f 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -118,7 +118,11 @@ func (m *Model) PullChildren(ctx context.Context, opts ...resource.ReadOption) <
 	go func() {
 		defer close(out)
 		for change := range changes {
-			out <- childrenChangeToProto(change)
+			select {
+			case <-ctx.Done():
+				return
+			case out <- childrenChangeToProto(change):
+			}
 		}
 	}()
 
diff --git a/pkg/trait/presspb/model.go b/pkg/trait/presspb/model.go
index c025d14..d4599da 100644
--- a/pkg/trait/presspb/model.go
+++ b/pkg/trait/presspb/model.go
@@ -40,10 +40,14 @@ func (m *Model) PullPressedState(ctx context.Context, options ...resource.ReadOp
 		defer close(tx)
 		for change := range rx {
 			value := change.Value.(*traits.PressedState)
-			tx <- PullPressedStateChange{
+			select {
+			case <-ctx.Done():
+				return
+			case tx <- PullPressedStateChange{
 				Value:         value,
 				ChangeTime:    change.ChangeTime,
 				LastSeedValue: change.LastSeedValue,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 7db9ec5..55eb980 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -143,7 +143,11 @@ func (m *Model) PullWasteRecords(ctx context.Context, opts ...resource.ReadOptio
 				ChangeTime: wr.WasteCreateTime,
 				Type:       types.ChangeType_ADD,
 			}
-			send <- change
+			select {
+			case <-ctx.Done():
+				return
+			case send <- change:
+			}
 		}
 	}()
 
-- 
2.43.0


From 1158894741126a7f6074e085cb967e53203cd3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 15/62] fix: model Pull methods subscribe before they return

---
 pkg/trait/bookingpb/model.go          |  3 ++-
 pkg/trait/enterleavesensorpb/model.go |  3 ++-
 pkg/trait/fanspeedpb/model.go         |  3 ++-
 pkg/trait/hailpb/model.go             |  6 ++++--
 pkg/trait/modepb/model.go             |  3 ++-
 pkg/trait/openclosepb/model.go        |  3 ++-
 pkg/trait/publicationpb/model.go      |  6 ++++--
 pkg/trait/vendingpb/model.go          | 12 ++++++++----
 8 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/pkg/trait/bookingpb/model.go b/pkg/trait/bookingpb/model.go
index c887ace..c1d4af2 100644
--- a/pkg/trait/bookingpb/model.go
+++ b/pkg/trait/bookingpb/model.go
@@ -67,9 +67,10 @@ type BookingChange struct {
 func (m *Model) PullBookings(ctx context.Context, opts ...resource.ReadOption) <-chan BookingChange {
 	send := make(chan BookingChange)
 
+	recv := m.bookings.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.bookings.Pull(ctx, opts...) {
+		for change := range recv {
 			event := BookingChange{
 				ChangeTime: change.ChangeTime,
 				ChangeType: change.ChangeType,
diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 953c1ec..a315b9e 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -64,9 +64,10 @@ type EnterLeaveEventChange struct {
 // The returned chan will be closed when the given context is Done.
 func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadOption) <-chan EnterLeaveEventChange {
 	send := make(chan EnterLeaveEventChange)
+	recv := m.enterLeaveEvents.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.enterLeaveEvents.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 84a4d1d..56b76ce 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -137,9 +137,10 @@ type FanSpeedChange struct {
 
 func (m *Model) PullFanSpeed(ctx context.Context, opts ...resource.ReadOption) <-chan FanSpeedChange {
 	send := make(chan FanSpeedChange)
+	recv := m.fanSpeed.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.fanSpeed.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.FanSpeed)
 			select {
 			case <-ctx.Done():
diff --git a/pkg/trait/hailpb/model.go b/pkg/trait/hailpb/model.go
index d971fbe..f6b348d 100644
--- a/pkg/trait/hailpb/model.go
+++ b/pkg/trait/hailpb/model.go
@@ -72,9 +72,10 @@ type HailChange struct {
 // The returned channel is closed when ctx is Done or the hail identified by id is deleted.
 func (m *Model) PullHail(ctx context.Context, id string, opts ...resource.ReadOption) <-chan HailChange {
 	send := make(chan HailChange)
+	recv := m.hails.PullID(ctx, id, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.hails.PullID(ctx, id, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -103,9 +104,10 @@ type HailsChange struct {
 
 func (m *Model) PullHails(ctx context.Context, opts ...resource.ReadOption) <-chan HailsChange {
 	send := make(chan HailsChange)
+	recv := m.hails.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.hails.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castChange(change)
 			event := HailsChange{
 				ChangeType: change.ChangeType,
diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 4c29e3b..33f7038 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -79,9 +79,10 @@ type ModeValuesChange struct {
 func (m *Model) PullModeValues(ctx context.Context, opts ...resource.ReadOption) <-chan ModeValuesChange {
 	send := make(chan ModeValuesChange)
 
+	recv := m.modeValues.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.modeValues.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.ModeValues)
 			select {
 			case <-ctx.Done():
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 1b8c8a7..a32bc5a 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -108,13 +108,14 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 	eq := cmp.Equal()
 
 	send := make(chan PullOpenClosePositionsChange)
+	recv := m.positions.Pull(ctx)
 	go func() {
 		defer close(send)
 		all := make(map[string]*traits.OpenClosePosition, 1)
 		seenAll := false
 		var last *traits.OpenClosePositions
 
-		for change := range m.positions.Pull(ctx) {
+		for change := range recv {
 			if change.NewValue == nil {
 				delete(all, change.Id)
 			} else {
diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index db0d033..5ead0c9 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -62,9 +62,10 @@ type PublicationChange struct {
 
 func (m *Model) PullPublication(ctx context.Context, id string, opts ...resource.ReadOption) <-chan PublicationChange {
 	send := make(chan PublicationChange)
+	recv := m.publications.PullID(ctx, id, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.publications.PullID(ctx, id, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -94,9 +95,10 @@ type PublicationsChange struct {
 
 func (m *Model) PullPublications(ctx context.Context, opts ...resource.ReadOption) <-chan PublicationsChange {
 	send := make(chan PublicationsChange)
+	recv := m.publications.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.publications.Pull(ctx, opts...) {
+		for change := range recv {
 			event := PublicationsChange{
 				ID:         change.Id,
 				ChangeTime: change.ChangeTime,
diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 19267be..ae5074d 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -68,9 +68,10 @@ type ConsumableChange struct {
 
 func (m *Model) PullConsumable(ctx context.Context, name string, opts ...resource.ReadOption) <-chan ConsumableChange {
 	send := make(chan ConsumableChange)
+	recv := m.consumables.PullID(ctx, name, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.consumables.PullID(ctx, name, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -100,9 +101,10 @@ type ConsumablesChange struct {
 
 func (m *Model) PullConsumables(ctx context.Context, opts ...resource.ReadOption) <-chan ConsumablesChange {
 	send := make(chan ConsumablesChange)
+	recv := m.consumables.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.consumables.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castConsumableChange(change)
 			event := ConsumablesChange{
 				ID:         change.Id,
@@ -159,9 +161,10 @@ type StockChange struct {
 // The returned channel will be closed if ctx is Done or the stock record identified by consumable is deleted.
 func (m *Model) PullStock(ctx context.Context, consumable string, opts ...resource.ReadOption) <-chan StockChange {
 	send := make(chan StockChange)
+	recv := m.inventory.PullID(ctx, consumable, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.inventory.PullID(ctx, consumable, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -193,9 +196,10 @@ type InventoryChange struct {
 // PullInventory subscribes to changes in the list of known stock records.
 func (m *Model) PullInventory(ctx context.Context, opts ...resource.ReadOption) <-chan InventoryChange {
 	send := make(chan InventoryChange)
+	recv := m.inventory.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.inventory.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castStockChange(change)
 			event := InventoryChange{
 				ID:         change.Id,
-- 
2.43.0


From 4aac8bb4c9e97169cdf71685bcc7513142ec6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 16/62] fix: vending consumable options apply to consumables,
 not the inventory

---
 pkg/trait/vendingpb/model_opts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model_opts.go b/pkg/trait/vendingpb/model_opts.go
index f579abc..d1f1421 100644
--- a/pkg/trait/vendingpb/model_opts.go
+++ b/pkg/trait/vendingpb/model_opts.go
@@ -41,7 +41,7 @@ func WithInitialStock(inventory ...*traits.Consumable_Stock) resource.Option {
 // WithConsumablesOption configures the consumables resource of the model.
 func WithConsumablesOption(opts ...resource.Option) resource.Option {
 	return modelOptionFunc(func(args *modelArgs) {
-		args.inventoryOptions = append(args.inventoryOptions, opts...)
+		args.consumableOptions = append(args.consumableOptions, opts...)
 	})
 }
 
-- 
2.43.0


From d813e8542785dd24c8c88b58ac9f8809f35c0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 17/62] fix: dispensing keeps each quantity's own unit, reports
 conversion errors and can empty the stock

---
 pkg/trait/vendingpb/model.go | 43 ++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index ae5074d..b1d5eb5 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -223,39 +223,34 @@ func (m *Model) PullInventory(ctx context.Context, opts ...resource.ReadOption)
 // (possibly zero) value in the stock already.
 // Stock Used and Remaining units are maintained, the quantity is converted to those units before modification.
 func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable_Quantity) (*traits.Consumable_Stock, error) {
-	var maskedErr error // for tracking errors in interceptors
-	stock, err := m.UpdateStock(&traits.Consumable_Stock{Consumable: consumable}, resource.InterceptBefore(func(old, new proto.Message) {
-		oldVal := old.(*traits.Consumable_Stock)
-		newVal := new.(*traits.Consumable_Stock)
-		if err := updateStock(quantity, oldVal, newVal); err != nil {
-			// on error we don't want to make any changes to the stock value, reset things
-			maskedErr = err
-			proto.Reset(newVal)
-			proto.Merge(newVal, oldVal)
-			return
-		}
-		newVal.LastDispensed = quantity
-		newVal.Dispensing = false
-	}))
-	if err != nil {
-		return nil, err
-	}
-	if maskedErr != nil {
-		return nil, err
-	}
-	return stock, nil
+	return m.UpdateStock(&traits.Consumable_Stock{Consumable: consumable},
+		resource.WithExpectedCheck(func(msg proto.Message) error {
+			// on error we don't want to make any changes to the stock value
+			return updateStock(quantity, msg.(*traits.Consumable_Stock), &traits.Consumable_Stock{})
+		}),
+		// computed after the merge as merging can't set an amount back to zero
+		resource.InterceptAfter(func(old, new proto.Message) {
+			oldVal := old.(*traits.Consumable_Stock)
+			newVal := new.(*traits.Consumable_Stock)
+			_ = updateStock(quantity, oldVal, newVal) // already checked
+			newVal.LastDispensed = nil
+			if quantity != nil {
+				newVal.LastDispensed = proto.Clone(quantity).(*traits.Consumable_Quantity)
+			}
+			newVal.Dispensing = false
+		}))
 }
 
 func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumable_Stock) error {
 	if src.Used != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Used.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Used.Unit)
 		if err != nil {
 			return err
 		}
 		dst.Used = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: src.Used.Amount + delta}
 	}
 	if src.Remaining != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Remaining.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Remaining.Unit)
 		if err != nil {
 			return err
 		}
@@ -263,7 +258,7 @@ func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumab
 		if amount < 0 {
 			amount = 0
 		}
-		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: amount}
+		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Remaining.Unit, Amount: amount}
 	}
 	return nil
 }
-- 
2.43.0


From 4e1e5085cb170bc00a10376b8e0b5ed9716eb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 18/62] fix: group members release their goroutine once a fast
 or race result is returned

---
 pkg/group/exec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index 5fc4ad4..e7b91c9 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -169,7 +169,8 @@ func ExecuteRace(ctx context.Context, members []Member) (proto.Message, int, err
 // The returned chan will contain the responses in completion order.
 // The chan will be closed once all members have returned a result.
 func executeEach(ctx context.Context, members []Member) <-chan memberResponse {
-	responses := make(chan memberResponse)
+	// buffered so members can always complete, even when the responses are no longer being read
+	responses := make(chan memberResponse, len(members))
 	var all sync.WaitGroup
 	all.Add(len(members))
 
-- 
2.43.0


From 1c1c655feee8cadae6c0890901de651e494aaceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 19/62] fix: executing an empty group doesn't panic

---
 pkg/group/exec.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index e7b91c9..4cb862c 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -39,22 +39,25 @@ func Execute(ctx context.Context, strategy ExecutionStrategy, members []Member)
 		return ExecuteAny(ctx, members)
 	case ExecutionStrategyOne:
 		res, i, err := ExecuteOne(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return placeResult(len(members), i, res), err
 	case ExecutionStrategyFast:
 		res, i, err := ExecuteFast(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return placeResult(len(members), i, res), err
 	case ExecutionStrategyRace:
 		res, i, err := ExecuteRace(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return placeResult(len(members), i, res), err
 	}
 }
 
+// placeResult returns a slice of n results where only the result at index i is set.
+func placeResult(n, i int, res proto.Message) []proto.Message {
+	results := make([]proto.Message, n)
+	if i < n { // there is nowhere to place the result when there are no members
+		results[i] = res
+	}
+	return results
+}
+
 // ExecuteAll executes all the member functions in parallel,
 // if any return errors then this will return the first reported error.
 // Incomplete executions will have their context cancelled on error,
-- 
2.43.0


From 3a986043f2b782b796ec501c657b395bb5a9d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:25 +0000
Subject: [PATCH 20/62] fix: light group averages only the members that
 responded

---
 pkg/trait/lightpb/group.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/trait/lightpb/group.go b/pkg/trait/lightpb/group.go
index 5362aac..399edb8 100644
--- a/pkg/trait/lightpb/group.go
+++ b/pkg/trait/lightpb/group.go
@@ -163,30 +163,38 @@ func (s *Group) pullBrightnessActions(request *traits.PullBrightnessRequest, mem
 
 func (s *Group) reduce(results []proto.Message) *traits.Brightness {
 	val := new(traits.Brightness)
-	for i, result := range results {
+	n := 0 // the number of results in val
+	for _, result := range results {
 		if result == nil {
 			continue
 		}
 		typedResult := result.(*traits.Brightness)
-		val = s.reduceBrightness(val, typedResult, i)
+		if typedResult == nil {
+			continue // the member failed
+		}
+		val = s.reduceBrightness(val, typedResult, n)
+		n++
 	}
 	return val
 }
 
 func (s *Group) reduceBrightnessChanges(arr []*traits.PullBrightnessResponse_Change) *traits.PullBrightnessResponse_Change {
 	val := &traits.PullBrightnessResponse_Change{}
-	for i, change := range arr {
-		if change == nil {
+	n := 0 // the number of changes in val
+	for _, change := range arr {
+		if change.GetBrightness() == nil {
 			// nil changes happen because the incoming array can be partially populated
 			// depending on whether we've received anything from a group member
 			continue
 		}
-		val.Brightness = s.reduceBrightness(val.Brightness, change.Brightness, i)
+		val.Brightness = s.reduceBrightness(val.Brightness, change.Brightness, n)
+		n++
 	}
 	return val
 }
 
-func (s *Group) reduceBrightness(acc, v *traits.Brightness, i int) *traits.Brightness {
+// reduceBrightness combines v into acc, which already combines n values.
+func (s *Group) reduceBrightness(acc, v *traits.Brightness, n int) *traits.Brightness {
 	if v == nil {
 		return acc
 	}
@@ -197,7 +205,7 @@ func (s *Group) reduceBrightness(acc, v *traits.Brightness, i int) *traits.Brigh
 	}
 
 	// average strategy
-	acc.LevelPercent = (acc.LevelPercent*float32(i) + v.LevelPercent) / (float32(i) + 1)
+	acc.LevelPercent = (acc.LevelPercent*float32(n) + v.LevelPercent) / (float32(n) + 1)
 
 	return acc
 }
-- 
2.43.0


From 05e761c723dedce7d7543a88057f2221c2588c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:01 +0000
Subject: [PATCH 21/62] fix: deleting an absent electric mode succeeds when
 missing modes are allowed

---
 pkg/trait/electricpb/model.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 99fc037..4133701 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -283,7 +283,7 @@ func (m *Model) createOrAddMode(mode *traits.ElectricMode) (*traits.ElectricMode
 }
 
 // DeleteMode will remove the mode with the given Id from the device.
-// If the mode does not exist, then ErrModeNotFound is returned.
+// If the mode does not exist, then a NotFound error is returned, unless resource.WithAllowMissing is used.
 // If the mode specified is the active mode, then ErrDeleteActiveMode is returned and the mode is not deleted.
 // Otherwise, the operation succeeded and nil is returned.
 func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
@@ -298,15 +298,9 @@ func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 		return ErrDeleteActiveMode
 	}
 
-	msg, err := m.modes.Delete(id, opts...)
-	if err != nil {
-		return err
-	}
-	if msg == nil {
-		return ErrModeNotFound
-	}
-
-	return nil
+	// a missing mode is reported as an error, unless opts allows it
+	_, err := m.modes.Delete(id, opts...)
+	return err
 }
 
 // UpdateMode will modify one of the modes stored in this device.
-- 
2.43.0


From c61bee3b0cef97c8a193dd305640c003992ca612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 22/62] fix: updating an electric mode can't create a second
 normal mode

---
 pkg/trait/electricpb/model.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 4133701..0cb7f86 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -9,6 +9,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/fieldmaskpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -306,6 +307,7 @@ func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 // UpdateMode will modify one of the modes stored in this device.
 // The mode to be modified is specified by mode.Id, which must be set.
 // Fields to be modified can be selected using mask - to modify all fields, pass a nil mask.
+// If the update makes the mode normal, and the device already has another normal mode, then ErrNormalModeExists will result.
 func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -313,6 +315,13 @@ func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 }
 
 func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
+	// if the update makes this mode normal, check that there isn't another normal mode
+	if mode.Normal && updatesNormal(resource.ComputeWriteConfig(opts...).UpdateMask) {
+		if normal, ok := m.normalMode(); ok && normal.Id != mode.Id {
+			return nil, ErrNormalModeExists
+		}
+	}
+
 	msg, err := m.modes.Update(mode.Id, mode, opts...)
 	if err != nil {
 		return nil, err
@@ -320,6 +329,19 @@ func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 	return msg.(*traits.ElectricMode), nil
 }
 
+// updatesNormal returns whether updates using the given mask write the normal field of a mode.
+func updatesNormal(mask *fieldmaskpb.FieldMask) bool {
+	if mask == nil {
+		return true
+	}
+	for _, path := range mask.Paths {
+		if path == "normal" {
+			return true
+		}
+	}
+	return false
+}
+
 // PullModes subscribes to changes to modes. Creation, modification or deletion of a mode on this device will send
 // a PullModesChange describing the event down the changes channel.
 // The returned channel will be closed when done is called. You must call done after you are finished with the channel
-- 
2.43.0


From 43ac2f870fa685e8938dfefd549f1f602adff414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:26 +0000
Subject: [PATCH 23/62] fix: removing a trait a child doesn't have leaves its
 other traits alone

---
 pkg/trait/parentpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 041a09f..c52c475 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -175,7 +175,7 @@ func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
 		insertIndex := sort.Search(len(has), func(i int) bool {
 			return has[i].Name >= ts
 		})
-		if insertIndex == len(has) {
+		if insertIndex == len(has) || has[insertIndex].Name != ts {
 			continue // t isn't in has, nothing to do this iteration
 		}
 		copy(has[insertIndex:], has[insertIndex+1:])
-- 
2.43.0


From 516eb216dd6e00239fe0f43371c5a2bad7384e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:27 +0000
Subject: [PATCH 24/62] fix: adding and removing child traits doesn't edit the
 stored child

---
 pkg/trait/parentpb/model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index c52c475..5ec193f 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -147,6 +147,8 @@ func childrenChangeToProto(change *resource.CollectionChange) *traits.PullChildr
 // The has slice should be sorted in ascending order by Trait.Name.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
+	// don't edit the slice passed to us
+	has = append([]*traits.Trait(nil), has...)
 	// has should be sorted by Trait.Name
 	for _, t := range more {
 		ts := string(t)
@@ -169,6 +171,8 @@ func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
 // The has slice should be sorted in ascending order by Trait.Name.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
+	// don't edit the slice passed to us
+	has = append([]*traits.Trait(nil), has...)
 	// has should be sorted by Trait.Name
 	for _, t := range remove {
 		ts := string(t)
-- 
2.43.0


From 994432dbda04725bae0924d3574fe5664e78165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 25/62] fix: adding and removing child traits doesn't panic
 when a concurrent call wins

---
 pkg/trait/parentpb/model.go | 48 ++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 5ec193f..1b8bd92 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -65,16 +65,19 @@ func (m *Model) RemoveChildByName(name string, opts ...resource.WriteOption) (*t
 // If no child with the given name is already know, one will be created.
 // If a child is already known with the given name, its traits will be unioned with the given trait names.
 func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *traits.Child, created bool) {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.WithCreateIfAbsent(),
-		resource.WithCreatedCallback(func() {
-			created = true
-		}),
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitUnion(oldChild.Traits, traitName...)
-		}))
+	msg, err := retryAborted(func() (proto.Message, error) {
+		created = false
+		return m.children.Update(name, &traits.Child{Name: name},
+			resource.WithCreateIfAbsent(),
+			resource.WithCreatedCallback(func() {
+				created = true
+			}),
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitUnion(oldChild.Traits, traitName...)
+			}))
+	})
 	if err != nil {
 		panic(err) // shouldn't happen
 	}
@@ -84,12 +87,14 @@ func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *trai
 // RemoveChildTrait ensures that the named child no longer mentions they support the given trait names.
 // If no child exists with the given name then nil will be returned.
 func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.Child {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitRemove(oldChild.Traits, traitName...)
-		}))
+	msg, err := retryAborted(func() (proto.Message, error) {
+		return m.children.Update(name, &traits.Child{Name: name},
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitRemove(oldChild.Traits, traitName...)
+			}))
+	})
 	if err != nil {
 		switch status.Code(err) {
 		case codes.NotFound:
@@ -100,6 +105,17 @@ func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.C
 	return msg.(*traits.Child)
 }
 
+// retryAborted calls update until it isn't aborted by a concurrent update.
+// Adding and removing traits is always possible, no matter what else has changed.
+func retryAborted(update func() (proto.Message, error)) (proto.Message, error) {
+	for {
+		msg, err := update()
+		if status.Code(err) != codes.Aborted {
+			return msg, err
+		}
+	}
+}
+
 // ListChildren returns a slice of all known Child instances.
 func (m *Model) ListChildren() []*traits.Child {
 	msgs := m.children.List()
-- 
2.43.0


From 1582d44565d74961f2cfadb8fc034455c3cd1d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 26/62] fix: a meter keeps the initial reading it is configured
 with

---
 pkg/trait/meterpb/model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 220e3a3..0a61091 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -19,11 +19,13 @@ func NewModel(opts ...resource.Option) *Model {
 	defaultOptions := []resource.Option{resource.WithInitialValue(&traits.MeterReading{})}
 	value := resource.NewValue(append(defaultOptions, opts...)...)
 	// make sure start and end time are recorded
-	_, _ = value.Set(&traits.MeterReading{}, resource.InterceptBefore(func(old, new proto.Message) {
+	_, _ = value.Set(&traits.MeterReading{}, resource.InterceptAfter(func(old, new proto.Message) {
 		oldVal := old.(*traits.MeterReading)
 		newVal := new.(*traits.MeterReading)
+		proto.Reset(newVal)
+		proto.Merge(newVal, oldVal)
 		now := value.Clock().Now()
-		if oldVal.StartTime == nil {
+		if newVal.StartTime == nil {
 			newVal.StartTime = timestamppb.New(now)
 		}
 		if newVal.EndTime == nil {
-- 
2.43.0


From 3e384e52468a969ea22bc7da136f068951aa65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 27/62] fix: recording a meter reading keeps the start time

---
 pkg/trait/meterpb/model.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 0a61091..f9e544b 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -51,11 +51,14 @@ func (m *Model) UpdateMeterReading(meterReading *traits.MeterReading, opts ...re
 
 // RecordReading records a new usage value, updating end time to now.
 func (m *Model) RecordReading(val float32) (*traits.MeterReading, error) {
-	return m.UpdateMeterReading(&traits.MeterReading{Usage: val}, resource.InterceptBefore(func(old, new proto.Message) {
-		now := m.meterReading.Clock().Now()
-		newVal := new.(*traits.MeterReading)
-		newVal.EndTime = timestamppb.New(now)
-	}))
+	return m.UpdateMeterReading(&traits.MeterReading{Usage: val},
+		// keep the start time
+		resource.WithUpdatePaths("usage", "end_time"),
+		resource.InterceptBefore(func(old, new proto.Message) {
+			now := m.meterReading.Clock().Now()
+			newVal := new.(*traits.MeterReading)
+			newVal.EndTime = timestamppb.New(now)
+		}))
 }
 
 // Reset resets the meter to zero, updating both start and end times to now.
-- 
2.43.0


From 895b03b136c88742b617220f7042363fe9feab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 28/62] fix: NewModelModes uses the modes it is given

---
 pkg/trait/modepb/model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 33f7038..15bc052 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -44,11 +44,14 @@ func NewModelModes(modes *traits.Modes) *Model {
 		Values: make(map[string]string),
 	}
 	for _, mode := range modes.Modes {
+		if len(mode.Values) == 0 {
+			continue // there's nothing to select
+		}
 		modeValues.Values[mode.Name] = mode.Values[0].Name
 	}
 
 	model := &Model{
-		modes: DefaultModes,
+		modes: modes,
 		modeValues: resource.NewValue(
 			resource.WithInitialValue(modeValues),
 		),
-- 
2.43.0


From d1667cfcf561923562adfd7d86209c803f7e69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 29/62] fix: large relative mode adjustments wrap instead of
 overflowing

---
 pkg/trait/modepb/model_server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 4775640..44463a9 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -77,9 +77,10 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 			// find the value index in our supported values, and adjust the value to the new index based on adjustment
 			for i, value := range values {
 				if value.Name == oldValue {
-					newI := (int32(i) + adjustment) % int32(len(values))
+					count := int64(len(values))
+					newI := (int64(i) + int64(adjustment)) % count // the sum might not fit an int32
 					if newI < 0 {
-						newI = int32(len(values)) + newI
+						newI = count + newI
 					}
 					newVal.Values[modeName] = values[newI].Name
 					continue adjustments
-- 
2.43.0


From 9146cf5b6ca8d739f435f609bbd587cd03442923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 30/62] fix: a zero relative adjustment doesn't override the
 mode's new value

---
 pkg/trait/modepb/model_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 44463a9..3904059 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -62,6 +62,10 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 
 	adjustments:
 		for modeName, adjustment := range relative {
+			if _, absolute := newVal.Values[modeName]; absolute && adjustment == 0 {
+				continue // only non-zero adjustments win over an absolute value
+			}
+
 			oldValue, ok := oldVal.Values[modeName]
 			values := m.model.AvailableValues(modeName)
 			if len(values) == 0 {
-- 
2.43.0


From 2f3312b71d603cfff86743e9f6da45b8a2a27c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:06 +0000
Subject: [PATCH 31/62] fix: a relative mode update keeps the value of the
 other modes

---
 pkg/trait/modepb/model_server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 3904059..eda44ef 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -56,8 +56,12 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 	return func(old, new proto.Message) {
 		oldVal := old.(*traits.ModeValues)
 		newVal := new.(*traits.ModeValues)
-		if newVal.Values == nil {
-			newVal.Values = make(map[string]string)
+		if len(newVal.Values) == 0 {
+			// only relative changes, the other modes keep their value
+			newVal.Values = make(map[string]string, len(oldVal.Values))
+			for modeName, value := range oldVal.Values {
+				newVal.Values[modeName] = value
+			}
 		}
 
 	adjustments:
-- 
2.43.0


From 4242c44cfc2404c6a0e8eca91419767c64326465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:06 +0000
Subject: [PATCH 32/62] fix: subscribing to enter leave events doesn't edit the
 stored event

---
 pkg/trait/enterleavesensorpb/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index a315b9e..91e267e 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -71,6 +71,7 @@ func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadO
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
+				val = proto.Clone(val).(*traits.EnterLeaveEvent) // we were given the stored value
 				val.Occupant = nil
 				val.Direction = traits.EnterLeaveEvent_DIRECTION_UNSPECIFIED
 			}
-- 
2.43.0


From 276cb296738b111deee554c3d9324111fd52a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:06 +0000
Subject: [PATCH 33/62] fix: acknowledging a publication without a receipt
 accepts it

---
 pkg/trait/publicationpb/model_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 09e24e1..ae7dea6 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -156,8 +156,12 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 	if request.Version == "" {
 		return nil, status.Error(codes.InvalidArgument, "version is required")
 	}
+	receipt := request.Receipt
+	if receipt == traits.Publication_Audience_RECEIPT_UNSPECIFIED {
+		receipt = traits.Publication_Audience_ACCEPTED
+	}
 	received := &traits.Publication{Audience: &traits.Publication_Audience{
-		Receipt:               request.Receipt,
+		Receipt:               receipt,
 		ReceiptRejectedReason: request.ReceiptRejectedReason,
 	}}
 
-- 
2.43.0


From 8134fa3cee723161f1fd078eeb3403a39deda34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 34/62] fix: acknowledging a publication again succeeds when
 allowed

---
 pkg/trait/publicationpb/model_server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index ae7dea6..1673b4a 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -181,7 +181,7 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 			// check an ACK hasn't already been processed
 			receipt := val.GetAudience().GetReceipt()
 			if receipt == traits.Publication_Audience_ACCEPTED || receipt == traits.Publication_Audience_REJECTED {
-				acknowledgedPub = val
+				acknowledgedPub = proto.Clone(val).(*traits.Publication)
 				return alreadyAcknowledged
 			}
 
@@ -193,7 +193,8 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		}),
 	)
 
-	if err == alreadyAcknowledged && request.AllowAcknowledged {
+	// the error we are returned isn't identical to alreadyAcknowledged
+	if err != nil && acknowledgedPub != nil && request.AllowAcknowledged {
 		return acknowledgedPub, nil
 	}
 
-- 
2.43.0


From a446dacd119e2a65f128b0b6b8a46a5cd6c7e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:31 +0000
Subject: [PATCH 35/62] fix: publications with different content have different
 versions

---
 pkg/trait/publicationpb/model.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index 5ead0c9..e0409f0 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -151,10 +151,15 @@ func mintVersion(p *traits.Publication) string {
 	// Hash properties we are happy to include in our version calculation.
 	// Note: don't use proto.Marshal as it is non-deterministic
 	hash := md5.New()
-	io.WriteString(hash, "v1")
-	io.WriteString(hash, p.Id)
-	hash.Write(p.Body)
-	io.WriteString(hash, p.MediaType)
-	io.WriteString(hash, p.GetAudience().GetName())
+	io.WriteString(hash, "v2")
+	// include the length, or moving bytes from one property to the next wouldn't change the version
+	write := func(property []byte) {
+		fmt.Fprintf(hash, "%d:", len(property))
+		hash.Write(property)
+	}
+	write([]byte(p.Id))
+	write(p.Body)
+	write([]byte(p.MediaType))
+	write([]byte(p.GetAudience().GetName()))
 	return fmt.Sprintf("%x", hash.Sum(nil))
 }
-- 
2.43.0


From 037250e1def4f7ecf9fa6142ecafe052e0049bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:10 +0000
Subject: [PATCH 36/62] fix: fan speed preset, index and percentage agree after
 replacing any of them

---
 pkg/trait/fanspeedpb/model.go | 95 ++++++++++++++++++++++++-----------
 1 file changed, 67 insertions(+), 28 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 56b76ce..15d00ef 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -58,7 +58,11 @@ func (m *Model) UpdateFanSpeed(fanSpeed *traits.FanSpeed, opts ...resource.Write
 		return nil, err
 	}
 
-	opts = append([]resource.WriteOption{resource.InterceptAfter(m.DeriveValues)}, opts...)
+	derive := m.DeriveValues
+	if resource.ComputeWriteConfig(opts...).UpdateMask == nil {
+		derive = m.deriveReplaced
+	}
+	opts = append([]resource.WriteOption{resource.InterceptAfter(derive)}, opts...)
 	val, err := m.fanSpeed.Set(fanSpeed, opts...)
 	if val == nil {
 		return nil, err
@@ -88,45 +92,80 @@ func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
 func (m *Model) DeriveValues(old, new proto.Message) {
 	oldVal := old.(*traits.FanSpeed)
 	newVal := new.(*traits.FanSpeed)
-	if oldVal.Preset != newVal.Preset {
+	if newVal.Preset != "" && oldVal.Preset != newVal.Preset {
 		// preset updated, keep the index and percentage in sync
-		for i, preset := range m.presets {
-			if preset.Name == newVal.Preset {
-				newVal.PresetIndex = int32(i)
-				newVal.Percentage = preset.Percentage
-				break
-			}
-		}
+		m.deriveFromPreset(newVal)
 		return
 	}
 
 	if oldVal.PresetIndex != newVal.PresetIndex {
-		// cap the index if needed, and update the preset and percentage
-		if newVal.PresetIndex >= int32(len(m.presets)) {
-			newVal.PresetIndex = int32(len(m.presets) - 1)
-		}
-		if newVal.PresetIndex < 0 {
-			newVal.PresetIndex = 0
-		}
-		preset := m.presets[newVal.PresetIndex]
-		newVal.Preset = preset.Name
-		newVal.Percentage = preset.Percentage
+		m.deriveFromIndex(newVal)
 		return
 	}
 
 	if oldVal.Percentage != newVal.Percentage {
-		// try to find a preset that matches, and update the index and preset
-		newVal.PresetIndex = -1
-		newVal.Preset = ""
-		for i, preset := range m.presets {
-			if preset.Percentage == newVal.Percentage {
-				newVal.PresetIndex = int32(i)
-				newVal.Preset = preset.Name
-				break
-			}
+		m.deriveFromPercentage(newVal)
+		return
+	}
+
+	if newVal.Preset == "" {
+		// the preset was unset without selecting anything else, the fan is still at the same speed
+		newVal.Preset = oldVal.Preset
+	}
+}
+
+// deriveReplaced is like DeriveValues when all of new was replaced, what is absent is derived from what is present.
+func (m *Model) deriveReplaced(_, new proto.Message) {
+	newVal := new.(*traits.FanSpeed)
+	switch {
+	case newVal.Preset != "":
+		m.deriveFromPreset(newVal)
+	case newVal.PresetIndex != 0:
+		m.deriveFromIndex(newVal)
+	default:
+		m.deriveFromPercentage(newVal)
+	}
+}
+
+// deriveFromPreset sets the index and percentage on newVal to match the preset.
+func (m *Model) deriveFromPreset(newVal *traits.FanSpeed) {
+	for i, preset := range m.presets {
+		if preset.Name == newVal.Preset {
+			newVal.PresetIndex = int32(i)
+			newVal.Percentage = preset.Percentage
+			break
 		}
+	}
+}
+
+// deriveFromIndex sets the preset and percentage on newVal to match the index, capping the index if needed.
+func (m *Model) deriveFromIndex(newVal *traits.FanSpeed) {
+	if len(m.presets) == 0 {
+		m.deriveFromPercentage(newVal)
 		return
 	}
+	if newVal.PresetIndex >= int32(len(m.presets)) {
+		newVal.PresetIndex = int32(len(m.presets) - 1)
+	}
+	if newVal.PresetIndex < 0 {
+		newVal.PresetIndex = 0
+	}
+	preset := m.presets[newVal.PresetIndex]
+	newVal.Preset = preset.Name
+	newVal.Percentage = preset.Percentage
+}
+
+// deriveFromPercentage sets the preset and index on newVal to the first preset with that percentage, if there is one.
+func (m *Model) deriveFromPercentage(newVal *traits.FanSpeed) {
+	newVal.PresetIndex = -1
+	newVal.Preset = ""
+	for i, preset := range m.presets {
+		if preset.Percentage == newVal.Percentage {
+			newVal.PresetIndex = int32(i)
+			newVal.Preset = preset.Name
+			break
+		}
+	}
 }
 
 //goland:noinspection GoNameStartsWithPackageName
-- 
2.43.0


From 2b3bfbcbd29f3308bf40e4d8aa2152732bd03af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:10 +0000
Subject: [PATCH 37/62] fix: the initial fan speed is consistent with the
 configured presets

---
 pkg/trait/fanspeedpb/model.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 15d00ef..3fd0f66 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -36,10 +36,17 @@ type Model struct {
 // NewModel constructs a Model with default values using the first of DefaultPresets.
 func NewModel(opts ...resource.Option) *Model {
 	args := calcModelArgs(opts...)
-	return &Model{
+	m := &Model{
 		presets:  args.presets,
 		fanSpeed: resource.NewValue(args.fanSpeedOpts...),
 	}
+	if initial := m.FanSpeed(); m.validateUpdate(initial) != nil {
+		// the initial preset isn't one of the configured presets
+		fanSpeed := &traits.FanSpeed{Percentage: initial.Percentage}
+		m.deriveFromPercentage(fanSpeed)
+		_, _ = m.fanSpeed.Set(fanSpeed, resource.WithUpdatePaths("preset", "preset_index"), resource.WithAllFieldsWritable())
+	}
+	return m
 }
 
 // FanSpeed gets the current fan speed.
-- 
2.43.0


From e7f6b872665532a1900b7c8e962833a5048a4285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:10 +0000
Subject: [PATCH 38/62] fix: UpdateFanSpeed honours the update mask

---
 pkg/trait/fanspeedpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index cf213ce..546ff39 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -34,7 +34,7 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.InterceptBefore(func(old, new proto.Message) {
+	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
 		if request.Relative {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
-- 
2.43.0


From 26ef2c7f8f7d4aeab7dca98e6b60bf11ab8d8584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:10 +0000
Subject: [PATCH 39/62] fix: relative fan speed updates start from the current
 preset and don't overflow

---
 pkg/trait/fanspeedpb/model_server.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index 546ff39..03617d6 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -2,9 +2,11 @@ package fanspeedpb
 
 import (
 	"context"
+	"math"
 
 	"google.golang.org/grpc"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/fieldmaskpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -34,17 +36,34 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
+	mask := request.UpdateMask
+	if request.Relative && mask == nil {
+		// update all fields, as opposed to replacing the fan speed
+		mask = &fieldmaskpb.FieldMask{Paths: []string{"percentage", "preset", "preset_index", "direction"}}
+	}
+	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(mask), resource.InterceptBefore(func(old, new proto.Message) {
 		if request.Relative {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
 			newVal.Percentage += oldVal.Percentage
-			newVal.PresetIndex += oldVal.PresetIndex
+			newVal.PresetIndex = addInt32(oldVal.PresetIndex, newVal.PresetIndex)
+			// these can't be relative, keep them unless they're being changed too
+			if newVal.Preset == "" {
+				newVal.Preset = oldVal.Preset
+			}
+			if newVal.Direction == traits.FanSpeed_DIRECTION_UNSPECIFIED {
+				newVal.Direction = oldVal.Direction
+			}
 			// todo: should we support setting the preset relatively if we're between presets?
 		}
 	}))
 }
 
+// addInt32 returns a + b, limited to what an int32 can hold.
+func addInt32(a, b int32) int32 {
+	return int32(max(math.MinInt32, min(int64(a)+int64(b), math.MaxInt32)))
+}
+
 func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server traits.FanSpeedApi_PullFanSpeedServer) error {
 	for change := range s.model.PullFanSpeed(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		err := server.Send(&traits.PullFanSpeedResponse{Changes: []*traits.PullFanSpeedResponse_Change{
-- 
2.43.0


From 1f9a4a13377492d55d0fecffe8f8612ce9271634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:10 +0000
Subject: [PATCH 40/62] fix: ReverseFanSpeedDirection reverses the direction
 instead of panicking

---
 pkg/trait/fanspeedpb/model_server.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index 03617d6..8d3859e 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -77,6 +77,18 @@ func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server t
 }
 
 func (s *ModelServer) ReverseFanSpeedDirection(ctx context.Context, request *traits.ReverseFanSpeedDirectionRequest) (*traits.FanSpeed, error) {
-	// TODO implement me
-	panic("implement me")
+	return s.model.UpdateFanSpeed(&traits.FanSpeed{},
+		resource.WithUpdatePaths("direction"),
+		resource.InterceptBefore(func(old, new proto.Message) {
+			oldVal := old.(*traits.FanSpeed)
+			newVal := new.(*traits.FanSpeed)
+			switch oldVal.Direction {
+			case traits.FanSpeed_FORWARD:
+				newVal.Direction = traits.FanSpeed_BACKWARD
+			case traits.FanSpeed_BACKWARD:
+				newVal.Direction = traits.FanSpeed_FORWARD
+			default:
+				newVal.Direction = oldVal.Direction
+			}
+		}))
 }
-- 
2.43.0


From 96cc98cd2978ea0a1585f5e3c476a17e30257222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:21 +0000
Subject: [PATCH 41/62] fix: writes don't modify the message they are given

---
 pkg/resource/opt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/opt.go b/pkg/resource/opt.go
index 84c7ce5..bb01dc6 100644
--- a/pkg/resource/opt.go
+++ b/pkg/resource/opt.go
@@ -316,6 +316,8 @@ func (wr WriteRequest) changeFn(writer *masks.FieldUpdater, value proto.Message)
 			}
 		}
 
+		// value belongs to the caller, who may have got it from us, don't let interceptors and masks write to it
+		value := proto.Clone(value)
 		if wr.interceptBefore != nil {
 			// allow callers to update the value based on the old message
 			wr.interceptBefore(old, value)
@@ -401,7 +403,7 @@ func WithResetPaths(paths ...string) WriteOption {
 }
 
 // InterceptBefore registers a function that will be called before the update occurs.
-// The new value passed to the function will be the Message given as part of the update operation.
+// The new value passed to the function will be a copy of the Message given as part of the update operation.
 // Do not write to the old value of the callback, this is for information only.
 // This is useful when applying delta update to a value, in this case you can append the old value to the update value
 // to get the sum.
-- 
2.43.0


From c89d49cb3b2b97b3a7e186037bbf649760ed6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 42/62] fix: selecting open close presets doesn't edit the
 update

---
 pkg/trait/openclosepb/model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index a32bc5a..87cd251 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -64,13 +64,14 @@ func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...reso
 }
 
 func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...resource.WriteOption) (*traits.OpenClosePositions, error) {
+	states := positions.States
 	// preset handling
 	if positions.Preset != nil {
 		preset, presetPositions := m.presetForName(positions.Preset.Name)
 		if preset == nil {
 			return nil, status.Errorf(codes.InvalidArgument, "preset %q not found", positions.Preset.Name)
 		}
-		positions.States = presetPositions
+		states = presetPositions
 	}
 
 	writeRequest := resource.ComputeWriteConfig(opts...)
@@ -80,7 +81,7 @@ func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...re
 	}
 	opts = append(opts, resource.WithCreateIfAbsent())
 
-	for _, state := range positions.States {
+	for _, state := range states {
 		_, err := m.positions.Update(directionToID(state.Direction), state, opts...)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d44959198ba38aa158455ee2147cce0889fe2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 43/62] fix: pulling open close positions with a read mask
 doesn't edit the stored positions

---
 pkg/trait/openclosepb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 87cd251..30d1062 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -140,7 +140,7 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 			positions.Preset, _ = m.presetForValue(positions.States)
 
 			// projection and filtering
-			responseFilter.Filter(positions)
+			positions = responseFilter.FilterClone(positions).(*traits.OpenClosePositions)
 			if eq(last, positions) {
 				continue
 			}
-- 
2.43.0


From c09ccbe01b6da374cf1ebefba49b9cbef5231cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 44/62] fix: selecting a light preset doesn't edit the update

---
 pkg/trait/lightpb/model.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index ff0b583..97ab709 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -26,7 +28,11 @@ func (m *Model) GetBrightness(opts ...resource.ReadOption) (*traits.Brightness,
 }
 
 func (m *Model) UpdateBrightness(light *traits.Brightness, opts ...resource.WriteOption) (*traits.Brightness, error) {
-	if m.setLevelFromPreset(light) {
+	if p, ok := m.presetFor(light); ok {
+		// don't edit the caller's message
+		light = proto.Clone(light).(*traits.Brightness)
+		light.LevelPercent = p.levelPercent
+		light.Preset = proto.Clone(p.LightPreset).(*traits.LightPreset) // sets the title if needed
 		opts = append(opts, resource.WithMoreUpdatePaths("level_percent"))
 	}
 	res, err := m.brightness.Set(light, opts...)
@@ -66,18 +72,16 @@ func (m *Model) ListPresets() []*traits.LightPreset {
 	return res
 }
 
-func (m *Model) setLevelFromPreset(b *traits.Brightness) bool {
+func (m *Model) presetFor(b *traits.Brightness) (preset, bool) {
 	if b.GetPreset() == nil {
-		return false
+		return preset{}, false
 	}
 	for _, p := range m.presets {
 		if p.Name == b.GetPreset().GetName() {
-			b.LevelPercent = p.levelPercent
-			b.Preset = p.LightPreset // sets the title if needed
-			return true
+			return p, true
 		}
 	}
-	return false
+	return preset{}, false
 }
 
 type PullBrightnessChange struct {
-- 
2.43.0


From 5010f33dfba87b1a46523af6716fdd91c1c95985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:07 +0000
Subject: [PATCH 45/62] fix: added waste records are independent of the
 caller's message

---
 pkg/trait/wastepb/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 55eb980..9023fda 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 	"time"
 
+	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -57,7 +58,7 @@ func (m *Model) AddWasteRecord(wr *traits.WasteRecord, opts ...resource.WriteOpt
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	m.allWasteRecords = append(m.allWasteRecords, wr)
+	m.allWasteRecords = append(m.allWasteRecords, proto.Clone(wr).(*traits.WasteRecord))
 	return v.(*traits.WasteRecord), nil
 }
 
-- 
2.43.0


From 9ae4702ad6006cf306316f53a2273cfc39530d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:07 +0000
Subject: [PATCH 46/62] fix: merging metadata doesn't edit the stored metadata

---
 pkg/trait/metadatapb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/metadatapb/model.go b/pkg/trait/metadatapb/model.go
index 89d0dd4..e9bf58e 100644
--- a/pkg/trait/metadatapb/model.go
+++ b/pkg/trait/metadatapb/model.go
@@ -109,7 +109,7 @@ func metadataMergeInterceptor(old, new proto.Message) {
 	// The default proto.Merge logic is to append src slices to dst slices.
 	// Instead we want to treat the Traits slice as if it were a map keyed by TraitMetadata.Name,
 	// so we have to do it ourselves.
-	oldVal := old.(*traits.Metadata)
+	oldVal := proto.Clone(old).(*traits.Metadata) // old isn't ours to edit
 	newVal := new.(*traits.Metadata)
 	newVal.Traits = oldVal.Traits
 	for _, trait := range cleanTraits {
-- 
2.43.0


From 77bae7032eaf269d45978e41237b2b930af9ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:50 +0000
Subject: [PATCH 47/62] fix: memory devices return the error when an update is
 rejected

---
 pkg/trait/airtemperaturepb/memory.go |  5 ++++-
 pkg/trait/countpb/memory.go          | 10 ++++++++--
 pkg/trait/emergencypb/memory.go      |  5 ++++-
 pkg/trait/lightpb/memory.go          |  5 ++++-
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/airtemperaturepb/memory.go b/pkg/trait/airtemperaturepb/memory.go
index 86a79ca..164f19c 100644
--- a/pkg/trait/airtemperaturepb/memory.go
+++ b/pkg/trait/airtemperaturepb/memory.go
@@ -50,7 +50,10 @@ func (t *MemoryDevice) GetAirTemperature(_ context.Context, req *traits.GetAirTe
 
 func (t *MemoryDevice) UpdateAirTemperature(_ context.Context, request *traits.UpdateAirTemperatureRequest) (*traits.AirTemperature, error) {
 	update, err := t.airTemperature.Set(request.State, resource.WithUpdateMask(request.UpdateMask))
-	return update.(*traits.AirTemperature), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.AirTemperature), nil
 }
 
 func (t *MemoryDevice) PullAirTemperature(request *traits.PullAirTemperatureRequest, server traits.AirTemperatureApi_PullAirTemperatureServer) error {
diff --git a/pkg/trait/countpb/memory.go b/pkg/trait/countpb/memory.go
index d5eba4d..7238953 100644
--- a/pkg/trait/countpb/memory.go
+++ b/pkg/trait/countpb/memory.go
@@ -44,7 +44,10 @@ func (t *MemoryDevice) ResetCount(_ context.Context, request *traits.ResetCountR
 		rt = timestamppb.Now()
 	}
 	res, err := t.count.Set(&traits.Count{Added: 0, Removed: 0, ResetTime: rt}, resource.WithAllFieldsWritable())
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCountRequest) (*traits.Count, error) {
@@ -56,7 +59,10 @@ func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCoun
 			tValue.Removed += tOld.Removed
 		}
 	}))
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) PullCounts(request *traits.PullCountsRequest, server traits.CountApi_PullCountsServer) error {
diff --git a/pkg/trait/emergencypb/memory.go b/pkg/trait/emergencypb/memory.go
index 44371df..b35242e 100644
--- a/pkg/trait/emergencypb/memory.go
+++ b/pkg/trait/emergencypb/memory.go
@@ -47,7 +47,10 @@ func (t *MemoryDevice) UpdateEmergency(_ context.Context, request *traits.Update
 			newt.LevelChangeTime = serverTimestamp()
 		}
 	}))
-	return update.(*traits.Emergency), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.Emergency), nil
 }
 
 func (t *MemoryDevice) PullEmergency(request *traits.PullEmergencyRequest, server traits.EmergencyApi_PullEmergencyServer) error {
diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 6a9f89e..01d344f 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -48,7 +48,10 @@ func (s *MemoryDevice) GetBrightness(_ context.Context, req *traits.GetBrightnes
 func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.UpdateBrightnessRequest) (*traits.Brightness, error) {
 	if request.GetBrightness().GetPreset() != nil {
 		res, err := s.brightness.Set(request.GetBrightness())
-		return res.(*traits.Brightness), err
+		if err != nil {
+			return nil, err
+		}
+		return res.(*traits.Brightness), nil
 	}
 
 	if err := resource.ValidateTweenOnUpdate("brightness", request.GetBrightness().GetBrightnessTween()); err != nil {
-- 
2.43.0


From 3d097629c4690947235c2d5a4841f591fe1e4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:56 +0000
Subject: [PATCH 48/62] fix: a light ramp doesn't panic when the brightness is
 updated during a step

---
 pkg/trait/lightpb/memory.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 01d344f..f9f9269 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -6,6 +6,8 @@ import (
 
 	"github.com/tanema/gween"
 	"github.com/tanema/gween/ease"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -98,7 +100,7 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 						resource.WithResetPaths("target_level_percent", "brightness_tween"),
 						resource.WithExpectedValue(lastObj),
 					)
-					if err != nil && err != resource.ExpectedValuePreconditionFailed {
+					if err != nil && !changedElsewhere(err) {
 						panic(err) // programmer error
 					}
 					return
@@ -112,7 +114,7 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 					resource.WithExpectedValue(lastObj),
 				)
 				switch {
-				case err == resource.ExpectedValuePreconditionFailed:
+				case changedElsewhere(err):
 					// somebody else changed the value, tweening is done
 					return
 				case err != nil:
@@ -169,6 +171,12 @@ func (s *MemoryDevice) PullBrightness(request *traits.PullBrightnessRequest, ser
 	return server.Context().Err()
 }
 
+// changedElsewhere returns whether err, from an update expecting a value, means that somebody else changed the value.
+// The change can happen before or during the update.
+func changedElsewhere(err error) bool {
+	return err == resource.ExpectedValuePreconditionFailed || status.Code(err) == codes.Aborted
+}
+
 func capLevelPercent(next *traits.Brightness) {
 	if next.LevelPercent < 0 {
 		next.LevelPercent = 0
-- 
2.43.0


From 5452254f0b75d14fffac157bcb18c043134e888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 49/62] fix: wrapped calls copy messages before handing them
 over

The receiver copied the message after SendMsg had already returned to the sender, so
a sender changing its message changed what was received. Receiving merged into the
destination where gRPC replaces its content.
---
 pkg/wrap/stream.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 39d4121..3668ef0 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -93,6 +93,8 @@ func (c *clientStream) Context() context.Context {
 }
 
 func (c *clientStream) SendMsg(m any) error {
+	// the caller is free to change m once we return, which may be before the server has looked at it
+	m = proto.Clone(m.(proto.Message))
 	select {
 	case <-c.ctx.Done():
 		return c.closeErrLocked()
@@ -119,7 +121,7 @@ func (c *clientStream) RecvMsg(m any) error {
 		if !ok {
 			return c.closeErrLocked()
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return permissiveProtoCopy(m.(proto.Message), val.(proto.Message))
 	}
 }
 
@@ -156,6 +158,8 @@ func (s *serverStream) Context() context.Context {
 
 func (s *serverStream) SendMsg(m any) error {
 	s.sendHeaderIfNeeded()
+	// the caller is free to change m once we return, which may be before the client has looked at it
+	m = proto.Clone(m.(proto.Message))
 	select {
 	case <-s.ctx.Done():
 		return s.closeErrLocked()
@@ -172,7 +176,7 @@ func (s *serverStream) RecvMsg(m any) error {
 		if !ok {
 			return io.EOF
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return permissiveProtoCopy(m.(proto.Message), val.(proto.Message))
 	}
 }
 
@@ -181,12 +185,14 @@ func (s *serverStream) sendHeaderIfNeeded() {
 	_ = s.SendHeader(nil)
 }
 
-// works like proto.Merge but allows messages with different descriptors by performing a marshal/unmarshal
+// replaces the content of dst with a copy of src
 //
+// The messages may have different descriptors, in which case src goes through a marshal/unmarshal.
 // This is the recommended way to do it: https://github.com/golang/protobuf/issues/1163#issuecomment-654334690
-func permissiveProtoMerge(dst, src proto.Message) error {
+func permissiveProtoCopy(dst, src proto.Message) error {
 	if dst.ProtoReflect().Descriptor() == src.ProtoReflect().Descriptor() {
 		// easy case, where proto.Merge can be used
+		proto.Reset(dst)
 		proto.Merge(dst, src)
 		return nil
 	}
@@ -195,5 +201,5 @@ func permissiveProtoMerge(dst, src proto.Message) error {
 	if err != nil {
 		return err
 	}
-	return proto.UnmarshalOptions{Merge: true}.Unmarshal(encoded, dst)
+	return proto.Unmarshal(encoded, dst)
 }
-- 
2.43.0


From 3733271f0a6341cb5ef1c4fbb4a9edd4fe643f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 50/62] fix: wrapped calls end the way gRPC calls do

How a call ends is decided once: by the server finishing or by the client's context
ending. A cancelled client could read io.EOF, and the server took a cancellation for the
client having finished sending. Using a stream after CloseSend panicked, header and
trailer were accessed without synchronisation, headers that were set but not sent never
reached the client and headers set after sending did.
---
 pkg/wrap/stream.go | 216 +++++++++++++++++++++++++++++++--------------
 pkg/wrap/wrap.go   |   9 +-
 2 files changed, 153 insertions(+), 72 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 3668ef0..e4f0edb 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -7,48 +7,96 @@ import (
 	"sync"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/metadata"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 )
 
+var (
+	errHeaderSent = errors.New("headers already sent")
+	errEnded      = errors.New("stream has ended")
+)
+
 // ClientServerStream combines both a grpc.ServerStream and grpc.ClientStream
 type ClientServerStream struct {
-	ctx context.Context
+	parent context.Context // the client's context
+	ctx    context.Context // ends when parent does or when the stream is closed
+	closed context.CancelFunc
 
-	header  metadata.MD
-	headerM sync.Mutex    // guards closing of headerC
-	headerC chan struct{} // closed once calls to clientStream.Header should return
+	headerC    chan struct{} // closed once calls to clientStream.Header should return
+	serverSend chan proto.Message
+	clientSend chan proto.Message
+	sendClosed chan struct{} // closed by clientStream.CloseSend
 
-	serverSend chan any
-	clientSend chan any
+	m          sync.Mutex // guards the fields below, and closing of headerC and sendClosed
+	header     metadata.MD
+	headerSent bool
 	trailer    metadata.MD
-	closed     context.CancelFunc
-	closeErr   error
+	ended      bool // set once the outcome of the stream, endErr, is decided
+	endErr     error
+	served     bool // ended because the server finished
+	halfClosed bool
 }
 
 func NewClientServerStream(ctx context.Context) *ClientServerStream {
 	newCtx, closed := context.WithCancel(ctx)
 	return &ClientServerStream{
+		parent:     ctx,
 		ctx:        newCtx,
 		closed:     closed,
 		headerC:    make(chan struct{}),
-		serverSend: make(chan any),
-		clientSend: make(chan any),
+		serverSend: make(chan proto.Message),
+		clientSend: make(chan proto.Message),
+		sendClosed: make(chan struct{}),
 	}
 }
 
+// Close ends the stream on behalf of the server.
+// Calls to RecvMsg on the client return err, or io.EOF if err is nil, unless the client's context ended first.
 func (s *ClientServerStream) Close(err error) {
-	s.closeErr = err
-	close(s.serverSend)
+	s.end(func() {
+		s.served = true
+		s.endErr = err
+		if err == nil {
+			s.endErr = io.EOF
+		}
+		// headers that have been set but not sent are sent along with the status
+		if len(s.header) > 0 && !s.headerSent {
+			s.sendHeaderLocked()
+		}
+	})
 	s.closed()
 }
 
-// safe to call if s.serverSend is closed
-func (s *ClientServerStream) closeErrLocked() error {
-	if s.closeErr == nil {
-		return io.EOF
+// end decides the outcome of the stream, if that hasn't happened already.
+// The client's context ending takes priority over finish.
+func (s *ClientServerStream) end(finish func()) {
+	s.m.Lock()
+	defer s.m.Unlock()
+	if s.ended {
+		return
+	}
+	s.ended = true
+	if err := s.parent.Err(); err != nil {
+		s.endErr = err
+		return
 	}
-	return s.closeErr
+	finish()
+}
+
+// outcome returns why the stream has ended: io.EOF if the server finished without an error.
+// It must only be called once s.ctx is done.
+func (s *ClientServerStream) outcome() error {
+	s.end(func() {})
+	s.m.Lock()
+	defer s.m.Unlock()
+	return s.endErr
+}
+
+func (s *ClientServerStream) sendHeaderLocked() {
+	s.headerSent = true
+	close(s.headerC)
 }
 
 func (s *ClientServerStream) Client() grpc.ClientStream {
@@ -66,25 +114,36 @@ type clientStream struct {
 func (c *clientStream) Header() (metadata.MD, error) {
 	select {
 	case <-c.ctx.Done():
-		select {
-		case <-c.headerC:
-			// we should still return the headers if we have them, even if the context is done
-			return c.header, nil
-		default:
-			// when the stream is terminated without headers, ClientStream should return a nil error
-			return nil, nil
-		}
 	case <-c.headerC:
-		return c.header, nil
 	}
+	c.m.Lock()
+	defer c.m.Unlock()
+	if !c.headerSent {
+		// when the stream is terminated without headers, ClientStream should return a nil error
+		return nil, nil
+	}
+	return c.header.Copy(), nil
 }
 
 func (c *clientStream) Trailer() metadata.MD {
-	return c.trailer
+	c.m.Lock()
+	defer c.m.Unlock()
+	if !c.served {
+		// the trailer is sent when the server finishes, the client doesn't get one if it left before that
+		return nil
+	}
+	return c.trailer.Copy()
 }
 
 func (c *clientStream) CloseSend() error {
-	close(c.clientSend)
+	c.m.Lock()
+	defer c.m.Unlock()
+	if !c.halfClosed {
+		c.halfClosed = true
+		if c.ctx.Err() == nil {
+			close(c.sendClosed)
+		}
+	}
 	return nil
 }
 
@@ -93,35 +152,37 @@ func (c *clientStream) Context() context.Context {
 }
 
 func (c *clientStream) SendMsg(m any) error {
+	c.m.Lock()
+	halfClosed := c.halfClosed
+	c.m.Unlock()
+	if halfClosed {
+		return status.Error(codes.Internal, "SendMsg called after CloseSend")
+	}
 	// the caller is free to change m once we return, which may be before the server has looked at it
-	m = proto.Clone(m.(proto.Message))
+	msg := proto.Clone(m.(proto.Message))
 	select {
 	case <-c.ctx.Done():
-		return c.closeErrLocked()
-	case c.clientSend <- m:
+		// as with gRPC, RecvMsg reports why the stream ended
+		return io.EOF
+	case c.clientSend <- msg:
 		return nil
 	}
 }
 
 func (c *clientStream) RecvMsg(m any) error {
+	msg, err := c.recv()
+	if err != nil {
+		return err
+	}
+	return permissiveProtoCopy(m.(proto.Message), msg)
+}
+
+func (c *clientStream) recv() (proto.Message, error) {
 	select {
-	case <-c.Context().Done():
-		// closeErr may or may not be available depending on why the context has ended
-		//  1. if c.closed() was called by c.Close(...), then c.closeErr will be available
-		//  2. if the parent context was cancelled, then c.closeErr may not be available
-		select {
-		case _, ok := <-c.serverSend:
-			if !ok {
-				return c.closeErrLocked()
-			}
-		default:
-		}
-		return c.Context().Err()
-	case val, ok := <-c.serverSend:
-		if !ok {
-			return c.closeErrLocked()
-		}
-		return permissiveProtoCopy(m.(proto.Message), val.(proto.Message))
+	case <-c.ctx.Done():
+		return nil, c.outcome()
+	case msg := <-c.serverSend:
+		return msg, nil
 	}
 }
 
@@ -130,25 +191,42 @@ type serverStream struct {
 }
 
 func (s *serverStream) SetHeader(md metadata.MD) error {
+	s.m.Lock()
+	defer s.m.Unlock()
+	if err := s.canSetHeaderLocked(); err != nil {
+		return err
+	}
 	s.header = metadata.Join(s.header, md)
 	return nil
 }
 
 func (s *serverStream) SendHeader(md metadata.MD) error {
-	s.headerM.Lock()
-	defer s.headerM.Unlock()
-
-	select {
-	case <-s.headerC:
-		return errors.New("headers already sent")
-	default:
+	s.m.Lock()
+	defer s.m.Unlock()
+	if err := s.canSetHeaderLocked(); err != nil {
+		return err
 	}
 	s.header = metadata.Join(s.header, md)
-	close(s.headerC)
+	s.sendHeaderLocked()
+	return nil
+}
+
+func (s *serverStream) canSetHeaderLocked() error {
+	if s.headerSent {
+		return errHeaderSent
+	}
+	if s.ended || s.ctx.Err() != nil {
+		return errEnded
+	}
 	return nil
 }
 
 func (s *serverStream) SetTrailer(md metadata.MD) {
+	s.m.Lock()
+	defer s.m.Unlock()
+	if s.ended {
+		return
+	}
 	s.trailer = metadata.Join(s.trailer, md)
 }
 
@@ -159,27 +237,33 @@ func (s *serverStream) Context() context.Context {
 func (s *serverStream) SendMsg(m any) error {
 	s.sendHeaderIfNeeded()
 	// the caller is free to change m once we return, which may be before the client has looked at it
-	m = proto.Clone(m.(proto.Message))
+	msg := proto.Clone(m.(proto.Message))
 	select {
 	case <-s.ctx.Done():
-		return s.closeErrLocked()
-	case s.serverSend <- m:
+		return s.doneErr()
+	case s.serverSend <- msg:
 		return nil
 	}
 }
 
 func (s *serverStream) RecvMsg(m any) error {
 	select {
-	case <-s.Context().Done():
-		return s.closeErrLocked()
-	case val, ok := <-s.clientSend:
-		if !ok {
-			return io.EOF
-		}
-		return permissiveProtoCopy(m.(proto.Message), val.(proto.Message))
+	case <-s.ctx.Done():
+		return s.doneErr()
+	case msg := <-s.clientSend:
+		return permissiveProtoCopy(m.(proto.Message), msg)
+	case <-s.sendClosed:
+		// messages sent before CloseSend have already been received: SendMsg waits for that
+		return io.EOF
 	}
 }
 
+// doneErr is the error the server gets for using a stream that has ended.
+// Never io.EOF, which would mean that the client has finished sending.
+func (s *serverStream) doneErr() error {
+	return status.FromContextError(s.ctx.Err()).Err()
+}
+
 func (s *serverStream) sendHeaderIfNeeded() {
 	// ignore error, SendHeader has no side effects if the headers have already been sent
 	_ = s.SendHeader(nil)
diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index c4cd005..19e724d 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -70,12 +70,9 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 		clientServerStream.Close(err)
 	}()
 
-	if err := cs.SendMsg(args); err != nil {
-		return err
-	}
-	if err := cs.CloseSend(); err != nil {
-		return err
-	}
+	// errors mean that the call has already ended, RecvMsg returns why
+	_ = cs.SendMsg(args)
+	_ = cs.CloseSend()
 	err := cs.RecvMsg(reply)
 
 	mdErr := collectMetadata(cs, opts)
-- 
2.43.0


From d99aedc9408495eaec65326a140e277cfa202096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 51/62] fix: wrapped handlers returning io.EOF or a context
 error give the client a status

A handler returning io.EOF looked like success to the client.
---
 pkg/wrap/wrap.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index 19e724d..b0483cb 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -63,11 +63,11 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 			return ss.RecvMsg(dst)
 		}, nil)
 		if err != nil {
-			clientServerStream.Close(err)
+			clientServerStream.Close(handlerStatus(err))
 			return
 		}
 		err = ss.SendMsg(res)
-		clientServerStream.Close(err)
+		clientServerStream.Close(handlerStatus(err))
 	}()
 
 	// errors mean that the call has already ended, RecvMsg returns why
@@ -101,7 +101,7 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
 	go func() {
 		err := matched.Handler(w.srv, ss)
-		clientServerStream.Close(err)
+		clientServerStream.Close(handlerStatus(err))
 	}()
 
 	return cs, nil
@@ -125,6 +125,18 @@ func (w *wrapper) startStream(ctx context.Context, method string) (context.Conte
 	return ctx, clientServerStream, ss, cs
 }
 
+// handlerStatus returns what a gRPC client receives when a handler returns err.
+func handlerStatus(err error) error {
+	if err == nil {
+		return nil
+	}
+	st, ok := status.FromError(err)
+	if !ok {
+		st = status.FromContextError(err)
+	}
+	return st.Err()
+}
+
 // thin implementation of grpc.ServerTransportStream, only to allow grpc.SetHeader to work,
 // which relies on a ServerTransportStream attached to the server context
 type serverTransportStream struct {
-- 
2.43.0


From a36c3842cf957db6d069d155248f0ef149ee68f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:49 +0000
Subject: [PATCH 52/62] fix: wrapped calls with one response wait for the
 server to finish

The client got the response even if the server then failed, and the context of a unary
handler outlived the call.
---
 pkg/wrap/stream.go | 12 ++++++++++++
 pkg/wrap/wrap.go   | 33 +++++++++++----------------------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index e4f0edb..03e769a 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -24,6 +24,10 @@ type ClientServerStream struct {
 	ctx    context.Context // ends when parent does or when the stream is closed
 	closed context.CancelFunc
 
+	// unaryResponse is set when the server sends at most one message.
+	// The client gets that message only once the server has finished without an error, as with gRPC.
+	unaryResponse bool
+
 	headerC    chan struct{} // closed once calls to clientStream.Header should return
 	serverSend chan proto.Message
 	clientSend chan proto.Message
@@ -174,6 +178,14 @@ func (c *clientStream) RecvMsg(m any) error {
 	if err != nil {
 		return err
 	}
+	if c.unaryResponse {
+		// the response counts only if the server finishes without an error
+		if _, err := c.recv(); err == nil {
+			return status.Error(codes.Internal, "more than one response to a unary call")
+		} else if err != io.EOF {
+			return err
+		}
+	}
 	return permissiveProtoCopy(m.(proto.Message), msg)
 }
 
diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index b0483cb..81618fd 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -57,18 +57,8 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 		return ErrMethodNotFound
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
-	go func() {
-		res, err := matched.Handler(w.srv, ctx, func(dst any) error {
-			return ss.RecvMsg(dst)
-		}, nil)
-		if err != nil {
-			clientServerStream.Close(handlerStatus(err))
-			return
-		}
-		err = ss.SendMsg(res)
-		clientServerStream.Close(handlerStatus(err))
-	}()
+	stream := adaptUnaryToStream(matched)
+	cs := w.startStream(ctx, method, stream)
 
 	// errors mean that the call has already ended, RecvMsg returns why
 	_ = cs.SendMsg(args)
@@ -98,16 +88,11 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 		return nil, ErrMethodShape
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
-	go func() {
-		err := matched.Handler(w.srv, ss)
-		clientServerStream.Close(handlerStatus(err))
-	}()
-
-	return cs, nil
+	return w.startStream(ctx, method, matched), nil
 }
 
-func (w *wrapper) startStream(ctx context.Context, method string) (context.Context, *ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
+// startStream runs the handler for method in its own goroutine, returning the client's side of the call.
+func (w *wrapper) startStream(ctx context.Context, method string, desc grpc.StreamDesc) grpc.ClientStream {
 	// convert client's outgoing metadata to server's incoming metadata
 	md, _ := metadata.FromOutgoingContext(ctx)
 	md = cloneMD(md) // to prevent client from concurrently modifying the metadata
@@ -118,11 +103,15 @@ func (w *wrapper) startStream(ctx context.Context, method string) (context.Conte
 	ctx = grpc.NewContextWithServerTransportStream(ctx, sts)
 
 	clientServerStream := NewClientServerStream(ctx)
+	clientServerStream.unaryResponse = !desc.ServerStreams
 	ss := clientServerStream.Server()
 	sts.ss = ss
-	cs := clientServerStream.Client()
+	go func() {
+		err := desc.Handler(w.srv, ss)
+		clientServerStream.Close(handlerStatus(err))
+	}()
 
-	return ctx, clientServerStream, ss, cs
+	return clientServerStream.Client()
 }
 
 // handlerStatus returns what a gRPC client receives when a handler returns err.
-- 
2.43.0


From 6a1310f44fbee099bb74d8b44842e8b1fd5bb588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 53/62] fix: route GetEnterLeaveEvent and ResetEnterLeaveTotals

The checked-in router of the enter leave sensor was generated before these
methods existed. Regenerated with protoc-gen-router.
---
 pkg/trait/enterleavesensorpb/api_router.pb.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/trait/enterleavesensorpb/api_router.pb.go b/pkg/trait/enterleavesensorpb/api_router.pb.go
index 3745447..aae1c5b 100644
--- a/pkg/trait/enterleavesensorpb/api_router.pb.go
+++ b/pkg/trait/enterleavesensorpb/api_router.pb.go
@@ -137,3 +137,21 @@ func (r *ApiRouter) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsReq
 		return err
 	}
 }
+
+func (r *ApiRouter) GetEnterLeaveEvent(ctx context.Context, request *traits.GetEnterLeaveEventRequest) (*traits.EnterLeaveEvent, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.GetEnterLeaveEvent(ctx, request)
+}
+
+func (r *ApiRouter) ResetEnterLeaveTotals(ctx context.Context, request *traits.ResetEnterLeaveTotalsRequest) (*traits.ResetEnterLeaveTotalsResponse, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.ResetEnterLeaveTotals(ctx, request)
+}
-- 
2.43.0


From b5ede10edec639afac804f4d06ef51834d369bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 54/62] fix: updates without a value are rejected by hail,
 publication and vending

---
 pkg/trait/hailpb/model.go               | 4 ++--
 pkg/trait/publicationpb/model_server.go | 4 ++--
 pkg/trait/vendingpb/model.go            | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/trait/hailpb/model.go b/pkg/trait/hailpb/model.go
index f6b348d..63cc8dd 100644
--- a/pkg/trait/hailpb/model.go
+++ b/pkg/trait/hailpb/model.go
@@ -51,10 +51,10 @@ func (m *Model) GetHail(id string, opts ...resource.ReadOption) (*traits.Hail, b
 }
 
 func (m *Model) UpdateHail(hail *traits.Hail, opts ...resource.WriteOption) (*traits.Hail, error) {
-	if hail.Id == "" {
+	if hail.GetId() == "" {
 		return nil, status.Error(codes.InvalidArgument, "missing ID")
 	}
-	msg, err := m.hails.Update(hail.Id, hail, opts...)
+	msg, err := m.hails.Update(hail.GetId(), hail, opts...)
 	return castReturn(msg, err)
 }
 
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 1673b4a..78a157b 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -50,10 +50,10 @@ func (m *ModelServer) GetPublication(_ context.Context, request *traits.GetPubli
 }
 
 func (m *ModelServer) UpdatePublication(_ context.Context, request *traits.UpdatePublicationRequest) (*traits.Publication, error) {
-	if request.Publication.Id == "" {
+	if request.GetPublication().GetId() == "" {
 		return nil, status.Error(codes.InvalidArgument, "id is required")
 	}
-	return m.model.UpdatePublication(request.Publication.Id, request.Publication,
+	return m.model.UpdatePublication(request.GetPublication().GetId(), request.Publication,
 		WithNewVersion(), WithNewPublishTime(), WithResetReceipt(),
 		resource.WithUpdateMask(request.UpdateMask),
 		resource.WithExpectedCheck(func(msg proto.Message) error {
diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index b1d5eb5..4587b42 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -141,10 +141,10 @@ func (m *Model) GetStock(consumable string, opts ...resource.ReadOption) (*trait
 }
 
 func (m *Model) UpdateStock(stock *traits.Consumable_Stock, opts ...resource.WriteOption) (*traits.Consumable_Stock, error) {
-	if stock.Consumable == "" {
+	if stock.GetConsumable() == "" {
 		return nil, status.Error(codes.NotFound, "consumable not specified")
 	}
-	msg, err := m.inventory.Update(stock.Consumable, stock, opts...)
+	msg, err := m.inventory.Update(stock.GetConsumable(), stock, opts...)
 	return castStock(msg, err)
 }
 
-- 
2.43.0


From 5f60737ca6c172c27928ecd397257afc875db5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 55/62] fix: open close positions are read using the read mask

---
 pkg/trait/openclosepb/model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 30d1062..4011dd2 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -39,7 +39,11 @@ type preset struct {
 }
 
 func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePositions, error) {
-	allPositions := m.positions.List(opts...) // already sorted by ID aka Direction ordinal
+	// the read mask is for the positions as a whole, not for each of them
+	responseFilter := resource.ComputeReadConfig(opts...).ResponseFilter()
+	listOpts := append([]resource.ReadOption{}, opts...)
+	listOpts = append(listOpts, resource.WithReadMask(nil))
+	allPositions := m.positions.List(listOpts...) // already sorted by ID aka Direction ordinal
 	dst := &traits.OpenClosePositions{
 		States: make([]*traits.OpenClosePosition, len(allPositions)),
 	}
@@ -52,7 +56,7 @@ func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePosi
 		dst.Preset = preset
 	}
 
-	return dst, nil
+	return responseFilter.FilterClone(dst).(*traits.OpenClosePositions), nil
 }
 
 func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...resource.ReadOption) (*traits.OpenClosePosition, error) {
-- 
2.43.0


From 540d331b32b994ac8189b69e676ea4e514421ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 56/62] fix: open close streams don't wait for positions when
 there are none

---
 pkg/trait/openclosepb/model.go | 50 ++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 4011dd2..ff69097 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -113,28 +113,17 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 	eq := cmp.Equal()
 
 	send := make(chan PullOpenClosePositionsChange)
+	// without any positions there's no seed value to wait for
+	noPositions := len(m.positions.List()) == 0
 	recv := m.positions.Pull(ctx)
 	go func() {
 		defer close(send)
 		all := make(map[string]*traits.OpenClosePosition, 1)
-		seenAll := false
+		seenAll := noPositions
 		var last *traits.OpenClosePositions
 
-		for change := range recv {
-			if change.NewValue == nil {
-				delete(all, change.Id)
-			} else {
-				all[change.Id] = change.NewValue.(*traits.OpenClosePosition)
-			}
-
-			shouldSend := seenAll || (change.LastSeedValue && !readRequest.UpdatesOnly)
-			if change.LastSeedValue {
-				seenAll = true
-			}
-			if !shouldSend {
-				continue
-			}
-
+		// sendAll sends all positions, unless they are the same as last time, and returns false when ctx is done
+		sendAll := func(changeTime time.Time) bool {
 			// transform into the correct output format
 			positions := &traits.OpenClosePositions{
 				States: maps.Values(all),
@@ -145,19 +134,40 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 
 			// projection and filtering
 			positions = responseFilter.FilterClone(positions).(*traits.OpenClosePositions)
-			if eq(last, positions) {
-				continue
+			if last != nil && eq(last, positions) {
+				return true
 			}
 			last = positions
 
 			// do the send
 			select {
 			case <-ctx.Done():
-				return
+				return false
 			case send <- PullOpenClosePositionsChange{
 				Positions:  positions,
-				ChangeTime: change.ChangeTime,
+				ChangeTime: changeTime,
 			}:
+				return true
+			}
+		}
+
+		if noPositions && !readRequest.UpdatesOnly && !sendAll(m.positions.Clock().Now()) {
+			return
+		}
+
+		for change := range recv {
+			if change.NewValue == nil {
+				delete(all, change.Id)
+			} else {
+				all[change.Id] = change.NewValue.(*traits.OpenClosePosition)
+			}
+
+			shouldSend := seenAll || (change.LastSeedValue && !readRequest.UpdatesOnly)
+			if change.LastSeedValue {
+				seenAll = true
+			}
+			if shouldSend && !sendAll(change.ChangeTime) {
+				return
 			}
 		}
 	}()
-- 
2.43.0


From 1d48338e622fee0d9bce9ea347c01d66b0012f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 57/62] fix: the press server implements the press API

---
 pkg/trait/presspb/model_server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/presspb/model_server.go b/pkg/trait/presspb/model_server.go
index 3f8a104..fde8762 100644
--- a/pkg/trait/presspb/model_server.go
+++ b/pkg/trait/presspb/model_server.go
@@ -18,15 +18,15 @@ func NewModelServer(model *Model) *ModelServer {
 	return &ModelServer{model: model}
 }
 
-func (s *ModelServer) GetButtonState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) GetPressedState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
 	return s.model.GetPressedState(resource.WithReadMask(request.ReadMask)), nil
 }
 
-func (s *ModelServer) UpdateButtonState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) UpdatePressedState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
 	return s.model.UpdatePressedState(request.PressedState, resource.WithUpdateMask(request.UpdateMask))
 }
 
-func (s *ModelServer) PullButtonState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
+func (s *ModelServer) PullPressedState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
 	changes := s.model.PullPressedState(server.Context(),
 		resource.WithReadMask(request.ReadMask),
 		resource.WithUpdatesOnly(request.UpdatesOnly),
-- 
2.43.0


From 250a7886d0f3f5796b66492f46da8a877859d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 58/62] fix: interceptors get an empty value when an update has
 none

The fan speed, light, speaker and other servers write to the value, or read fields of it, and panicked.
---
 pkg/resource/opt.go           | 4 ++++
 pkg/trait/fanspeedpb/model.go | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/opt.go b/pkg/resource/opt.go
index bb01dc6..d44dbfb 100644
--- a/pkg/resource/opt.go
+++ b/pkg/resource/opt.go
@@ -318,6 +318,10 @@ func (wr WriteRequest) changeFn(writer *masks.FieldUpdater, value proto.Message)
 
 		// value belongs to the caller, who may have got it from us, don't let interceptors and masks write to it
 		value := proto.Clone(value)
+		if !value.ProtoReflect().IsValid() {
+			// no value is the same as an empty one, but allow interceptors to write to it
+			value = value.ProtoReflect().New().Interface()
+		}
 		if wr.interceptBefore != nil {
 			// allow callers to update the value based on the old message
 			wr.interceptBefore(old, value)
diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 3fd0f66..c9a8dcb 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -78,16 +78,16 @@ func (m *Model) UpdateFanSpeed(fanSpeed *traits.FanSpeed, opts ...resource.Write
 }
 
 func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
-	if fanSpeed.Preset != "" {
+	if fanSpeed.GetPreset() != "" {
 		var found bool
 		for _, preset := range m.presets {
-			if preset.Name == fanSpeed.Preset {
+			if preset.Name == fanSpeed.GetPreset() {
 				found = true
 				break
 			}
 		}
 		if !found {
-			return status.Errorf(codes.InvalidArgument, "unknown preset %v", fanSpeed.Preset)
+			return status.Errorf(codes.InvalidArgument, "unknown preset %v", fanSpeed.GetPreset())
 		}
 	}
 	return nil
-- 
2.43.0


From b0ca30f45f8fe3fb175ba5d9395d0e30df1f9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 59/62] fix: open close streams list positions in the same
 order as reads

Positions written without a direction, because of the update mask, were sorted differently, and randomly when several had none. Updates without positions no longer panic.
---
 pkg/trait/openclosepb/model.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index ff69097..96554c2 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -68,12 +68,12 @@ func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...reso
 }
 
 func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...resource.WriteOption) (*traits.OpenClosePositions, error) {
-	states := positions.States
+	states := positions.GetStates()
 	// preset handling
-	if positions.Preset != nil {
-		preset, presetPositions := m.presetForName(positions.Preset.Name)
+	if p := positions.GetPreset(); p != nil {
+		preset, presetPositions := m.presetForName(p.Name)
 		if preset == nil {
-			return nil, status.Errorf(codes.InvalidArgument, "preset %q not found", positions.Preset.Name)
+			return nil, status.Errorf(codes.InvalidArgument, "preset %q not found", p.Name)
 		}
 		states = presetPositions
 	}
@@ -126,9 +126,13 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 		sendAll := func(changeTime time.Time) bool {
 			// transform into the correct output format
 			positions := &traits.OpenClosePositions{
-				States: maps.Values(all),
+				States: make([]*traits.OpenClosePosition, 0, len(all)),
+			}
+			ids := maps.Keys(all)
+			slices.Sort(ids) // the same order GetPositions uses
+			for _, id := range ids {
+				positions.States = append(positions.States, all[id])
 			}
-			sortPositions(positions.States)
 
 			positions.Preset, _ = m.presetForValue(positions.States)
 
@@ -214,6 +218,7 @@ func directionToID(direction traits.OpenClosePosition_Direction) string {
 	// if the number of directions ever exceeds 99 we need to change this
 	return fmt.Sprintf("%02d", direction)
 }
+
 func sortPositions(ps []*traits.OpenClosePosition) {
 	slices.SortFunc(ps, func(a, b *traits.OpenClosePosition) int {
 		return int(a.Direction - b.Direction)
-- 
2.43.0


From a39421ce5e75be7c7f2bb2d0cf7428d438a35c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 60/62] fix: collections sharing a random number generator, or
 generating ids concurrently, don't race on it

---
 pkg/resource/collection.go |  2 +-
 pkg/resource/id.go         | 14 ++++++++++++++
 pkg/resource/opt.go        |  4 +++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index b77b2c4..adfe1f1 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -19,7 +19,7 @@ import (
 type Collection struct {
 	*config
 
-	mu   sync.RWMutex // protects byId and rng from concurrent access
+	mu   sync.RWMutex // protects byId from concurrent access
 	byId map[string]*item
 	// "change" events contain a *CollectionChange instance
 	bus minibus.Bus
diff --git a/pkg/resource/id.go b/pkg/resource/id.go
index cf0b2ff..51803a5 100644
--- a/pkg/resource/id.go
+++ b/pkg/resource/id.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"io"
+	"sync"
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -23,3 +24,16 @@ func GenerateUniqueId(rng io.Reader, exists func(candidate string) bool) (string
 	}
 	return "", status.Error(codes.Aborted, fmt.Sprintf("id generation attempts exhausted after %v attempts", tries))
 }
+
+// lockedReader makes an io.Reader safe for concurrent use.
+// Ids are generated by callers that hold no more than a read lock, and resources can share a random number generator.
+type lockedReader struct {
+	m sync.Mutex
+	r io.Reader
+}
+
+func (r *lockedReader) Read(p []byte) (int, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
+	return r.r.Read(p)
+}
diff --git a/pkg/resource/opt.go b/pkg/resource/opt.go
index d44dbfb..be4d8e0 100644
--- a/pkg/resource/opt.go
+++ b/pkg/resource/opt.go
@@ -56,7 +56,9 @@ func WithNoDuplicates() Option {
 
 // WithRNG configures the source of randomness for the resource.
 // Defaults to rand.Rand with a time seed.
+// Reads from rng are serialised across all the resources created with the returned option.
 func WithRNG(rng io.Reader) Option {
+	rng = &lockedReader{r: rng}
 	return optionFunc(func(s *config) {
 		s.rng = rng
 	})
@@ -126,7 +128,7 @@ type config struct {
 func computeConfig(opts ...Option) *config {
 	c := &config{
 		clock: WallClock(),
-		rng:   rand.New(rand.NewSource(time.Now().Unix())),
+		rng:   &lockedReader{r: rand.New(rand.NewSource(time.Now().Unix()))},
 	}
 	for _, opt := range opts {
 		opt.apply(c)
-- 
2.43.0


From 01f775499ef448ca9c1beb51e1040cbdf059062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 61/62] fix: electric models don't race on the random number
 generator they share by default

---
 pkg/trait/electricpb/model_opts.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/electricpb/model_opts.go b/pkg/trait/electricpb/model_opts.go
index b102855..def04ca 100644
--- a/pkg/trait/electricpb/model_opts.go
+++ b/pkg/trait/electricpb/model_opts.go
@@ -93,10 +93,11 @@ func WithClock(clock clock.Clock) resource.Option {
 // WithRNG returns an option that configures the model to use the given random number generator.
 // Overrides resource.WithRNG() if used before this option.
 func WithRNG(rng *rand.Rand) resource.Option {
+	opt := resource.WithRNG(rng) // shared by all models using the returned option, which serialises access to rng
 	return modelOptionFunc(func(args *modelArgs) {
-		args.demandOpts = append(args.demandOpts, resource.WithRNG(rng))
-		args.activeModeOpts = append(args.activeModeOpts, resource.WithRNG(rng))
-		args.modeOpts = append(args.modeOpts, resource.WithRNG(rng))
+		args.demandOpts = append(args.demandOpts, opt)
+		args.activeModeOpts = append(args.activeModeOpts, opt)
+		args.modeOpts = append(args.modeOpts, opt)
 		args.rng = rng
 	})
 }
-- 
2.43.0


From 5eee1bf88cb6c5a8863efd07f9ff1b0767168ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 62/62] fix: metadata collection servers honour the read mask
 of a Get

---
 pkg/trait/metadatapb/collection_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/metadatapb/collection_server.go b/pkg/trait/metadatapb/collection_server.go
index 2de90da..631f331 100644
--- a/pkg/trait/metadatapb/collection_server.go
+++ b/pkg/trait/metadatapb/collection_server.go
@@ -22,7 +22,7 @@ func (s *CollectionServer) Unwrap() any {
 }
 
 func (s *CollectionServer) GetMetadata(_ context.Context, request *traits.GetMetadataRequest) (*traits.Metadata, error) {
-	return s.model.GetMetadata(request.Name)
+	return s.model.GetMetadata(request.Name, resource.WithReadMask(request.ReadMask))
 }
 
 func (s *CollectionServer) PullMetadata(request *traits.PullMetadataRequest, server traits.MetadataApi_PullMetadataServer) error {
-- 
2.43.0

