From e41a46c12f8f937f738ba11dd2fc513b7a1d8727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 01/68] fix: AddDirective superseding uses stale list while
 callbacks change it

Superseding an equivalent directive unlocked the controller while ranging
over the list of directives: superseded directives were skipped, the wrong
one removed, and equivalent directives added by the callbacks were not merged
with the new one. Collect the superseded directives first and push the new
one before removing them.
---
 directive/controller/controller.go | 32 +++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 30a7243..640ec98 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -62,22 +62,39 @@ func (c *Controller) AddDirective(
 	defer c.mtx.Unlock()
 
 	// Check if any equivalent directives exist, if applicable.
+	var existing *directiveInstance
+	var superceded []*directiveInstance
 	if eqDir, eqDirOk := dir.(directive.DirectiveWithEquiv); eqDirOk {
-		for diIdx, di := range c.dir {
+		for _, di := range c.dir {
 			if !di.released.Load() && eqDir.IsEquivalent(di.dir) {
 				// Directive is equivalent to di.
 				spDir, spDirOk := eqDir.(directive.DirectiveWithSuperceeds)
-				if spDirOk && spDir.Superceeds(di.dir) {
-					// Remove the other directive (superceed it)
-					di.removeLocked(diIdx)
-				} else {
-					// Add a reference to the other directive & return.
-					return di, di.addReferenceLocked(ref, false), nil
+				if !spDirOk || !spDir.Superceeds(di.dir) {
+					existing = di
+					break
 				}
+				superceded = append(superceded, di)
 			}
 		}
 	}
 
+	// removeSuperceded removes the directives which were superceeded.
+	// note: temporarily unlocks mtx to call callbacks
+	removeSuperceded := func() {
+		for _, di := range superceded {
+			if !di.released.Swap(true) {
+				di.removeLocked(-1)
+			}
+		}
+	}
+
+	// Add a reference to the other directive & return.
+	if existing != nil {
+		ref := existing.addReferenceLocked(ref, false)
+		removeSuperceded()
+		return existing, ref, nil
+	}
+
 	// Push the new directive to the list.
 	di, diRef := newDirectiveInstance(c, c.dirID, dir, ref)
 	c.dirID++
@@ -87,6 +104,7 @@ func (c *Controller) AddDirective(
 	// call all handlers while mtx is unlocked
 	handlers := make([]*handler, len(c.hnd))
 	copy(handlers, c.hnd)
+	removeSuperceded()
 	c.mtx.Unlock()
 	var resolvers []*resolver
 	for _, hnd := range handlers {
-- 
2.43.0


From bcfe306b7796e0cc2740f8abec435836d36b724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 02/68] fix: resolvers attached to released directives and
 removed handlers

The handlers are called while the controller is unlocked: the instance can be
released and the handler removed meanwhile. Attaching the returned resolvers
anyway left them (and their values) behind, as nothing removes them.
---
 directive/controller/controller.go |  6 ++----
 directive/controller/instance.go   | 14 +++++++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 640ec98..37b4442 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -124,10 +124,8 @@ func (c *Controller) AddDirective(
 	c.mtx.Lock() // note: unlocked in Defer above
 
 	di.ready = true
-	if !di.released.Load() {
-		for _, res := range resolvers {
-			di.attachStartResolverLocked(res)
-		}
+	for _, res := range resolvers {
+		di.attachStartResolverLocked(res)
 	}
 
 	return di, diRef, nil
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index bf50e72..fc913fd 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -469,7 +469,7 @@ func (i *directiveInstance) addResolverRemovedCallbackLocked(res *resolver, cb f
 // attachStartSubResolverLocked adds and starts a sub-resolver for a parent resolver.
 // returns nil, nil, false if the resolver was already removed
 func (i *directiveInstance) attachStartSubResolverLocked(res *resolver, subRes directive.Resolver, removedCb func()) (func(), bool) {
-	if !slices.Contains(i.res, res) || res.hnd.rel.Load() || i.released.Load() {
+	if !slices.Contains(i.res, res) {
 		return nil, false
 	}
 
@@ -477,7 +477,9 @@ func (i *directiveInstance) attachStartSubResolverLocked(res *resolver, subRes d
 	if removedCb != nil {
 		subResReg.rels = append(subResReg.rels, newCallback(removedCb))
 	}
-	i.attachStartResolverLocked(subResReg)
+	if !i.attachStartResolverLocked(subResReg) {
+		return nil, false
+	}
 
 	return func() {
 		i.c.mtx.Lock()
@@ -615,7 +617,12 @@ func (i *directiveInstance) callHandlerUnlocked(handler *handler) (res []*resolv
 }
 
 // attachStartResolverLocked attaches and starts a resolver while i.c.mtx is locked
-func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
+//
+// returns false if the instance was released or the handler was removed
+func (i *directiveInstance) attachStartResolverLocked(res *resolver) bool {
+	if i.released.Load() || res.hnd.rel.Load() {
+		return false
+	}
 	i.res = append(i.res, res)
 	if i.full {
 		res.idle = true
@@ -624,6 +631,7 @@ func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
 		res.updateContextLocked(&i.ctx)
 		i.handleIdleStateLocked()
 	}
+	return true
 }
 
 // removeLocked removes the directive instance while i.c.mtx is locked.
-- 
2.43.0


From 95a27f104bb0019ee056d5e7b7878b2808fbc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 03/68] fix: existing values delivered to a new reference out
 of order

The values of an instance were delivered grouped by resolver instead of in
the order they were emitted.
---
 directive/controller/instance.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index fc913fd..eef1bf7 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -1,6 +1,7 @@
 package controller
 
 import (
+	"cmp"
 	"context"
 	"net/url"
 	"runtime/debug"
@@ -168,13 +169,19 @@ func (i *directiveInstance) addReferenceLocked(cb directive.ReferenceHandler, we
 	}
 	var cbs []func()
 	if cb != nil {
+		// deliver the existing values in the order they were emitted
+		var vals []*value
 		for _, res := range i.res {
-			for _, val := range res.vals {
-				val := val
-				cbs = append(cbs, func() {
-					cb.HandleValueAdded(i, val)
-				})
-			}
+			vals = append(vals, res.vals...)
+		}
+		slices.SortFunc(vals, func(a, b *value) int {
+			return cmp.Compare(a.id, b.id)
+		})
+		for _, val := range vals {
+			val := val
+			cbs = append(cbs, func() {
+				cb.HandleValueAdded(i, val)
+			})
 		}
 	}
 	if !weakRef && (firstRef || firstNonWeakRef) {
-- 
2.43.0


From bc80a86341b8626a044428ef8fd04539f83a7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 04/68] fix: AddDisposeCallback on a disposed instance calls
 back synchronously

The documentation promises a call in a new goroutine: callers hold locks which
the callback takes.
---
 directive/controller/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index eef1bf7..de4c471 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -528,7 +528,7 @@ func (i *directiveInstance) AddDisposeCallback(cb func()) func() {
 	i.c.mtx.Lock()
 	if i.released.Load() {
 		i.c.mtx.Unlock()
-		cb()
+		go cb()
 		return func() {}
 	}
 	rel := newCallback(cb)
-- 
2.43.0


From 12e25b875e11d29349ae1fa9b109f0294920b4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 05/68] fix: removing a handler skips directives and resolvers

The lists of directives and of resolvers change while callbacks are called
with the controller unlocked: resolvers of the removed handler were left
running with their values.
---
 directive/controller/controller.go | 3 ++-
 directive/controller/instance.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 37b4442..46378e6 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -213,7 +213,8 @@ func (c *Controller) removeHandlerLocked(hnd *handler) bool {
 		return false
 	}
 	// cancel all resolvers associated with the handler
-	for _, di := range c.dir {
+	// note: the list of directives can change while calling callbacks
+	for _, di := range slices.Clone(c.dir) {
 		di.removeHandlerLocked(hnd)
 	}
 	return true
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index de4c471..c0518ef 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -712,7 +712,8 @@ func (i *directiveInstance) removeHandlerLocked(hnd *handler) {
 		res := i.res[idx]
 		if res.hnd == hnd {
 			i.removeResolverLocked(idx, res)
-			idx--
+			// the list can change while calling callbacks: start over
+			idx = -1
 		}
 	}
 }
-- 
2.43.0


From 0cdb645ebac218a27adf1a162f559eb97989e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 06/68] fix: sub-resolvers outlive their parent resolver

The removed callback of a sub-resolver is documented to be called if the
parent resolver is removed.
---
 directive/controller/instance.go | 8 ++++++++
 directive/controller/resolver.go | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index c0518ef..9fbbfdf 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -481,6 +481,7 @@ func (i *directiveInstance) attachStartSubResolverLocked(res *resolver, subRes d
 	}
 
 	subResReg := newResolver(i, res.hnd, subRes)
+	subResReg.parent = res
 	if removedCb != nil {
 		subResReg.rels = append(subResReg.rels, newCallback(removedCb))
 	}
@@ -738,6 +739,13 @@ func (i *directiveInstance) removeResolverLocked(resIdx int, rres *resolver) {
 	vals := rres.vals
 	rres.vals = nil
 	i.onValuesRemovedLocked(rres, vals...)
+	// remove the sub-resolvers
+	for idx := 0; idx < len(i.res); idx++ {
+		if res := i.res[idx]; res.parent == rres {
+			i.removeResolverLocked(idx, res)
+			idx = -1
+		}
+	}
 	// call the resolver removed callbacks
 	var cbs []func()
 	for _, cb := range rres.rels {
diff --git a/directive/controller/resolver.go b/directive/controller/resolver.go
index 64306e6..110b79e 100644
--- a/directive/controller/resolver.go
+++ b/directive/controller/resolver.go
@@ -11,6 +11,8 @@ type resolver struct {
 	di  *directiveInstance
 	hnd *handler
 	res directive.Resolver
+	// parent is the parent resolver, if this is a sub-resolver
+	parent *resolver
 
 	// di.c.mtx guards below fields
 
-- 
2.43.0


From a16600ec4c25969fc8ca2ffab7d6966c69025437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 07/68] fix: resolver started after it was removed by an idle
 callback

updateContextLocked called the idle callbacks (with the controller unlocked)
before it stored the new context: a resolver removed meanwhile was started.
---
 directive/controller/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/directive/controller/resolver.go b/directive/controller/resolver.go
index 110b79e..40dc5d3 100644
--- a/directive/controller/resolver.go
+++ b/directive/controller/resolver.go
@@ -67,7 +67,6 @@ func (r *resolver) updateContextLocked(ctx *context.Context) {
 	}
 	if ctx == nil {
 		r.exited = true
-		r.setIdleLocked(true)
 	} else {
 		// start resolver with new context
 		exitedCh := make(chan struct{})
@@ -75,11 +74,12 @@ func (r *resolver) updateContextLocked(ctx *context.Context) {
 		r.exitedCh = exitedCh
 		r.err = nil
 		r.exited, r.stopped = false, false
-		r.setIdleLocked(false)
 		r.ctx, r.ctxCancel = context.WithCancel(*ctx)
 		hnd := &resolverHandler{r: r, ctx: r.ctx}
 		go hnd.executeResolver(r.ctx, exitedCh, waitCh)
 	}
+	// note: temporarily unlocks mtx to call callbacks
+	r.setIdleLocked(ctx == nil)
 }
 
 // updateIdleLocked marks the resolver idle state while di.c.mtx is locked
-- 
2.43.0


From fd73e4fd4c1779f54732c2d08e957d9e01ce8b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 08/68] fix: removing a callback leaves a duplicate of the last
 one

The shortened list was not stored: after releasing an idle callback the last
callback of the list was called twice.
---
 directive/controller/instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 9fbbfdf..fed8514 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -366,12 +366,12 @@ func (i *directiveInstance) handleIdleStateLocked() {
 
 // removeReleaseCallbackLocked removes a release callback while i.c.mtx is locked.
 func (i *directiveInstance) removeReleaseCallbackLocked(cb *callback[func()]) {
-	removeFromCallbacks(i.rels, cb)
+	i.rels = removeFromCallbacks(i.rels, cb)
 }
 
 // removeIdleCallbackLocked removes a idle callback while i.c.mtx is locked.
 func (i *directiveInstance) removeIdleCallbackLocked(cb *callback[directive.IdleCallback]) {
-	removeFromCallbacks(i.idles, cb)
+	i.idles = removeFromCallbacks(i.idles, cb)
 }
 
 // addValueLocked adds a value to the instance while i.c.mtx is locked
-- 
2.43.0


From 13f732e515eb33ac4f10aa8575b4232ed5f4ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 09/68] fix: idle state wrong until the initial handlers were
 called

Idle callbacks registered before the initial set of handlers was called were
never told that a directive without resolvers is idle, were not told that it
became busy later, and were told it is idle early if a concurrently added
handler's resolver finished first.
---
 directive/controller/controller.go | 3 ++-
 directive/controller/instance.go   | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 46378e6..de3aa1d 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -123,10 +123,11 @@ func (c *Controller) AddDirective(
 	// attach returned resolvers while mtx is locked
 	c.mtx.Lock() // note: unlocked in Defer above
 
-	di.ready = true
 	for _, res := range resolvers {
 		di.attachStartResolverLocked(res)
 	}
+	di.ready = true
+	di.handleIdleStateLocked()
 
 	return di, diRef, nil
 }
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index fed8514..96f2fe4 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -334,9 +334,10 @@ func (i *directiveInstance) checkFullLocked() {
 	}
 }
 
-// checkIdleLocked checks if there are any running resolvers
+// checkIdleLocked checks if the initial set of handlers was called and there
+// are no running resolvers
 func (i *directiveInstance) checkIdleLocked() bool {
-	return i.countRunningResolversLocked() == 0
+	return i.ready && i.countRunningResolversLocked() == 0
 }
 
 // handleIdleStateLocked checks if the idle state of the instance changes & handles that if so.
@@ -553,7 +554,7 @@ func (i *directiveInstance) AddIdleCallback(cb directive.IdleCallback) func() {
 
 	rel := newCallback(cb)
 	i.idles = append(i.idles, rel)
-	isIdle := i.ready && i.checkIdleLocked()
+	isIdle := i.checkIdleLocked()
 	errs := i.getResolverErrsLocked()
 	i.callCallbacksLocked(func() {
 		cb(isIdle, errs)
-- 
2.43.0


From 528f2f4357f9f6e5aa2ead59e124fc353a093a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 10/68] fix: value cap handling confused by callbacks

Stopping and restarting the resolvers called idle callbacks (with the
controller unlocked) while ranging over the resolvers: removed resolvers were
started, and resolvers stopped although the values went below the cap
meanwhile. Change all resolvers before calling the callbacks.
---
 directive/controller/instance.go |  7 +++++--
 directive/controller/resolver.go | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 96f2fe4..d09a621 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -293,7 +293,7 @@ func (i *directiveInstance) handleFullLocked() {
 		}
 		if !res.exited && len(res.vals) == 0 {
 			res.stopped = true
-			res.updateContextLocked(nil)
+			res.setContextLocked(nil)
 		} else {
 			res.idle = true
 		}
@@ -313,9 +313,12 @@ func (i *directiveInstance) handleNotFullLocked() {
 	// restart resolvers that exited with errors and/or were killed
 	for _, res := range i.res {
 		if (res.exited && res.err != nil) || res.stopped {
-			res.updateContextLocked(&i.ctx)
+			res.setContextLocked(&i.ctx)
 		}
 	}
+
+	// check if the directive became not idle
+	i.handleIdleStateLocked()
 }
 
 // checkFullLocked checks if we have reached the maximum value cap.
diff --git a/directive/controller/resolver.go b/directive/controller/resolver.go
index 40dc5d3..b76e737 100644
--- a/directive/controller/resolver.go
+++ b/directive/controller/resolver.go
@@ -51,14 +51,23 @@ func newResolver(di *directiveInstance, hnd *handler, res directive.Resolver) *r
 // updateContextLocked updates the resolver context while di.c.mtx is locked
 //
 // if ctx is nil, stops the resolver.
+// note: temporarily unlocks mtx to call callbacks
 func (r *resolver) updateContextLocked(ctx *context.Context) {
+	if r.setContextLocked(ctx) {
+		r.di.handleIdleStateLocked()
+	}
+}
+
+// setContextLocked updates the resolver context without calling callbacks.
+// returns false if nothing was changed.
+func (r *resolver) setContextLocked(ctx *context.Context) bool {
 	// keep the resolver running if it hasn't exited
 	if ctx != nil && r.ctx != nil && !r.exited {
 		select {
 		case <-r.ctx.Done():
 		default:
 			// resolver is still running
-			return
+			return false
 		}
 	}
 	if r.ctxCancel != nil {
@@ -78,8 +87,8 @@ func (r *resolver) updateContextLocked(ctx *context.Context) {
 		hnd := &resolverHandler{r: r, ctx: r.ctx}
 		go hnd.executeResolver(r.ctx, exitedCh, waitCh)
 	}
-	// note: temporarily unlocks mtx to call callbacks
-	r.setIdleLocked(ctx == nil)
+	r.idle = ctx == nil
+	return true
 }
 
 // updateIdleLocked marks the resolver idle state while di.c.mtx is locked
-- 
2.43.0


From f557cc4c7d02c454ba1daae6fc4a67d15d8d45eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 11/68] fix: resolver attached at the value cap is never
 started

---
 directive/controller/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index d09a621..dab5d0f 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -637,7 +637,7 @@ func (i *directiveInstance) attachStartResolverLocked(res *resolver) bool {
 	}
 	i.res = append(i.res, res)
 	if i.full {
-		res.idle = true
+		res.idle, res.stopped = true, true
 		res.updateContextLocked(nil)
 	} else {
 		res.updateContextLocked(&i.ctx)
-- 
2.43.0


From a8aae757fac91a7dbba97ba3304ae88930ab5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 12/68] fix: calls of Resolve overlap if canceled while waiting

A restarted resolver which was canceled while it waited for the previous call
to return signaled that it exited: the next start did not wait for the call
still running.
---
 directive/controller/resolver-handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directive/controller/resolver-handler.go b/directive/controller/resolver-handler.go
index 0172199..96af044 100644
--- a/directive/controller/resolver-handler.go
+++ b/directive/controller/resolver-handler.go
@@ -172,10 +172,10 @@ func (r *resolverHandler) AddResolver(res directive.Resolver, removedCb func())
 func (r *resolverHandler) executeResolver(ctx context.Context, exitedCh chan<- struct{}, waitCh <-chan struct{}) {
 	defer close(exitedCh)
 	if waitCh != nil {
-		select {
-		case <-ctx.Done():
+		// note: exitedCh must not be closed before the previous call returned
+		<-waitCh
+		if ctx.Err() != nil {
 			return
-		case <-waitCh:
 		}
 	}
 
-- 
2.43.0


From 2994ac01bfbd6aa37dbf1745b22bf67efb900725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 13/68] fix: resolver error is not reported if the directive is
 already idle

---
 directive/controller/instance.go         | 6 +++++-
 directive/controller/resolver-handler.go | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index dab5d0f..0fe284a 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -350,12 +350,16 @@ func (i *directiveInstance) handleIdleStateLocked() {
 		return
 	}
 	i.idle = idle
+	i.callIdleCallbacksLocked()
+}
 
+// callIdleCallbacksLocked calls the idle callbacks with the current state.
+func (i *directiveInstance) callIdleCallbacksLocked() {
 	if len(i.idles) == 0 {
 		return
 	}
 
-	errs := i.getResolverErrsLocked()
+	idle, errs := i.idle, i.getResolverErrsLocked()
 	var cbs []func()
 	for _, idleCb := range i.idles {
 		if !idleCb.released.Load() && idleCb.cb != nil {
diff --git a/directive/controller/resolver-handler.go b/directive/controller/resolver-handler.go
index 96af044..1c5a80c 100644
--- a/directive/controller/resolver-handler.go
+++ b/directive/controller/resolver-handler.go
@@ -188,7 +188,12 @@ func (r *resolverHandler) executeResolver(ctx context.Context, exitedCh chan<- s
 	}
 	r.r.exited = true
 	r.r.err = err
-	r.r.setIdleLocked(true)
+	if !r.r.idle {
+		r.r.setIdleLocked(true)
+	} else if err != nil && r.r.di.idle {
+		// the idle state does not change, but the list of errors did.
+		r.r.di.callIdleCallbacksLocked()
+	}
 }
 
 // _ is a type assertion.
-- 
2.43.0


From ed75e6371f3c66ba5b05e2cbc084f4eec6ea6f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 14/68] fix: ExecOneOff forgets a filter error when the idle
 state changes

---
 bus/oneoff.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bus/oneoff.go b/bus/oneoff.go
index 9046859..5c695c0 100644
--- a/bus/oneoff.go
+++ b/bus/oneoff.go
@@ -163,7 +163,10 @@ func ExecOneOffWithFilter(
 		bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 			// idle or errors list changed
 			idle = isIdle
-			wait, resErr = idleCb(idle, errs)
+			// if there already was an error (filter, disposed) keep it.
+			if resErr == nil {
+				wait, resErr = idleCb(idle, errs)
+			}
 			broadcast()
 		})
 	})()
-- 
2.43.0


From 38fb60b3ecbcae47528490baffff1c090eb216e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 15/68] fix: watched values are compared by the difference of
 unsigned ids

---
 bus/watch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bus/watch.go b/bus/watch.go
index 33e7193..9424a76 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -1,6 +1,7 @@
 package bus
 
 import (
+	"cmp"
 	"context"
 	"slices"
 	"sync"
@@ -159,7 +160,7 @@ func ExecOneOffWatchSelectCb[T directive.ComparableValue](
 				tav := directive.NewTypedAttachedValue(vid, val)
 				sortedVals = append(sortedVals, tav)
 				slices.SortFunc(sortedVals, func(a, b directive.TypedAttachedValue[T]) int {
-					return int(a.GetValueID() - b.GetValueID())
+					return cmp.Compare(a.GetValueID(), b.GetValueID())
 				})
 				selectNextValue()
 			},
@@ -468,7 +469,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 	var xfrmVals []directive.TransformedAttachedValue[T, E]
 	sortXfrmVals := func() {
 		slices.SortFunc(xfrmVals, func(a, b directive.TransformedAttachedValue[T, E]) int {
-			return int(a.GetValueID() - b.GetValueID())
+			return cmp.Compare(a.GetValueID(), b.GetValueID())
 		})
 	}
 
-- 
2.43.0


From bf2bfc3efe80c6a1a18d0dea76479eb593a0d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 16/68] fix: ExecOneOffWatchTransformEffect selects no other
 value when one is removed

---
 bus/watch.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bus/watch.go b/bus/watch.go
index 9424a76..e1953de 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -480,7 +480,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 		var selectedVal directive.TransformedAttachedValue[T, E]
 
 		var valueIdx int
-		if selectValue != nil {
+		if selectValue != nil && len(xfrmVals) != 0 {
 			valueIdx = selectValue(xfrmVals)
 		}
 		if valueIdx >= 0 && valueIdx < len(xfrmVals) {
@@ -493,9 +493,12 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 		}
 		if effectRel != nil {
 			effectRel()
+			effectRel = nil
 		}
 		effectVal = selectedValID
-		effectRel = effect(selectedVal)
+		if selectedVal != nil {
+			effectRel = effect(selectedVal)
+		}
 	}
 
 	return ExecWatchTransformEffect(
@@ -513,13 +516,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 				idx := slices.Index(xfrmVals, val)
 				if idx >= 0 {
 					xfrmVals = slices.Delete(xfrmVals, idx, idx+1)
-					if effectVal == val.GetValueID() {
-						effectVal = 0
-						if effectRel != nil {
-							effectRel()
-							effectRel = nil
-						}
-					}
+					maybeCallEffect()
 				}
 				mtx.Unlock()
 			}
-- 
2.43.0


From 5f09405295f00370d26290aeebaddfeac09d1a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 17/68] fix: TransformHandler without a transform adds the
 method instead of the value

---
 bus/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bus/transform.go b/bus/transform.go
index d27a7aa..b18571a 100644
--- a/bus/transform.go
+++ b/bus/transform.go
@@ -47,7 +47,7 @@ func (h *TransformHandler) HandleValueAdded(
 			return
 		}
 	} else {
-		val = v.GetValue
+		val = v.GetValue()
 	}
 
 	id, accepted := h.handler.AddValue(val)
-- 
2.43.0


From 544b34c920348c724bc327704555aac117b03ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 18/68] fix: bridge ignores a directive which is added again
 right after it was disposed

---
 bus/bridge/bridge.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bus/bridge/bridge.go b/bus/bridge/bridge.go
index 8bd8b30..e917eff 100644
--- a/bus/bridge/bridge.go
+++ b/bus/bridge/bridge.go
@@ -25,8 +25,8 @@ type BusBridge struct {
 
 	// mtx guards below fields
 	mtx sync.Mutex
-	// seenDi is the list of seen ongoing directive instances
-	seenDi map[directive.Directive]struct{}
+	// seenDi contains the ongoing directive instance each seen directive was first seen with
+	seenDi map[directive.Directive]directive.Instance
 }
 
 // FilterFn filters directive instances for the bus bridge.
@@ -37,7 +37,7 @@ func NewBusBridge(target bus.Bus, filterFn FilterFn) *BusBridge {
 	return &BusBridge{
 		target:   target,
 		filterFn: filterFn,
-		seenDi:   make(map[directive.Directive]struct{}),
+		seenDi:   make(map[directive.Directive]directive.Instance),
 	}
 }
 
@@ -78,9 +78,13 @@ func (b *BusBridge) HandleDirective(ctx context.Context, di directive.Instance)
 
 	dir := di.GetDirective()
 	b.mtx.Lock()
-	_, seen := b.seenDi[dir]
+	prev, seen := b.seenDi[dir]
+	if seen && (prev == di || prev.GetContext().Err() != nil) {
+		// the same instance, or an instance which was already disposed
+		seen = false
+	}
 	if !seen {
-		b.seenDi[dir] = struct{}{}
+		b.seenDi[dir] = di
 	}
 	b.mtx.Unlock()
 
@@ -93,7 +97,9 @@ func (b *BusBridge) HandleDirective(ctx context.Context, di directive.Instance)
 	// use separate goroutine to avoid mutex contention
 	go di.AddDisposeCallback(func() {
 		b.mtx.Lock()
-		delete(b.seenDi, dir)
+		if b.seenDi[dir] == di {
+			delete(b.seenDi, dir)
+		}
 		b.mtx.Unlock()
 	})
 
-- 
2.43.0


From fad5831022c265fea53bd8a23b3e58e171c8dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 19/68] fix: transform resolvers remove the wrong value and
 leak release functions

---
 directive/transform-resolver.go       | 52 ++++++++++++++++++++-------
 directive/typed-transform-resolver.go | 52 ++++++++++++++++++++-------
 2 files changed, 80 insertions(+), 24 deletions(-)

diff --git a/directive/transform-resolver.go b/directive/transform-resolver.go
index d5cffbf..16a00af 100644
--- a/directive/transform-resolver.go
+++ b/directive/transform-resolver.go
@@ -2,6 +2,7 @@ package directive
 
 import (
 	"context"
+	"sync"
 )
 
 // TransformAttachedValueFunc transforms an AttachedValue.
@@ -37,7 +38,27 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 		id  uint32
 		rel func()
 	}
+	// mtx guards addedVals and done
+	var mtx sync.Mutex
+	// addedVals contains the values we added by the id of the source value
 	addedVals := make(map[uint32]addedVal)
+	// done is set once we are about to return
+	var done bool
+	// releaseAll calls the remaining release functions.
+	releaseAll := func(setDone bool) {
+		mtx.Lock()
+		if setDone {
+			done = true
+		}
+		vals := addedVals
+		addedVals = make(map[uint32]addedVal)
+		mtx.Unlock()
+		for _, val := range vals {
+			if val.rel != nil {
+				val.rel()
+			}
+		}
+	}
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -77,16 +98,27 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 
 			id, accepted := handler.AddValue(val)
 			if accepted {
-				addedVals[id] = addedVal{id: av.GetValueID(), rel: valRel}
-			} else {
-				if valRel != nil {
-					valRel()
+				mtx.Lock()
+				if !done {
+					addedVals[av.GetValueID()] = addedVal{id: id, rel: valRel}
+					mtx.Unlock()
+					return
 				}
+				mtx.Unlock()
+
+				// the resolver returned already
+				_, _ = handler.RemoveValue(id)
+			}
+			if valRel != nil {
+				valRel()
 			}
 		}, func(av AttachedValue) {
 			valueID := av.GetValueID()
-			if addedValue, ok := addedVals[valueID]; ok {
-				delete(addedVals, valueID)
+			mtx.Lock()
+			addedValue, ok := addedVals[valueID]
+			delete(addedVals, valueID)
+			mtx.Unlock()
+			if ok {
 				_, _ = handler.RemoveValue(addedValue.id)
 				if addedValue.rel != nil {
 					addedValue.rel()
@@ -95,18 +127,14 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 		},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
+				releaseAll(false)
 			},
 		),
 	)
 	if err != nil {
 		return err
 	}
+	defer releaseAll(true)
 	defer handler.ClearValues()
 	defer ref.Release()
 
diff --git a/directive/typed-transform-resolver.go b/directive/typed-transform-resolver.go
index 9a683ae..790e783 100644
--- a/directive/typed-transform-resolver.go
+++ b/directive/typed-transform-resolver.go
@@ -3,6 +3,7 @@ package directive
 import (
 	"context"
 	"errors"
+	"sync"
 )
 
 // TransformTypedAttachedValueFunc transforms a TypedAttachedValue.
@@ -50,7 +51,27 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 		id  uint32
 		rel func()
 	}
+	// mtx guards addedVals and done
+	var mtx sync.Mutex
+	// addedVals contains the values we added by the id of the source value
 	addedVals := make(map[uint32]addedVal)
+	// done is set once we are about to return
+	var done bool
+	// releaseAll calls the remaining release functions.
+	releaseAll := func(setDone bool) {
+		mtx.Lock()
+		if setDone {
+			done = true
+		}
+		vals := addedVals
+		addedVals = make(map[uint32]addedVal)
+		mtx.Unlock()
+		for _, val := range vals {
+			if val.rel != nil {
+				val.rel()
+			}
+		}
+	}
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -81,17 +102,28 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 
 				id, accepted := handler.AddValue(val)
 				if accepted {
-					addedVals[id] = addedVal{id: tav.GetValueID(), rel: rel}
-				} else {
-					if rel != nil {
-						rel()
+					mtx.Lock()
+					if !done {
+						addedVals[tav.GetValueID()] = addedVal{id: id, rel: rel}
+						mtx.Unlock()
+						return
 					}
+					mtx.Unlock()
+
+					// the resolver returned already
+					_, _ = handler.RemoveValue(id)
+				}
+				if rel != nil {
+					rel()
 				}
 			},
 			func(tav TypedAttachedValue[V]) {
 				valueID := tav.GetValueID()
-				if addedValue, ok := addedVals[valueID]; ok {
-					delete(addedVals, valueID)
+				mtx.Lock()
+				addedValue, ok := addedVals[valueID]
+				delete(addedVals, valueID)
+				mtx.Unlock()
+				if ok {
 					_, _ = handler.RemoveValue(addedValue.id)
 					if addedValue.rel != nil {
 						addedValue.rel()
@@ -100,12 +132,7 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 			},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
+				releaseAll(false)
 			},
 			r.unknownTypeHandler,
 		),
@@ -113,6 +140,7 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 	if err != nil {
 		return err
 	}
+	defer releaseAll(true)
 	defer handler.ClearValues()
 	defer ref.Release()
 
-- 
2.43.0


From d195afd4a2dcc0528fe2a06b32df2d4b3ac9d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 20/68] fix: AccessResolver calls the release function of a
 value twice

---
 directive/access-resolver.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/directive/access-resolver.go b/directive/access-resolver.go
index 453e2b1..1bfe260 100644
--- a/directive/access-resolver.go
+++ b/directive/access-resolver.go
@@ -58,19 +58,23 @@ func (r *AccessResolver[T]) Resolve(ctx context.Context, handler ResolverHandler
 			return nil
 		}
 
-		relCb := handler.AddValueRemovedCallback(valID, rel)
+		// ensure that rel is called once only
+		var relOnce sync.Once
+		relVal := func() {
+			if rel != nil {
+				relOnce.Do(rel)
+			}
+		}
+
+		relCb := handler.AddValueRemovedCallback(valID, relVal)
 		select {
 		case <-ctx.Done():
 			relCb()
-			if rel != nil {
-				rel()
-			}
+			relVal()
 			return context.Canceled
 		case <-releasedCh:
 			relCb()
-			if rel != nil {
-				rel()
-			}
+			relVal()
 		}
 	}
 }
-- 
2.43.0


From 37fcb05822b4e616b0065053d57d022084a3d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 21/68] fix: RetryResolver retries without delay when the
 backoff indicates to stop

---
 directive/resolver-retry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/directive/resolver-retry.go b/directive/resolver-retry.go
index 8ce6c6d..a75183f 100644
--- a/directive/resolver-retry.go
+++ b/directive/resolver-retry.go
@@ -39,6 +39,10 @@ func (r *RetryResolver) Resolve(ctx context.Context, handler ResolverHandler) er
 		}
 
 		nextBackOff := r.bo.NextBackOff()
+		if nextBackOff == backoff.Stop {
+			// no more retries should be made
+			return err
+		}
 		r.le.
 			WithError(err).
 			Warnf("resolver returned error: backing off %s", nextBackOff.String())
-- 
2.43.0


From 663224501c77572f38e0a80729f08296ce2882de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 22/68] fix: KeyedGetterResolver ignores the release of a value
 which was not added yet

---
 directive/keyed-getter-resolver.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/directive/keyed-getter-resolver.go b/directive/keyed-getter-resolver.go
index 38a749e..e76ca68 100644
--- a/directive/keyed-getter-resolver.go
+++ b/directive/keyed-getter-resolver.go
@@ -3,8 +3,6 @@ package directive
 import (
 	"context"
 	"sync/atomic"
-
-	"github.com/aperturerobotics/util/broadcast"
 )
 
 // KeyedGetterFunc is a keyed getter function to resolve a keyed resolver.
@@ -27,24 +25,21 @@ func NewKeyedGetterResolver[K, V comparable](getter KeyedGetterFunc[K, V], key K
 
 // Resolve resolves the values, emitting them to the handler.
 func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler ResolverHandler) error {
-	var bcast broadcast.Broadcast
 	for {
 		_ = handler.ClearValues()
 
-		var waitCh <-chan struct{}
-		bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-			waitCh = getWaitCh()
-		})
-
 		var valID atomic.Uint32
+		var released atomic.Bool
+		releasedCh := make(chan struct{})
 		val, relVal, err := r.getter(ctx, r.key, func() {
+			if released.Swap(true) {
+				return
+			}
 			old := valID.Swap(0)
 			if old != 0 {
 				_, _ = handler.RemoveValue(old)
-				bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-					broadcast()
-				})
 			}
+			close(releasedCh)
 		})
 		if err != nil {
 			if relVal != nil {
@@ -62,13 +57,13 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 		addedValID, accepted := handler.AddValue(result)
 		if !accepted {
 			// value not needed
-			valID.Store(0)
 			if relVal != nil {
 				relVal()
 			}
 			return nil
 		}
-		if !valID.CompareAndSwap(0, addedValID) {
+		valID.Store(addedValID)
+		if released.Load() {
 			// already released
 			valID.Store(0)
 			if relVal != nil {
@@ -80,11 +75,11 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 			continue
 		}
 
-		// wait for the broadcast or context to be canceled
+		// wait for the value to be released or context to be canceled
 		handler.MarkIdle(true)
 		select {
 		case <-ctx.Done():
-		case <-waitCh:
+		case <-releasedCh:
 		}
 
 		valID.Store(0)
-- 
2.43.0


From 5afac0c19bffaf40bfe5b1c8bd4d87f464a96e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 23/68] fix: a panic in a controller is not recovered

---
 bus/inmem/inmem.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 1765cfa..25cf182 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -57,7 +57,6 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 	go func() {
 		var err error
 		defer func() {
-			b.handleControllerPanic(&err)
 			if err != nil {
 				subCtxCancel()
 				b.removeController(ctrl)
@@ -66,6 +65,8 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 				}
 			}
 		}()
+		// note: recover has an effect only if called directly by the deferred function.
+		defer b.handleControllerPanic(&err)
 		err = ctrl.Execute(subCtx)
 	}()
 	return relFunc, nil
@@ -96,11 +97,11 @@ func (b *Bus) ExecuteController(ctx context.Context, c controller.Controller) (e
 	}
 
 	defer func() {
-		b.handleControllerPanic(&err)
 		if err != nil {
 			b.removeController(c)
 		}
 	}()
+	defer b.handleControllerPanic(&err)
 
 	return c.Execute(ctx)
 }
-- 
2.43.0


From 4b8eb951abd778a2132274fef9f52800896ec401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 24/68] fix: bus deadlocks if a callback uses it while a
 controller is added or removed

---
 bus/inmem/inmem.go | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 25cf182..3b4ac8c 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -3,6 +3,7 @@ package inmem
 import (
 	"context"
 	"runtime/debug"
+	"slices"
 	"sync"
 
 	"github.com/aperturerobotics/controllerbus/bus"
@@ -113,31 +114,56 @@ func (b *Bus) RemoveController(c controller.Controller) {
 
 // addController adds a controller to the bus
 func (b *Bus) addController(c controller.Controller) error {
+	ci := &attachedCtrl{ctrl: c}
 	b.mtx.Lock()
+	b.controllers = append(b.controllers, ci)
+	b.mtx.Unlock()
+
+	// note: calls HandleDirective and reference callbacks which may call the bus
 	rel, err := b.AddHandler(c)
-	if err == nil {
-		b.controllers = append(b.controllers, &attachedCtrl{
-			ctrl: c,
-			rel:  rel,
-		})
+
+	b.mtx.Lock()
+	found := slices.Contains(b.controllers, ci)
+	if found {
+		if err == nil {
+			ci.rel = rel
+		} else {
+			b.removeEntryLocked(ci)
+		}
 	}
 	b.mtx.Unlock()
+	if err == nil && !found {
+		// removed in the meantime
+		rel()
+	}
 	return err
 }
 
 // removeController removes a controller from the bus
 func (b *Bus) removeController(c controller.Controller) {
+	var rel func()
 	b.mtx.Lock()
-	for i, ci := range b.controllers {
+	for _, ci := range b.controllers {
 		if ci.ctrl == c {
-			b.controllers[i] = b.controllers[len(b.controllers)-1]
-			b.controllers[len(b.controllers)-1] = nil
-			b.controllers = b.controllers[:len(b.controllers)-1]
-			ci.rel()
+			b.removeEntryLocked(ci)
+			rel = ci.rel
 			break
 		}
 	}
 	b.mtx.Unlock()
+	if rel != nil {
+		// note: calls reference callbacks which may call the bus
+		rel()
+	}
+}
+
+// removeEntryLocked removes an entry from the list of controllers while mtx is locked.
+func (b *Bus) removeEntryLocked(ci *attachedCtrl) {
+	if i := slices.Index(b.controllers, ci); i != -1 {
+		b.controllers[i] = b.controllers[len(b.controllers)-1]
+		b.controllers[len(b.controllers)-1] = nil
+		b.controllers = b.controllers[:len(b.controllers)-1]
+	}
 }
 
 // _ is a type assertion
-- 
2.43.0


From 4f7fb87ca4ec30c5b30b80ba8fc01bd137abd9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 25/68] fix: releasing a controller removes a later attachment
 of the same controller

---
 bus/inmem/inmem.go | 62 ++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 3b4ac8c..77bc3f5 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -46,21 +46,22 @@ func (b *Bus) GetControllers() []controller.Controller {
 // cb can be nil
 func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb func(exitErr error)) (func(), error) {
 	subCtx, subCtxCancel := context.WithCancel(ctx)
-	relFunc := func() {
-		subCtxCancel()
-		b.removeController(ctrl)
-	}
-	if err := b.addController(ctrl); err != nil {
+	ci, err := b.addController(ctrl)
+	if err != nil {
 		subCtxCancel()
 		_ = ctrl.Close()
 		return nil, err
 	}
+	relFunc := func() {
+		subCtxCancel()
+		b.removeAttached(ci)
+	}
 	go func() {
 		var err error
 		defer func() {
 			if err != nil {
 				subCtxCancel()
-				b.removeController(ctrl)
+				b.removeAttached(ci)
 				if cb != nil {
 					cb(err)
 				}
@@ -93,13 +94,14 @@ func (b *Bus) handleControllerPanic(outErr *error) {
 // The controller will receive directive callbacks.
 // If the controller returns nil, call RemoveController to remove the controller.
 func (b *Bus) ExecuteController(ctx context.Context, c controller.Controller) (err error) {
-	if err := b.addController(c); err != nil {
+	ci, err := b.addController(c)
+	if err != nil {
 		return err
 	}
 
 	defer func() {
 		if err != nil {
-			b.removeController(c)
+			b.removeAttached(ci)
 		}
 	}()
 	defer b.handleControllerPanic(&err)
@@ -109,11 +111,22 @@ func (b *Bus) ExecuteController(ctx context.Context, c controller.Controller) (e
 
 // RemoveController removes the controller from the bus.
 func (b *Bus) RemoveController(c controller.Controller) {
-	b.removeController(c)
+	b.mtx.Lock()
+	var ci *attachedCtrl
+	for _, entry := range b.controllers {
+		if entry.ctrl == c {
+			ci = entry
+			break
+		}
+	}
+	b.mtx.Unlock()
+	if ci != nil {
+		b.removeAttached(ci)
+	}
 }
 
 // addController adds a controller to the bus
-func (b *Bus) addController(c controller.Controller) error {
+func (b *Bus) addController(c controller.Controller) (*attachedCtrl, error) {
 	ci := &attachedCtrl{ctrl: c}
 	b.mtx.Lock()
 	b.controllers = append(b.controllers, ci)
@@ -136,19 +149,16 @@ func (b *Bus) addController(c controller.Controller) error {
 		// removed in the meantime
 		rel()
 	}
-	return err
+	return ci, err
 }
 
-// removeController removes a controller from the bus
-func (b *Bus) removeController(c controller.Controller) {
+// removeAttached removes an attached controller from the bus.
+// does nothing if it was already removed.
+func (b *Bus) removeAttached(ci *attachedCtrl) {
 	var rel func()
 	b.mtx.Lock()
-	for _, ci := range b.controllers {
-		if ci.ctrl == c {
-			b.removeEntryLocked(ci)
-			rel = ci.rel
-			break
-		}
+	if b.removeEntryLocked(ci) {
+		rel = ci.rel
 	}
 	b.mtx.Unlock()
 	if rel != nil {
@@ -158,12 +168,16 @@ func (b *Bus) removeController(c controller.Controller) {
 }
 
 // removeEntryLocked removes an entry from the list of controllers while mtx is locked.
-func (b *Bus) removeEntryLocked(ci *attachedCtrl) {
-	if i := slices.Index(b.controllers, ci); i != -1 {
-		b.controllers[i] = b.controllers[len(b.controllers)-1]
-		b.controllers[len(b.controllers)-1] = nil
-		b.controllers = b.controllers[:len(b.controllers)-1]
+// returns false if it was not found.
+func (b *Bus) removeEntryLocked(ci *attachedCtrl) bool {
+	i := slices.Index(b.controllers, ci)
+	if i == -1 {
+		return false
 	}
+	b.controllers[i] = b.controllers[len(b.controllers)-1]
+	b.controllers[len(b.controllers)-1] = nil
+	b.controllers = b.controllers[:len(b.controllers)-1]
+	return true
 }
 
 // _ is a type assertion
-- 
2.43.0


From 82a1414617f605214299a8f0359d9ab7ee6afca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 26/68] fix: AddController callback is not called with nil when
 the controller is released

---
 bus/inmem/inmem.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 77bc3f5..3dc7c26 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -5,6 +5,7 @@ import (
 	"runtime/debug"
 	"slices"
 	"sync"
+	"sync/atomic"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller"
@@ -52,9 +53,21 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 		_ = ctrl.Close()
 		return nil, err
 	}
+	// called indicates we called the callback, which is called at most once.
+	var called atomic.Bool
+	callCb := func(exitErr error) {
+		if cb != nil && !called.Swap(true) {
+			cb(exitErr)
+		}
+	}
 	relFunc := func() {
+		// mark as called first: Execute returns an error when subCtx is canceled.
+		callRel := !called.Swap(true)
 		subCtxCancel()
 		b.removeAttached(ci)
+		if cb != nil && callRel {
+			cb(nil)
+		}
 	}
 	go func() {
 		var err error
@@ -62,9 +75,7 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 			if err != nil {
 				subCtxCancel()
 				b.removeAttached(ci)
-				if cb != nil {
-					cb(err)
-				}
+				callCb(err)
 			}
 		}()
 		// note: recover has an effect only if called directly by the deferred function.
-- 
2.43.0


From 7f39e041234874f4dc9198efafb514b8e84ecb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 27/68] fix: controller keeps running after the loader is
 removed

---
 controller/loader/loader-resolve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index f586179..6bfefd5 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -155,7 +155,7 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 
 		// run execute
 		le.Debug("starting controller")
-		execErr := bus.ExecuteController(c.ctx, ci)
+		execErr := bus.ExecuteController(ctx, ci)
 
 		le := le.WithField("exec-dur", time.Since(t1).String())
 		ctxCanceled := ctx.Err() != nil
-- 
2.43.0


From 8f3524a01e8dffa68a2c3b3d60a8568970cb06ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 28/68] fix: WaitExecControllerRunning does not call back when
 the state leaves RUNNING

---
 controller/loader/ex-load-controller.go | 43 +++++++++++++++++++++----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/controller/loader/ex-load-controller.go b/controller/loader/ex-load-controller.go
index fe2691e..2eb7372 100644
--- a/controller/loader/ex-load-controller.go
+++ b/controller/loader/ex-load-controller.go
@@ -3,6 +3,8 @@ package loader
 import (
 	"context"
 	"errors"
+	"sync"
+	"sync/atomic"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller"
@@ -19,15 +21,23 @@ func WaitExecControllerRunning(
 	disposeCb func(),
 ) (controller.Controller, directive.Instance, directive.Reference, error) {
 	subCtx, subCtxCancel := context.WithCancel(ctx)
+	var disposed atomic.Bool
 	dispose := func() {
 		subCtxCancel()
-		if disposeCb != nil {
+		if !disposed.Swap(true) && disposeCb != nil {
 			disposeCb()
 		}
 	}
 	defer subCtxCancel()
 
-	execValueCh := make(chan ExecControllerValue, 1)
+	// mtx guards below fields
+	var mtx sync.Mutex
+	// running is the id of the value returned to the caller, if any.
+	var running uint32
+	// removed contains the ids of the values removed before returning.
+	removed := make(map[uint32]struct{})
+
+	execValueCh := make(chan directive.AttachedValue, 1)
 	di, diRef, err := b.AddDirective(dir, bus.NewCallbackHandler(
 		func(av directive.AttachedValue) {
 			retVal, _ := av.GetValue().(ExecControllerValue)
@@ -37,11 +47,23 @@ func WaitExecControllerRunning(
 				default:
 				}
 				select {
-				case execValueCh <- retVal:
+				case execValueCh <- av:
 				default:
 				}
 			}
-		}, nil, dispose,
+		},
+		func(av directive.AttachedValue) {
+			mtx.Lock()
+			leftRunning := running != 0 && running == av.GetValueID()
+			if running == 0 {
+				removed[av.GetValueID()] = struct{}{}
+			}
+			mtx.Unlock()
+			if leftRunning {
+				dispose()
+			}
+		},
+		dispose,
 	))
 	if err != nil {
 		return nil, nil, nil, err
@@ -52,13 +74,22 @@ func WaitExecControllerRunning(
 		case <-subCtx.Done():
 			diRef.Release()
 			return nil, nil, nil, subCtx.Err()
-		case val := <-execValueCh:
+		case av := <-execValueCh:
+			val := av.GetValue().(ExecControllerValue)
 			if err := val.GetError(); err != nil {
 				diRef.Release()
 				return nil, nil, nil, err
 			}
 			if ctrl := val.GetController(); ctrl != nil {
-				return ctrl, di, diRef, nil
+				mtx.Lock()
+				_, stopped := removed[av.GetValueID()]
+				if !stopped {
+					running = av.GetValueID()
+				}
+				mtx.Unlock()
+				if !stopped {
+					return ctrl, di, diRef, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From 79d842638e7747416842a059e1022ca1ceca5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 29/68] fix: controller keeps running after its resolver is
 removed

---
 controller/resolver/res-load-with-config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 0140231..6cacb35 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -70,7 +70,7 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		factoryCtx = factoryWithCtx.GetFactoryContext()
 	}
 
-	valCtx, valCtxCancel := context.WithCancel(r.ctx)
+	valCtx, valCtxCancel := context.WithCancel(ctx)
 	execDir := loader.NewExecController(factory, conf)
 
 	// pass through all values.
-- 
2.43.0


From c3ad4bd59b849865c3820f03f038f7e9d8bccab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 30/68] fix: retry backoff of LoadControllerWithConfig is
 ignored

---
 controller/resolver/res-load-with-config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 6cacb35..65c187a 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -71,7 +71,12 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 	}
 
 	valCtx, valCtxCancel := context.WithCancel(ctx)
-	execDir := loader.NewExecController(factory, conf)
+	execDir := loader.NewExecControllerWithOpts(
+		factory,
+		conf,
+		r.dir.GetExecControllerRetryBackoff(),
+		directive.ValueOptions{},
+	)
 
 	// pass through all values.
 	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(vh, valCtxCancel))
-- 
2.43.0


From c360a1c9260db8a383a3f6f9da2381321d376b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 31/68] fix: values of LoadControllerWithConfig remain after
 the factory was unloaded

---
 controller/resolver/res-load-with-config.go | 28 ++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 65c187a..3cfea27 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -2,6 +2,7 @@ package resolver
 
 import (
 	"context"
+	"sync/atomic"
 	"time"
 
 	"github.com/aperturerobotics/controllerbus/bus"
@@ -79,7 +80,8 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 	)
 
 	// pass through all values.
-	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(vh, valCtxCancel))
+	valHandler := &loadWithConfigHandler{ResolverHandler: vh}
+	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(valHandler, valCtxCancel))
 	if err != nil {
 		_, _ = vh.AddValue(loader.NewExecControllerValue(
 			time.Now(),
@@ -106,6 +108,8 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		}
 		valCtxCancel()
 		execRef.Release()
+		// the controller was stopped: remove the values passed through.
+		valHandler.stop()
 		if factoryRef != nil {
 			factoryRef.Release()
 		}
@@ -114,5 +118,27 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 	return nil
 }
 
+// loadWithConfigHandler accepts values until it is stopped.
+type loadWithConfigHandler struct {
+	directive.ResolverHandler
+	stopped atomic.Bool
+}
+
+// AddValue adds a value to the result, returning success and an ID.
+func (h *loadWithConfigHandler) AddValue(val directive.Value) (uint32, bool) {
+	id, accepted := h.ResolverHandler.AddValue(val)
+	if accepted && h.stopped.Load() {
+		_, _ = h.ResolverHandler.RemoveValue(id)
+		return 0, false
+	}
+	return id, accepted
+}
+
+// stop removes the values and rejects any further value.
+func (h *loadWithConfigHandler) stop() {
+	h.stopped.Store(true)
+	_ = h.ResolverHandler.ClearValues()
+}
+
 // _ is a type assertion
 var _ directive.Resolver = ((*loadWithConfigResolver)(nil))
-- 
2.43.0


From f9e367c9065f73a844ff59ccc4e6c4af10331f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 32/68] fix: configset state callbacks deadlock, miss states or
 panic

---
 controller/configset/controller/controller.go | 15 ++--
 .../configset/controller/running-ctrl-ref.go  | 82 ++++++++++++++-----
 .../configset/controller/running-ctrl.go      | 50 +++++------
 3 files changed, 99 insertions(+), 48 deletions(-)

diff --git a/controller/configset/controller/controller.go b/controller/configset/controller/controller.go
index ef99228..c030093 100644
--- a/controller/configset/controller/controller.go
+++ b/controller/configset/controller/controller.go
@@ -134,9 +134,8 @@ func (c *Controller) PushControllerConfig(
 	key string,
 	conf configset.ControllerConfig,
 ) (configset.Reference, error) {
+	var appliedRefs []*runningControllerRef
 	c.mtx.Lock()
-	defer c.mtx.Unlock()
-
 	existing, existingOk := c.controllers[key]
 	if existingOk {
 		if existing.ApplyConfig(conf) {
@@ -147,14 +146,20 @@ func (c *Controller) PushControllerConfig(
 		c.controllers[key] = existing
 		c.wake()
 		for _, pref := range c.persistentRefs {
-			if pref.id == key {
-				existing.ApplyReference(pref)
+			if pref.id == key && existing.ApplyReference(pref) {
+				appliedRefs = append(appliedRefs, pref)
 			}
 		}
 	}
 
 	ref := newRunningControllerRef(key, existing)
 	existing.AddReference(ref)
+	c.mtx.Unlock()
+
+	// call the state callbacks without locking mtx
+	for _, pref := range appliedRefs {
+		pref.pushState()
+	}
 	return ref, nil
 }
 
@@ -179,7 +184,7 @@ func (c *Controller) AddConfigSetReference(
 	c.persistentRefs[id] = rcRef // rc may be nil
 	rc := c.controllers[key]
 	if rc != nil {
-		rc.ApplyReference(rcRef)
+		_ = rc.ApplyReference(rcRef)
 	}
 	c.mtx.Unlock()
 	return rcRef, nil
diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index 37b4837..b901a04 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -12,12 +12,26 @@ type runningControllerRef struct {
 	relInternalCallback func()
 
 	mtx sync.Mutex
-	cbs []func(configset.State)
+	cbs []*stateCallback
 	rc  *runningController // may be nil
 
 	relOnce sync.Once
 }
 
+// stateCallback is a state callback attached to a reference.
+//
+// the reference mtx guards dirty and busy.
+type stateCallback struct {
+	cb func(configset.State)
+	// dirty indicates the state changed since it was last read.
+	dirty bool
+	// busy indicates a goroutine is calling the callback.
+	busy bool
+	// prev is the state most recently passed to the callback.
+	// owned by the goroutine which set busy.
+	prev *runningControllerState
+}
+
 func newRunningControllerRef(id string, rc *runningController) *runningControllerRef {
 	return &runningControllerRef{id: id, rc: rc}
 }
@@ -29,30 +43,51 @@ func (r *runningControllerRef) GetConfigKey() string {
 
 // GetState returns the current state object.
 func (r *runningControllerRef) GetState() configset.State {
-	r.mtx.Lock()
-	rc := r.rc
-	r.mtx.Unlock()
+	return r.getState()
+}
+
+// getState returns a copy of the current state.
+func (r *runningControllerRef) getState() *runningControllerState {
+	rc := r.GetRunningController()
 	if rc == nil {
 		return &runningControllerState{
 			id: r.id,
 		}
 	}
-
-	rc.mtx.Lock()
-	st := rc.state
-	rc.mtx.Unlock()
-	return &st
+	return rc.getState()
 }
 
 // AddStateCallback adds a callback that is called when the state changes.
 // Should not block.
 // Will be called with the initial state.
 func (r *runningControllerRef) AddStateCallback(cb func(configset.State)) {
+	scb := &stateCallback{cb: cb, dirty: true, busy: true}
 	r.mtx.Lock()
-	r.cbs = append(r.cbs, cb)
-	rc := r.rc
+	r.cbs = append(r.cbs, scb)
 	r.mtx.Unlock()
-	cb(rc.GetState())
+	r.callStateCallback(scb)
+}
+
+// callStateCallback calls a callback until it was called with the latest state.
+//
+// the caller must have set busy and must not lock any mutex.
+func (r *runningControllerRef) callStateCallback(scb *stateCallback) {
+	for {
+		r.mtx.Lock()
+		if !scb.dirty {
+			scb.busy = false
+			r.mtx.Unlock()
+			return
+		}
+		scb.dirty = false
+		r.mtx.Unlock()
+
+		st := r.getState()
+		if scb.prev == nil || !scb.prev.Equals(st) {
+			scb.prev = st
+			scb.cb(st)
+		}
+	}
 }
 
 // GetRunningController gets the running controller.
@@ -65,27 +100,34 @@ func (r *runningControllerRef) GetRunningController() *runningController {
 
 // setRunningController updates the running controller.
 // use ApplyReference
-func (r *runningControllerRef) setRunningController(rc *runningController, st configset.State) bool {
+func (r *runningControllerRef) setRunningController(rc *runningController) bool {
 	var updated bool
 	r.mtx.Lock()
 	if r.rc != rc {
 		r.rc = rc
 		updated = true
-		for _, cb := range r.cbs { // r.rc.pushState(st)
-			cb(st)
-		}
 	}
 	r.mtx.Unlock()
 	return updated
 }
 
-// pushState pushes an updated state
-func (r *runningControllerRef) pushState(st configset.State) {
+// pushState calls the callbacks with the current state.
+//
+// the callbacks may use the reference: the caller must not lock any mutex.
+func (r *runningControllerRef) pushState() {
 	r.mtx.Lock()
-	for _, cb := range r.cbs {
-		cb(st)
+	var cbs []*stateCallback
+	for _, scb := range r.cbs {
+		scb.dirty = true
+		if !scb.busy {
+			scb.busy = true
+			cbs = append(cbs, scb)
+		}
 	}
 	r.mtx.Unlock()
+	for _, scb := range cbs {
+		r.callStateCallback(scb)
+	}
 }
 
 // Release releases the reference.
diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index 71be896..d9aa705 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -2,6 +2,7 @@ package configset_controller
 
 import (
 	"context"
+	"slices"
 	"sync"
 
 	"github.com/aperturerobotics/controllerbus/bus"
@@ -70,9 +71,8 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 			c.state.ctrl = nil
 			c.state.err = err
 			c.state.conf = conf
-			s := c.state
-			c.pushState(&s)
 			c.mtx.Unlock()
+			c.pushState()
 		}
 
 		c.le.Debug("executing controller")
@@ -136,9 +136,8 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 				c.state.err = uerr
 				c.state.ctrl = uval.GetController()
 				c.state.conf = conf
-				st := c.state
-				c.pushState(&st)
 				c.mtx.Unlock()
+				c.pushState()
 			}
 		}
 		if execRef != nil {
@@ -152,10 +151,9 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 		if c.state.ctrl != nil || c.state.conf != conf {
 			c.state.ctrl = nil
 			c.state.conf = conf
-			s := c.state
-			c.pushState(&s)
 		}
 		c.mtx.Unlock()
+		c.pushState()
 	}
 }
 
@@ -167,6 +165,11 @@ func (c *runningController) GetControllerConfig() configset.ControllerConfig {
 
 // GetState returns the current state object.
 func (c *runningController) GetState() configset.State {
+	return c.getState()
+}
+
+// getState returns a copy of the current state.
+func (c *runningController) getState() *runningControllerState {
 	c.mtx.Lock()
 	st := c.state
 	c.mtx.Unlock()
@@ -181,18 +184,15 @@ func (c *runningController) AddReference(ref *runningControllerRef) {
 }
 
 // ApplyReference applies an existing reference to the running controller.
-func (c *runningController) ApplyReference(ref *runningControllerRef) {
-	if ref.GetRunningController() == c {
-		return
-	}
+// Returns if the reference was applied, the caller calls ref.pushState.
+func (c *runningController) ApplyReference(ref *runningControllerRef) bool {
 	c.mtx.Lock()
-	st := c.state
-	c.mtx.Unlock()
-	if ref.setRunningController(c, &st) {
-		c.mtx.Lock()
-		c.refs = append(c.refs, ref)
-		c.mtx.Unlock()
+	defer c.mtx.Unlock()
+	if !ref.setRunningController(c) {
+		return false
 	}
+	c.refs = append(c.refs, ref)
+	return true
 }
 
 // DelReference removes a reference from the running controller.
@@ -230,16 +230,20 @@ func (c *runningController) ApplyConfig(conf configset.ControllerConfig) bool {
 	return true
 }
 
-// pushState pushes the new state to all references
-// mtx should be locked by caller
-func (c *runningController) pushState(st *runningControllerState) {
+// pushState pushes the state to all references if it changed
+// mtx must not be locked by caller
+func (c *runningController) pushState() {
+	c.mtx.Lock()
 	// push only if changed
-	if c.prevEmittedState.Equals(st) {
+	if c.prevEmittedState.Equals(&c.state) {
+		c.mtx.Unlock()
 		return
 	}
-	c.prevEmittedState = *st
-	for _, ref := range c.refs {
-		ref.pushState(st)
+	c.prevEmittedState = c.state
+	refs := slices.Clone(c.refs)
+	c.mtx.Unlock()
+	for _, ref := range refs {
+		ref.pushState()
 	}
 }
 
-- 
2.43.0


From 4a9d1aca71d5ac1266919d73eb1ce7ed93cf6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 33/68] fix: configset ignores the new config after an invalid
 one

---
 controller/configset/controller/running-ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index d9aa705..131992f 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -90,6 +90,9 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 			case <-c.confRestartCh:
 				c.le.Info("restarting with new config")
 			}
+			c.mtx.Lock()
+			conf = c.conf
+			c.mtx.Unlock()
 			continue
 		}
 
-- 
2.43.0


From abe4dd10e22dac4d01cad764f0216ceed0f4c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 34/68] fix: configset controller keeps running if it was
 released right away

---
 controller/configset/controller/controller.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/controller/configset/controller/controller.go b/controller/configset/controller/controller.go
index c030093..b93564c 100644
--- a/controller/configset/controller/controller.go
+++ b/controller/configset/controller/controller.go
@@ -60,17 +60,15 @@ ExecLoop:
 		}
 
 		c.mtx.Lock()
-		for k, cancel := range execControllers {
-			cv, ok := c.controllers[k]
-			if ok {
-				cv.mtx.Lock()
-				if len(cv.refs) == 0 { // garbage collect
-					delete(c.controllers, k)
-					ok = false
-				}
-				cv.mtx.Unlock()
+		for k, cv := range c.controllers {
+			cv.mtx.Lock()
+			if len(cv.refs) == 0 { // garbage collect
+				delete(c.controllers, k)
 			}
-			if !ok {
+			cv.mtx.Unlock()
+		}
+		for k, cancel := range execControllers {
+			if _, ok := c.controllers[k]; !ok {
 				cancel()
 				delete(execControllers, k)
 			}
-- 
2.43.0


From 53c1b6f717f411f41893fc0ff917ae3c8e71db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 35/68] fix: references leak if ApplyConfigSet or
 LookupConfigSet is released while resolving

---
 controller/configset/controller/apply-config-set.go  | 6 ++++++
 controller/configset/controller/lookup-config-set.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/controller/configset/controller/apply-config-set.go b/controller/configset/controller/apply-config-set.go
index 985bc55..1455286 100644
--- a/controller/configset/controller/apply-config-set.go
+++ b/controller/configset/controller/apply-config-set.go
@@ -82,6 +82,12 @@ func (r *applyConfigSetResolver) Resolve(
 
 		// Add reference to running instance
 		r.refsMtx.Lock()
+		if err := r.ctx.Err(); err != nil {
+			// waitCleanupRefs may have been called already
+			r.refsMtx.Unlock()
+			ref.Release()
+			return err
+		}
 		r.refs[ref] = 0
 		r.refsMtx.Unlock()
 		ref.AddStateCallback(func(st configset.State) {
diff --git a/controller/configset/controller/lookup-config-set.go b/controller/configset/controller/lookup-config-set.go
index 06ab097..b8d085e 100644
--- a/controller/configset/controller/lookup-config-set.go
+++ b/controller/configset/controller/lookup-config-set.go
@@ -82,6 +82,12 @@ func (r *lookupConfigSetResolver) Resolve(
 		}
 
 		r.refsMtx.Lock()
+		if err := r.ctx.Err(); err != nil {
+			// waitCleanupRefs may have been called already
+			r.refsMtx.Unlock()
+			ref.Release()
+			return err
+		}
 		r.refs[ref] = 0
 		r.refsMtx.Unlock()
 		ref.AddStateCallback(func(st configset.State) {
-- 
2.43.0


From 65b9dd2500762d119d13834e87531ed3f6ddbdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 36/68] fix: controller is held by a configset reference which
 was released

---
 controller/configset/controller/running-ctrl-ref.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index b901a04..5cb431d 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -14,6 +14,8 @@ type runningControllerRef struct {
 	mtx sync.Mutex
 	cbs []*stateCallback
 	rc  *runningController // may be nil
+	// released indicates Release was called
+	released bool
 
 	relOnce sync.Once
 }
@@ -99,11 +101,12 @@ func (r *runningControllerRef) GetRunningController() *runningController {
 }
 
 // setRunningController updates the running controller.
+// Returns false if the reference was released.
 // use ApplyReference
 func (r *runningControllerRef) setRunningController(rc *runningController) bool {
 	var updated bool
 	r.mtx.Lock()
-	if r.rc != rc {
+	if r.rc != rc && !r.released {
 		r.rc = rc
 		updated = true
 	}
@@ -133,8 +136,12 @@ func (r *runningControllerRef) pushState() {
 // Release releases the reference.
 func (r *runningControllerRef) Release() {
 	r.relOnce.Do(func() {
-		if r.rc != nil {
-			r.rc.DelReference(r)
+		r.mtx.Lock()
+		r.released = true
+		rc := r.rc
+		r.mtx.Unlock()
+		if rc != nil {
+			rc.DelReference(r)
 		}
 		if cb := r.relInternalCallback; cb != nil {
 			go r.relInternalCallback()
-- 
2.43.0


From 1c05c1e8f882fc4c4c541cb3b41a2b7a74f856cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 37/68] fix: configset uses a config which is not referenced
 anymore

---
 controller/configset/controller/controller.go   | 10 +++++-----
 controller/configset/controller/running-ctrl.go |  6 ++++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/controller/configset/controller/controller.go b/controller/configset/controller/controller.go
index b93564c..a226bcc 100644
--- a/controller/configset/controller/controller.go
+++ b/controller/configset/controller/controller.go
@@ -143,15 +143,15 @@ func (c *Controller) PushControllerConfig(
 		existing = newRunningController(c, key, conf)
 		c.controllers[key] = existing
 		c.wake()
-		for _, pref := range c.persistentRefs {
-			if pref.id == key && existing.ApplyReference(pref) {
-				appliedRefs = append(appliedRefs, pref)
-			}
-		}
 	}
 
 	ref := newRunningControllerRef(key, existing)
 	existing.AddReference(ref)
+	for _, pref := range c.persistentRefs {
+		if pref.id == key && existing.ApplyReference(pref) {
+			appliedRefs = append(appliedRefs, pref)
+		}
+	}
 	c.mtx.Unlock()
 
 	// call the state callbacks without locking mtx
diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index 131992f..bafb11b 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -187,11 +187,12 @@ func (c *runningController) AddReference(ref *runningControllerRef) {
 }
 
 // ApplyReference applies an existing reference to the running controller.
+// The reference waits if no other reference holds the controller.
 // Returns if the reference was applied, the caller calls ref.pushState.
 func (c *runningController) ApplyReference(ref *runningControllerRef) bool {
 	c.mtx.Lock()
 	defer c.mtx.Unlock()
-	if !ref.setRunningController(c) {
+	if len(c.refs) == 0 || !ref.setRunningController(c) {
 		return false
 	}
 	c.refs = append(c.refs, ref)
@@ -217,11 +218,12 @@ func (c *runningController) DelReference(ref *runningControllerRef) {
 }
 
 // ApplyConfig applies a configuration if the revision is newer
+// or if the previous configuration is not referenced anymore.
 func (c *runningController) ApplyConfig(conf configset.ControllerConfig) bool {
 	c.mtx.Lock()
 	defer c.mtx.Unlock()
 
-	if c.conf.GetRev() >= conf.GetRev() {
+	if len(c.refs) != 0 && c.conf.GetRev() >= conf.GetRev() {
 		return false
 	}
 
-- 
2.43.0


From 715514f943aad7cfea10e64d1623456a7378b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 38/68] fix: transform resolvers keep a value which is added
 while they return

---
 directive/transform-resolver.go       | 15 +++++++++------
 directive/typed-transform-resolver.go | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/directive/transform-resolver.go b/directive/transform-resolver.go
index 16a00af..7c3251b 100644
--- a/directive/transform-resolver.go
+++ b/directive/transform-resolver.go
@@ -45,11 +45,8 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 	// done is set once we are about to return
 	var done bool
 	// releaseAll calls the remaining release functions.
-	releaseAll := func(setDone bool) {
+	releaseAll := func() {
 		mtx.Lock()
-		if setDone {
-			done = true
-		}
 		vals := addedVals
 		addedVals = make(map[uint32]addedVal)
 		mtx.Unlock()
@@ -127,16 +124,22 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 		},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				releaseAll(false)
+				releaseAll()
 			},
 		),
 	)
 	if err != nil {
 		return err
 	}
-	defer releaseAll(true)
+	defer releaseAll()
 	defer handler.ClearValues()
 	defer ref.Release()
+	defer func() {
+		// values added after this are removed again by the value callback
+		mtx.Lock()
+		done = true
+		mtx.Unlock()
+	}()
 
 	defer di.AddIdleCallback(func(isIdle bool, errs []error) {
 		for _, err := range errs {
diff --git a/directive/typed-transform-resolver.go b/directive/typed-transform-resolver.go
index 790e783..7059869 100644
--- a/directive/typed-transform-resolver.go
+++ b/directive/typed-transform-resolver.go
@@ -58,11 +58,8 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 	// done is set once we are about to return
 	var done bool
 	// releaseAll calls the remaining release functions.
-	releaseAll := func(setDone bool) {
+	releaseAll := func() {
 		mtx.Lock()
-		if setDone {
-			done = true
-		}
 		vals := addedVals
 		addedVals = make(map[uint32]addedVal)
 		mtx.Unlock()
@@ -132,7 +129,7 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 			},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				releaseAll(false)
+				releaseAll()
 			},
 			r.unknownTypeHandler,
 		),
@@ -140,9 +137,15 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 	if err != nil {
 		return err
 	}
-	defer releaseAll(true)
+	defer releaseAll()
 	defer handler.ClearValues()
 	defer ref.Release()
+	defer func() {
+		// values added after this are removed again by the value callback
+		mtx.Lock()
+		done = true
+		mtx.Unlock()
+	}()
 
 	defer di.AddIdleCallback(func(isIdle bool, errs []error) {
 		for _, err := range errs {
-- 
2.43.0


From fda968ed5fc4d2b5a3558bf11c9c554d163eef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 39/68] fix: configset json: an entry without a value is an
 error instead of a nil config

---
 controller/configset/json/controller-config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/configset/json/controller-config.go b/controller/configset/json/controller-config.go
index e1d4504..91eb8be 100644
--- a/controller/configset/json/controller-config.go
+++ b/controller/configset/json/controller-config.go
@@ -47,7 +47,7 @@ func (c *ControllerConfig) GetRev() uint64 {
 // Resolve resolves the config into a configset.ControllerConfig
 func (c *ControllerConfig) Resolve(ctx context.Context, b bus.Bus) (configset.ControllerConfig, error) {
 	if c == nil {
-		return nil, nil
+		return nil, errors.New("controller config cannot be nil")
 	}
 	if c.Id == "" {
 		return nil, errors.New("config id was not specified")
-- 
2.43.0


From dcc670c5e8df1c2c1a547b966e75edf4eebd1d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 40/68] fix: configset json: resolve without or after parsed
 data, marshal before resolving

---
 controller/configset/json/config.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/controller/configset/json/config.go b/controller/configset/json/config.go
index 48855e4..845bbb8 100644
--- a/controller/configset/json/config.go
+++ b/controller/configset/json/config.go
@@ -32,6 +32,10 @@ func (c *Config) Resolve(ctx context.Context, configID string, b bus.Bus) error
 	if c == nil {
 		return errors.New("cannot resolve nil config")
 	}
+	if c.underlying != nil && c.pendingParseData == "" {
+		// already resolved
+		return nil
+	}
 
 	configCtorDir := resolver.NewLoadConfigConstructorByID(configID)
 	configCtorVal, _, configCtorRef, err := bus.ExecOneOff(ctx, b, configCtorDir, nil, nil)
@@ -44,13 +48,16 @@ func (c *Config) Resolve(ctx context.Context, configID string, b bus.Bus) error
 	if !ctorOk {
 		return errors.New("load config constructor directive returned invalid object")
 	}
-	c.underlying = ctor.ConstructConfig()
-	if c.underlying == nil {
+	conf := ctor.ConstructConfig()
+	if conf == nil {
 		return errors.New("load config constructor returned nil object")
 	}
-	if err := c.underlying.UnmarshalJSON([]byte(c.pendingParseData)); err != nil {
-		return err
+	if c.pendingParseData != "" {
+		if err := conf.UnmarshalJSON([]byte(c.pendingParseData)); err != nil {
+			return err
+		}
 	}
+	c.underlying = conf
 	c.pendingParseData = ""
 	return nil
 }
@@ -70,6 +77,10 @@ func (c *Config) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON marshals a controller config JSON blob.
 func (c *Config) MarshalJSON() ([]byte, error) {
+	if c.pendingParseData != "" {
+		// not resolved yet
+		return []byte(c.pendingParseData), nil
+	}
 	if c.underlying == nil {
 		return []byte("null"), nil
 	}
-- 
2.43.0


From 448ad8a76de8698ebf4044117c45dae3c1923cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 41/68] fix: configset proto: validate configs which look like
 json

---
 controller/configset/proto/controller_config.go | 13 ++++++-------
 controller/configset/proto/errors.go            |  3 +++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/controller/configset/proto/controller_config.go b/controller/configset/proto/controller_config.go
index e29108b..55e2bc2 100644
--- a/controller/configset/proto/controller_config.go
+++ b/controller/configset/proto/controller_config.go
@@ -3,6 +3,7 @@ package configset_proto
 import (
 	"context"
 	"encoding/base64"
+	stdjson "encoding/json"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/config"
@@ -45,9 +46,8 @@ func (c *ControllerConfig) Validate() error {
 		// json if first character is {
 		if conf[0] == 123 {
 			// validate json
-			it := jsoniter.ParseBytes(conf)
-			if err := it.Error; err != nil {
-				return err
+			if !stdjson.Valid(conf) {
+				return ErrControllerConfigJsonInvalid
 			}
 		}
 	}
@@ -114,11 +114,10 @@ func (c *ControllerConfig) MarshalProtoJSON(s *json.MarshalState) {
 		s.WriteMoreIf(&wroteField)
 		s.WriteObjectField("config")
 		// Detect if config is JSON
-		if c.Config[0] == '{' && c.Config[len(c.Config)-1] == '}' {
+		if len(c.Config) != 0 && c.Config[0] == '{' && c.Config[len(c.Config)-1] == '}' {
 			// Ensure json is parseable
-			it := jsoniter.ParseBytes(c.Config)
-			if err := it.Error; err != nil {
-				s.SetError(errors.Wrap(err, "unable to parse config json"))
+			if !stdjson.Valid(c.Config) {
+				s.SetError(ErrControllerConfigJsonInvalid)
 				return
 			}
 			_, err := s.Write(c.Config)
diff --git a/controller/configset/proto/errors.go b/controller/configset/proto/errors.go
index 3872fe8..dc25ef9 100644
--- a/controller/configset/proto/errors.go
+++ b/controller/configset/proto/errors.go
@@ -4,3 +4,6 @@ import "errors"
 
 // ErrControllerConfigIdEmpty is returned if the controller config id was empty.
 var ErrControllerConfigIdEmpty = errors.New("controller config id empty")
+
+// ErrControllerConfigJsonInvalid is returned if the controller config looks like json but is not valid.
+var ErrControllerConfigJsonInvalid = errors.New("controller config json invalid")
-- 
2.43.0


From f2db42155847e7f6192a4b553ab52d013c065467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 42/68] fix: ExecuteController reports the status in the order
 of the changes

---
 controller/exec/exec.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/controller/exec/exec.go b/controller/exec/exec.go
index 84ece33..f17f8a9 100644
--- a/controller/exec/exec.go
+++ b/controller/exec/exec.go
@@ -26,8 +26,13 @@ func ExecuteController(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
-	removedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
+	// valCh delivers the values added and removed in order.
+	type valEvent struct {
+		id      uint32
+		val     resolver.LoadControllerWithConfigValue
+		removed bool
+	}
+	valCh := make(chan valEvent, 1)
 
 	_, dirRef, err := cbus.AddDirective(
 		resolver.NewLoadControllerWithConfig(conf),
@@ -41,7 +46,7 @@ func ExecuteController(
 				select {
 				case <-subCtx.Done():
 					return
-				case addedCh <- csVal:
+				case valCh <- valEvent{id: val.GetValueID(), val: csVal}:
 				}
 			},
 			// value removed
@@ -53,7 +58,7 @@ func ExecuteController(
 				select {
 				case <-subCtx.Done():
 					return
-				case removedCh <- csVal:
+				case valCh <- valEvent{id: val.GetValueID(), val: csVal, removed: true}:
 				}
 			},
 			subCtxCancel,
@@ -72,27 +77,27 @@ func ExecuteController(
 		prevState = nextState
 		cb(nextState)
 	}
+	// running contains the ids of the values with a running controller.
+	running := make(map[uint32]struct{})
 	for {
 		select {
 		case <-ctx.Done():
 			return nil
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
-			ctrl := csv.GetController()
-			csvErr := csv.GetError()
-			if csvErr != nil {
+		case ev := <-valCh:
+			if ev.removed {
+				// removed == value is no longer applicable.
+				delete(running, ev.id)
+			} else if csvErr := ev.val.GetError(); csvErr != nil {
 				callCb(ControllerStatus_ControllerStatus_ERROR)
 				return csvErr
+			} else if ev.val.GetController() != nil {
+				running[ev.id] = struct{}{}
 			}
-			if ctrl != nil {
+			if len(running) != 0 {
 				callCb(ControllerStatus_ControllerStatus_RUNNING)
-			} else {
-				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
-			}
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			if csv.GetController() != nil && prevState == ControllerStatus_ControllerStatus_RUNNING {
+			} else if !ev.removed || prevState == ControllerStatus_ControllerStatus_RUNNING {
 				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
 			}
 		}
-- 
2.43.0


From 107daeb68ab4c7e8d08ba9ef0d412be8688a7f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 43/68] fix: ExecControllerRequest: yaml overwrites proto only
 if requested, and fail only if all configs fail

---
 controller/exec/exec-request.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/controller/exec/exec-request.go b/controller/exec/exec-request.go
index 9bfc6d5..0c1e1a4 100644
--- a/controller/exec/exec-request.go
+++ b/controller/exec/exec-request.go
@@ -3,7 +3,7 @@ package controller_exec
 import (
 	"context"
 	"errors"
-	"sort"
+	"slices"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller/configset"
@@ -81,8 +81,9 @@ func (r *ExecControllerRequest) Execute(
 	}
 
 	confsYAML := r.GetConfigSetYaml()
+	var addedConfs []string
 	if confsYAML != "" {
-		addedConfs, err := configset_json.UnmarshalYAML(
+		addedConfs, err = configset_json.UnmarshalYAML(
 			ctx,
 			cbus,
 			[]byte(confsYAML),
@@ -92,7 +93,6 @@ func (r *ExecControllerRequest) Execute(
 		if err != nil {
 			return err
 		}
-		sort.Strings(addedConfs)
 	}
 
 	niniterr := 0
@@ -103,7 +103,9 @@ func (r *ExecControllerRequest) Execute(
 			continue
 		}
 
-		if _, ok := confSet[csID]; !ok {
+		// the yaml portion replaces the proto portion only if overwrite is set.
+		_, ok := confSet[csID]
+		if !ok || (!r.GetConfigSetYamlOverwrite() && slices.Contains(addedConfs, csID)) {
 			confSet[csID], err = conf.Resolve(ctx, cbus)
 			if err != nil {
 				resp.Id = csID
@@ -120,8 +122,8 @@ func (r *ExecControllerRequest) Execute(
 			}
 		}
 	}
-	if niniterr == len(confsList) && len(confsList) != 0 {
-		if len(confsList) == 1 && lastniniterr != nil {
+	if niniterr != 0 && len(confSet) == 0 {
+		if niniterr == 1 {
 			return lastniniterr
 		}
 		return ErrAllControllersFailed
-- 
2.43.0


From c9f5e65d9852240d3c6b192690098fe6541237c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 44/68] fix: ExecControllerRequest reports the status in the
 order of the changes

---
 controller/exec/exec-request.go | 51 +++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/controller/exec/exec-request.go b/controller/exec/exec-request.go
index 0c1e1a4..d0386df 100644
--- a/controller/exec/exec-request.go
+++ b/controller/exec/exec-request.go
@@ -6,6 +6,7 @@ import (
 	"slices"
 
 	"github.com/aperturerobotics/controllerbus/bus"
+	"github.com/aperturerobotics/controllerbus/controller"
 	"github.com/aperturerobotics/controllerbus/controller/configset"
 	configset_json "github.com/aperturerobotics/controllerbus/controller/configset/json"
 	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
@@ -134,8 +135,13 @@ func (r *ExecControllerRequest) Execute(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan configset.ApplyConfigSetValue, 1)
-	removedCh := make(chan configset.ApplyConfigSetValue, 1)
+	// valCh delivers the values added and removed in order.
+	type valEvent struct {
+		id      uint32
+		val     configset.ApplyConfigSetValue
+		removed bool
+	}
+	valCh := make(chan valEvent, 1)
 
 	_, dirRef, err := cbus.AddDirective(
 		configset.NewApplyConfigSet(confSet),
@@ -149,7 +155,7 @@ func (r *ExecControllerRequest) Execute(
 				select {
 				case <-subCtx.Done():
 					return
-				case addedCh <- csVal:
+				case valCh <- valEvent{id: val.GetValueID(), val: csVal}:
 				}
 			},
 			// value removed
@@ -161,7 +167,7 @@ func (r *ExecControllerRequest) Execute(
 				select {
 				case <-subCtx.Done():
 					return
-				case removedCh <- csVal:
+				case valCh <- valEvent{id: val.GetValueID(), val: csVal, removed: true}:
 				}
 			},
 			subCtxCancel,
@@ -172,18 +178,33 @@ func (r *ExecControllerRequest) Execute(
 	}
 	defer dirRef.Release()
 
+	// current contains the values which are present, the newest last.
+	current := make(map[string][]valEvent)
 	for {
 		select {
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
-			csvID := csv.GetId()
-			csvErr := csv.GetError()
+		case ev := <-valCh:
+			csvID := ev.val.GetId()
+			vals := current[csvID]
+			if ev.removed {
+				// removed == value is no longer applicable.
+				vals = slices.DeleteFunc(vals, func(v valEvent) bool { return v.id == ev.id })
+			} else {
+				vals = append(vals, ev)
+			}
+			current[csvID] = vals
+			var csvErr error
+			var ctrl controller.Controller
+			if len(vals) != 0 {
+				csv := vals[len(vals)-1].val
+				csvErr, ctrl = csv.GetError(), csv.GetController()
+			}
 			resp.Id = csvID
 			if csvErr != nil {
 				resp.Status = ControllerStatus_ControllerStatus_ERROR
 				resp.ErrorInfo = csvErr.Error()
-			} else if ctrl := csv.GetController(); ctrl != nil {
+			} else if ctrl != nil {
 				ctrlInfo := ctrl.GetControllerInfo()
 				resp.Status = ControllerStatus_ControllerStatus_RUNNING
 				resp.ControllerInfo = ctrlInfo
@@ -198,20 +219,6 @@ func (r *ExecControllerRequest) Execute(
 				}
 			}
 			resp.Reset()
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			csvID := csv.GetId()
-			resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
-			if prevStates[csvID] == resp.Status {
-				resp.Status = ControllerStatus_ControllerStatus_UNKNOWN
-				break
-			}
-			resp.Id = csvID
-			prevStates[csvID] = resp.Status
-			if err := callCb(); err != nil {
-				return err
-			}
-			resp.Reset()
 		}
 	}
 }
-- 
2.43.0


From 618d52e265ac3190273cfc66f97bc7b1f857279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 45/68] fix: static resolver lists the factories while locked

---
 controller/resolver/static/resolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller/resolver/static/resolver.go b/controller/resolver/static/resolver.go
index 4fff0a0..888c5ce 100644
--- a/controller/resolver/static/resolver.go
+++ b/controller/resolver/static/resolver.go
@@ -69,7 +69,9 @@ func (r *Resolver) AddFactory(factory controller.Factory) {
 
 // GetFactories returns the factories associated w/ the resolver.
 func (r *Resolver) GetFactories() []controller.Factory {
+	r.factoryMtx.Lock()
 	vals := slices.Collect(maps.Values(r.factories))
+	r.factoryMtx.Unlock()
 	slices.SortFunc(vals, func(a, b controller.Factory) int {
 		return strings.Compare(a.GetConfigID(), b.GetConfigID())
 	})
-- 
2.43.0


From 4877cea8ffe48ed42b3b788c5b3fd407fc16b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 46/68] fix: plugin factory adds the log field before
 constructing the controller

---
 plugin/static-plugin-factory.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/plugin/static-plugin-factory.go b/plugin/static-plugin-factory.go
index 81ca129..cd98e66 100644
--- a/plugin/static-plugin-factory.go
+++ b/plugin/static-plugin-factory.go
@@ -48,14 +48,16 @@ func (s *StaticPluginFactory) Construct(
 	conf config.Config,
 	opts controller.ConstructOpts,
 ) (controller.Controller, error) {
+	// Augment logging fields.
+	if opts.Logger != nil {
+		opts.Logger = opts.Logger.WithField("plugin-binary-id", s.binaryID)
+	}
+
 	subController, err := s.Factory.Construct(ctx, conf, opts)
 	if err != nil {
 		return subController, err
 	}
 
-	// Augment logging fields.
-	opts.Logger = opts.Logger.WithField("plugin-binary-id", s.binaryID)
-
 	// Ensure that the controller is removed just before we unload.
 	s.mtx.Lock()
 	s.preUnload = append(s.preUnload, func() {
-- 
2.43.0


From 22f787f8f2f92dbda2092f8982c20d09af7e1345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 47/68] fix: an unloaded plugin does not find factories nor
 construct controllers

---
 plugin/resolver.go              | 23 ++++++++++++++++++-----
 plugin/static-plugin-factory.go | 31 +++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/plugin/resolver.go b/plugin/resolver.go
index f6b803c..33594af 100644
--- a/plugin/resolver.go
+++ b/plugin/resolver.go
@@ -28,6 +28,7 @@ type Resolver struct {
 	bus                 bus.Bus
 
 	mtx       sync.Mutex
+	unloaded  bool
 	preUnload []func()
 }
 
@@ -73,6 +74,12 @@ func (r *Resolver) GetResolverVersion() semver.Version {
 func (r *Resolver) GetConfigCtorByID(
 	ctx context.Context, id string,
 ) (config.Constructor, error) {
+	r.mtx.Lock()
+	unloaded := r.unloaded
+	r.mtx.Unlock()
+	if unloaded {
+		return nil, nil
+	}
 	return r.staticResolver.GetConfigCtorByID(ctx, id)
 }
 
@@ -88,21 +95,27 @@ func (r *Resolver) GetFactoryMatchingConfig(
 	}
 
 	// wrap factories with pre-unload hook
-	sf := NewStaticPluginFactory(r.ctx, tfac, r.pluginBinaryID, r.bus)
 	r.mtx.Lock()
+	defer r.mtx.Unlock()
+	if r.unloaded {
+		return nil, nil
+	}
+	sf := NewStaticPluginFactory(r.ctx, tfac, r.pluginBinaryID, r.bus)
 	r.preUnload = append(r.preUnload, sf.Close)
-	r.mtx.Unlock()
 	return sf, nil
 }
 
 // PrePluginUnload is called just before the plugin is unloaded.
 func (r *Resolver) PrePluginUnload() {
 	r.mtx.Lock()
-	for _, f := range r.preUnload {
-		f()
-	}
+	r.unloaded = true
+	preUnload := r.preUnload
 	r.preUnload = nil
 	r.mtx.Unlock()
+	// note: calls reference callbacks which may call the resolver
+	for _, f := range preUnload {
+		f()
+	}
 }
 
 // _ is a type assertion
diff --git a/plugin/static-plugin-factory.go b/plugin/static-plugin-factory.go
index cd98e66..5a7e046 100644
--- a/plugin/static-plugin-factory.go
+++ b/plugin/static-plugin-factory.go
@@ -48,34 +48,49 @@ func (s *StaticPluginFactory) Construct(
 	conf config.Config,
 	opts controller.ConstructOpts,
 ) (controller.Controller, error) {
+	// The plugin was unloaded.
+	if err := s.ctx.Err(); err != nil {
+		return nil, err
+	}
+
 	// Augment logging fields.
 	if opts.Logger != nil {
 		opts.Logger = opts.Logger.WithField("plugin-binary-id", s.binaryID)
 	}
 
 	subController, err := s.Factory.Construct(ctx, conf, opts)
-	if err != nil {
+	if err != nil || subController == nil {
 		return subController, err
 	}
 
 	// Ensure that the controller is removed just before we unload.
 	s.mtx.Lock()
-	s.preUnload = append(s.preUnload, func() {
-		s.bus.RemoveController(subController)
-	})
+	ctxErr := s.ctx.Err()
+	if ctxErr == nil {
+		s.preUnload = append(s.preUnload, func() {
+			s.bus.RemoveController(subController)
+		})
+	}
 	s.mtx.Unlock()
-	return subController, err
+	if ctxErr != nil {
+		// unloaded in the meantime
+		_ = subController.Close()
+		return nil, ctxErr
+	}
+	return subController, nil
 }
 
 // Close closes the static plugin factory.
 func (s *StaticPluginFactory) Close() {
 	s.ctxCancel()
 	s.mtx.Lock()
-	for _, f := range s.preUnload {
-		f()
-	}
+	preUnload := s.preUnload
 	s.preUnload = nil
 	s.mtx.Unlock()
+	// note: calls reference callbacks which may call the factory
+	for _, f := range preUnload {
+		f()
+	}
 }
 
 // _ is a type assertion
-- 
2.43.0


From 5c1e5eb29c273291f0c2deaa3a51482d4884b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 48/68] fix: a controller of an unloaded plugin is not used for
 the reloaded one

---
 controller/loader/dir-exec-controller.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/controller/loader/dir-exec-controller.go b/controller/loader/dir-exec-controller.go
index fc3e66c..84aeef6 100644
--- a/controller/loader/dir-exec-controller.go
+++ b/controller/loader/dir-exec-controller.go
@@ -94,10 +94,21 @@ func (d *execController) IsEquivalent(other directive.Directive) bool {
 		return false
 	}
 
+	// A factory which was unloaded cannot be used in place of another one.
+	if factoryUnloaded(f) != factoryUnloaded(otherf) {
+		return false
+	}
+
 	// If the two configurations are identical, de-duplicate the directive.
 	return d.GetExecControllerConfig().EqualsConfig(otherExec.GetExecControllerConfig())
 }
 
+// factoryUnloaded checks if the factory context is canceled, if it has one.
+func factoryUnloaded(f controller.Factory) bool {
+	fc, ok := f.(controller.FactoryWithContext)
+	return ok && fc.GetFactoryContext().Err() != nil
+}
+
 // Superceeds checks if the directive overrides another.
 // The other directive will be canceled if superceded.
 func (d *execController) Superceeds(other directive.Directive) bool {
-- 
2.43.0


From da288b61ccd70d1fe6a7165c8ca5390be6e4ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 49/68] fix: api controller closes its listener and serves
 clients concurrently

Execute returned when ctx was canceled but left the listener and the connection
open, and accepted the next connection only after the current one was closed.
---
 bus/api/controller/controller.go | 45 ++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/bus/api/controller/controller.go b/bus/api/controller/controller.go
index acdf9e7..f6d5615 100644
--- a/bus/api/controller/controller.go
+++ b/bus/api/controller/controller.go
@@ -70,21 +70,50 @@ func (c *Controller) Execute(ctx context.Context) error {
 		return err
 	}
 
-	errCh := make(chan error, 1)
-	srv := srpc.NewServer(mux)
+	// close the listener and the connections when ctx is canceled or when returning
+	subCtx, subCtxCancel := context.WithCancel(ctx)
+	lisClosed := make(chan struct{})
 	go func() {
-		errCh <- srpc.AcceptMuxedListener(ctx, lis, srv, nil)
+		defer close(lisClosed)
+		<-subCtx.Done()
 		_ = lis.Close()
 	}()
+	defer func() {
+		subCtxCancel()
+		<-lisClosed
+	}()
 
-	select {
-	case <-ctx.Done():
-		return nil
-	case err := <-errCh:
-		return err
+	srv := srpc.NewServer(mux)
+	for {
+		nc, err := lis.Accept()
+		if err != nil {
+			if ctx.Err() != nil {
+				return nil
+			}
+			return err
+		}
+
+		// note: serves the connection until it is closed
+		go serveConn(subCtx, srv, nc)
 	}
 }
 
+// serveConn serves a connection until it is closed or ctx is canceled.
+func serveConn(ctx context.Context, srv *srpc.Server, nc net.Conn) {
+	defer nc.Close()
+	mc, err := srpc.NewMuxedConn(nc, false, nil)
+	if err != nil {
+		return
+	}
+	defer mc.Close()
+
+	stop := context.AfterFunc(ctx, func() {
+		_ = mc.Close()
+	})
+	defer stop()
+	_ = srv.AcceptMuxedConn(ctx, mc)
+}
+
 // HandleDirective asks if the handler can resolve the directive.
 // If it can, it returns a resolver. If not, returns nil.
 // Any unexpected errors are returned for logging.
-- 
2.43.0


From 85ca60b670feb176961b60ed9e4c2717ff3ebaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 50/68] fix: context of a loaded plugin is canceled when it is
 unloaded

---
 plugin/loader/shared-library/shared-library.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugin/loader/shared-library/shared-library.go b/plugin/loader/shared-library/shared-library.go
index 8b01eb6..189b41e 100644
--- a/plugin/loader/shared-library/shared-library.go
+++ b/plugin/loader/shared-library/shared-library.go
@@ -70,11 +70,13 @@ func LoadPluginSharedLibrary(
 	if loadedPlugin == nil {
 		return nil, errors.New("could not load hot plugin, nil plugin global")
 	}
-	pluginResolver, err := loadedPlugin.NewPluginResolver(ctx, bus)
+	// subCtx is canceled when the plugin is about to be unloaded.
+	subCtx, subCtxCancel := context.WithCancel(ctx)
+	pluginResolver, err := loadedPlugin.NewPluginResolver(subCtx, bus)
 	if err != nil {
+		subCtxCancel()
 		return nil, err
 	}
-	subCtx, subCtxCancel := context.WithCancel(ctx)
 	go func() {
 		resolverController := resolver.NewController(le, bus, pluginResolver)
 		err := bus.ExecuteController(
-- 
2.43.0


From f4f136b2136fd525ad9f20a495f94c45b91af7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 51/68] fix: plugin directory changes made while plugins are
 loaded are not lost

---
 .../shared-library/filesystem/watcher.go      | 64 ++++++++++++++++---
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/plugin/loader/shared-library/filesystem/watcher.go b/plugin/loader/shared-library/filesystem/watcher.go
index 1210f23..0bf2782 100644
--- a/plugin/loader/shared-library/filesystem/watcher.go
+++ b/plugin/loader/shared-library/filesystem/watcher.go
@@ -13,8 +13,8 @@ import (
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	shared "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library"
-	debounce_fswatcher "github.com/aperturerobotics/util/debounce-fswatcher"
 	"github.com/fsnotify/fsnotify"
+	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -182,15 +182,17 @@ func (w *Watcher) UnloadAll() {
 // Execute executes the watcher and loads / runs plugins.
 func (w *Watcher) Execute(ctx context.Context, syncDir string, watch bool) error {
 	defer w.UnloadAll()
-	if err := w.SyncPlugins(ctx, syncDir); err != nil {
-		return err
-	}
 
 	if !watch {
+		if err := w.SyncPlugins(ctx, syncDir); err != nil {
+			return err
+		}
 		<-ctx.Done()
 		return nil
 	}
 
+	// start watching before syncing: changes made while syncing are queued and
+	// cause another sync.
 	watcher, err := fsnotify.NewWatcher()
 	if err != nil {
 		return err
@@ -202,14 +204,60 @@ func (w *Watcher) Execute(ctx context.Context, syncDir string, watch bool) error
 	}
 
 	for {
-		happened, err := debounce_fswatcher.DebounceFSWatcherEvents(ctx, watcher, debounceTime, nil)
-		if err != nil {
+		if err := w.SyncPlugins(ctx, syncDir); err != nil {
 			return err
 		}
 
-		w.le.Debugf("re-syncing plugins after %d filesystem events", len(happened))
-		if err := w.SyncPlugins(ctx, syncDir); err != nil {
+		happened, err := waitFSWatcherEvents(ctx, watcher, debounceTime)
+		if err != nil {
 			return err
 		}
+
+		w.le.Debugf("re-syncing plugins after %d filesystem events", happened)
+	}
+}
+
+// waitFSWatcherEvents waits for an event followed by a quiet period.
+//
+// Does not drop any events queued before the call.
+// Returns the number of events.
+func waitFSWatcherEvents(
+	ctx context.Context,
+	watcher *fsnotify.Watcher,
+	debounceDur time.Duration,
+) (int, error) {
+	var happened int
+	var quietTimer *time.Timer
+	var quietC <-chan time.Time
+	defer func() {
+		if quietTimer != nil {
+			quietTimer.Stop()
+		}
+	}()
+	for {
+		select {
+		case <-ctx.Done():
+			return happened, ctx.Err()
+		case event, ok := <-watcher.Events:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			if event.Op == fsnotify.Chmod {
+				continue
+			}
+			happened++
+			if quietTimer != nil {
+				quietTimer.Stop()
+			}
+			quietTimer = time.NewTimer(debounceDur)
+			quietC = quietTimer.C
+		case err, ok := <-watcher.Errors:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			return happened, errors.Wrap(err, "watcher error")
+		case <-quietC:
+			return happened, nil
+		}
 	}
 }
-- 
2.43.0


From e9bebf4c916638af55a52e365b6758d43e467cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 52/68] fix: generated plugins give each imported package its
 own name

---
 plugin/compiler/analysis.go |  3 ++-
 plugin/compiler/codegen.go  | 50 +++++++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/plugin/compiler/analysis.go b/plugin/compiler/analysis.go
index 323dc69..2ac6612 100644
--- a/plugin/compiler/analysis.go
+++ b/plugin/compiler/analysis.go
@@ -25,6 +25,7 @@ type Analysis struct {
 	// keyed by import path
 	imports map[string]*types.Package
 	// controllerFactories contains the set of packages containing controllers
+	// keyed by import path
 	controllerFactories map[string]*packages.Package
 	// module contains all factory modules
 	module map[string]*packages.Module
@@ -113,7 +114,7 @@ func AnalyzePackages(
 		factoryPkgImportPath := pkg.Types.Path()
 		if factoryCtorObj != nil {
 			le.Debugf("found factory ctor func: %s", factoryCtorObj.Type().String())
-			res.controllerFactories[BuildPackageName(pkg.Types)] = pkg
+			res.controllerFactories[factoryPkgImportPath] = pkg
 			if _, ok := res.imports[factoryPkgImportPath]; !ok {
 				le.
 					WithField("import-path", factoryPkgImportPath).
diff --git a/plugin/compiler/codegen.go b/plugin/compiler/codegen.go
index c7e7408..f6788d9 100644
--- a/plugin/compiler/codegen.go
+++ b/plugin/compiler/codegen.go
@@ -13,6 +13,7 @@ import (
 	"path"
 	"path/filepath"
 	"sort"
+	"strconv"
 
 	"github.com/aperturerobotics/controllerbus/plugin"
 	b58 "github.com/mr-tron/base58/base58"
@@ -44,12 +45,44 @@ func FormatFile(gf *gast.File) ([]byte, error) {
 	return outDat.Bytes(), nil
 }
 
-// BuildPackageName builds the unique name for the package.
+// BuildPackageName builds the preferred import name for the package.
 func BuildPackageName(pkg *types.Package) string {
 	// for now just use package name
 	return pkg.Name()
 }
 
+// buildImportNames picks a name for each of the imported packages.
+// The names differ from each other and from the other names in the generated file.
+func buildImportNames(importStrs []string, imports map[string]*types.Package) map[string]string {
+	used := map[string]struct{}{
+		// packages imported without a name
+		"bus": {}, "controller": {}, "plugin": {},
+		// declared or used in the generated file
+		"b": {}, "nil": {}, "main": {}, "init": {},
+		"BinaryID": {}, "BinaryVersion": {}, "BinaryFactories": {},
+		"Plugin": {}, "NewPlugin": {}, plugin.PluginGlobalVar: {},
+		"HotPluginBuildPrefix": {}, "HotPluginBuildUUID": {},
+	}
+	names := make(map[string]string, len(importStrs))
+	for _, impPath := range importStrs {
+		impPkg := imports[impPath]
+		if impPkg == nil {
+			continue
+		}
+		baseName := BuildPackageName(impPkg)
+		name := baseName
+		for i := 2; ; i++ {
+			if _, ok := used[name]; !ok {
+				break
+			}
+			name = baseName + "_" + strconv.Itoa(i)
+		}
+		used[name] = struct{}{}
+		names[impPath] = name
+	}
+	return names
+}
+
 // CodegenPluginWrapperFromAnalysis codegens a plugin wrapper from analysis.
 func CodegenPluginWrapperFromAnalysis(
 	le *logrus.Entry,
@@ -62,12 +95,12 @@ func CodegenPluginWrapperFromAnalysis(
 		importStrs = append(importStrs, impPkg)
 	}
 	sort.Strings(importStrs)
+	importNames := buildImportNames(importStrs, a.imports)
 	for _, impPath := range importStrs {
-		impPkg := a.imports[impPath]
-		// impPkg may be nil
+		// the package may be imported without a name
 		var impIdent *gast.Ident
-		if impPkg != nil {
-			impIdent = gast.NewIdent(BuildPackageName(impPkg))
+		if impName, ok := importNames[impPath]; ok {
+			impIdent = gast.NewIdent(impName)
 		}
 		allDecls = append(allDecls, &gast.GenDecl{
 			Tok: token.IMPORT,
@@ -117,14 +150,17 @@ func CodegenPluginWrapperFromAnalysis(
 
 	// Construct the elements of the slice to return from BinaryFactories.
 	var buildControllersElts []gast.Expr
-	for fpkg := range a.controllerFactories {
+	for _, impPath := range importStrs {
+		if _, ok := a.controllerFactories[impPath]; !ok {
+			continue
+		}
 		buildControllersElts = append(buildControllersElts, &gast.CallExpr{
 			Args: []gast.Expr{
 				gast.NewIdent("b"),
 			},
 			Fun: &gast.SelectorExpr{
 				Sel: gast.NewIdent("NewFactory"),
-				X:   gast.NewIdent(fpkg),
+				X:   gast.NewIdent(importNames[impPath]),
 			},
 		})
 	}
-- 
2.43.0


From 6a82d2a8982efc861d26bcd166e11c8c404b478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 53/68] fix: generating modules leaves the imports of the
 analysis unchanged

---
 plugin/compiler/module-compiler.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 11a3277..5e29095 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -284,7 +284,10 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 	}
 
-	rewritePackagesImports := func(pkgCodeFile *ast.File) {
+	// rewritePackagesImports adds the prefix to the imports of generated packages.
+	// the returned function restores the original imports.
+	rewritePackagesImports := func(pkgCodeFile *ast.File) func() {
+		var restoreFns []func()
 		for _, pkgCodeImport := range pkgCodeFile.Imports {
 			pkgCodeImportPath := pkgCodeImport.Path.Value
 			if len(pkgCodeImportPath) < 2 {
@@ -297,8 +300,17 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 				continue
 			}
 			replacedTargetPath := path.Join(buildPrefix, targetPkg.Types.Path())
+			originalValue := pkgCodeImport.Path.Value
+			restoreFns = append(restoreFns, func() {
+				pkgCodeImport.Path.Value = originalValue
+			})
 			pkgCodeImport.Path.Value = fmt.Sprintf("%q", replacedTargetPath)
 		}
+		return func() {
+			for _, restoreFn := range restoreFns {
+				restoreFn()
+			}
+		}
 	}
 
 	formatCodeFile := func(pkgCodeFile *ast.File) ([]byte, error) {
@@ -340,7 +352,7 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 			// rewrite any imports if necessary.
 			// any generated packages will have the new prefix before them.
-			rewritePackagesImports(pkgCodeFile)
+			restoreImports := rewritePackagesImports(pkgCodeFile)
 
 			// build relative path to the code file from the module root.
 			codeFileRelativeToModule, err := filepath.Rel(factoryPkg.Module.Dir, pkgCodeFilePath)
@@ -358,6 +370,8 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 					Debug("formatting code file")
 			*/
 			outData, err := formatCodeFile(pkgCodeFile)
+			// the analysis may be used again with a different prefix.
+			restoreImports()
 			if err != nil {
 				return err
 			}
@@ -420,7 +434,7 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 		return err
 	}
 	// Adjust the import paths.
-	rewritePackagesImports(gfile)
+	_ = rewritePackagesImports(gfile)
 	// Format to output pass #2
 	pluginCodeData, err = formatCodeFile(gfile)
 	if err != nil {
-- 
2.43.0


From ab060947e4f1a281e4c21d065e219d68f741f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 54/68] fix: plugin modules are generated in a fixed order

---
 plugin/compiler/module-compiler.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 5e29095..97c19a3 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -10,9 +10,11 @@ import (
 	"go/parser"
 	"go/printer"
 	"go/token"
+	"maps"
 	"os"
 	"path"
 	"path/filepath"
+	"slices"
 
 	"github.com/aperturerobotics/util/exec"
 	"github.com/mr-tron/base58/base58"
@@ -119,7 +121,11 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 	moduleCodegenPaths := make(map[string]string)
 	loadedModules := analysis.GetImportedModules()
-	for _, mod := range loadedModules {
+	// process the modules in order of path: a module is created before the
+	// modules nested in its directory, and the output is deterministic.
+	loadedModulePaths := slices.Sorted(maps.Keys(loadedModules))
+	for _, loadedModulePath := range loadedModulePaths {
+		mod := loadedModules[loadedModulePath]
 		srcMod := mod
 		for mod.Replace != nil {
 			m.le.
@@ -247,7 +253,8 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 		// For each peer module that will be code-gen, add a replace statement.
 		// Note: replace statements /could/ be added on-demand
-		for _, peerMod := range loadedModules {
+		for _, peerModPath := range loadedModulePaths {
+			peerMod := loadedModules[peerModPath]
 			if peerMod == mod || peerMod.Path == srcMod.Path {
 				continue
 			}
-- 
2.43.0


From 237fb9a494fb04069b147887934a9e5d6a3e6960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 55/68] fix: replacements by . and .. in go.mod files are
 relocated

---
 plugin/compiler/module-utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin/compiler/module-utils.go b/plugin/compiler/module-utils.go
index ad97190..106604e 100644
--- a/plugin/compiler/module-utils.go
+++ b/plugin/compiler/module-utils.go
@@ -45,8 +45,8 @@ func relocateGoModFile(
 	var adjOps [](func() error)
 	for _, srcReplace := range modf.Replace {
 		newPath := srcReplace.New.Path
-		// if the path replacement has a ./ or ../ prefix, update the relative path
-		if strings.HasPrefix(newPath, "./") || strings.HasPrefix(newPath, "../") {
+		// if the path replacement is relative, update the relative path
+		if newPath == "." || newPath == ".." || strings.HasPrefix(newPath, "./") || strings.HasPrefix(newPath, "../") {
 			// join the absolute path to the module with the relative replacement
 			// prevNewPathAbs is the absolute path to the replacement module.
 			prevNewPathAbs := filepath.Join(modPathAbs, newPath)
-- 
2.43.0


From 2bafea6c43ff0bbd5f14e2a371f6bf3b2d398dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:23 +0000
Subject: [PATCH 56/68] fix: cleaning up old plugin versions leaves other files
 in place

---
 plugin/compiler/compiler.go | 4 +++-
 plugin/compiler/watcher.go  | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/plugin/compiler/compiler.go b/plugin/compiler/compiler.go
index c34f14f..3059b23 100644
--- a/plugin/compiler/compiler.go
+++ b/plugin/compiler/compiler.go
@@ -18,6 +18,8 @@ import (
 const (
 	buildTag          = "controllerbus_plugin"
 	buildHashConstTag = "{buildHash}"
+	// buildHashLen is the length of the string replacing buildHashConstTag.
+	buildHashLen = 16
 )
 
 // CompilePluginFromFile compiles the plugin from the gfile.
@@ -99,7 +101,7 @@ func CompilePluginFromFile(
 	hashStr := b58.Encode(hasher.Sum(nil))
 
 	if strings.Contains(outFile, buildHashConstTag) {
-		outFile = strings.ReplaceAll(outFile, buildHashConstTag, hashStr[:16])
+		outFile = strings.ReplaceAll(outFile, buildHashConstTag, hashStr[:buildHashLen])
 		if _, err := os.Stat(outFile); !os.IsNotExist(err) {
 			le.Info("detected that output would be identical, skipping")
 			return nil
diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 9173ced..293fe83 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -10,6 +10,7 @@ import (
 	"path"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"time"
 
@@ -119,7 +120,7 @@ func (w *Watcher) WatchCompilePlugin(
 		if err != nil {
 			return nil, err
 		}
-		buildHashShort := buildHash[:16]
+		buildHashShort := buildHash[:buildHashLen]
 		passBuildPluginVersion := strings.ReplaceAll(pluginBinaryVersion, buildHashConstTag, buildHashShort)
 
 		targetOutputPath := pluginOutputPath
@@ -257,11 +258,11 @@ func CleanupOldVersions(le *logrus.Entry, pluginOutputPath string) error {
 	}
 	filenameRe, err := regexp.Compile(strings.Join([]string{
 		// match part 0
-		"(", regexp.QuoteMeta(pts[0]), ")",
+		"^(", regexp.QuoteMeta(pts[0]), ")",
 		// match build id
-		"([a-zA-Z0-9]*)",
+		"([a-zA-Z0-9]{", strconv.Itoa(buildHashLen), "})",
 		// match part 1
-		"(", regexp.QuoteMeta(pts[1]), ")",
+		"(", regexp.QuoteMeta(pts[1]), ")$",
 	}, ""))
 	if err != nil {
 		return err
-- 
2.43.0


From 01953da0ff2f160a099c202d148e52ad8a45a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:23 +0000
Subject: [PATCH 57/68] fix: compiled plugins are moved to the output path
 after they were written

---
 plugin/compiler/util.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/plugin/compiler/util.go b/plugin/compiler/util.go
index 86c941b..7cf22e7 100644
--- a/plugin/compiler/util.go
+++ b/plugin/compiler/util.go
@@ -6,7 +6,9 @@ import (
 	"path/filepath"
 )
 
-// copyFileFromTo copies a file from a path to another path
+// copyFileFromTo copies a file from a path to another path.
+//
+// The destination is replaced at once after it was completely written.
 func copyFileFromTo(src, dest string) error {
 	ofile, oerr := os.Open(src)
 	if oerr != nil {
@@ -14,17 +16,25 @@ func copyFileFromTo(src, dest string) error {
 	}
 	defer ofile.Close()
 
-	outFileFd, err := os.OpenFile(dest, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
+	tmpDest := dest + ".tmp"
+	outFileFd, err := os.OpenFile(tmpDest, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
 	if err != nil {
 		return err
 	}
-	defer outFileFd.Close()
 
 	_, err = io.Copy(outFileFd, ofile)
+	if err == nil {
+		err = outFileFd.Sync()
+	}
+	if cerr := outFileFd.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmpDest, dest)
+	}
 	if err != nil {
-		return err
+		_ = os.Remove(tmpDest)
 	}
-	err = outFileFd.Sync()
 	return err
 }
 
-- 
2.43.0


From 13af4de7b70deb74cad2cbdab7e31ad1845cf3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:24 +0000
Subject: [PATCH 58/68] fix: modules next to the module cache directory are not
 taken for third-party modules

---
 plugin/compiler/util.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/plugin/compiler/util.go b/plugin/compiler/util.go
index 7cf22e7..c1aa0bc 100644
--- a/plugin/compiler/util.go
+++ b/plugin/compiler/util.go
@@ -3,7 +3,7 @@ package plugin_compiler
 import (
 	"io"
 	"os"
-	"path/filepath"
+	"strings"
 )
 
 // copyFileFromTo copies a file from a path to another path.
@@ -38,9 +38,7 @@ func copyFileFromTo(src, dest string) error {
 	return err
 }
 
-// filepathHasPrefix checks if a file path has a prefix.
-//
-//nolint:staticcheck // filepath.HasPrefix is deprecated but OK in this use case
-func filepathHasPrefix(p1, p2 string) bool {
-	return filepath.HasPrefix(p1, p2)
+// filepathHasPrefix checks if a file path is the directory or is inside of it.
+func filepathHasPrefix(p, dir string) bool {
+	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, string(os.PathSeparator))+string(os.PathSeparator))
 }
-- 
2.43.0


From f799ff3ed709f5ced6dcdcb635dde70150cb05ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 59/68] fix: source changes made while a watched plugin is
 compiled are not lost

---
 plugin/compiler/watcher.go | 175 +++++++++++++++++++++++--------------
 1 file changed, 109 insertions(+), 66 deletions(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 293fe83..d4000d7 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -14,7 +14,6 @@ import (
 	"strings"
 	"time"
 
-	debounce_fswatcher "github.com/aperturerobotics/util/debounce-fswatcher"
 	"github.com/fsnotify/fsnotify"
 	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
@@ -92,33 +91,25 @@ func (w *Watcher) WatchCompilePlugin(
 		return err
 	}
 
-	compilePlugin := func() (*Analysis, error) {
+	compilePlugin := func(an *Analysis) error {
 		rctx := ctx
 		ctx, compileCtxCancel := context.WithCancel(rctx)
 		defer compileCtxCancel()
 
-		le.
-			WithField("plugin-output-filename", path.Base(pluginOutputPath)).
-			Debugf("analyzing packages: %v", w.packagePaths)
-		an, err := AnalyzePackages(ctx, w.le, w.packageLookupPath, w.packagePaths)
-		if err != nil {
-			return nil, err
-		}
-
 		// pass 1: codegen + build with static build prefix.
 		passBinDir := filepath.Join(pluginCodegenPath, "bin")
 		if err := os.MkdirAll(passBinDir, 0o755); err != nil {
-			return nil, err
+			return err
 		}
 
 		pass1OutputPath := filepath.Join(passBinDir, "pass1.cbus.so")
 		if err := compilePluginOnce(ctx, an, "pass1", pass1OutputPath, pluginBinaryVersion); err != nil {
-			return nil, err
+			return err
 		}
 
 		buildHash, err := HashPluginForBuildID(hhBaseKey, pass1OutputPath)
 		if err != nil {
-			return nil, err
+			return err
 		}
 		buildHashShort := buildHash[:buildHashLen]
 		passBuildPluginVersion := strings.ReplaceAll(pluginBinaryVersion, buildHashConstTag, buildHashShort)
@@ -128,10 +119,10 @@ func (w *Watcher) WatchCompilePlugin(
 			targetOutputPath = strings.ReplaceAll(targetOutputPath, buildHashConstTag, buildHashShort)
 			if _, err := os.Stat(targetOutputPath); !os.IsNotExist(err) {
 				le.Info("detected that output would be identical, skipping")
-				return an, nil
+				return nil
 			}
 			if err := CleanupOldVersions(le, pluginOutputPath); err != nil {
-				return an, err
+				return err
 			}
 		}
 
@@ -139,20 +130,45 @@ func (w *Watcher) WatchCompilePlugin(
 		pass2OutputPath := filepath.Join(passBinDir, "pass2.cbus.so")
 		buildPrefix := "cbus-plugin-" + buildHashShort
 		if err := compilePluginOnce(ctx, an, buildPrefix, pass2OutputPath, passBuildPluginVersion); err != nil {
-			return an, err
+			return err
 		}
 		if err := copyFileFromTo(pass2OutputPath, targetOutputPath); err != nil {
-			return an, err
+			return err
 		}
-		if err == nil && compiledCb != nil {
-			err = compiledCb(w.packagePaths, targetOutputPath)
+		if compiledCb != nil {
+			return compiledCb(w.packagePaths, targetOutputPath)
 		}
+		return nil
+	}
 
-		return an, err
+	// It's best to watch the entire directory tree and filter the events.
+	//
+	// This is both more efficient on the kernel side and avoids nasty quriks
+	// with git and other editors deleting and re-creating files.
+	//
+	// See fsnotify comments:
+	//   Watching individual files (rather than directories) is generally not
+	//   recommended as many programs (especially editors) update files atomically: it
+	//   will write to a temporary file which is then moved to to destination,
+	//   overwriting the original (or some variant thereof). The watcher on the
+	//   original file is now lost, as that no longer exists.
+	//
+	// It's necessary to create one watcher per directory:
+	//   https://github.com/fsnotify/fsnotify/issues/18
+	//
+	// The watcher is kept while compiling: changes made meanwhile are queued.
+	watcher, err := fsnotify.NewWatcher()
+	if err != nil {
+		return err
 	}
+	defer watcher.Close()
+	watchedDirs := make(map[string]struct{})
 
 	for {
-		an, err := compilePlugin()
+		le.
+			WithField("plugin-output-filename", path.Base(pluginOutputPath)).
+			Debugf("analyzing packages: %v", w.packagePaths)
+		an, err := AnalyzePackages(ctx, w.le, w.packageLookupPath, w.packagePaths)
 		if err != nil {
 			return err
 		}
@@ -161,9 +177,9 @@ func (w *Watcher) WatchCompilePlugin(
 		ignoreWatchPrefixes := []string{"vendor", "node_modules", ".bldr", "(disabled)"}
 
 		// build file watchlist
-		watchedFiles := make(map[string]struct{})
-		codefileMap := an.GetProgramCodeFiles(w.packagePaths, "")
-		for _, filePaths := range codefileMap {
+		watchedSourcePaths := make(map[string]struct{})
+		watchedSourceDirs := make(map[string]struct{})
+		for _, filePaths := range an.GetProgramCodeFiles(w.packagePaths, "") {
 		FilePathLoop:
 			for _, filePath := range filePaths {
 				for _, prefix := range ignoreWatchPrefixes {
@@ -171,72 +187,99 @@ func (w *Watcher) WatchCompilePlugin(
 						continue FilePathLoop
 					}
 				}
-				watchedFiles[filePath] = struct{}{}
-			}
-		}
-
-		watchedSourcePaths := make(map[string]struct{}, len(watchedFiles))
-		watchedSourceDirs := make(map[string]struct{}, len(watchedFiles))
-		for filePath := range watchedFiles {
-			watchedSourcePaths[filePath] = struct{}{}
-			sourceDir := filepath.Dir(filePath)
-			if _, ok := watchedSourceDirs[sourceDir]; !ok {
-				watchedSourceDirs[sourceDir] = struct{}{}
+				watchedSourcePaths[filePath] = struct{}{}
+				watchedSourceDirs[filepath.Dir(filePath)] = struct{}{}
 			}
 		}
 
 		le.Debugf(
 			"hot: watching %d packages with %d files",
 			len(w.packagePaths),
-			len(watchedFiles),
+			len(watchedSourcePaths),
 		)
 
-		// It's best to watch the entire directory tree and filter the events.
-		//
-		// This is both more efficient on the kernel side and avoids nasty quriks
-		// with git and other editors deleting and re-creating files.
-		//
-		// See fsnotify comments:
-		//   Watching individual files (rather than directories) is generally not
-		//   recommended as many programs (especially editors) update files atomically: it
-		//   will write to a temporary file which is then moved to to destination,
-		//   overwriting the original (or some variant thereof). The watcher on the
-		//   original file is now lost, as that no longer exists.
-		//
-		// It's necessary to create one watcher per directory:
-		//   https://github.com/fsnotify/fsnotify/issues/18
-		watcher, err := fsnotify.NewWatcher()
-		if err != nil {
-			return err
-		}
-
+		var addedDirs bool
 		for watchedDirPath := range watchedSourceDirs {
+			if _, ok := watchedDirs[watchedDirPath]; ok {
+				continue
+			}
 			le.Infof("watching dir path: %s", watchedDirPath)
-			err = watcher.Add(watchedDirPath)
-			if err != nil {
-				_ = watcher.Close()
+			if err := watcher.Add(watchedDirPath); err != nil {
 				return err
 			}
+			watchedDirs[watchedDirPath] = struct{}{}
+			addedDirs = true
+		}
+		if addedDirs {
+			// the files may have changed before the directory was watched.
+			continue
+		}
+
+		if err := compilePlugin(an); err != nil {
+			return err
 		}
 
 		// wait for a file change
-		happened, err := debounce_fswatcher.DebounceFSWatcherEvents(
+		happened, err := waitFSWatcherEvents(
 			ctx,
 			watcher,
 			time.Millisecond*500,
-			func(event fsnotify.Event) (match bool, err error) {
-				if _, ok := watchedSourcePaths[event.Name]; !ok {
-					return false, nil
-				}
-				return true, nil
+			func(event fsnotify.Event) bool {
+				_, ok := watchedSourcePaths[event.Name]
+				return ok
 			},
 		)
-		_ = watcher.Close()
 		if err != nil {
 			return err
 		}
 
-		le.Infof("re-analyzing packages after %d filesystem events", len(happened))
+		le.Infof("re-analyzing packages after %d filesystem events", happened)
+	}
+}
+
+// waitFSWatcherEvents waits for a matching event followed by a quiet period.
+//
+// Does not drop any events queued before the call.
+// Returns the number of matching events.
+func waitFSWatcherEvents(
+	ctx context.Context,
+	watcher *fsnotify.Watcher,
+	debounceDur time.Duration,
+	filter func(event fsnotify.Event) bool,
+) (int, error) {
+	var happened int
+	var quietTimer *time.Timer
+	var quietC <-chan time.Time
+	defer func() {
+		if quietTimer != nil {
+			quietTimer.Stop()
+		}
+	}()
+	for {
+		select {
+		case <-ctx.Done():
+			return happened, ctx.Err()
+		case event, ok := <-watcher.Events:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			if event.Op == fsnotify.Chmod || !filter(event) {
+				continue
+			}
+			happened++
+			if quietTimer != nil {
+				quietTimer.Stop()
+			}
+			quietTimer = time.NewTimer(debounceDur)
+			quietC = quietTimer.C
+		case err, ok := <-watcher.Errors:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			return happened, errors.Wrap(err, "watcher error")
+		case <-quietC:
+			return happened, nil
+		}
 	}
 }
 
-- 
2.43.0


From 6e9561d3264ce04fe56a7ff8290b54abb493565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 60/68] fix: packages of a watched plugin given by relative
 paths are watched

---
 plugin/compiler/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index d4000d7..9cff9f2 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -179,7 +179,7 @@ func (w *Watcher) WatchCompilePlugin(
 		// build file watchlist
 		watchedSourcePaths := make(map[string]struct{})
 		watchedSourceDirs := make(map[string]struct{})
-		for _, filePaths := range an.GetProgramCodeFiles(w.packagePaths, "") {
+		for _, filePaths := range an.GetProgramCodeFiles(nil, "") {
 		FilePathLoop:
 			for _, filePath := range filePaths {
 				for _, prefix := range ignoreWatchPrefixes {
-- 
2.43.0


From d7988b765c73c2aceb30c1d5c6b98a4949a2753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 61/68] fix: files added to the packages of a watched plugin
 are detected

---
 plugin/compiler/watcher.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 9cff9f2..bf9b377 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -225,8 +225,12 @@ func (w *Watcher) WatchCompilePlugin(
 			watcher,
 			time.Millisecond*500,
 			func(event fsnotify.Event) bool {
-				_, ok := watchedSourcePaths[event.Name]
-				return ok
+				if _, ok := watchedSourcePaths[event.Name]; ok {
+					return true
+				}
+				// detect files added to the packages
+				_, ok := watchedSourceDirs[filepath.Dir(event.Name)]
+				return ok && filepath.Ext(event.Name) == ".go"
 			},
 		)
 		if err != nil {
-- 
2.43.0


From e8df3e39b13ac5eeeefc04f635cf4fc611011b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 62/68] fix: plugin commands use the default build prefix and
 binary id

---
 plugin/cli/compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/cli/compile.go b/plugin/cli/compile.go
index e15a48b..56df22c 100644
--- a/plugin/cli/compile.go
+++ b/plugin/cli/compile.go
@@ -84,7 +84,7 @@ func (a *CompilerArgs) setupCompiler(
 		WithField("plugin-binary-id", pluginBinaryID).
 		WithField("build-prefix", buildPrefix).
 		Infof("creating compiler for plugin with packages: %v", args)
-	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, a.BuildPrefix, codegenDirPath, a.PluginBinaryID)
+	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, buildPrefix, codegenDirPath, pluginBinaryID)
 	if err != nil {
 		return nil, nil, rel, err
 	}
-- 
2.43.0


From bb8e15f4f6fbc0433c959df61f0443a3ed748164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 63/68] fix: plugins compiled from a file contain their unique
 build id

---
 plugin/compiler/compiler.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/plugin/compiler/compiler.go b/plugin/compiler/compiler.go
index 3059b23..28f7923 100644
--- a/plugin/compiler/compiler.go
+++ b/plugin/compiler/compiler.go
@@ -109,11 +109,7 @@ func CompilePluginFromFile(
 	}
 
 	// add the build ID to the code to make it unique
-	interFile, err := os.OpenFile(intermediateGoFile, os.O_WRONLY|os.O_APPEND, 0o644)
-	if err != nil {
-		return err
-	}
-	_, _ = interFile.Write([]byte("\nvar HotPluginBuildUUID = `" + hashStr + "`\n"))
+	dat = append(dat, []byte("\nvar HotPluginBuildUUID = `"+hashStr+"`\n")...)
 	if err := os.WriteFile(intermediateGoFile, dat, 0o644); err != nil {
 		return err
 	}
-- 
2.43.0


From b43b50d24c1db510f1811e050b263010a3ef2ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 64/68] fix: {buildHash} is replaced when a plugin is compiled
 once

---
 plugin/cli/compile.go              |  6 +-----
 plugin/compiler/codegen.go         |  7 +------
 plugin/compiler/module-compiler.go | 33 ++++++++++++++++++++++++++++++
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/plugin/cli/compile.go b/plugin/cli/compile.go
index 56df22c..6e34130 100644
--- a/plugin/cli/compile.go
+++ b/plugin/cli/compile.go
@@ -123,10 +123,6 @@ func (a *CompilerArgs) runCompileOnce(cctx *cli.Context) error {
 		pluginBinaryVersion = "cbus-plugin-{buildHash}"
 	}
 
-	if err := modCompiler.GenerateModules(an, pluginBinaryVersion); err != nil {
-		return err
-	}
-
 	outputPath, err := filepath.Abs(a.OutputPath)
 	if err == nil {
 		err = os.MkdirAll(path.Dir(outputPath), 0o755)
@@ -134,5 +130,5 @@ func (a *CompilerArgs) runCompileOnce(cctx *cli.Context) error {
 	if err != nil {
 		return err
 	}
-	return modCompiler.CompilePlugin(outputPath)
+	return modCompiler.GenerateAndCompilePlugin(an, pluginBinaryVersion, outputPath)
 }
diff --git a/plugin/compiler/codegen.go b/plugin/compiler/codegen.go
index f6788d9..58b7180 100644
--- a/plugin/compiler/codegen.go
+++ b/plugin/compiler/codegen.go
@@ -387,11 +387,6 @@ func BuildPlugin(ctx context.Context, le *logrus.Entry, packageSearchPath, outpu
 	}
 
 	pluginBinaryVersion := buildPrefix + "-{buildHash}"
-	err = mc.GenerateModules(an, pluginBinaryVersion)
-	if err != nil {
-		return err
-	}
-
 	outputPath, err = filepath.Abs(outputPath)
 	if err == nil {
 		err = os.MkdirAll(path.Dir(outputPath), 0o755)
@@ -399,5 +394,5 @@ func BuildPlugin(ctx context.Context, le *logrus.Entry, packageSearchPath, outpu
 	if err != nil {
 		return err
 	}
-	return mc.CompilePlugin(outputPath)
+	return mc.GenerateAndCompilePlugin(an, pluginBinaryVersion, outputPath)
 }
diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 97c19a3..759a0b0 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -15,6 +15,7 @@ import (
 	"path"
 	"path/filepath"
 	"slices"
+	"strings"
 
 	"github.com/aperturerobotics/util/exec"
 	"github.com/mr-tron/base58/base58"
@@ -511,6 +512,38 @@ func (m *ModuleCompiler) CompilePlugin(outFile string) error {
 	return ecmd.Run()
 }
 
+// GenerateAndCompilePlugin generates the modules and compiles the plugin once.
+//
+// Replaces {buildHash} in the output filename and in the plugin binary version.
+// If used, the plugin is first compiled without replacing it to determine the hash.
+func (m *ModuleCompiler) GenerateAndCompilePlugin(analysis *Analysis, pluginBinaryVersion, outFile string) error {
+	if strings.Contains(pluginBinaryVersion, buildHashConstTag) || strings.Contains(outFile, buildHashConstTag) {
+		if err := m.GenerateModules(analysis, pluginBinaryVersion); err != nil {
+			return err
+		}
+		tmpName, err := os.MkdirTemp("", "controllerbus-hot-compiler-tmpdir")
+		if err != nil {
+			return err
+		}
+		defer os.RemoveAll(tmpName)
+		pass1OutputPath := filepath.Join(tmpName, "pass1.cbus.so")
+		if err := m.CompilePlugin(pass1OutputPath); err != nil {
+			return err
+		}
+		hashBaseKey := sha256.Sum256([]byte(m.pluginBinaryID))
+		buildHash, err := HashPluginForBuildID(hashBaseKey[:], pass1OutputPath)
+		if err != nil {
+			return err
+		}
+		pluginBinaryVersion = strings.ReplaceAll(pluginBinaryVersion, buildHashConstTag, buildHash[:buildHashLen])
+		outFile = strings.ReplaceAll(outFile, buildHashConstTag, buildHash[:buildHashLen])
+	}
+	if err := m.GenerateModules(analysis, pluginBinaryVersion); err != nil {
+		return err
+	}
+	return m.CompilePlugin(outFile)
+}
+
 // Cleanup removes the codegen files, optionally with a build hash.
 func (m *ModuleCompiler) Cleanup() {
 	buildPrefix := m.buildPrefix
-- 
2.43.0


From cb6a0104b0535cb6ac278fa7fffb64974b38ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 65/68] fix: embedded files are copied to the generated
 packages of a plugin

---
 plugin/compiler/analysis.go        |  2 ++
 plugin/compiler/module-compiler.go | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/plugin/compiler/analysis.go b/plugin/compiler/analysis.go
index 2ac6612..308526a 100644
--- a/plugin/compiler/analysis.go
+++ b/plugin/compiler/analysis.go
@@ -67,6 +67,8 @@ func AnalyzePackages(
 		packages.NeedName |
 		// NeedFiles adds GoFiles and OtherFiles.
 		packages.NeedFiles |
+		// NeedEmbedFiles adds EmbedFiles.
+		packages.NeedEmbedFiles |
 		// NeedImports adds Imports. If NeedDeps is not set, the Imports field will contain
 		// "placeholder" Packages with only the ID set.
 		packages.NeedImports |
diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 759a0b0..3f59174 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -391,6 +391,21 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 				return err
 			}
 		}
+
+		// copy the other files of the package
+		for _, pkgFilePath := range slices.Concat(factoryPkg.EmbedFiles, factoryPkg.OtherFiles) {
+			pkgFileRelativeToModule, err := filepath.Rel(factoryPkg.Module.Dir, pkgFilePath)
+			if err != nil {
+				return err
+			}
+			pkgFileOutPath := filepath.Join(factoryPkgCodegenPath, pkgFileRelativeToModule)
+			if err := os.MkdirAll(filepath.Dir(pkgFileOutPath), 0o755); err != nil {
+				return err
+			}
+			if err := copyFileFromTo(pkgFilePath, pkgFileOutPath); err != nil {
+				return err
+			}
+		}
 	}
 
 	pluginGoMod, err := outPluginGoMod.Format()
-- 
2.43.0


From 3b790254065baa466ab1362177b3d08630532dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 66/68] fix: generating modules for a package without module
 returns an error

---
 plugin/compiler/module-compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 3f59174..cd78eee 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -344,6 +344,9 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 				errs,
 			)
 		}
+		if factoryPkg.Module == nil {
+			return errors.Errorf("no module was resolved for package %s", factoryPkg.PkgPath)
+		}
 		factoryPkgModPath := factoryPkg.Module.Path
 		factoryPkgCodegenPath, ok := moduleCodegenPaths[factoryPkgModPath]
 		if !ok {
-- 
2.43.0


From 2c4b0b91fd26cf638450d73dcc5bf99133a93dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 67/68] fix: sources changed while they are analyzed do not end
 watching a plugin

---
 plugin/compiler/watcher.go | 74 ++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 27 deletions(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index bf9b377..78dc2f6 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -91,7 +91,8 @@ func (w *Watcher) WatchCompilePlugin(
 		return err
 	}
 
-	compilePlugin := func(an *Analysis) error {
+	// compilePlugin returns the path to the output if it was written.
+	compilePlugin := func(an *Analysis) (string, error) {
 		rctx := ctx
 		ctx, compileCtxCancel := context.WithCancel(rctx)
 		defer compileCtxCancel()
@@ -99,17 +100,17 @@ func (w *Watcher) WatchCompilePlugin(
 		// pass 1: codegen + build with static build prefix.
 		passBinDir := filepath.Join(pluginCodegenPath, "bin")
 		if err := os.MkdirAll(passBinDir, 0o755); err != nil {
-			return err
+			return "", err
 		}
 
 		pass1OutputPath := filepath.Join(passBinDir, "pass1.cbus.so")
 		if err := compilePluginOnce(ctx, an, "pass1", pass1OutputPath, pluginBinaryVersion); err != nil {
-			return err
+			return "", err
 		}
 
 		buildHash, err := HashPluginForBuildID(hhBaseKey, pass1OutputPath)
 		if err != nil {
-			return err
+			return "", err
 		}
 		buildHashShort := buildHash[:buildHashLen]
 		passBuildPluginVersion := strings.ReplaceAll(pluginBinaryVersion, buildHashConstTag, buildHashShort)
@@ -119,10 +120,10 @@ func (w *Watcher) WatchCompilePlugin(
 			targetOutputPath = strings.ReplaceAll(targetOutputPath, buildHashConstTag, buildHashShort)
 			if _, err := os.Stat(targetOutputPath); !os.IsNotExist(err) {
 				le.Info("detected that output would be identical, skipping")
-				return nil
+				return "", nil
 			}
 			if err := CleanupOldVersions(le, pluginOutputPath); err != nil {
-				return err
+				return "", err
 			}
 		}
 
@@ -130,15 +131,12 @@ func (w *Watcher) WatchCompilePlugin(
 		pass2OutputPath := filepath.Join(passBinDir, "pass2.cbus.so")
 		buildPrefix := "cbus-plugin-" + buildHashShort
 		if err := compilePluginOnce(ctx, an, buildPrefix, pass2OutputPath, passBuildPluginVersion); err != nil {
-			return err
+			return "", err
 		}
 		if err := copyFileFromTo(pass2OutputPath, targetOutputPath); err != nil {
-			return err
+			return "", err
 		}
-		if compiledCb != nil {
-			return compiledCb(w.packagePaths, targetOutputPath)
-		}
-		return nil
+		return targetOutputPath, nil
 	}
 
 	// It's best to watch the entire directory tree and filter the events.
@@ -163,6 +161,28 @@ func (w *Watcher) WatchCompilePlugin(
 	}
 	defer watcher.Close()
 	watchedDirs := make(map[string]struct{})
+	watchedSourcePaths := make(map[string]struct{})
+	isSourceEvent := func(event fsnotify.Event) bool {
+		if _, ok := watchedSourcePaths[event.Name]; ok {
+			return true
+		}
+		// detect files added to the packages
+		return filepath.Ext(event.Name) == ".go"
+	}
+
+	// changedMeanwhile checks if the sources were changed before or just after a failure.
+	// The failure may be due to a change which was in progress.
+	const quietDur = time.Millisecond * 500
+	changedMeanwhile := func(err error) bool {
+		waitCtx, waitCtxCancel := context.WithTimeout(ctx, quietDur)
+		defer waitCtxCancel()
+		happened, _ := waitFSWatcherEvents(waitCtx, watcher, quietDur, isSourceEvent)
+		if happened == 0 || ctx.Err() != nil {
+			return false
+		}
+		le.WithError(err).Warn("sources changed while compiling, trying again")
+		return true
+	}
 
 	for {
 		le.
@@ -170,6 +190,9 @@ func (w *Watcher) WatchCompilePlugin(
 			Debugf("analyzing packages: %v", w.packagePaths)
 		an, err := AnalyzePackages(ctx, w.le, w.packageLookupPath, w.packagePaths)
 		if err != nil {
+			if changedMeanwhile(err) {
+				continue
+			}
 			return err
 		}
 
@@ -177,7 +200,7 @@ func (w *Watcher) WatchCompilePlugin(
 		ignoreWatchPrefixes := []string{"vendor", "node_modules", ".bldr", "(disabled)"}
 
 		// build file watchlist
-		watchedSourcePaths := make(map[string]struct{})
+		clear(watchedSourcePaths)
 		watchedSourceDirs := make(map[string]struct{})
 		for _, filePaths := range an.GetProgramCodeFiles(nil, "") {
 		FilePathLoop:
@@ -215,24 +238,21 @@ func (w *Watcher) WatchCompilePlugin(
 			continue
 		}
 
-		if err := compilePlugin(an); err != nil {
+		outputPath, err := compilePlugin(an)
+		if err != nil {
+			if changedMeanwhile(err) {
+				continue
+			}
 			return err
 		}
+		if outputPath != "" && compiledCb != nil {
+			if err := compiledCb(w.packagePaths, outputPath); err != nil {
+				return err
+			}
+		}
 
 		// wait for a file change
-		happened, err := waitFSWatcherEvents(
-			ctx,
-			watcher,
-			time.Millisecond*500,
-			func(event fsnotify.Event) bool {
-				if _, ok := watchedSourcePaths[event.Name]; ok {
-					return true
-				}
-				// detect files added to the packages
-				_, ok := watchedSourceDirs[filepath.Dir(event.Name)]
-				return ok && filepath.Ext(event.Name) == ".go"
-			},
-		)
+		happened, err := waitFSWatcherEvents(ctx, watcher, quietDur, isSourceEvent)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 3ab5176b594a8e77b7662f5b054f5a9b1b0213c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:16 +0000
Subject: [PATCH 68/68] fix: the daemon never leaves a partly written config
 file behind

---
 cmd/controllerbus/cmd_daemon.go | 40 +++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/cmd/controllerbus/cmd_daemon.go b/cmd/controllerbus/cmd_daemon.go
index c01d1d8..dbe518b 100644
--- a/cmd/controllerbus/cmd_daemon.go
+++ b/cmd/controllerbus/cmd_daemon.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"os"
+	"path/filepath"
 
 	"github.com/aperturerobotics/cli"
 	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
@@ -43,6 +44,42 @@ func init() {
 	)
 }
 
+// writeConfigFile writes the config file without ever leaving a part of it.
+func writeConfigFile(confPath string, data []byte) (err error) {
+	// keep the link and the mode of an existing file
+	if target, err := filepath.EvalSymlinks(confPath); err == nil {
+		confPath = target
+	}
+	mode := os.FileMode(0o644)
+	if st, err := os.Stat(confPath); err == nil {
+		mode = st.Mode().Perm()
+	}
+
+	tmp, err := os.CreateTemp(filepath.Dir(confPath), "."+filepath.Base(confPath)+".*.tmp")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			_ = tmp.Close()
+			_ = os.Remove(tmp.Name())
+		}
+	}()
+	if _, err = tmp.Write(data); err != nil {
+		return err
+	}
+	if err = tmp.Chmod(mode); err != nil {
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tmp.Name(), confPath)
+}
+
 // runDaemon runs the daemon.
 func runDaemon(c *cli.Context) error {
 	ctx := context.Background()
@@ -113,8 +150,7 @@ func runDaemon(c *cli.Context) error {
 		if err != nil {
 			return errors.Wrap(err, "marshal config")
 		}
-		err = os.WriteFile(daemonFlags.ConfigPath, confDat, 0o644)
-		if err != nil {
+		if err := writeConfigFile(daemonFlags.ConfigPath, confDat); err != nil {
 			return errors.Wrap(err, "write config file")
 		}
 	}
-- 
2.43.0

