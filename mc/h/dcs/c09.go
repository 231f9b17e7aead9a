package dcs

import (
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// matrix: each callback of the engine performs each operation of the engine.
func init() {
	trigs := []string{"value-added", "value-removed", "disposed", "idle", "dispose-cb", "value-removed-cb", "resolver-removed-cb", "handle", "resolve", "superseded-disposed", "superseded-dispose-cb"}
	const nops = 17
	for ti, tn := range trigs {
		mcx.Register(&mcx.Scenario{Prop: "C09", Name: "in-" + tn, Body: func(x *mcx.X) {
			e := dct.New(x)
			op := x.Choose(nops)
			var s script
			var self mcx.Box[directive.Instance]
			var own mcx.Box[directive.Reference]
			var relh func()
			opts := directive.ValueOptions{MaxValueCount: 3, UnrefDisposeDur: sec(1)}
			fired := false
			nref := 10
			newRef := func() *dct.Ref { nref++; return &dct.Ref{X: x, ID: nref} }
			add := func(d directive.Directive) {
				_, r, err := e.C.AddDirective(d, newRef())
				must(x, err)
				if x.N()%2 == 0 {
					r.Release()
				}
			}
			act := func() {
				if fired {
					return
				}
				fired = true
				x.Ev("act", op, 0, 0)
				di := self.Get()
				rh := s.rh.Get()
				switch op {
				case 0:
					add(&dct.Dir{ID: 1, Class: 1, Opts: opts})
				case 1:
					add(&dct.Dir{ID: 2, Class: 1, Rev: 1, Super: true, Opts: opts})
				case 2:
					add(&dct.Uniq{ID: 3})
				case 3:
					if di != nil {
						di.AddReference(newRef(), false)
						di.AddReference(newRef(), true).Release()
					}
				case 4:
					if r := own.Get(); r != nil {
						r.Release()
					}
				case 5:
					if di != nil {
						di.Close()
					}
				case 6:
					if di != nil {
						di.CloseIfUnreferenced(true)
					}
				case 7:
					if di != nil {
						di.AddIdleCallback(idleCb(x, 7))
						di.AddIdleCallback(idleCb(x, 8))()
					}
				case 8:
					rel, err := e.C.AddHandler(hh(x, 5))
					must(x, err)
					x.Point()
					rel()
				case 9:
					if relh != nil {
						relh()
					}
				case 10:
					if rh != nil {
						rh.AddValue(20)
						rh.AddValue(21)
					}
				case 11:
					if rh != nil {
						rh.ClearValues()
						rh.RemoveValue(1)
					}
				case 12:
					if rh != nil {
						rh.MarkIdle(false)
						rh.MarkIdle(true)
					}
				case 13:
					for _, d := range e.C.GetDirectives() {
						d.GetResolverErrors()
						d.GetDirectiveIdent()
					}
				case 14:
					if rh != nil {
						rel := rh.AddResolver(&dct.R{X: x, ID: 40, Func: dct.Hold(40)}, func() {
							e.C.GetDirectives() // no lock is held
							x.Ev("src", 40, 0, 0)
						})
						x.Point()
						rel()
						x.Ev("srel", 40, 0, 0)
						// called immediately: without a lock
						rh.AddValueRemovedCallback(999, func() {
							e.C.GetDirectives()
							x.Ev("src", 40, 0, 0)
						})
						x.Ev("srel", 40, 0, 0)
						rh.AddResolver(nil, func() {
							e.C.GetDirectives()
							x.Ev("src", 40, 0, 0)
						})
						x.Ev("srel", 40, 0, 0)
						n := dct.Count(x, "rrc", 41, -1)
						rh.AddResolverRemovedCallback(func() {
							e.C.GetDirectives()
							x.Ev("rrc", 41, 0, 0)
						})()
						if m := dct.Count(x, "rrc", 41, -1) - n; m > 1 {
							x.Failf("resolver-removed callback was called %d times", m)
						}
					}
				case 15:
					if ti != 8 { // a panic in Resolve is the resolver's own affair
						panic("callback panic")
					}
				case 16:
					if di != nil {
						di.AddDisposeCallback(func() { x.Ev("dcb", 16, 0, 0) })
						di.AddDisposeCallback(func() { x.Ev("dcb", 17, 0, 0) })()
					}
				}
			}
			h := &dct.H{X: x, ID: 1}
			h.Func = func(ctx ctxT, di directive.Instance) ([]directive.Resolver, error) {
				if dct.IDOf(di.GetDirective()) != 0 {
					return directive.R(&dct.R{X: x, ID: 200 + dct.IDOf(di.GetDirective()), Func: dct.Hold(30)}, nil)
				}
				self.Set(di)
				if ti == 7 {
					act()
				}
				return directive.R(&dct.R{X: x, ID: 100, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
					s.rh.Set(rh)
					rh.AddResolverRemovedCallback(func() {
						x.Ev("rrc", 100, 0, 0)
						if ti == 6 {
							act()
						}
					})
					if ti == 8 {
						act()
					}
					<-ctx.Done()
					return nil
				}}, nil)
			}
			relh, _ = e.C.AddHandler(h)
			ref := &dct.Ref{X: x, ID: 0}
			ref.OnAdd = func(directive.AttachedValue) {
				if ti == 0 {
					act()
				}
			}
			ref.OnRem = func(directive.AttachedValue) {
				if ti == 1 {
					act()
				}
			}
			ref.OnDisp = func() {
				if ti == 2 || ti == 9 {
					act()
				}
			}
			di, r, err := e.C.AddDirective(&dct.Dir{ID: 0, Class: 1, Opts: opts}, ref)
			must(x, err)
			self.Set(di)
			own.Set(r)
			di.AddReference(&dct.Ref{X: x, ID: 1}, true)
			di.AddDisposeCallback(func() {
				x.Ev("dcb", 1, 0, 0)
				if ti == 4 || ti == 10 {
					act()
				}
			})
			di.AddIdleCallback(func(idle bool, errs []error) {
				idleCb(x, 1)(idle, errs)
				if ti == 3 && idle {
					act()
				}
			})
			x.Wait()
			rh := s.rh.Get()
			dct.Par(func() {
				if rh == nil {
					return
				}
				if id, ok := rh.AddValue(1); ok {
					x.Ev("acc", 1, 0, 0)
					rh.AddValueRemovedCallback(id, func() {
						x.Ev("vrc", 1, 0, 0)
						if ti == 5 {
							act()
						}
					})
					rh.MarkIdle(true)
					rh.RemoveValue(id)
				}
			}, func() {
				di.AddReference(&dct.Ref{X: x, ID: 2}, false).Release()
			})
			x.Wait()
			if ti >= 9 {
				// replaced instead of closed
				ndi, nr, err := e.C.AddDirective(&dct.Dir{ID: 6, Class: 1, Rev: 3, Super: true, Opts: opts}, newRef())
				must(x, err)
				if ndi == di {
					x.Failf("op %d: the instance was not replaced", op)
				}
				x.Wait()
				n := dct.Count(x, "handle", 1, 6)
				if n > 1 || n == 0 && op != 9 {
					x.Failf("op %d: the handler was called %d times for the new directive", op, n)
				}
				if n := dct.Count(x, "handle", 5, 6); n > 1 {
					x.Failf("op %d: the added handler was called %d times for the new directive", op, n)
				}
				nr.Release()
			}
			di.Close()
			x.Wait()
			if !dct.Canceled(di.GetContext()) {
				x.Failf("op %d: closed instance is not canceled", op)
			}
			for id := 0; id <= nref; id++ {
				dct.CheckRef(x, id)
			}
			wants(x, "dcb", 1, 1)
			wants(x, "vrc", 1, dct.Count(x, "acc", 1, -1))
			wants(x, "src", 40, dct.Count(x, "srel", 40, -1))
			if n := dct.Count(x, "dcb", 17, -1); n != 0 && !(ti == 2 || ti >= 9 || ti == 4 || ti == 5 || ti == 6 || ti == 1) {
				x.Failf("released dispose callback was called")
			}
			if ti != 8 || op != 9 {
				idleSeq(x, 1)
			}
			if dct.Count(x, "act", op, -1) == 0 {
				x.Failf("the callback was not called")
			}
			finish(x, e)
			for id := 0; id <= nref; id++ {
				if s := dct.CheckRef(x, id); id == 1 && s.Disp != 1 {
					x.Failf("weak reference told %d times", s.Disp)
				}
			}
		}})
	}
}
