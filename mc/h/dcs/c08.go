package dcs

import (
	"errors"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

func init() {
	// a slow resolver is stopped and started repeatedly: calls never overlap (dct.R checks)
	mcx.Register(&mcx.Scenario{Prop: "C08", Name: "restart-slow", Weight: 2, Body: func(x *mcx.X) {
		e := dct.New(x)
		var s script
		slow := make(chan struct{})
		addHnd(e, &dct.H{X: x, ID: 0, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
			return directive.R(s.resolver(x, 0), nil)
		}}, new(func()))()
		addHnd(e, &dct.H{X: x, ID: 1, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
			return directive.R(&dct.R{X: x, ID: 1, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
				<-ctx.Done()
				<-slow // cleaning up takes a while
				return ctx.Err()
			}}, nil)
		}}, new(func()))()
		di, _ := addOpts(e, 0, 1, directive.ValueOptions{MaxValueCount: 1})
		x.Wait()
		rh := s.rh.Get()
		n := x.Choose(3)
		dct.Par(func() {
			for i := 0; i <= n; i++ {
				id := addv(x, rh, i)
				x.Point()
				rh.RemoveValue(id)
			}
		}, func() {
			x.Point()
			close(slow)
		})
		x.Wait()
		if running(x, 1) != 1 {
			x.Failf("resolver runs %d times", running(x, 1))
		}
		_ = di
		finish(x, e)
	}})
	// same with values kept from the previous call and a close at the end
	mcx.Register(&mcx.Scenario{Prop: "C08", Name: "restart-vs-close", Weight: 2, Body: func(x *mcx.X) {
		e, di, ws, rels := workers(x, directive.ValueOptions{MaxValueCount: 1}, 2)
		rh := ws[0].rh.Get()
		how := x.Choose(2)
		dct.Par(func() {
			for i := 0; i < 2; i++ {
				if id, ok := rh.AddValue(i); ok {
					rh.RemoveValue(id)
				}
			}
		}, func() {
			if how == 0 {
				di.Close()
			} else {
				rels[1]()
			}
		})
		x.Wait()
		if running(x, 1) != 0 {
			x.Failf("removed resolver is running")
		}
		if n := running(x, 0); n != how {
			x.Failf("resolver 0 runs %d times", n)
		}
		finish(x, e)
	}})
	// each resolver is started once; after it returned its values stay and it is not started again
	mcx.Register(&mcx.Scenario{Prop: "C08", Name: "returns", Body: func(x *mcx.X) {
		e := dct.New(x)
		kinds := []int{x.Choose(3), x.Choose(3)}
		for i, k := range kinds {
			addHnd(e, &dct.H{X: x, ID: i, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
				return directive.R(&dct.R{X: x, ID: i, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
					_, _ = rh.AddValue(i)
					switch k {
					case 1:
						return errors.New("failed")
					case 2:
						<-ctx.Done()
					}
					return nil
				}}, nil)
			}}, new(func()))()
		}
		di, ref := addOpts(e, 0, 1, directive.ValueOptions{})
		var r2 directive.Reference
		dct.Par(func() { r2 = di.AddReference(&dct.Ref{X: x, ID: 1}, false) }, func() { x.Point(); ref.Release() })
		x.Wait()
		if s := dct.CheckRef(x, 1); s.Disp != 0 {
			// the instance was gone: nothing may run
			noneRunning(x, "released")
		} else {
			refVals(x, 1, 0, 1)
			for i, k := range kinds {
				if n := dct.Count(x, "rstart", i, -1); n != 1 {
					x.Failf("resolver %d was started %d times", i, n)
				}
				if (k == 2) != (running(x, i) == 1) {
					x.Failf("resolver %d: running %d", i, running(x, i))
				}
			}
			ne := 0
			for _, k := range kinds {
				if k == 1 {
					ne++
				}
			}
			if n := len(di.GetResolverErrors()); n != ne {
				x.Failf("%d resolver errors, want %d", n, ne)
			}
		}
		r2.Release()
		x.Wait()
		noneRunning(x, "released")
		finish(x, e)
	}})
	// the resolver context is canceled when the resolver is stopped for any reason
	mcx.Register(&mcx.Scenario{Prop: "C08", Name: "context", Body: func(x *mcx.X) {
		e, di, ws, rels := workers(x, directive.ValueOptions{MaxValueCount: 1}, 2)
		old := ws[1].ctx.Get()
		oldrh := ws[1].rh.Get()
		how := x.Choose(4)
		var id uint32
		dct.Par(func() {
			switch how {
			case 0:
				di.Close()
			case 1:
				rels[1]()
			case 2:
				id = addv(x, ws[0].rh.Get(), 1)
			case 3:
				e.Cancel()
			}
		}, func() {
			if how != 2 {
				oldrh.MarkIdle(true)
			}
		})
		x.Wait()
		if old.Err() == nil {
			x.Failf("context of a stopped resolver is not canceled")
		}
		if how != 3 {
			if _, ok := oldrh.AddValue(9); ok {
				x.Failf("stopped resolver could add a value")
			}
		}
		if how == 2 {
			ws[0].rh.Get().RemoveValue(id)
			x.Wait()
			if running(x, 1) != 1 || ws[1].ctx.Get() == old || ws[1].ctx.Get().Err() != nil {
				x.Failf("resolver was not started with a new context")
			}
			if _, ok := oldrh.AddValue(9); ok {
				x.Failf("handler of a previous call could add a value")
			}
			oldrh.MarkIdle(false)
			if _, ok := ws[1].rh.Get().AddValue(9); !ok {
				x.Failf("restarted resolver cannot add values")
			}
			refVals(x, 0, 9)
		}
		finish(x, e)
	}})
	// no call of Resolve is started once the directive is gone
	mcx.Register(&mcx.Scenario{Prop: "C08", Name: "no-start-after-close", Body: func(x *mcx.X) {
		e, di, ws, rels := workers(x, directive.ValueOptions{MaxValueCount: 1}, 3)
		who := x.Choose(3)
		addv(x, ws[who].rh.Get(), 1)
		x.Wait()
		n := 0
		for i := range ws {
			n += dct.Count(x, "rstart", i, -1)
		}
		how := x.Choose(2)
		if how == 0 {
			di.Close()
			x.Wait()
			for i := range ws {
				n -= dct.Count(x, "rstart", i, -1)
			}
			if n != 0 {
				x.Failf("resolver %d had a value: %d calls of Resolve were started after the directive was closed", who, -n)
			}
		} else {
			dct.Par(di.Close, rels[who])
		}
		x.Wait()
		noneRunning(x, "closed")
		finish(x, e)
	}})
}
