package dcs

import (
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

func wants(x *mcx.X, k string, a, want int) {
	if n := dct.Count(x, k, a, -1); n != want {
		x.Failf("%s of %d: called %d times, want %d", k, a, n, want)
	}
}

func running(x *mcx.X, id int) int {
	return dct.Count(x, "rstart", id, -1) - dct.Count(x, "rend", id, -1)
}

// tracked adds value v and records its removal as "vrc".
func tracked(x *mcx.X, rh directive.ResolverHandler, v int) {
	if id, ok := rh.AddValue(v); ok {
		x.Ev("acc", v, 0, 0)
		rh.AddValueRemovedCallback(id, func() { x.Ev("vrc", v, 0, 0) })
	}
}

func init() {
	none := directive.ValueOptions{}
	// a handler with values, callbacks and sub-resolvers is removed while its resolver works
	mcx.Register(&mcx.Scenario{Prop: "C05", Name: "remove-vs-values", Weight: 2, Body: func(x *mcx.X) {
		e, di, _, rh, rels := scripted(x, none, 2)
		tracked(x, rh[0], 1)
		tracked(x, rh[1], 2)
		rh[0].AddResolverRemovedCallback(func() { x.Ev("rrc", 0, 0, 0) })
		rh[1].AddResolverRemovedCallback(func() { x.Ev("rrc", 1, 0, 0) })
		rel := rh[0].AddResolverRemovedCallback(func() { x.Ev("rrc", 9, 0, 0) })
		rel()
		rh[0].AddResolver(&dct.R{X: x, ID: 50, Func: dct.Hold(3)}, func() { x.Ev("src", 50, 0, 0) })
		x.Wait()
		dct.Par(
			rels[0],
			rels[0],
			func() { tracked(x, rh[0], 4) },
			func() { rh[0].AddResolver(&dct.R{X: x, ID: 51, Func: dct.Hold(5)}, func() { x.Ev("src", 51, 0, 0) }) },
			func() { di.AddReference(&dct.Ref{X: x, ID: 1}, false) },
		)
		x.Wait()
		refVals(x, 0, 2)
		refVals(x, 1, 2)
		wants(x, "vrc", 1, 1)
		wants(x, "vrc", 2, 0)
		wants(x, "vrc", 4, dct.Count(x, "acc", 4, -1))
		wants(x, "rrc", 0, 1)
		wants(x, "rrc", 1, 0)
		wants(x, "rrc", 9, 0)
		wants(x, "src", 50, 1)
		wants(x, "src", 51, 1)
		for _, r := range []int{0, 50, 51} {
			if running(x, r) != 0 {
				x.Failf("resolver %d of the removed handler is running", r)
			}
		}
		if running(x, 1) != 1 {
			x.Failf("resolver of the other handler was stopped")
		}
		if _, ok := rh[0].AddValue(8); ok {
			x.Failf("removed resolver could add a value")
		}
		called := false
		rh[0].AddResolverRemovedCallback(func() { called = true })
		if !called {
			x.Failf("resolver removed callback is not called for a removed resolver")
		}
		called = false
		rh[0].AddResolver(&dct.R{X: x, ID: 52, Func: dct.Hold(5)}, func() { called = true })
		x.Wait()
		if !called || dct.Count(x, "rstart", 52, -1) != 0 {
			x.Failf("resolver was added to a removed resolver")
		}
		finish(x, e)
		wants(x, "vrc", 2, 1)
		wants(x, "rrc", 1, 1)
		wants(x, "vrc", 1, 1)
		wants(x, "rrc", 0, 1)
	}})
	// a handler serving several directives is removed; callbacks change the set of directives
	mcx.Register(&mcx.Scenario{Prop: "C05", Name: "many-directives", Weight: 2, Body: func(x *mcx.X) {
		e := dct.New(x)
		var r [2]func()
		addHnd(e, hh(x, 1), &r[0])()
		addHnd(e, hh(x, 2), &r[1])()
		const n = 4
		var ds [n]added
		gone := map[int]bool{}
		trig, op, tgt := x.Choose(n), x.Choose(4), x.Choose(n)
		done := false
		for i := 0; i < n; i++ {
			ref := &dct.Ref{X: x, ID: i}
			if i == trig {
				ref.OnRem = func(v directive.AttachedValue) {
					if done || v.GetValue() != 100+i {
						return
					}
					done = true
					switch op {
					case 0:
						gone[tgt] = true
						ds[tgt].ref.Release()
					case 1:
						gone[tgt] = true
						ds[tgt].di.Close()
					case 2:
						addDir(e, 7, new(added))()
					case 3:
						r[0]()
					}
				}
			}
			di, rr, err := e.C.AddDirective(&dct.Uniq{ID: i}, ref)
			must(x, err)
			ds[i] = added{di, rr}
		}
		x.Wait()
		dct.Par(r[0])
		x.Wait()
		for i := 0; i < n; i++ {
			if running(x, 100+i) != 0 {
				x.Failf("trigger %d op %d target %d: resolver for directive %d of the removed handler is running", trig, op, tgt, i)
			}
			s := dct.CheckRef(x, i)
			if gone[i] {
				continue
			}
			if !dct.Eq(s.Vals(), []int{200 + i}) {
				x.Failf("trigger %d op %d target %d: ref %d has values %v", trig, op, tgt, i, s.Vals())
			}
			if running(x, 200+i) != 1 {
				x.Failf("resolver of the other handler was stopped")
			}
		}
		if op == 2 {
			refVals(x, 7, 207)
		}
		finish(x, e)
	}})
	// concurrent: handler removed while directives are closed
	mcx.Register(&mcx.Scenario{Prop: "C05", Name: "remove-vs-close", Weight: 2, Body: func(x *mcx.X) {
		e := dct.New(x)
		var r [2]func()
		addHnd(e, hh(x, 1), &r[0])()
		addHnd(e, hh(x, 2), &r[1])()
		var ds [3]added
		for i := range ds {
			addDir(e, i, &ds[i])()
		}
		x.Wait()
		dct.Par(r[0], ds[0].di.Close, ds[1].ref.Release)
		x.Wait()
		for i := range ds {
			if running(x, 100+i) != 0 {
				x.Failf("resolver for directive %d of the removed handler is running", i)
			}
			want := 0
			if i == 2 {
				want = 1
			}
			if running(x, 200+i) != want {
				x.Failf("resolver %d: running %d want %d", 200+i, running(x, 200+i), want)
			}
			dct.CheckRef(x, i)
		}
		refVals(x, 2, 202)
		if s := dct.CheckRef(x, 0); s.Disp != 1 || len(s.Present) != 0 {
			x.Failf("closed directive: disposed %d, values %v", s.Disp, s.Vals())
		}
		finish(x, e)
	}})
	// several resolvers per handler; callbacks remove the other handler while one is being removed
	mcx.Register(&mcx.Scenario{Prop: "C05", Name: "remove-nested", Weight: 2, Body: func(x *mcx.X) {
		e := dct.New(x)
		var rels [3]func()
		// resolvers are attached in this order, ids 10*handler+k
		mk := func(h, n int) *dct.H {
			return &dct.H{X: x, ID: h, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
				var out []directive.Resolver
				for k := 0; k < n; k++ {
					id := 10*h + k
					out = append(out, &dct.R{X: x, ID: id, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
						tracked(x, rh, id)
						rh.AddResolverRemovedCallback(func() { x.Ev("rrc", id, 0, 0) })
						rh.MarkIdle(true)
						<-ctx.Done()
						return nil
					}})
				}
				return out, nil
			}}
		}
		sizes := []int{2, 1, 2}
		for h := 0; h < 3; h++ {
			addHnd(e, mk(h, sizes[h]), &rels[h])()
		}
		first := x.Choose(3)
		second := x.Choose(2)
		if second >= first {
			second++
		}
		onval := x.Choose(2) // at the first or the second removed value
		seen := 0
		ref := &dct.Ref{X: x, ID: 0}
		ref.OnRem = func(v directive.AttachedValue) {
			if v.GetValue().(int)/10 == first {
				if seen == onval {
					rels[second]()
				}
				seen++
			}
		}
		_, _, err := e.C.AddDirective(&dct.Uniq{ID: 0}, ref)
		must(x, err)
		x.Wait()
		dct.Par(rels[first])
		x.Wait()
		removed := map[int]bool{first: true}
		if seen > onval {
			removed[second] = true
		}
		var want []int
		for h := 0; h < 3; h++ {
			for k := 0; k < sizes[h]; k++ {
				id := 10*h + k
				n := 0
				if removed[h] {
					n = 1
				} else {
					want = append(want, id)
				}
				wants(x, "vrc", id, n)
				wants(x, "rrc", id, n)
				if running(x, id) != 1-n {
					x.Failf("resolver %d: running %d", id, running(x, id))
				}
			}
		}
		refVals(x, 0, want...)
		finish(x, e)
	}})
	// sub-resolvers: released early, removed with the parent and the handler, once each
	mcx.Register(&mcx.Scenario{Prop: "C05", Name: "sub-resolvers", Body: func(x *mcx.X) {
		e, di, _, rh, rels := scripted(x, none, 2)
		var gh mcx.Box[directive.ResolverHandler]
		rel50 := rh[0].AddResolver(&dct.R{X: x, ID: 50, Func: func(ctx ctxT, h directive.ResolverHandler) error {
			gh.Set(h)
			tracked(x, h, 3)
			<-ctx.Done()
			return nil
		}}, func() { x.Ev("src", 50, 0, 0) })
		rh[0].AddResolver(&dct.R{X: x, ID: 51, Func: dct.Hold(4)}, func() { x.Ev("src", 51, 0, 0) })
		x.Wait()
		refVals(x, 0, 3, 4)
		// a grandchild
		gh.Get().AddResolver(&dct.R{X: x, ID: 60, Func: dct.Hold(5)}, func() { x.Ev("src", 60, 0, 0) })
		x.Wait()
		refVals(x, 0, 3, 4, 5)
		how := x.Choose(3)
		switch how {
		case 0:
			dct.Par(rel50, rel50)
		case 1:
			dct.Par(rel50, rels[0])
		case 2:
			dct.Par(rel50, di.Close)
		}
		x.Wait()
		wants(x, "src", 50, 1)
		if running(x, 50) != 0 {
			x.Failf("removed sub-resolver is running")
		}
		wants(x, "vrc", 3, 1)
		// removed with its parent
		wants(x, "src", 60, 1)
		if running(x, 60) != 0 {
			x.Failf("sub-resolver of a removed sub-resolver is running")
		}
		if how == 0 {
			refVals(x, 0, 4)
			wants(x, "src", 51, 0)
			rels[0]()
			x.Wait()
		}
		wants(x, "src", 51, 1)
		wants(x, "src", 50, 1)
		finish(x, e)
		wants(x, "src", 51, 1)
		wants(x, "src", 50, 1)
		wants(x, "src", 60, 1)
	}})
	// an idle callback removes the handler whose resolver is being attached
	mcx.Register(&mcx.Scenario{Prop: "C05", Name: "remove-in-idle-callback", Body: func(x *mcx.X) {
		e := dct.New(x)
		var rels [3]func()
		var d added
		addHnd(e, hh(x, 1), &rels[0])()
		addDir(e, 1, &d)()
		x.Wait()
		var gone mcx.Int
		mode := x.Choose(2)
		// the resolver of handler 2 is not idle
		addHnd(e, &dct.H{X: x, ID: 2, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
			return directive.R(&dct.R{X: x, ID: 20, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
				tracked(x, rh, 20)
				<-ctx.Done()
				return nil
			}}, nil)
		}}, &rels[1])
		d.di.AddIdleCallback(func(idle bool, _ []error) {
			if !idle && gone.Get() == 0 {
				gone.Set(1)
				if mode == 0 {
					rels[2] = nil
					rels[0]()
				} else {
					d.di.Close()
				}
			}
		})
		addHnd(e, &dct.H{X: x, ID: 3, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
			return directive.R(&dct.R{X: x, ID: 30, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
				tracked(x, rh, 30)
				<-ctx.Done()
				return nil
			}}, nil)
		}}, &rels[1])()
		x.Wait()
		if mode == 0 {
			refVals(x, 1, 30)
			if running(x, 101) != 0 {
				x.Failf("resolver of the removed handler is running")
			}
		} else {
			if running(x, 30) != 0 || running(x, 101) != 0 {
				x.Failf("resolver of the closed directive is running")
			}
			wants(x, "vrc", 30, dct.Count(x, "acc", 30, -1))
			if s := dct.CheckRef(x, 1); s.Disp != 1 || len(s.Present) != 0 {
				x.Failf("closed directive: disposed %d, values %v", s.Disp, s.Vals())
			}
		}
		finish(x, e)
	}})
}
