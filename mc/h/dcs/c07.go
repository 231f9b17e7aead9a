package dcs

import (
	"errors"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// worker adds handlers with resolvers that run until canceled and hand over
// their current handler, so that the harness can act as the resolver.
type worker struct {
	rh  mcx.Box[directive.ResolverHandler]
	ctx mcx.Box[ctxT]
	fin mcx.Box[chan error]
}

func (w *worker) handler(x *mcx.X, id int) *dct.H {
	return &dct.H{X: x, ID: id, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
		return directive.R(&dct.R{X: x, ID: id, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
			ch := make(chan error, 1)
			w.fin.Set(ch)
			w.rh.Set(rh)
			w.ctx.Set(ctx)
			select {
			case <-ctx.Done():
				return ctx.Err()
			case err := <-ch:
				return err
			}
		}}, nil)
	}}
}

func workers(x *mcx.X, opts directive.ValueOptions, n int) (*dct.Env, directive.Instance, []*worker, []func()) {
	e := dct.New(x)
	ws := make([]*worker, n)
	rels := make([]func(), n)
	for i := range ws {
		ws[i] = &worker{}
		addHnd(e, ws[i].handler(x, i), &rels[i])()
	}
	di, _ := addOpts(e, 0, 1, opts)
	x.Wait()
	return e, di, ws, rels
}

func init() {
	for _, hard := range []bool{false, true} {
		name := "soft"
		if hard {
			name = "hard"
		}
		// resolvers race for the last places
		mcx.Register(&mcx.Scenario{Prop: "C07", Name: "race-" + name, Weight: 2, Body: func(x *mcx.X) {
			const max = 2
			e, di, ws, _ := workers(x, directive.ValueOptions{MaxValueCount: max, MaxValueHardCap: hard}, 3)
			di.AddIdleCallback(idleCb(x, 1))
			var ok [3]bool
			var ids [3]uint32
			add := func(i int) func() {
				return func() { ids[i], ok[i] = ws[i].rh.Get().AddValue(i) }
			}
			var peak mcx.Int
			ref := &dct.Ref{X: x, ID: 1}
			cur := 0
			ref.OnAdd = func(directive.AttachedValue) {
				cur++
				if cur > peak.Get() {
					peak.Set(cur)
				}
			}
			ref.OnRem = func(directive.AttachedValue) { cur-- }
			di.AddReference(ref, true)
			dct.Par(add(0), add(1), add(2))
			x.Wait()
			var want []int
			for i := range ok {
				if ok[i] {
					want = append(want, i)
				}
			}
			if hard && (peak.Get() > max || len(want) > max) {
				x.Failf("hard cap %d: %v values were accepted", max, want)
			}
			if len(want) < max {
				x.Failf("only %v values were accepted", want)
			}
			refVals(x, 0, want...)
			refVals(x, 1, want...)
			idleEnd(x, 1, 1)
			for i := range ok {
				if !ok[i] && running(x, i) != 0 {
					x.Failf("resolver %d without value is running although the cap was reached", i)
				}
				if ok[i] && running(x, i) != 1 {
					x.Failf("resolver %d with a value was stopped", i)
				}
			}
			// a value goes away: the stopped resolvers are started again
			var rem int
			for i := range ok {
				if ok[i] {
					rem = i
				}
			}
			drop := len(want) - max + 1
			for i := range ok {
				if ok[i] && drop > 0 {
					if _, f := ws[i].rh.Get().RemoveValue(ids[i]); !f {
						x.Failf("value %d was not removed", i)
					}
					drop--
				}
			}
			_ = rem
			x.Wait()
			for i := range ok {
				if running(x, i) != 1 {
					x.Failf("resolver %d: running %d times below the cap", i, running(x, i))
				}
			}
			finish(x, e)
		}})
	}
	// going full and not full again at once
	mcx.Register(&mcx.Scenario{Prop: "C07", Name: "full-vs-notfull", Weight: 3, Body: func(x *mcx.X) {
		e, di, ws, _ := workers(x, directive.ValueOptions{MaxValueCount: 1}, 3)
		di.AddIdleCallback(idleCb(x, 1))
		rh := ws[0].rh.Get()
		dct.Par(
			func() {
				if v, ok := rh.AddValue(1); ok {
					rh.RemoveValue(v)
				}
			},
			func() {
				if v, ok := ws[1].rh.Get().AddValue(2); ok {
					ws[1].rh.Get().RemoveValue(v)
				}
			},
		)
		x.Wait()
		refVals(x, 0)
		for i := range ws {
			if running(x, i) != 1 {
				x.Failf("resolver %d: running %d times below the cap", i, running(x, i))
			}
		}
		idleSeq(x, 1)
		finish(x, e)
	}})
	// callbacks made while reaching / leaving the cap remove a value, a handler or the directive
	mcx.Register(&mcx.Scenario{Prop: "C07", Name: "reentrant", Weight: 3, Body: func(x *mcx.X) {
		const n = 4
		e, di, ws, rels := workers(x, directive.ValueOptions{MaxValueCount: 1}, n)
		trig := x.Choose(3)
		op, tgt := x.Choose(3), x.Choose(n)
		who := x.Choose(2)
		// a resolver which failed is idle before the cap is reached
		exited := x.Choose(n+1) - 1
		if exited == who {
			exited = -1
		}
		if exited >= 0 {
			ws[exited].fin.Get() <- errors.New("failed")
			x.Wait()
		}
		done, armed := false, false
		act := func() {
			if done || !armed {
				return
			}
			done = true
			switch op {
			case 0:
				ws[who].rh.Get().ClearValues()
			case 1:
				rels[tgt]()
			case 2:
				di.Close()
			}
		}
		switch trig {
		case 0, 2:
			di.AddIdleCallback(func(idle bool, _ []error) {
				if idle == (trig == 0) {
					act()
				}
			})
		case 1:
			di.AddReference(&dct.Ref{X: x, ID: 1, OnAdd: func(directive.AttachedValue) { act() }}, false)
		}
		armed = true
		dct.Par(func() {
			rh := ws[who].rh.Get()
			id, _ := rh.AddValue(1)
			if trig == 2 {
				rh.RemoveValue(id)
			}
		})
		x.Wait()
		if !done {
			x.Failf("trig %d: the callback was not called (exited=%d)", trig, exited)
		}
		for i := range ws {
			k, want := running(x, i), 1
			switch {
			case op == 1 && i == tgt, op == 2:
				want = 0
			case op == 1 && trig != 2 && tgt != who:
				// still at the cap
				if i != who {
					want = 0
				}
			}
			if i == exited && trig == 1 && k == 0 {
				continue // the value was gone before the cap was noticed
			}
			if k != want {
				x.Failf("trig %d op %d who %d target %d exited %d: resolver %d runs %d times, want %d", trig, op, who, tgt, exited, i, k, want)
			}
		}
		if op == 1 && trig != 2 && tgt != who {
			refVals(x, 0, 1)
		} else {
			refVals(x, 0)
		}
		finish(x, e)
	}})
	// a handler is added while the directive is full: its resolver starts when there is room
	mcx.Register(&mcx.Scenario{Prop: "C07", Name: "attach-full", Body: func(x *mcx.X) {
		e, di, ws, rels := workers(x, directive.ValueOptions{MaxValueCount: 1}, 1)
		rh := ws[0].rh.Get()
		id := addv(x, rh, 1)
		how := x.Choose(3)
		w := &worker{}
		var r func()
		drop := func() {
			switch how {
			case 0:
				rh.RemoveValue(id)
			case 1:
				rh.ClearValues()
			case 2:
				rels[0]()
			}
		}
		if x.Choose(2) == 0 {
			addHnd(e, w.handler(x, 5), &r)()
			x.Wait()
			if running(x, 5) != 0 {
				x.Failf("resolver was started although the directive is full")
			}
			drop()
		} else {
			dct.Par(addHnd(e, w.handler(x, 5), &r), drop)
		}
		x.Wait()
		if running(x, 5) != 1 {
			x.Failf("resolver attached to a full directive was not started below the cap")
		}
		refVals(x, 0)
		_ = di
		finish(x, e)
	}})
	// the value cap is reached by a resolver which then returns (with an error)
	mcx.Register(&mcx.Scenario{Prop: "C07", Name: "exit-error", Body: func(x *mcx.X) {
		e, di, ws, _ := workers(x, directive.ValueOptions{MaxValueCount: 1}, 2)
		di.AddIdleCallback(idleCb(x, 1))
		var err error
		if x.Choose(2) == 1 {
			err = errors.New("failed")
		}
		rh := ws[0].rh.Get()
		id := addv(x, rh, 1)
		x.Wait()
		if running(x, 1) != 0 {
			x.Failf("resolver without value is running although the cap was reached")
		}
		dct.Par(func() { ws[0].fin.Get() <- err }, func() { rh.RemoveValue(id) })
		x.Wait()
		// the stopped resolver runs again
		if running(x, 1) != 1 {
			x.Failf("stopped resolver is not running below the cap")
		}
		if dct.Count(x, "rstart", 1, -1) != 2 {
			x.Failf("stopped resolver was started %d times", dct.Count(x, "rstart", 1, -1))
		}
		if err == nil && dct.Count(x, "rstart", 0, -1) != 1 {
			x.Failf("resolver which returned nil was started again")
		}
		refVals(x, 0)
		finish(x, e)
	}})
}
