package dcs

import (
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// script is a resolver whose Resolve hands over its handler and waits.
type script struct {
	rh mcx.Box[directive.ResolverHandler]
}

func (s *script) resolver(x *mcx.X, id int) *dct.R {
	return &dct.R{X: x, ID: id, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
		s.rh.Set(rh)
		<-ctx.Done()
		return nil
	}}
}

// scripted adds handlers with scripted resolvers, a directive, and waits.
func scripted(x *mcx.X, opts directive.ValueOptions, n int) (*dct.Env, directive.Instance, directive.Reference, []directive.ResolverHandler, []func()) {
	e := dct.New(x)
	ss := make([]script, n)
	rels := make([]func(), n)
	for i := 0; i < n; i++ {
		rel, err := e.C.AddHandler(&dct.H{X: x, ID: i, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
			return directive.R(ss[i].resolver(x, i), nil)
		}})
		must(x, err)
		rels[i] = rel
	}
	di, ref := addOpts(e, 0, 1, opts)
	x.Wait()
	var out []directive.ResolverHandler
	for i := range ss {
		out = append(out, ss[i].rh.Get())
	}
	return e, di, ref, out, rels
}

func addv(x *mcx.X, rh directive.ResolverHandler, v int) uint32 {
	id, ok := rh.AddValue(v)
	if !ok {
		x.Failf("value %d was rejected", v)
	}
	return id
}

func init() {
	none := directive.ValueOptions{}
	// values are added and removed while references come and go
	mcx.Register(&mcx.Scenario{Prop: "C04", Name: "add-remove-vs-refs", Weight: 2, Body: func(x *mcx.X) {
		e, di, ref, rh, _ := scripted(x, none, 2)
		a := addv(x, rh[0], 1)
		b := addv(x, rh[1], 2)
		dct.Par(
			func() { addv(x, rh[0], 3); rh[1].RemoveValue(b) },
			func() { rh[0].RemoveValue(a); addv(x, rh[1], 4) },
			func() { di.AddReference(&dct.Ref{X: x, ID: 1}, false) },
			func() { di.AddReference(&dct.Ref{X: x, ID: 2}, true) },
		)
		x.Wait()
		for i := 0; i <= 2; i++ {
			refVals(x, i, 3, 4)
		}
		di.AddReference(&dct.Ref{X: x, ID: 3}, false)
		refVals(x, 3, 3, 4)
		_ = ref
		finish(x, e)
		for i := 0; i <= 3; i++ {
			if s := dct.CheckRef(x, i); s.Disp != 1 {
				x.Failf("ref %d told %d times that the instance is disposed", i, s.Disp)
			}
		}
	}})
	// the initial set is delivered in the order of emission across resolvers
	mcx.Register(&mcx.Scenario{Prop: "C04", Name: "initial-order", Body: func(x *mcx.X) {
		e, di, _, rh, _ := scripted(x, none, 2)
		n := 4
		var ids []uint32
		for i := 0; i < n; i++ {
			ids = append(ids, addv(x, rh[x.Choose(2)], i))
		}
		di.AddReference(&dct.Ref{X: x, ID: 1}, false)
		refVals(x, 1, 0, 1, 2, 3)
		for i := 1; i < n; i++ {
			if ids[i] <= ids[i-1] {
				x.Failf("value ids are not increasing: %v", ids)
			}
		}
		dct.Par(func() { di.AddReference(&dct.Ref{X: x, ID: 2}, false) }, func() { addv(x, rh[x.Choose(2)], 9) })
		refVals(x, 2, 0, 1, 2, 3, 9)
		finish(x, e)
	}})
	// ClearValues and RemoveValue race: each value is removed once
	mcx.Register(&mcx.Scenario{Prop: "C04", Name: "clear-vs-remove", Body: func(x *mcx.X) {
		e, di, _, rh, _ := scripted(x, none, 2)
		a, b := addv(x, rh[0], 1), addv(x, rh[0], 2)
		c := addv(x, rh[1], 3)
		for i, id := range []uint32{a, b, c} {
			r := rh[i/2]
			r.AddValueRemovedCallback(id, func() { x.Ev("vrc", int(id), 0, 0) })
			rel := r.AddValueRemovedCallback(id, func() { x.Ev("vrcx", int(id), 0, 0) })
			rel()
		}
		var cleared []uint32
		var found [2]bool
		dct.Par(
			func() { cleared = rh[0].ClearValues() },
			func() { _, found[0] = rh[0].RemoveValue(a) },
			func() { _, found[1] = rh[0].RemoveValue(a) },
			func() { di.AddReference(&dct.Ref{X: x, ID: 1}, false) },
		)
		x.Wait()
		n := 0
		for _, id := range cleared {
			if id == a {
				n++
			}
			if id == c {
				x.Failf("ClearValues removed a value of another resolver")
			}
		}
		for _, f := range found {
			if f {
				n++
			}
		}
		if n != 1 {
			x.Failf("value was reported as removed %d times", n)
		}
		if _, ok := rh[1].RemoveValue(b); ok {
			x.Failf("removed a value of another resolver")
		}
		refVals(x, 0, 3)
		refVals(x, 1, 3)
		for i, id := range []uint32{a, b, c} {
			want := 1
			if i == 2 {
				want = 0
			}
			if k := dct.Count(x, "vrc", int(id), -1); k != want {
				x.Failf("removed callback of value %d called %d times", i, k)
			}
			if k := dct.Count(x, "vrcx", int(id), -1); k != 0 {
				x.Failf("released removed callback of value %d called", i)
			}
		}
		if k := rh[0].CountValues(false); k != 0 {
			x.Failf("CountValues(false) = %d", k)
		}
		if k := rh[0].CountValues(true); k != 1 {
			x.Failf("CountValues(true) = %d", k)
		}
		x.Point()
		dct.Par(func() { rh[1].AddValueRemovedCallback(c, func() { x.Ev("late", 0, 0, 0) }) },
			func() { rh[1].RemoveValue(c) })
		if k := dct.Count(x, "late", 0, -1); k != 1 {
			x.Failf("removed callback added concurrently called %d times", k)
		}
		finish(x, e)
	}})
	// values against disposal: everything delivered is removed before the end
	mcx.Register(&mcx.Scenario{Prop: "C04", Name: "add-vs-close", Body: func(x *mcx.X) {
		e, di, ref, rh, _ := scripted(x, none, 2)
		addv(x, rh[0], 1)
		how := x.Choose(2)
		dct.Par(
			func() {
				id, ok := rh[1].AddValue(2)
				if ok {
					rh[1].AddValueRemovedCallback(id, func() { x.Ev("vrc", 2, 0, 0) })
					x.Ev("acc", 2, 0, 0)
				}
			},
			func() { di.AddReference(&dct.Ref{X: x, ID: 1}, true) },
			func() {
				if how == 0 {
					di.Close()
				} else {
					ref.Release()
				}
			},
		)
		x.Wait()
		consistent(x, e, di, false, "closed instance")
		for i := 0; i < 2; i++ {
			s := dct.CheckRef(x, i)
			if (i == 1 || how == 0) && (s.Disp != 1 || len(s.Present) != 0) {
				x.Failf("ref %d: disposed %d times, values %v", i, s.Disp, s.Vals())
			}
		}
		if a, b := dct.Count(x, "acc", 2, -1), dct.Count(x, "vrc", 2, -1); a != b {
			x.Failf("value accepted %d times, removed callback called %d times", a, b)
		}
		if _, ok := rh[1].AddValue(7); ok {
			x.Failf("value accepted after the instance was closed")
		}
		finish(x, e)
	}})
	// re-entrant: handlers of one reference change values and references
	mcx.Register(&mcx.Scenario{Prop: "C04", Name: "reentrant", Weight: 2, Body: func(x *mcx.X) {
		e, di, _, rh, _ := scripted(x, none, 2)
		r := &dct.Ref{X: x, ID: 1}
		op, when := x.Choose(5), x.Choose(2)
		done := false
		var extra directive.Reference
		var a uint32
		act := func(v directive.AttachedValue) {
			if done || v.GetValue() != 1 {
				return
			}
			done = true
			switch op {
			case 0:
				addv(x, rh[0], 5)
			case 1:
				rh[0].RemoveValue(a)
			case 2:
				di.AddReference(&dct.Ref{X: x, ID: 2}, false)
			case 3:
				rh[0].RemoveValue(a)
				addv(x, rh[1], 5)
			case 4:
				extra.Release()
			}
		}
		if when == 0 {
			r.OnAdd = act
		} else {
			r.OnRem = act
		}
		di.AddReference(r, false)
		extra = di.AddReference(&dct.Ref{X: x, ID: 3}, false)
		a = addv(x, rh[0], 1)
		dct.Par(func() { addv(x, rh[1], 2) }, func() { rh[0].RemoveValue(a) })
		x.Wait()
		want := []int{2}
		if op == 0 || op == 3 {
			want = []int{2, 5}
		}
		refVals(x, 0, want...)
		refVals(x, 1, want...)
		if op == 2 {
			refVals(x, 2, want...)
		}
		if op != 4 {
			refVals(x, 3, want...)
		} else {
			dct.CheckRef(x, 3)
		}
		finish(x, e)
	}})
}
