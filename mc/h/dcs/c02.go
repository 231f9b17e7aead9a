package dcs

import (
	"context"
	"errors"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// once checks that each handler was asked about each directive exactly n times.
func asked(x *mcx.X, h, d, want int) {
	if n := dct.Count(x, "handle", h, d); n != want {
		x.Failf("handler %d was asked %d times about directive %d, want %d", h, n, d, want)
	}
}

func refVals(x *mcx.X, id int, want ...int) {
	if st := dct.CheckRef(x, id); !dct.Eq(st.Vals(), want) {
		x.Failf("ref %d has values %v, want %v", id, st.Vals(), want)
	}
}

// noneRunning checks that no resolver is executing.
func noneRunning(x *mcx.X, what string) {
	n := map[int]int{}
	for _, e := range x.Events() {
		switch e.K {
		case "rstart":
			n[e.A]++
		case "rend":
			n[e.A]--
		}
	}
	for id, k := range n {
		if k != 0 {
			x.Failf("%s: %d calls of resolver %d are still running", what, k, id)
		}
	}
}

// hh returns a handler whose resolver (id 100*h+d) emits 100*h+d and waits.
func hh(x *mcx.X, id int) *dct.H {
	return &dct.H{X: x, ID: id, Func: func(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
		n := 100*id + dct.IDOf(di.GetDirective())
		return directive.R(&dct.R{X: x, ID: n, Func: dct.Hold(n)}, nil)
	}}
}

type added struct {
	di  directive.Instance
	ref directive.Reference
}

// addDir returns a function adding a unique directive with reference id.
func addDir(e *dct.Env, id int, out *added) func() {
	return func() {
		di, ref, err := e.C.AddDirective(&dct.Uniq{ID: id}, &dct.Ref{X: e.X, ID: id})
		must(e.X, err)
		*out = added{di, ref}
	}
}

func addHnd(e *dct.Env, h directive.Handler, out *func()) func() {
	return func() {
		rel, err := e.C.AddHandler(h)
		must(e.X, err)
		*out = rel
	}
}

func finish(x *mcx.X, e *dct.Env) {
	e.Done()
	if n := len(e.C.GetDirectives()); n != 0 {
		x.Failf("%d directives are listed after all were closed", n)
	}
	noneRunning(x, "all directives closed")
}

func init() {
	mcx.Register(&mcx.Scenario{Prop: "C02", Name: "handlers-vs-directives", Core: true, Weight: 2, Body: func(x *mcx.X) {
		e := dct.New(x)
		var d [3]added
		var r [3]func()
		addDir(e, 1, &d[0])()
		addHnd(e, hh(x, 1), &r[0])()
		dct.Par(addHnd(e, hh(x, 2), &r[1]), addDir(e, 2, &d[1]), addDir(e, 3, &d[2]))
		x.Wait()
		for h := 1; h <= 2; h++ {
			for k := 1; k <= 3; k++ {
				asked(x, h, k, 1)
			}
		}
		for k := 1; k <= 3; k++ {
			var want []int
			for h := 1; h <= 2; h++ {
				want = append(want, 100*h+k)
			}
			refVals(x, k, want...)
		}
		r[1]()
		x.Wait()
		for k := 1; k <= 3; k++ {
			refVals(x, k, 100+k)
		}
		finish(x, e)
	}})
	mcx.Register(&mcx.Scenario{Prop: "C02", Name: "two-handlers-vs-directive", Body: func(x *mcx.X) {
		e := dct.New(x)
		var d [1]added
		var r [2]func()
		dct.Par(addHnd(e, hh(x, 1), &r[0]), addHnd(e, hh(x, 2), &r[1]), addDir(e, 1, &d[0]))
		x.Wait()
		asked(x, 1, 1, 1)
		asked(x, 2, 1, 1)
		refVals(x, 1, 101, 201)
		finish(x, e)
	}})
	// a handler is removed while a directive is added
	mcx.Register(&mcx.Scenario{Prop: "C02", Name: "remove-vs-directive", Body: func(x *mcx.X) {
		e := dct.New(x)
		var d [2]added
		var r [2]func()
		addHnd(e, hh(x, 1), &r[0])()
		addHnd(e, hh(x, 2), &r[1])()
		dct.Par(addDir(e, 1, &d[0]), func() { r[1]() })
		x.Wait()
		asked(x, 1, 1, 1)
		if n := dct.Count(x, "handle", 2, 1); n > 1 {
			x.Failf("handler asked twice")
		}
		refVals(x, 1, 101)
		if dct.Count(x, "rstart", 201, -1) != dct.Count(x, "rend", 201, -1) {
			x.Failf("resolver of the removed handler is still running")
		}
		addDir(e, 2, &d[1])()
		x.Wait()
		asked(x, 2, 2, 0)
		asked(x, 1, 2, 1)
		refVals(x, 2, 102)
		finish(x, e)
	}})
	// the handler is removed from within another handler / its own HandleDirective
	mcx.Register(&mcx.Scenario{Prop: "C02", Name: "remove-in-handle", Body: func(x *mcx.X) {
		e := dct.New(x)
		var r [3]func()
		mode := x.Choose(3)
		for i := 1; i <= 3; i++ {
			h := hh(x, i)
			if i == 2 {
				orig := h.Func
				h.Func = func(ctx ctxT, di directive.Instance) ([]directive.Resolver, error) {
					r[mode]()
					return orig(ctx, di)
				}
			}
			addHnd(e, h, &r[i-1])()
		}
		var d added
		addDir(e, 1, &d)()
		x.Wait()
		var want []int
		for i := 1; i <= 3; i++ {
			if i-1 != mode {
				want = append(want, 100*i+1)
				asked(x, i, 1, 1)
			}
		}
		refVals(x, 1, want...)
		finish(x, e)
	}})
	// a directive is closed while a handler is added: its resolvers must not be left running
	mcx.Register(&mcx.Scenario{Prop: "C02", Name: "close-vs-handler", Body: func(x *mcx.X) {
		e := dct.New(x)
		var d [2]added
		var r [1]func()
		addDir(e, 1, &d[0])()
		addDir(e, 2, &d[1])()
		h := hh(x, 1)
		// a resolver which does not watch its context, but the removed callback
		h.Func = func(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
			n := 100 + dct.IDOf(di.GetDirective())
			return directive.R(&dct.R{X: x, ID: n, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
				vid, ok := rh.AddValue(n)
				if ok {
					x.Ev("held", n, 0, 0)
					rh.AddValueRemovedCallback(vid, func() { x.Ev("freed", n, 0, 0) })
				}
				rh.MarkIdle(true)
				<-ctx.Done()
				return nil
			}}, nil)
		}
		dct.Par(addHnd(e, h, &r[0]), func() { d[0].di.Close() })
		x.Wait()
		if st := dct.CheckRef(x, 1); len(st.Present) != 0 || st.Disp != 1 {
			x.Failf("closed directive: values %v, disposed %d times", st.Vals(), st.Disp)
		}
		if dct.Count(x, "rstart", 101, -1) != dct.Count(x, "rend", 101, -1) {
			x.Failf("resolver of the closed directive is running")
		}
		if a, b := dct.Count(x, "held", 101, -1), dct.Count(x, "freed", 101, -1); a != b {
			x.Failf("closed directive: %d values were added, %d removed callbacks", a, b)
		}
		asked(x, 1, 2, 1)
		refVals(x, 2, 102)
		finish(x, e)
	}})
	// re-entrant: HandleDirective adds directives, references and handlers
	mcx.Register(&mcx.Scenario{Prop: "C02", Name: "nested", Body: func(x *mcx.X) {
		e := dct.New(x)
		mode := x.Choose(4)
		var d, d2 added
		var r [3]func()
		var wref directive.Reference
		h1 := hh(x, 1)
		o1 := h1.Func
		h1.Func = func(ctx ctxT, di directive.Instance) ([]directive.Resolver, error) {
			if dct.IDOf(di.GetDirective()) == 1 {
				switch mode {
				case 0:
					addDir(e, 2, &d2)()
				case 1:
					wref = di.AddReference(&dct.Ref{X: x, ID: 5}, true)
				case 2:
					addHnd(e, hh(x, 2), &r[1])()
				case 3:
					addHnd(e, hh(x, 2), &r[1])()
					addDir(e, 2, &d2)()
					r[1]()
				}
			}
			return o1(ctx, di)
		}
		addHnd(e, h1, &r[0])()
		addHnd(e, hh(x, 3), &r[2])()
		dct.Par(addDir(e, 1, &d))
		x.Wait()
		asked(x, 1, 1, 1)
		asked(x, 3, 1, 1)
		switch mode {
		case 0:
			asked(x, 1, 2, 1)
			asked(x, 3, 2, 1)
			refVals(x, 1, 101, 301)
			refVals(x, 2, 102, 302)
		case 1:
			refVals(x, 1, 101, 301)
			refVals(x, 5, 101, 301)
			wref.Release()
		case 2:
			asked(x, 2, 1, 1)
			refVals(x, 1, 101, 201, 301)
		case 3:
			asked(x, 2, 1, 1)
			asked(x, 2, 2, 1)
			refVals(x, 1, 101, 301)
			refVals(x, 2, 102, 302)
		}
		finish(x, e)
	}})
	// a superseding add and a new handler: the handler is asked about the new directive once
	mcx.Register(&mcx.Scenario{Prop: "C02", Name: "supersede-vs-handler", Body: func(x *mcx.X) {
		e := dct.New(x)
		var r [2]func()
		addHnd(e, hh(x, 1), &r[0])()
		_, ref0, err := e.C.AddDirective(&dct.Dir{ID: 1, Class: 1, Super: true}, &dct.Ref{X: x, ID: 1})
		must(x, err)
		x.Wait()
		var ref1 directive.Reference
		dct.Par(func() {
			_, rr, err := e.C.AddDirective(&dct.Dir{ID: 2, Class: 1, Rev: 1, Super: true}, &dct.Ref{X: x, ID: 2})
			must(x, err)
			ref1 = rr
		}, addHnd(e, hh(x, 2), &r[1]))
		x.Wait()
		asked(x, 1, 1, 1)
		asked(x, 1, 2, 1)
		asked(x, 2, 2, 1)
		if n := dct.Count(x, "handle", 2, 1); n > 1 {
			x.Failf("handler asked %d times about the superseded directive", n)
		}
		refVals(x, 2, 102, 202)
		for _, n := range []int{101, 201} {
			if dct.Count(x, "rstart", n, -1) != dct.Count(x, "rend", n, -1) {
				x.Failf("resolver %d of the superseded directive is running", n)
			}
		}
		ref0.Release()
		ref1.Release()
		x.Wait()
		finish(x, e)
	}})
	// handlers that fail, panic or return nothing do not affect the others
	mcx.Register(&mcx.Scenario{Prop: "C02", Name: "bad-handlers", Body: func(x *mcx.X) {
		e := dct.New(x)
		var d, d2 added
		var r [3]func()
		pos, kind := x.Choose(3), x.Choose(4)
		before := x.Choose(2)
		if before == 1 {
			addDir(e, 1, &d)()
		}
		for i := 0; i < 3; i++ {
			h := hh(x, i+1)
			if i == pos {
				orig := h.Func
				h.Func = func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
					switch kind {
					case 0:
						return nil, errors.New("no")
					case 1:
						panic("handler panic")
					case 2:
						return nil, nil
					}
					a, _ := orig(ctx, di)
					return append(a, &dct.R{X: x, ID: 900 + dct.IDOf(di.GetDirective()), Func: dct.Const(900 + dct.IDOf(di.GetDirective()))}), nil
				}
			}
			addHnd(e, h, &r[i])()
		}
		if before == 0 {
			addDir(e, 1, &d)()
		}
		addDir(e, 2, &d2)()
		x.Wait()
		for k := 1; k <= 2; k++ {
			var want []int
			for h := 1; h <= 3; h++ {
				asked(x, h, k, 1)
				if h-1 != pos || kind == 3 {
					want = append(want, 100*h+k)
				}
			}
			if kind == 3 {
				want = append(want, 900+k)
			}
			refVals(x, k, want...)
		}
		finish(x, e)
	}})
}
