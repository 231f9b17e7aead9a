package dcs

import (
	"errors"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// idleCb records its calls as idle(id, isIdle, number of errors).
func idleCb(x *mcx.X, id int) directive.IdleCallback {
	return func(idle bool, errs []error) {
		b := 0
		if idle {
			b = 1
		}
		x.Ev("idle", id, b, len(errs))
	}
}

// idleSeq returns the states reported to callback id, checking that they
// alternate; idle is repeated only to report more errors.
func idleSeq(x *mcx.X, id int) []int { return idleSeqN(x, id, false) }

// idleSeqN is idleSeq; drops: errors may have been dropped with their
// resolver, so that a report of a further error may carry as few as before.
func idleSeqN(x *mcx.X, id int, drops bool) (out []int) {
	nerr := 0
	for _, e := range x.Events() {
		if e.K == "idle" && e.A == id {
			if n := len(out); n != 0 && out[n-1] == e.B && (e.B == 0 || e.C == 0 || e.C <= nerr && !drops) {
				x.Failf("idle callback %d was told %d twice in a row", id, e.B)
			}
			out = append(out, e.B)
			nerr = e.C
		}
	}
	return
}

func idleEnd(x *mcx.X, id int, want int) { idleEndN(x, id, want, false) }

func idleEndN(x *mcx.X, id int, want int, drops bool) {
	s := idleSeqN(x, id, drops)
	if len(s) == 0 {
		x.Failf("idle callback %d was never called", id)
	} else if s[len(s)-1] != want {
		x.Failf("idle callback %d was told %v, final state is %d", id, s, want)
	}
}

// gate is a resolver which becomes idle when let go; the harness knows its state.
type gate struct {
	ch   chan struct{}
	idle mcx.Int // 1: it told the engine that it is idle (or is about to)
}

func newGate() *gate { return &gate{ch: make(chan struct{})} }

func (g *gate) handler(x *mcx.X, id int, how int) *dct.H {
	return &dct.H{X: x, ID: id, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
		return directive.R(&dct.R{X: x, ID: id, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
			<-g.ch
			g.idle.Set(1)
			switch how {
			case 0:
				rh.MarkIdle(true)
				<-ctx.Done()
			case 1:
				return nil
			case 2:
				return errors.New("resolver failed")
			}
			return nil
		}}, nil)
	}}
}

func init() {
	none := directive.ValueOptions{}
	// no premature idle with callbacks registered at any time; every change is told
	mcx.Register(&mcx.Scenario{Prop: "C06", Name: "premature", Weight: 2, Body: func(x *mcx.X) {
		e := dct.New(x)
		g1, g2 := newGate(), newGate()
		how := x.Choose(3)
		reg := x.Choose(2)
		var d added
		cb := func(id int) directive.IdleCallback {
			f := idleCb(x, id)
			return func(idle bool, errs []error) {
				if idle && (g1.idle.Get() == 0 || g2.idle.Get() == 0) {
					x.Failf("idle callback %d: reported idle while a resolver is working (how=%d reg=%d)", id, how, reg)
				}
				f(idle, errs)
			}
		}
		h1 := g1.handler(x, 1, how)
		if reg == 0 {
			// registered while the handlers are called
			o := h1.Func
			h1.Func = func(ctx ctxT, di directive.Instance) ([]directive.Resolver, error) {
				di.AddIdleCallback(cb(1))
				return o(ctx, di)
			}
		}
		var r [2]func()
		addHnd(e, h1, &r[0])()
		addHnd(e, g2.handler(x, 2, how), &r[1])()
		dct.Par(func() {
			addDir(e, 1, &d)()
			d.di.AddIdleCallback(cb(2))
		}, func() { close(g1.ch) }, func() { close(g2.ch) })
		x.Wait()
		if reg == 0 {
			idleEnd(x, 1, 1)
		}
		idleEnd(x, 2, 1)
		wantErrs := 0
		if how == 2 {
			wantErrs = 2
		}
		if n := len(d.di.GetResolverErrors()); n != wantErrs {
			x.Failf("%d resolver errors, want %d", n, wantErrs)
		}
		last := 0
		for _, ev := range x.Events() {
			if ev.K == "idle" && ev.B == 1 {
				last = ev.C
			}
		}
		if last != wantErrs {
			x.Failf("the last idle report has %d errors, want %d", last, wantErrs)
		}
		finish(x, e)
	}})
	// handlers without resolvers: callbacks registered early are told
	mcx.Register(&mcx.Scenario{Prop: "C06", Name: "unresolved", Body: func(x *mcx.X) {
		e := dct.New(x)
		var r [2]func()
		n := x.Choose(3)
		var di2 mcx.Box[directive.Instance]
		if n > 0 {
			addHnd(e, &dct.H{X: x, ID: 1, Func: func(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
				di.AddIdleCallback(idleCb(x, 1))
				di2.Set(di)
				return nil, nil
			}}, &r[0])()
		}
		if n > 1 {
			addHnd(e, &dct.H{X: x, ID: 2}, &r[1])()
		}
		var d added
		dct.Par(addDir(e, 1, &d), func() {
			for _, di := range e.C.GetDirectives() {
				di.AddIdleCallback(idleCb(x, 2))
				x.Ev("reg2", 0, 0, 0)
			}
		})
		rel := d.di.AddIdleCallback(idleCb(x, 3))
		x.Wait()
		if n > 0 {
			idleEnd(x, 1, 1)
		}
		if dct.Count(x, "reg2", 0, -1) > 0 {
			idleEnd(x, 2, 1)
		}
		idleEnd(x, 3, 1)
		rel()
		finish(x, e)
	}})
	// directive added while a handler is added: no idle report before the initial handlers were asked
	mcx.Register(&mcx.Scenario{Prop: "C06", Name: "handler-vs-directive", Body: func(x *mcx.X) {
		e := dct.New(x)
		g := newGate()
		var r [2]func()
		addHnd(e, g.handler(x, 1, 0), &r[0])()
		var d added
		cb := func(id int) directive.IdleCallback {
			f := idleCb(x, id)
			return func(idle bool, errs []error) {
				if idle && g.idle.Get() == 0 {
					x.Failf("idle callback %d: reported idle while an initial resolver is working", id)
				}
				f(idle, errs)
			}
		}
		dct.Par(addDir(e, 1, &d),
			addHnd(e, &dct.H{X: x, ID: 2, Func: func(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
				di.AddIdleCallback(cb(1))
				return directive.R(&dct.R{X: x, ID: 2, Func: dct.Const(7)}, nil)
			}}, &r[1]))
		d.di.AddIdleCallback(cb(2))
		x.Wait()
		idleEnd(x, 1, 0)
		idleEnd(x, 2, 0)
		close(g.ch)
		x.Wait()
		idleEnd(x, 1, 1)
		idleEnd(x, 2, 1)
		finish(x, e)
	}})
	// MarkIdle against registration and release of callbacks
	mcx.Register(&mcx.Scenario{Prop: "C06", Name: "flip-vs-register", Weight: 2, Body: func(x *mcx.X) {
		e, di, _, rh, rels := scripted(x, none, 2)
		final := 1
		rh[1].MarkIdle(true)
		di.AddIdleCallback(idleCb(x, 1))
		rel2 := di.AddIdleCallback(idleCb(x, 2))
		rel3 := di.AddIdleCallback(idleCb(x, 3))
		rel2()
		k := x.Choose(3)
		dct.Par(
			func() {
				rh[0].MarkIdle(true)
				if k == 1 {
					rh[0].MarkIdle(false)
					final = 0
				}
			},
			func() {
				switch k {
				case 0:
					rh[1].MarkIdle(false)
					rh[1].MarkIdle(true)
				case 2:
					rh[1].MarkIdle(false)
					rels[1]()
				}
			},
			func() { di.AddIdleCallback(idleCb(x, 4)) },
			rel3,
		)
		x.Wait()
		if s := idleSeq(x, 2); len(s) != 1 {
			x.Failf("idle callback called after it was released: %v", s)
		}
		idleSeq(x, 3)
		n3 := len(idleSeq(x, 3))
		idleEnd(x, 1, final)
		idleEnd(x, 4, final)
		rh[0].MarkIdle(final == 0)
		x.Wait()
		idleEnd(x, 1, 1-final)
		idleEnd(x, 4, 1-final)
		if len(idleSeq(x, 3)) != n3 {
			x.Failf("idle callback called after it was released")
		}
		finish(x, e)
	}})
	// removing any of the callbacks leaves the others alone (also within a callback)
	mcx.Register(&mcx.Scenario{Prop: "C06", Name: "release-one", Body: func(x *mcx.X) {
		e, di, _, rh, _ := scripted(x, none, 1)
		var rels [3]func()
		k := x.Choose(3)
		within := x.Choose(4)
		for i := range rels {
			f := idleCb(x, i)
			rels[i] = di.AddIdleCallback(func(idle bool, errs []error) {
				f(idle, errs)
				if idle && within == i && rels[k] != nil {
					rels[k]()
				}
			})
		}
		rels[k]()
		rh[0].MarkIdle(true)
		rh[0].MarkIdle(false)
		rh[0].MarkIdle(true)
		for i := range rels {
			s := idleSeq(x, i)
			if i == k && len(s) != 1 || i != k && len(s) != 4 {
				x.Failf("callback %d was told %v (callback %d was released)", i, s, k)
			}
		}
		rels[(k+1)%3]()
		rh[0].MarkIdle(false)
		for i := range rels {
			s := idleSeq(x, i)
			if i == (k+2)%3 && len(s) != 5 || i == (k+1)%3 && len(s) != 4 {
				x.Failf("callback %d was told %v", i, s)
			}
		}
		finish(x, e)
	}})
	// handlers come and go: the idle state follows
	mcx.Register(&mcx.Scenario{Prop: "C06", Name: "handlers-come-and-go", Body: func(x *mcx.X) {
		e := dct.New(x)
		g, g2 := newGate(), newGate()
		var d added
		addDir(e, 1, &d)()
		d.di.AddIdleCallback(idleCb(x, 1))
		idleEnd(x, 1, 1)
		var r [2]func()
		how := x.Choose(3)
		addHnd(e, g.handler(x, 1, how), &r[0])()
		x.Wait()
		idleEnd(x, 1, 0)
		dct.Par(r[0], func() { close(g.ch) }, addHnd(e, g2.handler(x, 2, 0), &r[1]))
		x.Wait()
		idleEnd(x, 1, 0)
		addHnd(e, &dct.H{X: x, ID: 3}, new(func()))()
		idleEnd(x, 1, 0)
		r[1]()
		idleEnd(x, 1, 1)
		close(g2.ch)
		finish(x, e)
	}})
}
