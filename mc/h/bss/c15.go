package bss

import (
	"context"
	"errors"
	"fmt"

	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// busCtl is a controller providing its id as value, with scripted Execute.
type busCtl struct {
	x      *mcx.X
	id     int
	b      *bst.Env
	n      mcx.Int // calls of Execute
	run    mcx.Int
	closed mcx.Int
	slow   bool // does not return before the gate opens
	gate   mcx.Box[chan error]
	handle func()
}

var errCtl = errors.New("controller failed")

func (c *busCtl) GetControllerInfo() *controller.Info { return nil }
func (c *busCtl) Close() error                        { c.closed.Add(1); return nil }
func (c *busCtl) HandleDirective(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
	if c.handle != nil {
		c.handle()
	}
	return directive.R(directive.NewValueResolver([]int{c.id}), nil)
}

// errPanic makes Execute panic.
var errPanic = errors.New("panic")
var errPanicStr = errors.New("panic with a string")

func (c *busCtl) Execute(ctx ctxT) error {
	gate := make(chan error, 1)
	c.n.Add(1)
	c.run.Add(1)
	defer c.run.Add(-1)
	c.gate.Set(gate)
	if c.slow {
		<-ctx.Done()
		return <-gate
	}
	select {
	case <-ctx.Done():
		return ctx.Err()
	case err := <-gate:
		switch err {
		case errPanic:
			panic(errPanic)
		case errPanicStr:
			panic("a string")
		}
		return err
	}
}

// attachment is one call of AddController or ExecuteController.
type attachment struct {
	c        *busCtl
	exec     bool // ExecuteController
	rel      func()
	cancel   func()
	calls    mcx.Box[[]error]
	want     []string
	attached bool
	running  bool
	canceled bool
}

func errStr(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, errCtl):
		return "failed"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, errPanic):
		return "panic"
	}
	return "other"
}

func (a *attachment) got(err error) {
	a.calls.Set(append(append([]error{}, a.calls.Get()...), err))
}

func (a *attachment) check(x *mcx.X) {
	var got []string
	for _, e := range a.calls.Get() {
		got = append(got, errStr(e))
	}
	if fmt.Sprint(got) != fmt.Sprint(a.want) {
		x.Failf("callback (or ExecuteController) of controller %d yields %v, want %v", a.c.id, got, a.want)
	}
}

func attach(x *mcx.X, e *bst.Env, c *busCtl, exec bool) *attachment {
	a := &attachment{c: c, exec: exec, attached: true, running: true}
	ctx, cancel := context.WithCancel(e.Ctx)
	a.cancel = cancel
	if exec {
		go func() { a.got(e.B.ExecuteController(ctx, c)) }()
		return a
	}
	rel, err := e.B.AddController(ctx, c, a.got)
	bst.Must(x, err)
	a.rel = rel
	return a
}

func (a *attachment) ended(res string) {
	if !a.running {
		return
	}
	a.running = false
	if res != "nil" {
		a.attached = false
	}
	if a.exec || res != "nil" && len(a.want) == 0 {
		a.want = append(a.want, res)
	}
}

func init() {
	depth := 5
	if mcx.Thorough() {
		depth = 6
	}
	mcx.Register(&mcx.Scenario{Prop: "C15", Name: "bus-seq", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		e := bst.New(x)
		m := &bst.Seen{X: x}
		_, ref, err := e.B.AddDirective(&dct.Dir{ID: 1, Class: 1}, m.Handler())
		bst.Must(x, err)
		var atts []*attachment
		id := 0
		for i := 0; i < depth; i++ {
			c := x.Choose(3 + 8*len(atts))
			switch {
			case c == 0:
				i = depth
			case c < 3:
				id++
				atts = append(atts, attach(x, e, &busCtl{x: x, id: id, b: e}, c == 2))
			default:
				a := atts[(c-3)/8]
				fin := func(err error, res string) {
					if a.running {
						a.c.gate.Get() <- err
						a.ended(res)
					}
				}
				switch (c - 3) % 8 {
				case 0:
					fin(nil, "nil")
				case 1:
					fin(errCtl, "failed")
				case 2:
					fin(errPanic, "panic")
				case 3:
					fin(errPanicStr, "other")
				case 4:
					a.cancel()
					a.canceled = true
					a.ended("canceled")
				case 5:
					if a.rel == nil {
						break
					}
					a.rel()
					if len(a.want) == 0 {
						a.want = append(a.want, "nil")
					}
					a.attached, a.running = false, false
				case 6:
					e.B.RemoveController(a.c)
					for _, o := range atts {
						if o.c == a.c {
							o.attached = false
						}
					}
				case 7: // the same controller again
					free := true
					for _, o := range atts {
						if o.c == a.c && (o.attached || o.running) {
							free = false
						}
					}
					if free {
						a2 := attach(x, e, a.c, x.Choose(2) == 1)
						x.Wait()
						if a.rel != nil { // has no effect anymore
							a.rel()
							if len(a.want) == 0 {
								a.want = append(a.want, "nil")
							}
						}
						atts = append(atts, a2)
					}
				}
			}
			x.Wait()
			var ids []any
			var ctls []any
			for _, a := range atts {
				a.check(x)
				if a.attached {
					ids = append(ids, a.c.id)
				}
				if a.running && a.c.run.Get() == 0 {
					x.Failf("controller %d is not running", a.c.id)
				}
			}
			for _, c := range e.B.GetControllers() {
				ctls = append(ctls, c.(*busCtl).id)
			}
			m.Want("values of the attached controllers", ids...)
			if bst.Strs(ctls) != bst.Strs(ids) {
				x.Failf("controllers on the bus: %v, want %v", ctls, ids)
			}
			run := map[*busCtl]int{}
			for _, a := range atts {
				if a.running {
					run[a.c]++
				}
			}
			for _, a := range atts {
				if n := a.c.run.Get(); n != run[a.c] {
					x.Failf("controller %d is running %d times, want %d", a.c.id, n, run[a.c])
				}
			}
			// a directive added now is handled by the same controllers
			m2 := &bst.Seen{X: x}
			_, ref2, err := e.B.AddDirective(&dct.Uniq{ID: 2}, m2.Handler())
			bst.Must(x, err)
			x.Wait()
			m2.Want("values of another directive", ids...)
			ref2.Release()
		}
		ref.Release()
		e.Gone("released")
		e.Finish()
	}})
	// a controller which ends late does not affect its successor on the bus
	mcx.Register(&mcx.Scenario{Prop: "C15", Name: "bus-late-end", Body: func(x *mcx.X) {
		e := bst.New(x)
		c := &busCtl{x: x, id: 1, b: e, slow: true}
		m := &bst.Seen{X: x}
		_, ref, err := e.B.AddDirective(&dct.Dir{ID: 1, Class: 1}, m.Handler())
		bst.Must(x, err)
		a := attach(x, e, c, false)
		x.Wait()
		gate := c.gate.Get()
		a.rel()
		a2 := attach(x, e, c, false)
		x.Wait()
		m.Want("attached again", 1)
		dct.Par(func() { gate <- errCtl }, func() { a.rel() })
		x.Wait()
		m.Want("the previous run has ended", 1)
		if n := len(e.B.GetControllers()); n != 1 {
			x.Failf("%d controllers on the bus, want 1", n)
		}
		a.want = []string{"nil"}
		a.check(x)
		a2.check(x)
		a2.rel()
		c.gate.Get() <- nil
		x.Wait()
		m.Want("released")
		ref.Release()
		e.Gone("released")
		e.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C15", Name: "bus-par", Weight: 2, Body: func(x *mcx.X) {
		e := bst.New(x)
		c := &busCtl{x: x, id: 1, b: e}
		c2 := &busCtl{x: x, id: 2, b: e}
		m := &bst.Seen{X: x}
		_, ref, err := e.B.AddDirective(&dct.Dir{ID: 1, Class: 1}, m.Handler())
		bst.Must(x, err)
		op := x.Choose(5)
		a := attach(x, e, c, op == 4)
		x.Wait()
		var a2 *attachment
		dct.Par(func() {
			switch op {
			case 0, 3:
				a.rel()
			case 1:
				e.B.RemoveController(c)
			case 2:
				a.cancel()
			case 4:
				e.B.RemoveController(c)
				a.cancel()
			}
		}, func() {
			if op == 3 {
				a.rel()
			} else {
				c.gate.Get() <- errCtl
			}
		}, func() {
			a2 = attach(x, e, c2, false)
		})
		x.Wait()
		m.Want("end", 2)
		if l := e.B.GetControllers(); len(l) != 1 || l[0].(*busCtl) != c2 {
			x.Failf("controllers on the bus: %d", len(l))
		}
		got := a.calls.Get()
		if len(got) != 1 {
			x.Failf("the callback was called %d times", len(got))
		} else if s := errStr(got[0]); !map[string]bool{"nil": op == 0 || op == 3, "failed": op != 3, "canceled": op == 2 || op == 4}[s] {
			x.Failf("the callback was called with %q", s)
		}
		a2.rel()
		x.Wait()
		m.Want("end")
		if c.run.Get()+c2.run.Get() != 0 {
			x.Failf("controller is still running")
		}
		ref.Release()
		e.Gone("released")
		e.Finish()
	}})
	// controllers and reference handlers may call the bus at any time
	mcx.Register(&mcx.Scenario{Prop: "C15", Name: "bus-reentrant", EnvOnly: false, Body: func(x *mcx.X) {
		e := bst.New(x)
		c := &busCtl{x: x, id: 1, b: e}
		c2 := &busCtl{x: x, id: 2, b: e}
		op := x.Choose(5)
		var a2 mcx.Box[*attachment]
		once := false
		re := func() {
			if once {
				return
			}
			once = true
			switch op {
			case 0:
				e.B.GetControllers()
			case 1:
				e.B.RemoveController(c)
			case 2:
				a2.Set(attach(x, e, c2, false))
			case 3:
				a2.Set(attach(x, e, c2, true))
			case 4:
				_, r, err := e.B.AddDirective(&dct.Uniq{ID: 2}, nil)
				bst.Must(x, err)
				r.Release()
			}
		}
		m := &bst.Seen{X: x}
		where := x.Choose(3)
		switch where {
		case 0:
			c.handle = re
		case 1:
			m.OnAdd = func(any) { re() }
		case 2:
			m.OnRem = func(any) { re() }
		}
		_, ref, err := e.B.AddDirective(&dct.Dir{ID: 1, Class: 1}, m.Handler())
		bst.Must(x, err)
		a := attach(x, e, c, false)
		x.Wait()
		ids := []any{}
		if !(op == 1 && where != 2) {
			ids = append(ids, 1)
		}
		if (op == 2 || op == 3) && where != 2 {
			ids = append(ids, 2)
		}
		m.Want("attached", ids...)
		if n := len(e.B.GetControllers()); n != len(ids) {
			x.Failf("%d controllers on the bus, want %d", n, len(ids))
		}
		a.rel()
		x.Wait()
		ids = ids[:0]
		if op == 2 || op == 3 {
			ids = append(ids, 2)
		}
		m.Want("released", ids...)
		if n := len(e.B.GetControllers()); n != len(ids) {
			x.Failf("%d controllers on the bus, want %d", n, len(ids))
		}
		ref.Release()
		e.Finish()
	}})
}
