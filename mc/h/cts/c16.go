package cts

import (
	"context"
	"errors"
	"time"

	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
	"github.com/blang/semver/v4"
)

func addLoader(e *bst.Env) func() {
	l, err := loader.NewController(dct.Log(), e.B)
	bst.Must(e.X, err)
	rel, err := e.B.AddController(e.Ctx, l, nil)
	bst.Must(e.X, err)
	return rel
}

// states renders the values of an ExecController directive.
func states(m *bst.Seen) (out []any) {
	for _, v := range m.List() {
		ev, ok := v.(loader.ExecControllerValue)
		if !ok {
			out = append(out, "other")
			continue
		}
		s := ""
		if c, ok := ev.GetController().(*Ctl); ok {
			s += "ctrl" + str(c.n)
		}
		if err := ev.GetError(); err != nil {
			switch {
			case errors.Is(err, errExec):
				s += "exec"
			case errors.Is(err, errCons):
				s += "cons"
			case errors.Is(err, errPanic):
				s += "panic"
			default:
				s += err.Error()
			}
			s += " retry " + str(ev.GetNextRetryTimestamp().Sub(ev.GetUpdatedTimestamp()))
		} else if !ev.GetNextRetryTimestamp().IsZero() {
			s += "retry"
		}
		out = append(out, s)
	}
	return
}

func init() {
	depth := 5
	if mcx.Thorough() {
		depth = 6
	}
	mcx.Register(&mcx.Scenario{Prop: "C16", Name: "exec-seq", Weight: 2, EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		e := bst.New(x)
		f := NewFac(x, "f")
		last := cOk
		f.mode = func(int) int { last = x.Choose(4); return last }
		rel := addLoader(e)
		b := &boff{max: 2}
		dir := loader.NewExecControllerWithOpts(f, NewConf("f", "1"), func() backoff.BackOff { return b }, directive.ValueOptions{})
		m := &bst.Seen{X: x}
		di, ref, err := e.B.AddDirective(dir, m.Handler())
		bst.Must(x, err)
		idl := bst.NewIdle(x, di)
		// the model
		state, up, con, errs, offErrs := "", true, 0, "", 0
		construct := func() {
			con++
			switch last {
			case cOk:
				state = "run"
			case cErr:
				state, errs = "wait", "cons"
			case cNil:
				state = "dead"
			case cWait:
				state = "constructing"
			}
		}
		fail := func() {
			if b.i == b.max {
				state = "dead"
			} else {
				state = "wait"
			}
		}
		x.Wait()
		construct()
		cur := f.Last()
		for i := 0; ; i++ {
			x.Wait()
			if state == "wait" && b.i == b.max && len(m.List()) == 0 {
				// the backoff is exhausted
				state = "dead"
			}
			var vals, att, live, run []any
			switch state {
			case "run", "done":
				vals = append(vals, "ctrl"+str(cur.n))
				att = append(att, cur.n)
				live = att
				if state == "run" {
					run = att
				}
			case "wait":
				vals = append(vals, errs+" retry "+str(time.Duration(b.i)*time.Second))
				if cur != nil {
					live = append(live, cur.n)
				}
			}
			want(x, state, "values", states(m), vals)
			want(x, state, "controllers on the bus", Attached(e), att)
			want(x, state, "running controllers", f.Running(), run)
			f.res.Want(state, live...)
			if f.n.Get() != con {
				x.Failf("%s: constructed %d times, want %d", state, f.n.Get(), con)
			}
			switch state {
			case "dead":
				idl.Want(state, true, 1)
			case "off":
				idl.Want(state, true, offErrs)
			case "done":
				idl.Want(state, true, 0)
			default:
				idl.Want(state, false, 0)
			}
			if i == depth {
				break
			}
			next := x.Choose(7)
			switch next {
			case 0:
				i = depth - 1
			case 1, 2, 3:
				if state != "run" {
					i = depth - 1
					break
				}
				err := []error{nil, errExec, errPanic}[next-1]
				cur.Finish(err)
				if err == nil {
					state = "done"
				} else {
					errs = []string{"", "exec", "panic"}[next-1]
					was := b.i
					x.Wait()
					if was == b.max {
						cur = nil
					}
					fail()
					if was < b.max {
						state = "wait"
					}
				}
			case 4: // the retry is due
				if state != "wait" {
					i = depth - 1
					break
				}
				had, was := cur, b.i
				time.Sleep(time.Duration(b.i)*time.Second - time.Millisecond)
				x.Wait()
				if f.n.Get() != con || cur != nil && cur.run.Get() != 0 {
					x.Failf("retried too early")
				}
				time.Sleep(time.Millisecond)
				x.Wait()
				if had == nil {
					construct()
					cur = f.Last()
					if state == "wait" && was == b.max {
						state = "dead"
					}
					if state != "run" {
						cur = nil
					}
				} else {
					state = "run"
				}
			case 5: // the loader is removed
				if !up {
					i = depth - 1
					break
				}
				rel()
				// the removal of a failed resolver is no change of the idle state
				offErrs = 0
				if state == "dead" {
					offErrs = 1
				}
				up, state, cur = false, "off", nil
			case 6:
				if up {
					i = depth - 1
					break
				}
				rel = addLoader(e)
				b.i = 0
				x.Wait()
				construct()
				up, cur = true, f.Last()
				if state != "run" {
					cur = nil
				}
			}
		}
		if x.Choose(2) == 1 {
			di.Close()
		}
		ref.Release()
		x.Wait()
		want(x, "released", "controllers on the bus", Attached(e), nil)
		want(x, "released", "running controllers", f.Running(), nil)
		f.res.Want("released")
		e.Gone("released")
		e.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C16", Name: "exec-par", Weight: 3, Body: func(x *mcx.X) {
		e := bst.New(x)
		f := NewFac(x, "f")
		f.slow = x.Choose(2) == 1
		rel := addLoader(e)
		op, by := x.Choose(3), x.Choose(5)
		if by == 4 {
			f.mode = func(n int) int {
				if n == 1 {
					return cErr
				}
				return cOk
			}
		}
		b := &boff{max: 2}
		dir := loader.NewExecControllerWithOpts(f, NewConf("f", "1"), func() backoff.BackOff { return b }, directive.ValueOptions{})
		m := &bst.Seen{X: x}
		di, ref, err := e.B.AddDirective(dir, m.Handler())
		bst.Must(x, err)
		if by != 3 {
			x.Wait()
		}
		if by == 4 && op != 2 {
			time.Sleep(time.Second - time.Millisecond)
		}
		dct.Par(func() {
			c := f.Last()
			if c == nil {
				time.Sleep(time.Millisecond)
				return
			}
			switch by {
			case 0:
				c.Finish(nil)
			case 1:
				c.Finish(errExec)
			case 2:
				c.Finish(errPanic)
			}
		}, func() {
			if by == 4 {
				time.Sleep(time.Millisecond)
			}
			switch op {
			case 0:
				ref.Release()
			case 1:
				rel()
			case 2:
				di.Close()
			}
		})
		x.Wait()
		for _, c := range f.ctls.Get() {
			if c.run.Get() != 0 {
				c.Finish(nil)
			}
		}
		x.Wait()
		if op == 1 {
			want(x, "loader removed", "values", states(m), nil)
		}
		want(x, "end", "controllers on the bus", Attached(e), nil)
		want(x, "end", "running controllers", f.Running(), nil)
		f.res.Want("end")
		ref.Release()
		e.Gone("released")
		e.Finish()
	}})
	// equal configs share a controller, higher versions of the factory supersede
	mcx.Register(&mcx.Scenario{Prop: "C16", Name: "exec-share-seq", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		e := bst.New(x)
		addLoader(e)
		facs := []*Fac{NewFac(x, "f"), NewFac(x, "f"), NewFac(x, "g")}
		facs[1].ver = semver.MustParse("0.0.2")
		type use struct {
			fac  int
			conf string
			ref  directive.Reference
			m    *bst.Seen
			dead bool
		}
		var uses []*use
		for i := 0; i < depth; i++ {
			c := x.Choose(6 + len(uses))
			if c < 6 {
				u := &use{fac: c / 2, conf: str(c % 2), m: &bst.Seen{X: x}}
				var err error
				_, u.ref, err = e.B.AddDirective(loader.NewExecController(facs[u.fac], NewConf(facs[u.fac].id, u.conf)), u.m.Handler())
				bst.Must(x, err)
				// the newer version replaces the older one, the older one joins the newer one
				for _, o := range uses {
					if !o.dead && facs[o.fac].id == facs[u.fac].id && o.conf == u.conf {
						if facs[u.fac].ver.GT(facs[o.fac].ver) {
							o.dead = true
						} else {
							u.fac = o.fac
						}
					}
				}
				uses = append(uses, u)
			} else {
				uses[c-6].ref.Release()
				uses = append(uses[:c-6:c-6], uses[c-5:]...)
			}
			x.Wait()
			keys := map[string]bool{}
			for _, u := range uses {
				if u.dead {
					want(x, "superseded", "values", states(u.m), nil)
					continue
				}
				keys[str(u.fac)+u.conf] = true
				var n *Ctl
				for _, c := range facs[u.fac].ctls.Get() {
					if c.closed.Get() == 0 && c.conf.(*Conf).ExampleField == u.conf {
						if n != nil {
							x.Failf("two controllers with the same config")
						}
						n = c
					}
				}
				if n == nil {
					x.Failf("no controller for a config")
					return
				}
				want(x, "live", "values", states(u.m), []any{"ctrl" + str(n.n)})
			}
			if n := len(Attached(e)); n != len(keys) {
				x.Failf("%d controllers on the bus, want %d", n, len(keys))
			}
		}
		for _, u := range uses {
			u.ref.Release()
		}
		x.Wait()
		for _, f := range facs {
			f.res.Want("released")
		}
		e.Gone("released")
		e.Finish()
	}})
	// WaitExecControllerRunning
	mcx.Register(&mcx.Scenario{Prop: "C16", Name: "wait-seq", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) { waitRunning(x, false) }})
	mcx.Register(&mcx.Scenario{Prop: "C16", Name: "wait-par", Body: func(x *mcx.X) { waitRunning(x, true) }})
}

func waitRunning(x *mcx.X, par bool) {
	e := bst.New(x)
	f := NewFac(x, "f")
	mode := x.Choose(3)
	f.mode = func(n int) int { return []int{cOk, cErr, cWait}[mode] }
	addLoader(e)
	dir := loader.NewExecControllerWithOpts(f, NewConf("f", "1"), func() backoff.BackOff { return &boff{max: 3} }, directive.ValueOptions{})
	disp := mcx.Int{}
	ctx, cancel := context.WithCancel(e.Ctx)
	type res struct {
		c    controller.Controller
		di   directive.Instance
		ref  directive.Reference
		err  error
		disp int
	}
	var r mcx.Box[*res]
	closeAll := func() {
		for _, d := range e.C.GetDirectives() {
			d.Close()
		}
	}
	op := x.Choose(5)
	act := func() {
		switch op {
		case 0:
			f.Last().Finish(errExec)
		case 1:
			closeAll()
		case 2:
			cancel()
		case 3:
			f.Last().Finish(nil)
		}
	}
	start := func() {
		c, di, ref, err := loader.WaitExecControllerRunning(ctx, e.B, dir, func() { disp.Add(1) })
		r.Set(&res{c, di, ref, err, disp.Get()})
	}
	if mode != 0 && (op == 0 || op == 3) {
		op = 4
	}
	if par {
		if op == 0 || op == 3 {
			op = 1
		}
		go start()
		act()
		x.Wait()
	} else {
		go start()
		x.Wait()
		if mode == 0 || mode == 1 {
			q := r.Get()
			if q == nil {
				x.Failf("WaitExecControllerRunning did not return")
				return
			}
			if mode == 0 && (q.err != nil || q.c != controller.Controller(f.Last()) || q.ref == nil || q.di == nil) {
				x.Failf("WaitExecControllerRunning returned %v", q.err)
			}
			if mode == 1 && (!errors.Is(q.err, errCons) || q.ref != nil) {
				x.Failf("WaitExecControllerRunning returned %v, want the construct error", q.err)
			}
		} else if r.Get() != nil {
			x.Failf("WaitExecControllerRunning returned early")
		}
		act()
		x.Wait()
	}
	q := r.Get()
	if q == nil {
		if !(mode == 2 && (op == 4 || par && op == 1)) {
			x.Failf("WaitExecControllerRunning did not return")
		}
		cancel()
		x.Wait()
		q = r.Get()
		if q == nil {
			x.Failf("WaitExecControllerRunning did not return after its context was canceled")
			return
		}
	}
	if (q.err == nil) != (q.ref != nil) || (q.err == nil) != (q.c != nil) {
		x.Failf("inconsistent result of WaitExecControllerRunning")
	}
	if q.err == nil {
		n := 0
		if op == 0 || op == 1 {
			n = 1
		}
		if got := disp.Get(); got != n && !(par && got == 0) {
			x.Failf("disposed callback was called %d times, want %d", got, n)
		}
		if par && op == 1 && disp.Get() == 0 && len(e.C.GetDirectives()) == 0 {
			x.Failf("disposed callback was not called")
		}
		if q.c != controller.Controller(f.ctls.Get()[0]) && !par {
			x.Failf("wrong controller")
		}
		q.ref.Release()
	}
	x.Wait()
	time.Sleep(time.Minute)
	f.res.Want("released")
	e.Gone("released")
	cancel()
	e.Finish()
}
