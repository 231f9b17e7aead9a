package bss

import (
	"context"
	"fmt"
	"sort"

	"github.com/aperturerobotics/controllerbus/bus"
	bus_bridge "github.com/aperturerobotics/controllerbus/bus/bridge"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// seen is the multiset of values a reference currently has.
type seen struct {
	x    *mcx.X
	vals mcx.Box[map[uint32]any]
	disp mcx.Int
	n    mcx.Int
}

func (s *seen) handler() directive.ReferenceHandler {
	return bus.NewCallbackHandler(func(v directive.AttachedValue) {
		m := map[uint32]any{}
		for k, v := range s.vals.Get() {
			m[k] = v
		}
		if _, ok := m[v.GetValueID()]; ok {
			s.x.Failf("value id %d added twice", v.GetValueID())
		}
		m[v.GetValueID()] = v.GetValue()
		s.vals.Set(m)
		s.n.Add(1)
	}, func(v directive.AttachedValue) {
		m := map[uint32]any{}
		for k, v := range s.vals.Get() {
			m[k] = v
		}
		delete(m, v.GetValueID())
		s.vals.Set(m)
	}, func() { s.disp.Add(1) })
}

func strs(l []any) string {
	var o []string
	for _, v := range l {
		o = append(o, fmt.Sprint(v))
	}
	sort.Strings(o)
	return fmt.Sprint(o)
}

func (s *seen) list() (out []any) {
	for _, v := range s.vals.Get() {
		out = append(out, v)
	}
	return
}

func (s *seen) want(what string, vals ...any) {
	if a, b := strs(s.list()), strs(vals); a != b {
		s.x.Failf("%s: mirrored values are %s, want %s", what, a, b)
	}
}

// mirror is how class 2 mirrors class 1.
const (
	mPass = iota
	mXfrmNil
	mXfrm
	nMirror
)

// addMirror attaches a handler which resolves directives of class 2 with the values of class 1.
func addMirror(x *mcx.X, e *bst.Env, kind int, own bool) (func(), *mcx.Int) {
	disp := &mcx.Int{}
	rel, err := e.B.AddHandler(&dct.H{X: x, ID: 20, Func: func(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
		if bst.Class(di.GetDirective()) != 2 {
			return nil, nil
		}
		return directive.R(&dct.R{X: x, ID: 20, Func: func(ctx ctxT, rh directive.ResolverHandler) error {
			if own {
				rh.AddValue("own")
			}
			ctx, cancel := context.WithCancel(ctx)
			defer cancel()
			d := func() { disp.Add(1); cancel() }
			var h directive.ReferenceHandler
			switch kind {
			case mPass:
				h = bus.NewPassThruHandler(rh, d)
			case mXfrmNil:
				h = bus.NewTransformHandler(rh, nil, d)
			case mXfrm:
				h = bus.NewTransformHandler(rh, func(v directive.AttachedValue) (directive.Value, bool) {
					n, ok := v.GetValue().(int)
					return n * 1000, ok && accept(n)
				}, d)
			}
			_, ref, err := e.B.AddDirective(&dct.Dir{ID: 1, Class: 1}, h)
			if err != nil {
				return err
			}
			<-ctx.Done()
			ref.Release()
			return nil
		}}, nil)
	}})
	bst.Must(x, err)
	return rel, disp
}

func mirrored(kind int, own bool, vals []any) (out []any) {
	if own {
		out = append(out, "own")
	}
	for _, v := range vals {
		if kind == mXfrm {
			if n, ok := v.(int); ok && accept(n) {
				out = append(out, n*1000)
			}
		} else {
			out = append(out, v)
		}
	}
	return
}

func init() {
	depth := 5
	if mcx.Thorough() {
		depth = 6
	}
	mcx.Register(&mcx.Scenario{Prop: "C12", Name: "handler-seq", EnvOnly: true, NoRace: true, MapOrder: true, Body: func(x *mcx.X) {
		kind, own := x.Choose(nMirror), x.Choose(2) == 1
		e := bst.New(x)
		s := e.NewSrc(0, 1)
		rel, disp := addMirror(x, e, kind, own)
		m := &seen{x: x}
		di, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.handler())
		bst.Must(x, err)
		x.Wait()
		n := 0
		for i := 0; i < depth; i++ {
			pres := s.Present()
			c := x.Choose(4 + len(pres))
			switch {
			case c == 0:
				i = depth
			case c == 1:
				s.Add(newVal(n))
				n++
			case c == 2:
				s.Add(fmt.Sprint("s", n))
				n++
			case c == 3:
				s.Clear()
			default:
				s.Remove(pres[c-4])
			}
			x.Wait()
			m.want("values changed", mirrored(kind, own, s.Present())...)
		}
		switch x.Choose(3) {
		case 0: // the source is closed
			for _, d := range e.C.GetDirectives() {
				if bst.Class(d.GetDirective()) == 1 {
					d.Close()
				}
			}
			x.Wait()
			m.want("source closed", mirrored(kind, own, nil)...)
			if disp.Get() != 1 {
				x.Failf("dispose callback was called %d times", disp.Get())
			}
			ref.Release()
		case 1: // the mirror is removed
			rel()
			x.Wait()
			m.want("mirror removed")
			ref.Release()
		case 2:
			di.Close()
			x.Wait()
			m.want("closed")
		}
		e.Gone("released")
		e.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C12", Name: "handler-par", Weight: 2, MapOrder: true, Body: func(x *mcx.X) {
		kind := []int{mPass, mXfrm}[x.Choose(2)]
		own, op := true, x.Choose(4)
		e := bst.New(x)
		s := e.NewSrc(0, 1)
		rel, _ := addMirror(x, e, kind, own)
		m := &seen{x: x}
		di, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.handler())
		bst.Must(x, err)
		x.Wait()
		m2 := &seen{x: x}
		var ref2 directive.Reference
		dct.Par(func() {
			s.Add(1)
			s.Add("s")
			s.Remove(1)
			s.Add(2)
		}, func() {
			switch op {
			case 0:
				ref2 = di.AddReference(m2.handler(), false)
			case 1:
				rel()
			case 2:
				for _, d := range e.C.GetDirectives() {
					if bst.Class(d.GetDirective()) == 1 {
						d.Close()
					}
				}
			case 3:
				ref.Release()
			}
		})
		x.Wait()
		switch op {
		case 0:
			m.want("end", mirrored(kind, own, s.Present())...)
			m2.want("second reference", mirrored(kind, own, s.Present())...)
			ref2.Release()
		case 1:
			m.want("mirror removed")
		case 2:
			m.want("source closed", mirrored(kind, own, nil)...)
		}
		ref.Release()
		e.Gone("released")
		e.Finish()
	}})
	// a bridge mirrors directives between two buses
	mcx.Register(&mcx.Scenario{Prop: "C12", Name: "bridge-seq", EnvOnly: true, NoRace: true, MapOrder: true, Body: func(x *mcx.X) {
		a := bst.New(x)
		b := a.Over()
		s := b.NewSrc(0, 1)
		br := bus_bridge.NewBusBridge(b.B, func(di directive.Instance) (bool, error) {
			return bst.Class(di.GetDirective()) == 1, nil
		})
		rel, err := a.B.AddController(a.Ctx, br, nil)
		bst.Must(x, err)
		dir := &dct.Dir{ID: 1, Class: 1}
		m := &seen{x: x}
		di, ref, err := a.B.AddDirective(dir, m.handler())
		bst.Must(x, err)
		_, oref, err := a.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, nil)
		bst.Must(x, err)
		x.Wait()
		if n := len(b.C.GetDirectives()); n != 1 {
			x.Failf("%d directives on the target bus, want 1", n)
		}
		n := 0
		up, alive := true, true
		for i := 0; i < depth; i++ {
			pres := s.Present()
			c := x.Choose(6 + len(pres))
			switch {
			case c == 0:
				i = depth
			case c == 1:
				s.Add(newVal(n))
				n++
			case c == 2:
				s.Clear()
			case c == 3: // close and add the same directive again
				if alive {
					di.Close()
				}
				m = &seen{x: x}
				di, ref, err = a.B.AddDirective(dir, m.handler())
				bst.Must(x, err)
				alive = true
			case c == 4:
				if alive {
					di.Close()
				}
				alive = false
			case c == 5:
				if up {
					rel()
				} else {
					rel, err = a.B.AddController(a.Ctx, br, nil)
					bst.Must(x, err)
				}
				up = !up
			default:
				s.Remove(pres[c-6])
			}
			x.Wait()
			if k := len(b.C.GetDirectives()); k != b2i(up && alive) {
				x.Failf("%d directives on the target bus (bridge attached: %v, directive live: %v)", k, up, alive)
			}
			if !up || !alive {
				m.want("not bridged")
			} else {
				m.want("values changed", s.Present()...)
			}
		}
		ref.Release()
		oref.Release()
		a.Gone("released")
		b.Gone("released")
		b.Finish()
		a.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C12", Name: "bridge-par", Core: true, Weight: 2, Body: func(x *mcx.X) {
		a := bst.New(x)
		b := a.Over()
		s := b.NewSrc(0, 1)
		br := bus_bridge.NewBusBridge(b.B, nil)
		rel, err := a.B.AddController(a.Ctx, br, nil)
		bst.Must(x, err)
		dir := &dct.Dir{ID: 1, Class: 1}
		m := &seen{x: x}
		op := x.Choose(4)
		var ref directive.Reference
		_, ref, err = a.B.AddDirective(dir, m.handler())
		bst.Must(x, err)
		x.Wait()
		m2 := &seen{x: x}
		dct.Par(func() {
			s.Add(1)
			s.Add(2)
			s.Remove(1)
		}, func() {
			switch op {
			case 0: // the same directive again after it was released
				ref.Release()
				_, ref, err = a.B.AddDirective(dir, m2.handler())
				bst.Must(x, err)
			case 1:
				rel()
			case 2:
				for _, d := range b.C.GetDirectives() {
					d.Close()
				}
			case 3:
				_, r, err := a.B.AddDirective(&dct.Dir{ID: 2, Class: 1}, m2.handler())
				bst.Must(x, err)
				ref.Release()
				ref = r
			}
		})
		x.Wait()
		switch op {
		case 0:
			// the source got a new call of Resolve, the values added before are gone
			if n := len(b.C.GetDirectives()); n != 1 {
				x.Failf("directive added again: %d directives on the target bus, want 1", n)
			}
			for _, v := range s.Present() {
				s.Remove(v)
			}
			s.Clear()
			x.Wait()
			m2.want("added again")
			s.Add(7)
			x.Wait()
			m2.want("added again", 7)
		case 1:
			m.want("bridge removed")
			if n := len(b.C.GetDirectives()); n != 0 {
				x.Failf("%d directives on the target bus after the bridge was removed", n)
			}
		case 3:
			m2.want("end", s.Present()...)
		}
		ref.Release()
		a.Gone("released")
		b.Gone("released")
		b.Finish()
		a.Finish()
	}})
	// bridges in both directions: no endless forwarding, values arrive
	mcx.Register(&mcx.Scenario{Prop: "C12", Name: "bridge-loop", Body: func(x *mcx.X) {
		a := bst.New(x)
		b := a.Over()
		_, err := a.B.AddController(a.Ctx, bus_bridge.NewBusBridge(b.B, nil), nil)
		bst.Must(x, err)
		_, err = b.B.AddController(a.Ctx, bus_bridge.NewBusBridge(a.B, nil), nil)
		bst.Must(x, err)
		uniq := x.Choose(2) == 1
		s := a.NewSrc(0, 1)
		if x.Choose(2) == 1 {
			s.Rel()
			s = b.NewSrc(0, 1)
		}
		var dir directive.Directive = &dct.Dir{ID: 1, Class: 1}
		if uniq {
			dir = &dct.Uniq{ID: 1}
		}
		m := &seen{x: x}
		_, ref, err := a.B.AddDirective(dir, m.handler())
		bst.Must(x, err)
		x.Wait()
		if na, nb := len(a.C.GetDirectives()), len(b.C.GetDirectives()); na > 2 || nb > 2 {
			x.Failf("%d and %d directives on the buses", na, nb)
		}
		_ = s
		ref.Release()
		a.Cancel()
		b.Cancel()
		x.Wait()
		a.Finish()
		b.Finish()
	}})
}
