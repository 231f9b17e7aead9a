package cts

import (
	"context"
	"time"

	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
)

func addResolver(e *bst.Env, res controller.FactoryResolver) func() {
	c := resolver.NewController(dct.Log(), e.B, res)
	rel, err := e.B.AddController(e.Ctx, c, nil)
	bst.Must(e.X, err)
	return rel
}

// provider yields a factory for LoadFactoryByConfig directives.
type provider struct {
	f controller.Factory
	// unload: the factory is unloaded when the directive is not referenced anymore
	unload *Fac
}

func (p *provider) HandleDirective(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
	d, ok := di.GetDirective().(resolver.LoadFactoryByConfig)
	if !ok || d.LoadFactoryByConfig().GetConfigID() != p.f.GetConfigID() {
		return nil, nil
	}
	if p.unload != nil {
		return directive.R(directive.NewFuncResolver(func(ctx ctxT, h directive.ResolverHandler) error {
			var f controller.Factory = &FacCtx{p.unload, ctx}
			_, _ = h.AddValue(f)
			<-ctx.Done()
			return ctx.Err()
		}), nil)
	}
	return directive.R(directive.NewValueResolver([]controller.Factory{p.f}), nil)
}

func addProvider(e *bst.Env, f *Fac, unload bool) func() {
	p := &provider{f: f}
	if unload {
		p.unload = f
	}
	rel, err := e.B.AddHandler(p)
	bst.Must(e.X, err)
	return rel
}

// live is the controller constructed for the config which is not closed.
func live(x *mcx.X, f *Fac, field string) *Ctl {
	var n *Ctl
	for _, c := range f.ctls.Get() {
		if c.closed.Get() == 0 && c.conf.(*Conf).ExampleField == field {
			if n != nil {
				x.Failf("two controllers with the same config")
			}
			n = c
		}
	}
	return n
}

type loadEnv struct {
	*bst.Env
	f, g, h *Fac
	gctx    ctxT
	gcancel func()
	st      *static.Resolver
}

func newLoadEnv(x *mcx.X) *loadEnv {
	e := &loadEnv{Env: bst.New(x), f: NewFac(x, "f"), g: NewFac(x, "g"), h: NewFac(x, "h")}
	e.gctx, e.gcancel = context.WithCancel(e.Ctx)
	e.st = static.NewResolver(e.f, &FacCtx{e.g, e.gctx})
	return e
}

// conf are the configs in use
var confs = [4][2]string{{"f", "1"}, {"f", "2"}, {"h", "1"}, {"g", "1"}}

func (e *loadEnv) fac(i int) *Fac { return []*Fac{e.f, e.f, e.h, e.g}[i] }

func (e *loadEnv) dir(i int) directive.Directive {
	return resolver.NewLoadControllerWithConfigAndOpts(NewConf(confs[i][0], confs[i][1]), directive.ValueOptions{},
		func() backoff.BackOff { return &boff{max: 3} })
}

func (e *loadEnv) end() {
	x := e.X
	x.Wait()
	want(x, "end", "controllers on the bus", Attached(e.Env), nil)
	for _, f := range []*Fac{e.f, e.g, e.h} {
		want(x, "end", "running controllers", f.Running(), nil)
		f.res.Want("end")
	}
	e.Gone("end")
	e.gcancel()
	e.Finish()
}

func init() {
	depth := 5
	if mcx.Thorough() {
		depth = 6
	}
	mcx.Register(&mcx.Scenario{Prop: "C17", Name: "load-seq", Weight: 2, EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		e := newLoadEnv(x)
		unload := x.Choose(2) == 1
		add := []func() func(){
			func() func() { return addLoader(e.Env) },
			func() func() { return addResolver(e.Env, e.st) },
			func() func() { return addProvider(e.Env, e.h, unload) },
		}
		var rels [3]func()
		up := func(i int) bool { return rels[i] != nil }
		if x.Choose(2) == 0 {
			rels[0], rels[1] = add[0](), add[1]()
		}
		gdead, latched, lost := false, false, false
		var refs [4][]directive.Reference
		var seen [4][]*bst.Seen
		for i := 0; i < depth; i++ {
			k := x.Choose(13)
			switch {
			case k < 4:
				m := &bst.Seen{X: x}
				_, ref, err := e.B.AddDirective(e.dir(k), m.Handler())
				bst.Must(x, err)
				refs[k], seen[k] = append(refs[k], ref), append(seen[k], m)
			case k < 8 && len(refs[k-4]) != 0:
				k -= 4
				refs[k][0].Release()
				refs[k], seen[k] = refs[k][1:], seen[k][1:]
			case k >= 8 && k < 11:
				k -= 8
				if rels[k] == nil {
					rels[k] = add[k]()
				} else {
					rels[k]()
					rels[k] = nil
				}
			case k == 11 && !gdead:
				gdead = true
				e.gcancel()
			case k == 12:
				// the controller fails: the backoff of the directive is used
				c := live(x, e.f, "1")
				if c == nil || c.fails == 3 {
					i = depth
					break
				}
				c.fails++
				c.Finish(errExec)
				x.Wait()
				for _, m := range seen[0] {
					want(x, "failed", "values", states(m), []any{"exec retry " + str(c.fails) + "s"})
				}
				time.Sleep(time.Duration(c.fails) * time.Second)
			default:
				i = depth
			}
			x.Wait()
			if !up(1) || len(refs[2]) == 0 {
				latched, lost = false, false
			}
			if up(1) && len(refs[2]) != 0 && up(2) && !lost {
				latched = true
			}
			if unload && latched && !up(2) {
				// the factory is unloaded: it is not looked up again
				latched, lost = false, true
			}
			n := 0
			for k := range refs {
				f, field := e.fac(k), confs[k][1]
				on := len(refs[k]) != 0 && up(0) && up(1)
				if k == 2 && !latched || k == 3 && gdead {
					on = false
				}
				c := live(x, f, field)
				if (c != nil) != on {
					x.Failf("config %v: controller exists: %v, want %v", confs[k], c != nil, on)
					e.Finish()
					return
				}
				var vals []any
				if on {
					n++
					vals = append(vals, "ctrl"+str(c.n))
					if c.run.Get() != 1 {
						x.Failf("config %v: controller is not running", confs[k])
					}
				}
				for _, m := range seen[k] {
					want(x, str(confs[k]), "values", states(m), vals)
				}
			}
			if a := len(Attached(e.Env)); a != n {
				x.Failf("%d controllers on the bus, want %d", a, n)
			}
		}
		for k := range refs {
			for _, r := range refs[k] {
				r.Release()
			}
		}
		e.end()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C17", Name: "load-par", Core: true, Weight: 3, Body: func(x *mcx.X) {
		e := newLoadEnv(x)
		k := []int{0, 2, 3}[x.Choose(3)]
		lrel := addLoader(e.Env)
		rrel := addResolver(e.Env, e.st)
		prel := addProvider(e.Env, e.h, x.Choose(2) == 1)
		f := e.fac(k)
		op, by := x.Choose(4), x.Choose(3)
		if k == 3 && op == 1 {
			op = 4 // the factory is unloaded
		}
		m := &bst.Seen{X: x}
		di, ref, err := e.B.AddDirective(e.dir(k), m.Handler())
		bst.Must(x, err)
		if by != 2 {
			x.Wait()
		}
		dct.Par(func() {
			switch by {
			case 0:
				if c := f.Last(); c != nil {
					c.Finish(nil)
				}
			case 1:
				prel()
			}
		}, func() {
			switch op {
			case 0:
				ref.Release()
			case 1:
				lrel()
			case 2:
				rrel()
			case 3:
				di.Close()
			case 4:
				e.gcancel()
			}
		})
		x.Wait()
		if op != 0 {
			want(x, "stopped", "values", states(m), nil)
		}
		want(x, "stopped", "controllers on the bus", Attached(e.Env), nil)
		want(x, "stopped", "running controllers", f.Running(), nil)
		f.res.Want("stopped")
		ref.Release()
		e.end()
	}})
	// the first loader / resolver appears while the directive is added
	mcx.Register(&mcx.Scenario{Prop: "C17", Name: "load-start-par", Core: true, Body: func(x *mcx.X) {
		e := newLoadEnv(x)
		k := []int{0, 2, 3}[x.Choose(3)]
		f := e.fac(k)
		adds := []func(){
			func() { addLoader(e.Env) },
			func() { addResolver(e.Env, e.st) },
			func() { addProvider(e.Env, e.h, x.Choose(2) == 1) },
		}
		late := x.Choose(3)
		for i, a := range adds {
			if i != late {
				a()
			}
		}
		m, m2 := &bst.Seen{X: x}, &bst.Seen{X: x}
		var ref, ref2 directive.Reference
		dct.Par(func() {
			var err error
			_, ref, err = e.B.AddDirective(e.dir(k), m.Handler())
			bst.Must(x, err)
		}, adds[late])
		_, ref2, err := e.B.AddDirective(e.dir(k), m2.Handler())
		bst.Must(x, err)
		x.Wait()
		c := live(x, f, "1")
		if c == nil {
			x.Failf("no controller was started")
			return
		}
		want(x, "started", "values", states(m), []any{"ctrl" + str(c.n)})
		want(x, "started", "values", states(m2), []any{"ctrl" + str(c.n)})
		want(x, "started", "running controllers", f.Running(), []any{c.n})
		ref.Release()
		x.Wait()
		want(x, "one left", "running controllers", f.Running(), []any{c.n})
		ref2.Release()
		e.end()
	}})
}
