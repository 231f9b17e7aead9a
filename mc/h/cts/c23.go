package cts

import (
	"context"
	"strings"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/plugin"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
)

// plug is a loaded plugin.
type plug struct {
	e      *bst.Env
	gen    int
	f, g   *Fac
	res    plugin.PluginResolver
	cancel func()
	dead   mcx.Int // unloading began
	nolog  bool    // a controller is constructed without a logger
}

// loadPlug loads a plugin as the loaders do.
func loadPlug(e *bst.Env, gen int) *plug {
	p := &plug{e: e, gen: gen, f: NewFac(e.X, "f"), g: NewFac(e.X, "g")}
	for _, f := range []*Fac{p.f, p.g} {
		f.opts = func(o controller.ConstructOpts) {
			if p.nolog {
				return
			}
			if o.Logger == nil || o.Logger.Data["plugin-binary-id"] != "bin" {
				e.X.Failf("controller constructed without the logger of the plugin")
			}
		}
	}
	sp := plugin.NewStaticPlugin("bin", "v1", func(b bus.Bus) []controller.Factory { return []controller.Factory{p.f, p.g} })
	if sp.GetBinaryID() != "bin" || sp.GetBinaryVersion() != "v1" {
		e.X.Failf("plugin has id %s version %s", sp.GetBinaryID(), sp.GetBinaryVersion())
	}
	ctx, cancel := context.WithCancel(e.Ctx)
	p.cancel = cancel
	var err error
	p.res, err = sp.NewPluginResolver(ctx, e.B)
	bst.Must(e.X, err)
	if id := p.res.GetResolverID(); !strings.Contains(id, "bin") || !strings.Contains(id, "v1") {
		e.X.Failf("plugin resolver has id %s", id)
	}
	rc := resolver.NewController(dct.Log(), e.B, p.res)
	rel, err := e.B.AddController(ctx, rc, nil)
	bst.Must(e.X, err)
	go func() {
		<-ctx.Done()
		rel()
		_ = rc.Close()
	}()
	return p
}

// unload unloads it as the loaders do.
func (p *plug) unload() {
	p.dead.Set(1)
	p.cancel()
	p.res.PrePluginUnload()
	p.after("after unloading")
}

// after checks an unloaded plugin.
func (p *plug) after(what string) {
	x := p.e.X
	for _, f := range []*Fac{p.f, p.g} {
		n := f.n.Get()
		fac, err := p.res.GetFactoryMatchingConfig(context.Background(), NewConf(f.id, "x"))
		if fac != nil || err != nil {
			x.Failf("%s: the plugin still has factory %s (%v)", what, f.id, err)
		}
		ctor, err := p.res.GetConfigCtorByID(context.Background(), f.id)
		if ctor != nil || err != nil {
			x.Failf("%s: the plugin still has config constructor %s (%v)", what, f.id, err)
		}
		if f.n.Get() != n {
			x.Failf("%s: constructed by a lookup", what)
		}
	}
}

// attached lists the controllers constructed by a factory which are on the bus.
func (p *plug) attached(field string, f *Fac) (out []*Ctl) {
	for _, c := range p.e.B.GetControllers() {
		if t, ok := c.(*Ctl); ok && t.fac == f && t.conf.(*Conf).ExampleField == field {
			out = append(out, t)
		}
	}
	return
}

var plugConfs = [3][2]string{{"f", "1"}, {"f", "2"}, {"g", "1"}}

func plugDir(k int) directive.Directive {
	return resolver.NewLoadControllerWithConfigAndOpts(NewConf(plugConfs[k][0], plugConfs[k][1]), directive.ValueOptions{},
		func() backoff.BackOff { return &boff{max: 3} })
}

func (p *plug) fac(k int) *Fac { return []*Fac{p.f, p.f, p.g}[k] }

// held is a factory which was looked up, and a controller constructed by it.
type held struct {
	p   *plug
	fac controller.FactoryWithContext
	c   *Ctl
	rel func()
}

// construct constructs a controller and adds it to the bus.
func (h *held) construct(x *mcx.X, field string, logger bool) {
	var opts controller.ConstructOpts
	if logger {
		opts.Logger = dct.Log()
	}
	dead := h.p.dead.Get() != 0
	if !logger {
		h.p.nolog = true
		defer func() { h.p.nolog = false }()
	}
	c, err := h.fac.Construct(h.p.e.Ctx, NewConf("f", field), opts)
	if err != nil || c == nil {
		if h.p.dead.Get() == 0 {
			x.Failf("construct: %v", err)
		}
		return
	}
	if dead {
		x.Failf("constructed a controller of an unloaded plugin")
	}
	h.c = c.(*Ctl)
	rel, err := h.p.e.B.AddController(h.p.e.Ctx, c, nil)
	bst.Must(x, err)
	h.rel = rel
}

func (h *held) release() {
	if h.c != nil {
		h.rel()
		h.p.e.X.Wait()
		_ = h.c.Close()
		h.c = nil
	}
}

// pluginSeq: histories of a plugin being loaded and unloaded.
func pluginSeq(depth int) func(x *mcx.X) {
	return func(x *mcx.X) {
		e := bst.New(x)
		rel := addLoader(e)
		var ps []*plug
		var cur *plug
		var refs [3]directive.Reference
		var seen [3]*bst.Seen
		var hs []*held
		if x.Choose(2) == 0 {
			cur = loadPlug(e, 0)
			ps = append(ps, cur)
		}
		lookup := func() {
			ctx, cancel := context.WithTimeout(e.Ctx, bst.Sec(1))
			defer cancel()
			f, ref, err := resolver.ExLoadFactoryByConfig(ctx, e.B, NewConf("f", "x"))
			if err == nil {
				defer ref.Release()
			}
			if cur == nil {
				if err == nil {
					x.Failf("found a factory without a plugin")
				}
				return
			}
			fc, ok := f.(controller.FactoryWithContext)
			if err != nil || !ok {
				x.Failf("factory lookup: %v %v", f, err)
				return
			}
			if fc.GetConfigID() != "f" || fc.GetFactoryContext().Err() != nil {
				x.Failf("found factory %s with context %v", fc.GetConfigID(), fc.GetFactoryContext().Err())
			}
			hs = append(hs, &held{p: cur, fac: fc})
		}
		for i := 0; i < depth; i++ {
			k := x.Choose(9)
			switch {
			case k < 3:
				if refs[k] != nil {
					refs[k].Release()
					refs[k] = nil
					break
				}
				seen[k] = &bst.Seen{X: x}
				_, ref, err := e.B.AddDirective(plugDir(k), seen[k].Handler())
				bst.Must(x, err)
				refs[k] = ref
			case k == 3:
				if cur == nil {
					cur = loadPlug(e, len(ps))
					ps = append(ps, cur)
					break
				}
				cur.unload()
				cur = nil
			case k == 4:
				// reload: the new one is loaded right after
				if cur != nil {
					cur.unload()
					cur = loadPlug(e, len(ps))
					ps = append(ps, cur)
				}
			case k == 5:
				lookup()
			case k == 6 || k == 7:
				if len(hs) != 0 {
					h := hs[len(hs)-1]
					if h.c != nil {
						h.release()
					} else {
						h.construct(x, "held", k == 6)
					}
				}
			case k == 8:
				// the controller fails: it is started again
				if cur != nil {
					if c := live(x, cur.f, "1"); c != nil && c.fails == 0 {
						c.fails++
						c.Finish(errExec)
						x.Wait()
						sleep(1)
					}
				}
			}
			x.Wait()
			for k := range refs {
				on := cur != nil && refs[k] != nil
				n := 0
				for _, p := range ps {
					field := plugConfs[k][1]
					c := live(x, p.fac(k), field)
					at := p.attached(field, p.fac(k))
					if (c != nil) != (on && p == cur) {
						x.Failf("config %v: plugin %d has a controller: %v, loaded plugin %v, references %v", plugConfs[k], p.gen, c != nil, cur != nil, refs[k] != nil)
						continue
					}
					if c == nil {
						if len(at) != 0 {
							x.Failf("config %v: a controller of plugin %d is on the bus", plugConfs[k], p.gen)
						}
						continue
					}
					n++
					if c.run.Get() != 1 || len(at) != 1 || at[0] != c {
						x.Failf("config %v: controller running %d times and %d times on the bus", plugConfs[k], c.run.Get(), len(at))
					}
				}
				if refs[k] != nil && len(seen[k].List()) != n {
					x.Failf("config %v: values are %v, want %d", plugConfs[k], states(seen[k]), n)
				}
			}
			for _, p := range ps {
				if p != cur {
					p.after("unloaded")
					if len(p.attached("held", p.f)) != 0 {
						x.Failf("a controller constructed by plugin %d is on the bus", p.gen)
					}
				}
			}
			for _, h := range hs {
				if h.p != cur && h.fac.GetFactoryContext().Err() == nil {
					x.Failf("the context of a factory of an unloaded plugin is not canceled")
				}
				if h.p == cur && h.fac.GetFactoryContext().Err() != nil {
					x.Failf("the context of a factory of a loaded plugin is canceled")
				}
				if h.c != nil && h.p == cur && len(cur.attached("held", cur.f)) == 0 {
					x.Failf("a controller of the loaded plugin was removed")
				}
			}
			if x.Failed() {
				e.Finish()
				return
			}
		}
		x.Calm()
		if cur != nil {
			cur.unload()
		}
		for _, r := range refs {
			if r != nil {
				r.Release()
			}
		}
		for _, h := range hs {
			h.release()
		}
		x.Wait()
		rel()
		for _, p := range ps {
			p.f.res.Want("end")
			p.g.res.Want("end")
		}
		e.Gone("end")
		e.Finish()
	}
}

// pluginPar: unloading or reloading races with users of the plugin.
func pluginPar(x *mcx.X) {
	e := bst.New(x)
	rel := addLoader(e)
	reload := x.Choose(2) == 1
	user := x.Choose(5)
	pre := x.Choose(2) == 1 // a controller is running
	p0 := loadPlug(e, 0)
	var p1 *plug
	var ref directive.Reference
	var seen *bst.Seen
	add := func() {
		var err error
		seen = &bst.Seen{X: x}
		_, ref, err = e.B.AddDirective(plugDir(0), seen.Handler())
		bst.Must(x, err)
	}
	h := &held{p: p0}
	if user == 2 || user == 3 {
		fac, err := p0.res.GetFactoryMatchingConfig(e.Ctx, NewConf("f", ""))
		bst.Must(x, err)
		h.fac = fac.(controller.FactoryWithContext)
	}
	if pre {
		add()
		x.Wait()
	}
	dct.Par(func() {
		p0.unload()
		if reload {
			p1 = loadPlug(e, 1)
		}
	}, func() {
		switch user {
		case 0:
			if !pre {
				add()
			} else {
				ref.Release()
				ref = nil
			}
		case 1:
			if pre {
				ref.Release()
			}
			add()
		case 2, 3:
			h.construct(x, "held", true)
			if h.c != nil {
				go func() {
					<-h.fac.GetFactoryContext().Done()
					h.rel()
				}()
			}
			if user == 3 {
				h.construct2(x)
			}
		case 4:
			fac, err := p0.res.GetFactoryMatchingConfig(e.Ctx, NewConf("f", ""))
			bst.Must(x, err)
			if fac != nil {
				h.fac = fac.(controller.FactoryWithContext)
			} else if p0.dead.Get() == 0 {
				x.Failf("no factory before unloading")
			}
		}
	})
	x.Wait()
	if h.fac != nil && h.fac.GetFactoryContext().Err() == nil {
		x.Failf("the context of a factory of an unloaded plugin is not canceled")
	}
	p0.after("end")
	for _, f := range []string{"1", "held"} {
		if len(p0.attached(f, p0.f)) != 0 {
			x.Failf("a controller of the unloaded plugin is on the bus")
		}
	}
	want(x, "end", "running controllers of the unloaded plugin", p0.f.Running(), nil)
	if c := live(x, p0.f, "1"); c != nil {
		x.Failf("a controller of the unloaded plugin was not closed")
	}
	if reload {
		c := live(x, p1.f, "1")
		if (c != nil) != (ref != nil) {
			x.Failf("the reloaded plugin has a controller: %v, referenced: %v", c != nil, ref != nil)
		}
		if c != nil {
			if c.run.Get() != 1 || len(p1.attached("1", p1.f)) != 1 {
				x.Failf("the controller of the reloaded plugin is not running")
			}
			seenOne := seen.List()
			if len(seenOne) != 1 {
				x.Failf("values are %v", states(seen))
			}
		}
	} else if ref != nil && len(seen.List()) != 0 {
		x.Failf("values are %v after unloading", states(seen))
	}
	x.Calm()
	if reload {
		p1.unload()
	}
	if ref != nil {
		ref.Release()
	}
	x.Wait()
	if h.c != nil {
		_ = h.c.Close()
	}
	rel()
	p0.f.res.Want("end")
	if p1 != nil {
		p1.f.res.Want("end")
	}
	e.Gone("end")
	e.Finish()
}

// construct2 constructs another controller which is never added.
func (h *held) construct2(x *mcx.X) {
	c, err := h.fac.Construct(h.p.e.Ctx, NewConf("f", "other"), controller.ConstructOpts{Logger: dct.Log()})
	if err == nil && c != nil {
		_ = c.Close()
	}
}

// pluginReent: callbacks during unloading use the plugin.
func pluginReent(x *mcx.X) {
	e := bst.New(x)
	rel := addLoader(e)
	p := loadPlug(e, 0)
	fac, err := p.res.GetFactoryMatchingConfig(e.Ctx, NewConf("f", ""))
	bst.Must(x, err)
	h := &held{p: p, fac: fac.(controller.FactoryWithContext)}
	// the factory alone is closed, or the plugin unloaded
	var own *plugin.StaticPluginFactory
	if x.Choose(2) == 1 {
		own = plugin.NewStaticPluginFactory(e.Ctx, p.f, "bin", e.B)
		h.fac = own
	}
	h.construct(x, "held", true)
	x.Wait()
	what := x.Choose(5)
	calls := 0
	act := func(any) {
		if p.dead.Get() == 0 {
			return
		}
		calls++
		switch what {
		case 0:
			if own == nil {
				p.after("callback")
			}
			if h.fac.GetFactoryContext().Err() == nil {
				x.Failf("the context of a factory is not canceled before its controllers are removed")
			}
		case 1:
			if c, err := h.fac.Construct(e.Ctx, NewConf("f", "cb"), controller.ConstructOpts{Logger: dct.Log()}); err == nil || c != nil {
				x.Failf("callback constructed a controller")
			}
		case 2:
			if own != nil {
				own.Close()
			}
			p.res.PrePluginUnload()
		case 3:
			e.B.RemoveController(h.c)
		case 4:
			h.rel()
		}
	}
	// a value of the controller constructed by the plugin
	m := &bst.Seen{X: x, OnRem: act}
	_, ref, err := e.B.AddDirective(&dct.Dir{ID: 1, Class: 1}, m.Handler())
	bst.Must(x, err)
	x.Wait()
	if len(m.List()) != 1 {
		x.Failf("values of the controller: %v", m.List())
	}
	if own != nil {
		p.dead.Set(1)
		own.Close()
		x.Wait()
		if len(m.List()) != 0 {
			x.Failf("values of the controller after closing its factory: %v", m.List())
		}
		if own.GetFactoryContext().Err() == nil {
			x.Failf("the context of a closed factory is not canceled")
		}
	}
	p.unload()
	x.Wait()
	if len(m.List()) != 0 || calls != 1 {
		x.Failf("values of the controller after unloading: %v, removed %d", m.List(), calls)
	}
	ref.Release()
	h.release()
	rel()
	p.f.res.Want("end")
	e.Gone("end")
	e.Finish()
}

func init() {
	d := 5
	if mcx.Thorough() {
		d = 6
	}
	mcx.Register(&mcx.Scenario{Prop: "C23", Name: "plugin-seq", Body: pluginSeq(d), EnvOnly: true, NoRace: true, Weight: 2})
	mcx.Register(&mcx.Scenario{Prop: "C23", Name: "plugin-par", Body: pluginPar, Core: true, Weight: 2})
	mcx.Register(&mcx.Scenario{Prop: "C23", Name: "plugin-reent", Body: pluginReent})
}
