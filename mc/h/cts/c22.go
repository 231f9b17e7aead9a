package cts

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/blang/semver/v4"
)

// tfac is a factory which is only looked up.
type tfac struct {
	id  string
	n   int
	ver semver.Version
}

func (f *tfac) GetConfigID() string { return f.id }
func (f *tfac) ConstructConfig() config.Config {
	c := NewConf(f.id, fmt.Sprint("made by ", f.n))
	return c
}
func (f *tfac) GetVersion() semver.Version { return f.ver }
func (f *tfac) Construct(ctxT, config.Config, controller.ConstructOpts) (controller.Controller, error) {
	return nil, errCons
}

// versions in increasing order; [1] and [2] only differ in the build metadata
var lookVers = []string{"0.9.10", "0.10.0", "0.10.0+b", "1.0.0-rc.9", "1.0.0-rc.10", "1.0.0"}
var lookRank = []int{0, 1, 1, 2, 3, 4}

func mkfac(id string, v, n int) *tfac {
	return &tfac{id: id, n: n, ver: semver.MustParse(lookVers[v])}
}

// lookups checks all the lookups of a static resolver against the model.
func lookups(st *static.Resolver, newest map[string]*tfac, fail func(f string, a ...any)) {
	ctx := context.Background()
	var ids []string
	for _, id := range []string{"a", "b", "ab"} {
		w := newest[id]
		if w != nil {
			ids = append(ids, id)
		}
		got, err := st.GetFactoryMatchingConfig(ctx, NewConf(id, "x"))
		if err != nil || (w == nil) != (got == nil) || w != nil && got != controller.Factory(w) {
			fail("factory for config %s is %v (%v), want %v", id, got, err, w)
		}
		ctor, err := st.GetConfigCtorByID(ctx, id)
		if err != nil || (w == nil) != (ctor == nil) {
			fail("config constructor %s is %v (%v), want %v", id, ctor, err, w)
			continue
		}
		if ctor != nil {
			if ctor.GetConfigID() != id {
				fail("config constructor %s has the id %s", id, ctor.GetConfigID())
			}
			if c, ok := ctor.ConstructConfig().(*Conf); !ok || c.ID != id || c.ExampleField != fmt.Sprint("made by ", w.n) {
				fail("config constructor %s constructs %v, want made by %d", id, c, w.n)
			}
		}
	}
	sort.Strings(ids)
	var list, wl []string
	for _, f := range st.GetFactories() {
		t, ok := f.(*tfac)
		if !ok {
			fail("unexpected factory %v", f)
			continue
		}
		list = append(list, fmt.Sprint(t.id, t.n))
	}
	for _, id := range ids {
		wl = append(wl, fmt.Sprint(id, newest[id].n))
	}
	if a, b := strings.Join(list, " "), strings.Join(wl, " "); a != b {
		fail("factories are %s, want %s", a, b)
	}
}

// seqStatic enumerates the sequences of factories added to a static resolver.
func seqStatic(s *mcx.SeqX) {
	depth := 5
	if mcx.Thorough() {
		depth = 6
	}
	ids := []string{"a", "b"}
	ops := len(ids) * len(lookVers)
	var rec func(seq []int)
	rec = func(seq []int) {
		if s.Over() {
			return
		}
		name := fmt.Sprint(seq)
		// the first k factories are passed to the constructor
		for k := 0; k <= len(seq); k += max(1, len(seq)) {
			var init []controller.Factory
			newest, rank := map[string]*tfac{}, map[string]int{}
			var fs []*tfac
			for i, o := range seq {
				id, v := ids[o/len(lookVers)], o%len(lookVers)
				f := mkfac(id, v, i)
				fs = append(fs, f)
				if newest[id] == nil || lookRank[v] > rank[id] {
					newest[id], rank[id] = f, lookRank[v]
				}
				if i < k {
					init = append(init, f)
				}
			}
			st := static.NewResolver(init...)
			for _, f := range fs[k:] {
				st.AddFactory(f)
			}
			sig := ""
			for _, id := range ids {
				if f := newest[id]; f != nil {
					sig += id + f.ver.String() + " "
				}
			}
			s.State(sig)
			s.Trans()
			s.Case(sig)
			lookups(st, newest, func(f string, a ...any) { s.Failf(name, "%s (added %s)", fmt.Sprintf(f, a...), name) })
		}
		if len(seq) == depth {
			return
		}
		for o := 0; o < ops; o++ {
			rec(append(seq[:len(seq):len(seq)], o))
		}
	}
	rec(nil)
}

// staticPar: lookups while factories are added.
func staticPar(x *mcx.X) {
	st := static.NewResolver()
	// versions are added in any order by two goroutines
	va := [][]int{{0, 3}, {5, 1}, {4, 2}}[x.Choose(3)]
	vb := [][]int{{1, 4}, {3, 0}, {2, 5}}[x.Choose(3)]
	kind := x.Choose(3)
	var done [6]mcx.Int // add of the version returned
	var begun [6]mcx.Int
	adder := func(vs []int, base int) func() {
		return func() {
			for i, v := range vs {
				begun[v].Set(1)
				st.AddFactory(mkfac("a", v, base+i))
				done[v].Set(1)
			}
		}
	}
	find := func() (out *tfac) {
		ctx := context.Background()
		switch kind {
		case 0:
			f, err := st.GetFactoryMatchingConfig(ctx, NewConf("a", ""))
			bst.Must(x, err)
			out, _ = f.(*tfac)
		case 1:
			for _, f := range st.GetFactories() {
				if out != nil {
					x.Failf("two factories for one config")
				}
				out = f.(*tfac)
			}
		case 2:
			c, err := st.GetConfigCtorByID(ctx, "a")
			bst.Must(x, err)
			if c != nil {
				n := -1
				_, _ = fmt.Sscanf(c.ConstructConfig().(*Conf).ExampleField, "made by %d", &n)
				v := append(append([]int{}, va...), vb...)
				out = mkfac("a", v[n], n)
			}
		}
		return
	}
	rank := func(f *tfac) int {
		if f == nil {
			return -1
		}
		for i, v := range lookVers {
			if v == f.ver.String() {
				return lookRank[i]
			}
		}
		return -2
	}
	reader := func() {
		last := -1
		for i := 0; i < 2; i++ {
			low := -1
			for v := range done {
				if done[v].Get() != 0 {
					low = max(low, lookRank[v])
				}
			}
			r := rank(find())
			high := -1
			for v := range begun {
				if begun[v].Get() != 0 {
					high = max(high, lookRank[v])
				}
			}
			if r < low || r > high || r < last {
				x.Failf("lookup found rank %d: newest added before %d, started before the end %d, found before %d", r, low, high, last)
			}
			last = r
		}
	}
	dct.Par(adder(va, 0), adder(vb, 2), reader)
	want := -1
	for _, v := range append(append([]int{}, va...), vb...) {
		want = max(want, lookRank[v])
	}
	if r := rank(find()); r != want {
		x.Failf("end: found rank %d, want %d", r, want)
	}
}

// lookupSeq: lookups of factories and of config constructors with directives.
func lookupSeq(depth int) func(x *mcx.X) {
	return func(x *mcx.X) {
		e := bst.New(x)
		// two resolvers: a is known by both of them, b by one
		sts := []*static.Resolver{
			static.NewResolver(mkfac("a", 0, 0)),
			static.NewResolver(mkfac("a", 5, 1), mkfac("b", 0, 2)),
		}
		has := []map[string]int{{"a": 0}, {"a": 1, "b": 2}}
		var rels [2]func()
		type look struct {
			id   string
			kind int
		}
		looks := []look{{"a", 0}, {"b", 0}, {"a", 1}, {"b", 1}, {"c", 0}}
		var refs [5]directive.Reference
		var seen [5]*bst.Seen
		prev := [5]string{}
		fresh := [5]bool{}
		vstr := func(v any) string {
			switch t := v.(type) {
			case *tfac:
				return fmt.Sprint(t.id, t.n)
			case config.Constructor:
				c, ok := t.ConstructConfig().(*Conf)
				if !ok || c.ID != t.GetConfigID() {
					return "bad config"
				}
				return t.GetConfigID() + strings.TrimPrefix(c.ExampleField, "made by ")
			}
			return fmt.Sprint(v)
		}
		if x.Choose(2) == 1 {
			rels[0], rels[1] = addResolver(e, sts[0]), addResolver(e, sts[1])
		}
		for i := 0; i < depth; i++ {
			k := x.Choose(8)
			switch {
			case k < 2:
				if rels[k] == nil {
					rels[k] = addResolver(e, sts[k])
				} else {
					rels[k]()
					rels[k] = nil
				}
			case k < 7:
				k -= 2
				if refs[k] != nil {
					refs[k].Release()
					refs[k] = nil
					break
				}
				seen[k] = &bst.Seen{X: x}
				var d directive.Directive
				if looks[k].kind == 0 {
					d = resolver.NewLoadFactoryByConfig(NewConf(looks[k].id, "x"))
				} else {
					d = resolver.NewLoadConfigConstructorByID(looks[k].id)
				}
				_, ref, err := e.B.AddDirective(d, seen[k].Handler())
				bst.Must(x, err)
				refs[k], fresh[k] = ref, true
			default:
				// the dispose delay of constructor lookups passes
				sleep(1)
			}
			x.Wait()
			for k := range refs {
				if refs[k] == nil {
					prev[k] = ""
					continue
				}
				var vals []string
				for _, v := range seen[k].List() {
					vals = append(vals, vstr(v))
				}
				if len(vals) > 1 {
					x.Failf("lookup %v has values %v", looks[k], vals)
					continue
				}
				got := strings.Join(vals, "")
				up := 0
				ok := false
				for j := range rels {
					if n, has := has[j][looks[k].id]; has && rels[j] != nil {
						up++
						ok = ok || got == fmt.Sprint(looks[k].id, n)
					}
				}
				if up == 0 && got != "" || got != "" && !ok {
					x.Failf("lookup %v found %s which no resolver has", looks[k], got)
				}
				if got == "" && up != 0 && (up == 1 && looks[k].id != "a" || fresh[k] || prev[k] == "") {
					x.Failf("lookup %v found nothing, want a value of %d resolver(s)", looks[k], up)
				}
				prev[k], fresh[k] = got, false
			}
		}
		x.Calm()
		for _, r := range refs {
			if r != nil {
				r.Release()
			}
		}
		for _, r := range rels {
			if r != nil {
				r()
			}
		}
		sleep(1)
		x.Wait()
		e.Gone("end")
		e.Finish()
	}
}

// lookupPar: a factory is looked up while resolvers come and go.
func lookupPar(x *mcx.X) {
	e := bst.New(x)
	f := mkfac("a", 0, 0)
	st := static.NewResolver()
	rel := addResolver(e, st)
	kind := x.Choose(2)
	ctx, cancel := context.WithCancel(e.Ctx)
	var got mcx.Box[controller.Factory]
	var gone mcx.Int
	dct.Par(func() {
		if kind == 1 {
			st.AddFactory(f)
		}
		rel()
		if kind == 0 {
			st.AddFactory(f)
			rel = addResolver(e, st)
		} else {
			rel = func() {}
			gone.Set(1)
		}
	}, func() {
		fac, ref, err := resolver.ExLoadFactoryByConfig(ctx, e.B, NewConf("a", ""))
		if err != nil {
			if err != context.Canceled {
				x.Failf("lookup failed: %v", err)
			}
			return
		}
		got.Set(fac)
		if fac != controller.Factory(f) {
			x.Failf("lookup found %v", fac)
		}
		if ref == nil {
			x.Failf("lookup without reference")
			return
		}
		x.Point()
		ref.Release()
	}, func() {
		if kind == 1 {
			x.Point()
			cancel()
		}
	})
	x.Wait()
	if kind == 0 && got.Get() == nil {
		x.Failf("the factory was not found")
		cancel()
		x.Wait()
	}
	cancel()
	rel()
	e.Gone("end")
	e.Finish()
}

// facBus checks the factory and base controller helpers and NewCoreBus.
func coreSeq(x *mcx.X) {
	e := bst.New(x)
	e.Finish()
	errOpt := errors.New("option failed")
	ctx, cancel := context.WithCancel(context.Background())
	f, g := NewFac(x, "f"), NewFac(x, "f")
	g.ver = semver.MustParse("0.0.2")
	var wrapped mcx.Int
	opts := []core.Option{nil}
	hasF, hasG, bad, badCtor := false, false, false, false
	for i := 0; i < 3; i++ {
		switch x.Choose(7) {
		case 0:
		case 1:
			opts = append(opts, core.WithControllerFactories(f))
			hasF = true
		case 2:
			opts = append(opts, core.WithControllerFactories(g))
			hasG = true
		case 3:
			opts = append(opts, core.WithControllerFactories(f, g))
			hasF, hasG = true, true
		case 4:
			opts = append(opts, core.WithFactoryResolverCtor(func(b bus.Bus, sr *static.Resolver) (controller.FactoryResolver, error) {
				wrapped.Add(1)
				if len(sr.GetFactories()) == 0 {
					x.Failf("resolver constructor called without the factories")
				}
				return sr, nil
			}))
			badCtor = false
		case 5:
			opts = append(opts, core.WithFactoryResolverCtor(func(b bus.Bus, sr *static.Resolver) (controller.FactoryResolver, error) {
				return nil, errOpt
			}))
			badCtor = true
		case 6:
			opts = append(opts, func(*core.CoreBusConfig) error { return errOpt })
			bad = true
		}
	}
	b, sr, err := core.NewCoreBus(ctx, dct.Log(), opts...)
	if bad || badCtor {
		if err != errOpt || b != nil || sr != nil {
			x.Failf("core bus with a failing option: %v %v %v", b, sr, err)
		}
		cancel()
		x.Wait()
		return
	}
	if err != nil {
		x.Failf("core bus: %v", err)
		cancel()
		return
	}
	x.Wait()
	if n := len(b.GetControllers()); n != 2 {
		x.Failf("core bus has %d controllers, want loader and resolver", n)
	}
	want := f
	if hasG {
		want = g
	}
	fctx, fcancel := context.WithTimeout(ctx, bst.Sec(1))
	fac, ref, err := resolver.ExLoadFactoryByConfig(fctx, b, NewConf("f", ""))
	if hasF || hasG {
		if err != nil || fac != controller.Factory(want) {
			x.Failf("factory lookup: %v %v", fac, err)
		}
	} else if err == nil {
		x.Failf("lookup of an unknown factory: %v %v", fac, err)
	}
	if ref != nil {
		ref.Release()
	}
	fcancel()
	if cs, _ := sr.GetFactoryMatchingConfig(ctx, &configset_controller.Config{}); cs == nil {
		x.Failf("core bus has no configset controller factory")
	}
	if hasF || hasG {
		c, _, ref, err := loader.WaitExecControllerRunning(ctx, b, resolver.NewLoadControllerWithConfig(NewConf("f", "1")), nil)
		if t, ok := c.(*Ctl); err != nil || !ok || t.fac != want {
			x.Failf("load: %v %v", c, err)
		} else {
			x.Wait()
			if t.run.Get() != 1 || len(b.GetControllers()) != 3 {
				x.Failf("loaded controller is not running")
			}
			ref.Release()
			x.Wait()
			if t.closed.Get() != 1 || len(b.GetControllers()) != 2 {
				x.Failf("released controller was not removed")
			}
		}
	}
	cancel()
	x.Wait()
}

// wrongConf is a config with the id of another type.
type wrongConf struct{ *config.Placeholder }

func (w *wrongConf) GetConfigID() string               { return "f" }
func (w *wrongConf) EqualsConfig(o config.Config) bool { return false }

type baseCtl struct{ *bus.BusController[*Conf] }

// busFactory checks BusFactory and BusController.
func busFactory(x *mcx.X) {
	e := bst.New(x)
	ver := semver.MustParse("1.2.3")
	var made mcx.Int
	fail := x.Choose(2) == 1
	f := bus.NewBusControllerFactory(e.B, "f", "ctrl", ver, "descr",
		func() *Conf { return NewConf("f", "new") },
		func(base *bus.BusController[*Conf]) (*baseCtl, error) {
			made.Add(1)
			if fail {
				return nil, errCons
			}
			return &baseCtl{BusController: base}, nil
		})
	if f.GetConfigID() != "f" || !f.GetVersion().EQ(ver) {
		x.Failf("factory has id %s version %s", f.GetConfigID(), f.GetVersion())
	}
	if c, ok := f.ConstructConfig().(*Conf); !ok || c.ExampleField != "new" {
		x.Failf("factory does not construct its config")
	}
	var conf config.Config
	ok := false
	switch x.Choose(3) {
	case 0:
		conf, ok = NewConf("f", "1"), true
	case 1:
		conf = &wrongConf{}
	case 2:
		conf = &config.Placeholder{}
	}
	le := dct.Log()
	c, err := f.Construct(e.Ctx, conf, controller.ConstructOpts{Logger: le})
	switch {
	case !ok:
		if err == nil || made.Get() != 0 {
			x.Failf("config of another type was accepted")
		}
	case fail:
		if err != errCons {
			x.Failf("construct: %v", err)
		}
	default:
		b, is := c.(*baseCtl)
		if err != nil || !is {
			x.Failf("construct: %v %v", c, err)
			break
		}
		if b.GetBus() != bus.Bus(e.B) || b.GetConfig() != conf.(*Conf) || b.GetLogger() != le {
			x.Failf("base controller has another bus, config or logger")
		}
		i := b.GetControllerInfo()
		if i.GetId() != "ctrl" || i.GetVersion() != "1.2.3" || i.GetDescription() != "descr" {
			x.Failf("info is %v", i)
		}
		rel, err := e.B.AddController(e.Ctx, b, nil)
		bst.Must(x, err)
		x.Wait()
		rel()
	}
	e.Finish()
}

func init() {
	mcx.RegisterSeq(&mcx.Seq{Prop: "C22", Name: "static-seq", Run: seqStatic})
	mcx.Register(&mcx.Scenario{Prop: "C22", Name: "static-par", Body: staticPar, MapOrder: true})
	d := 5
	if mcx.Thorough() {
		d = 6
	}
	mcx.Register(&mcx.Scenario{Prop: "C22", Name: "lookup-seq", Body: lookupSeq(d), EnvOnly: true, NoRace: true, Weight: 2})
	mcx.Register(&mcx.Scenario{Prop: "C22", Name: "lookup-par", Body: lookupPar})
	mcx.Register(&mcx.Scenario{Prop: "C22", Name: "core-seq", Body: coreSeq, EnvOnly: true})
	mcx.Register(&mcx.Scenario{Prop: "C22", Name: "bus-factory", Body: busFactory, EnvOnly: true})
}
