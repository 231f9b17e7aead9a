// Package ads holds the scenarios on requests, messages and adapters.
package ads

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	api_controller "github.com/aperturerobotics/controllerbus/bus/api/controller"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/directive"
	dirctrl "github.com/aperturerobotics/controllerbus/directive/controller"
	boilerplate_controller "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	plugin_fs "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/aperturerobotics/controllerbus/zz_verif/cts"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	backoff "github.com/aperturerobotics/util/backoff/cbackoff"
	"github.com/blang/semver/v4"
	"github.com/sirupsen/logrus"
)

var errInvalid = errors.New("invalid config")

// dconf is a config with debug values and a verdict.
type dconf struct {
	*boilerplate_controller.Config
	id  string
	bad bool
	dbg config.DebugValues
}

func (c *dconf) GetConfigID() string { return c.id }
func (c *dconf) Validate() error {
	if c.bad {
		return errInvalid
	}
	return nil
}
func (c *dconf) GetDebugVals() config.DebugValues { return c.dbg }
func (c *dconf) EqualsConfig(o config.Config) bool {
	oc, ok := o.(*dconf)
	return ok && oc.id == c.id && oc.bad == c.bad && oc.Config.EqualsConfig(c.Config)
}

// cdesc describes a config: kind 0 is a plain one, 1 one with debug values.
type cdesc struct {
	kind int
	id   string
	val  string
	bad  bool
}

var cdescs = []cdesc{
	{0, "a", "x", false}, {0, "a", "y", false}, {0, "b", "x", false},
	{1, "a", "x", false}, {1, "a", "x", true},
	{0, "a", "", false}, // not valid: a plain config needs a value
}

func (c cdesc) key() string { return fmt.Sprintf("%d/%s/%s/%v", c.kind, c.id, c.val, c.bad) }
func (c cdesc) valid() bool { return !c.bad && (c.kind == 1 || c.val != "") }
func (c cdesc) dbg() map[string][]string {
	if c.kind == 0 {
		return map[string][]string{"config-id": {c.id}}
	}
	return map[string][]string{"config-id": {c.id}, "val": {c.val}, "two": {"1", "2"}}
}
func (c cdesc) make() config.Config {
	if c.kind == 0 {
		return cts.NewConf(c.id, c.val)
	}
	return &dconf{
		Config: &boilerplate_controller.Config{ExampleField: c.val}, id: c.id, bad: c.bad,
		dbg: config.DebugValues{"val": {c.val}, "two": {"1", "2"}, "config-id": {"not this one"}},
	}
}

// fdesc describes a factory: ctx 0 is without a context, 1 loaded, 2 unloaded.
type fdesc struct {
	id  string
	ver int
	ctx int
}

var fdescs = []fdesc{
	{"a", 0, 0}, {"a", 1, 0}, {"a", 2, 0}, {"b", 1, 0}, {"a", 1, 1}, {"a", 1, 2}, {"a", 0, 2},
}
var fvers = []string{"0.9.10", "0.10.0", "0.10.1-rc.1"}

type dfac struct {
	d fdesc
}

func (f *dfac) GetConfigID() string            { return f.d.id }
func (f *dfac) ConstructConfig() config.Config { return cts.NewConf(f.d.id, "") }
func (f *dfac) GetVersion() semver.Version     { return semver.MustParse(fvers[f.d.ver]) }
func (f *dfac) Construct(context.Context, config.Config, controller.ConstructOpts) (controller.Controller, error) {
	return nil, errInvalid
}

// gone is a canceled context.
var gone = func() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}()

type dfacCtx struct {
	*dfac
	ctx context.Context
}

func (f *dfacCtx) GetFactoryContext() context.Context { return f.ctx }

func (f fdesc) make() controller.Factory {
	ff := &dfac{d: f}
	if f.ctx == 0 {
		return ff
	}
	ctx := context.Background()
	if f.ctx == 2 {
		ctx = gone
	}
	return &dfacCtx{ff, ctx}
}

// req is a request in the universe.
type req struct {
	name  string // of the case
	kind  string
	key   string // content: two requests of a kind are equal if it is
	free  bool   // no expectation for equality with itself (but none with others)
	group string // no expectation within a group of different keys
	ver   int    // version of the factory, for the kind exec
	valid int    // 1 valid, 0 not, -1 not stated
	dbg   map[string][]string
	make  func() directive.Directive
	opts  *directive.ValueOptions
}

// the foreign requests only have the methods to access their contents
type fgnBase struct{ name string }

func (f *fgnBase) Validate() error                         { return nil }
func (f *fgnBase) GetValueOptions() directive.ValueOptions { return directive.ValueOptions{} }
func (f *fgnBase) GetName() string                         { return f.name }

type fgnExec struct {
	fgnBase
	f controller.Factory
	c config.Config
}

func (f *fgnExec) GetExecControllerFactory() controller.Factory          { return f.f }
func (f *fgnExec) GetExecControllerConfig() config.Config                { return f.c }
func (f *fgnExec) GetExecControllerRetryBackoff() func() backoff.BackOff { return nil }

type fgnLoad struct {
	fgnBase
	c config.Config
}

func (f *fgnLoad) GetLoadControllerConfig() config.Config                { return f.c }
func (f *fgnLoad) GetExecControllerRetryBackoff() func() backoff.BackOff { return nil }

type fgnFac struct {
	fgnBase
	c config.Config
}

func (f *fgnFac) LoadFactoryByConfig() config.Config { return f.c }

type fgnCtor struct {
	fgnBase
	id string
}

func (f *fgnCtor) LoadConfigConstructorByIDConfigID() string { return f.id }

type fgnApply struct {
	fgnBase
	s configset.ConfigSet
}

func (f *fgnApply) GetApplyConfigSet() configset.ConfigSet { return f.s }

type fgnLookup struct {
	fgnBase
	k []string
}

func (f *fgnLookup) GetLookupConfigSetControllerKeys() []string { return f.k }

// sdesc describes a config set: key -> config, rev
type sent struct {
	c   int
	rev uint64
}

func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// universe has all requests; foreign ones are made by the second function.
func universe() (own, fgn []*req) {
	add := func(r req, mk, fmk func() directive.Directive) {
		r.make = mk
		own = append(own, &r)
		f := r
		f.name += " of another implementation"
		f.make = fmk
		fgn = append(fgn, &f)
	}
	vo := directive.ValueOptions{MaxValueCount: 3, UnrefDisposeDur: 5}
	bo := func() backoff.BackOff { return nil }
	for _, f := range fdescs {
		for _, c := range cdescs {
			for o := 0; o < 2; o++ {
				if o == 1 && (f != fdescs[0] || c != cdescs[0]) {
					continue
				}
				r := req{
					name: fmt.Sprintf("exec factory %s@%s ctx%d config %s opts%d", f.id, fvers[f.ver], f.ctx, c.key(), o), kind: "ExecController",
					key: fmt.Sprint(f.id, f.ctx == 2, c.key()), ver: f.ver, valid: bi(c.valid()), dbg: c.dbg(), opts: &directive.ValueOptions{},
				}
				if o == 1 {
					r.opts = &vo
				}
				add(r, func() directive.Directive {
					if o == 1 {
						return loader.NewExecControllerWithOpts(f.make(), c.make(), bo, vo)
					}
					return loader.NewExecController(f.make(), c.make())
				}, func() directive.Directive { return &fgnExec{fgnBase{"ExecController"}, f.make(), c.make()} })
			}
		}
	}
	for _, c := range cdescs {
		for o := 0; o < 2; o++ {
			r := req{
				name: fmt.Sprintf("load config %s opts%d", c.key(), o), kind: "LoadControllerWithConfig",
				key: c.key(), valid: bi(c.valid()), dbg: c.dbg(), opts: &directive.ValueOptions{},
			}
			if o == 1 {
				r.opts = &vo
			}
			add(r, func() directive.Directive {
				if o == 1 {
					return resolver.NewLoadControllerWithConfigAndOpts(c.make(), vo, bo)
				}
				return resolver.NewLoadControllerWithConfig(c.make())
			}, func() directive.Directive { return &fgnLoad{fgnBase{"LoadControllerWithConfig"}, c.make()} })
		}
		add(req{
			name: "factory for config " + c.key(), kind: "LoadFactoryByConfig",
			key: c.key(), valid: 1, dbg: map[string][]string{"config-id": {c.id}},
		}, func() directive.Directive { return resolver.NewLoadFactoryByConfig(c.make()) },
			func() directive.Directive { return &fgnFac{fgnBase{"LoadFactoryByConfig"}, c.make()} })
	}
	for _, id := range []string{"", "a", "b", "A"} {
		add(req{
			name: "constructor of " + id, kind: "LoadConfigConstructorByID", key: id, valid: bi(id != ""),
			dbg: map[string][]string{"config-id": {id}},
		}, func() directive.Directive { return resolver.NewLoadConfigConstructorByID(id) },
			func() directive.Directive { return &fgnCtor{fgnBase{"LoadConfigConstructorByID"}, id} })
	}
	sets := []map[string]sent{
		nil, {}, {"k": {0, 1}}, {"k": {0, 2}}, {"k": {1, 1}}, {"l": {0, 1}}, {"k": {0, 1}, "l": {0, 1}}, {"k": {0, 1}, "l": {2, 3}},
		{"k": {3, 1}}, {"k": {4, 1}}, {"k": {0, 1}, "l": {2, 3}, "m": {0, 0}},
	}
	for i, s := range sets {
		var keys, dbg []string
		for k, e := range s {
			keys = append(keys, fmt.Sprintf("%s=%s@%d", k, cdescs[e.c].key(), e.rev))
			dbg = append(dbg, fmt.Sprintf("%s@%d", k, e.rev))
		}
		sort.Strings(keys)
		sort.Strings(dbg)
		mk := func() configset.ConfigSet {
			if s == nil {
				return nil
			}
			o := configset.ConfigSet{}
			for k, e := range s {
				o[k] = configset.NewControllerConfig(e.rev, cdescs[e.c].make())
			}
			return o
		}
		r := req{
			name: fmt.Sprintf("apply %d %v", i, keys), kind: "ApplyConfigSet", key: strings.Join(keys, " "),
			free: s == nil, valid: 1, dbg: map[string][]string{}, opts: &directive.ValueOptions{},
		}
		if len(s) == 0 {
			// whether nothing and an empty set are the same is not stated
			r.group = "empty"
		} else {
			r.dbg["controller-keys"] = dbg
		}
		add(r, func() directive.Directive { return configset.NewApplyConfigSet(mk()) },
			func() directive.Directive { return &fgnApply{fgnBase{"ApplyConfigSet"}, mk()} })
	}
	for _, ks := range [][]string{{}, {"k"}, {"l"}, {"k", "l"}, {"k", "m"}, {"kl"}, {"k", "l", "m"}} {
		r := req{
			name: "look up " + strings.Join(ks, " "), kind: "LookupConfigSet", key: strings.Join(ks, " "), valid: 1,
			dbg: map[string][]string{"controller-keys": ks}, opts: &directive.ValueOptions{},
		}
		add(r, func() directive.Directive { return configset.NewLookupConfigSet(append([]string{}, ks...)) },
			func() directive.Directive { return &fgnLookup{fgnBase{"LookupConfigSet"}, append([]string{}, ks...)} })
	}
	return own, fgn
}

// only tells if a case is to be run.
func only(s *mcx.SeqX, name string) bool { return s.Only == "" || s.Only == name }

// guard runs fn and reports a panic.
func guard(s *mcx.SeqX, name string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			s.Failf(name, "panic: %v", e)
		}
	}()
	fn()
}

// wantEq tells if two requests have to be equal (1), different (0) or either (-1).
func wantEq(a, b *req) int {
	if a.kind != b.kind {
		return 0
	}
	if a.key == b.key && !a.free && !b.free {
		return 1
	}
	if a.group != "" && a.group == b.group || a.free && b.free {
		return -1
	}
	return 0
}

// equiv checks all pairs.
func equiv(s *mcx.SeqX) {
	own, fgn := universe()
	for _, a := range own {
		for _, b := range append(append([]*req{}, own...), fgn...) {
			if s.Over() {
				return
			}
			name := a.name + " / " + b.name
			if !only(s, name) {
				continue
			}
			s.Case(a.kind + "/" + b.kind + fmt.Sprint(wantEq(a, b)))
			guard(s, name, func() {
				da, db := a.make(), b.make()
				s.Trans()
				eq := da.(directive.DirectiveWithEquiv).IsEquivalent(db)
				if w := wantEq(a, b); w >= 0 && eq != (w == 1) {
					s.Failf(name, "IsEquivalent is %v", eq)
				}
				if rev, ok := db.(directive.DirectiveWithEquiv); ok && rev.IsEquivalent(da) != eq {
					s.Failf(name, "IsEquivalent is %v, but %v the other way round", eq, !eq)
				}
				if da.(directive.DirectiveWithEquiv).IsEquivalent(db) != eq {
					s.Failf(name, "IsEquivalent has changed")
				}
				if sp, ok := da.(directive.DirectiveWithSuperceeds); ok && eq {
					s.Trans()
					if got, want := sp.Superceeds(db), a.kind == "ExecController" && a.ver > b.ver; got != want {
						s.Failf(name, "Superceeds is %v", got)
					}
				}
			})
		}
	}
	// each by itself
	for _, a := range own {
		if !only(s, a.name) {
			continue
		}
		s.Case("one " + a.kind)
		guard(s, a.name, func() {
			d := a.make()
			s.State(a.name)
			if err := d.Validate(); a.valid >= 0 && (err == nil) != (a.valid == 1) {
				s.Failf(a.name, "Validate returns %v", err)
			}
			if d.GetName() != a.kind {
				s.Failf(a.name, "the name is %q", d.GetName())
			}
			if got := d.GetValueOptions(); a.opts != nil && got != *a.opts {
				s.Failf(a.name, "the value options are %+v", got)
			}
			for i := 0; i < 2; i++ {
				dv := d.(directive.Debuggable).GetDebugVals()
				if got, want := canonDbg(dv), canonDbg(a.dbg); got != want {
					s.Failf(a.name, "the debug values are %s, want %s", got, want)
				}
				st := directive.NewDirectiveInfo(d)
				var keys []string
				m := map[string][]string{}
				for _, v := range st.GetDebugVals() {
					keys = append(keys, v.GetKey())
					m[v.GetKey()] = v.GetValues()
				}
				if st.GetName() != a.kind || canonDbg(m) != canonDbg(a.dbg) || !sort.StringsAreSorted(keys) || len(keys) != len(m) {
					s.Failf(a.name, "the directive info is %v", st.String())
				}
			}
		})
	}
	// nothing
	for name, d := range map[string]directive.Directive{
		"exec without factory": loader.NewExecController(nil, cdescs[0].make()),
		"exec without config":  loader.NewExecController(fdescs[0].make(), nil),
		"load nothing":         resolver.NewLoadControllerWithConfig(nil),
		"load nothing, opts":   resolver.NewLoadControllerWithConfigAndOpts(nil, directive.ValueOptions{}, nil),
		"factory for nothing":  resolver.NewLoadFactoryByConfig(nil),
	} {
		if !only(s, name) {
			continue
		}
		s.Case("nothing")
		guard(s, name, func() {
			if d.Validate() == nil {
				s.Failf(name, "Validate returns nil")
			}
		})
	}
}

func canonDbg(m map[string][]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, fmt.Sprintf("%s=%q", k, m[k]))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// share adds all sequences of requests to a bus: which ones share an instance?
func share(s *mcx.SeqX) {
	own, _ := universe()
	byKind := map[string][]*req{}
	var kinds []string
	for _, r := range own {
		if byKind[r.kind] == nil {
			kinds = append(kinds, r.kind)
		}
		byKind[r.kind] = append(byKind[r.kind], r)
	}
	depth := 3
	// the few which differ in each aspect, for triples
	var few []*req
	seen := map[string]int{}
	for _, k := range kinds {
		for _, r := range byKind[k] {
			if r.free || r.group != "" {
				continue
			}
			id := r.kind + r.key
			if strings.HasPrefix(r.kind, "Exec") {
				if !strings.Contains(r.key, "0/a/x") {
					continue
				}
				id += fmt.Sprint(r.ver)
			}
			if seen[id] < 2 && (k[0] == 'E' || len(seen) < 26) {
				seen[id]++
				few = append(few, r)
			}
		}
	}
	if s.Tier == "thorough" {
		depth = 4
	}
	le := logrus.NewEntry(logrus.New())
	le.Logger.SetLevel(logrus.PanicLevel)
	run := func(seq []*req) {
		var nm []string
		for _, r := range seq {
			nm = append(nm, r.name)
		}
		name := strings.Join(nm, " ; ")
		if !only(s, name) {
			return
		}
		guard(s, name, func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			b := inmem.NewBus(dirctrl.NewController(ctx, le))
			type ent struct {
				r  *req
				di directive.Instance
			}
			var live []ent
			sig := ""
			var refs []directive.Reference
			for i, r := range seq {
				s.Trans()
				var want directive.Instance
				var gone []ent
				var next []ent
				for _, e := range live {
					if wantEq(r, e.r) == 1 {
						if r.kind == "ExecController" && r.ver > e.r.ver {
							gone = append(gone, e)
							continue
						}
						want = e.di
					}
					next = append(next, e)
				}
				di, ref, err := b.AddDirective(r.make(), nil)
				if err != nil {
					s.Failf(name, "adding: %v", err)
					return
				}
				refs = append(refs, ref)
				switch {
				case want != nil && di != want:
					s.Failf(name, "request %d does not share the instance of an equal one", i)
				case want == nil:
					for _, e := range live {
						if e.di == di {
							s.Failf(name, "request %d shares the instance of %s", i, e.r.name)
						}
					}
					next = append(next, ent{r, di})
				}
				sig += fmt.Sprint(want != nil, len(gone), ",")
				live = next
				got := map[directive.Instance]int{}
				for _, d := range b.GetDirectives() {
					got[d]++
				}
				for _, e := range live {
					if got[e.di] != 1 {
						s.Failf(name, "%s is on the bus %d times after request %d", e.r.name, got[e.di], i)
					}
				}
				if len(got) != len(live) {
					s.Failf(name, "%d requests are on the bus after request %d, want %d", len(got), i, len(live))
				}
			}
			s.State(sig)
			s.Case(sig)
			for _, r := range refs {
				r.Release()
			}
		})
	}
	var rec func(seq []*req, max int)
	rec = func(seq []*req, max int) {
		if s.Over() {
			return
		}
		if len(seq) == max {
			run(seq)
			return
		}
		for _, r := range few {
			rec(append(seq[:len(seq):len(seq)], r), max)
		}
	}
	for _, a := range own {
		if a.free || a.group != "" {
			continue
		}
		for _, c := range own {
			if c.free || c.group != "" || s.Over() {
				continue
			}
			run([]*req{a, c})
		}
	}
	if s.Over() {
		return
	}
	s.Sample("%d requests for sequences of %d", len(few), depth)
	rec(nil, depth)
}

// configs checks the built-in types of configs.
func configs(s *mcx.SeqX) {
	le := logrus.NewEntry(logrus.New())
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	b := inmem.NewBus(dirctrl.NewController(ctx, le))
	type typ struct {
		name  string
		zero  config.Config
		fac   controller.Factory
		valid func(config.Config) bool
	}
	always := func(config.Config) bool { return true }
	types := []typ{
		{"api", &api_controller.Config{}, api_controller.NewFactory(b), always},
		{"configset", &configset_controller.Config{}, configset_controller.NewFactory(b), always},
		{"plugin loader", &plugin_fs.Config{}, plugin_fs.NewFactory(b), always},
		{"boilerplate", &boilerplate_controller.Config{}, boilerplate_controller.NewFactory(b), func(c config.Config) bool {
			return c.(*boilerplate_controller.Config).GetExampleField() != ""
		}},
		{"placeholder", &config.Placeholder{}, nil, always},
	}
	type val struct {
		t int
		c func() config.Config
		k string
	}
	var vals []val
	ids := map[string]string{}
	for i, t := range types {
		if o := ids[t.zero.GetConfigID()]; o != "" || t.zero.GetConfigID() == "" {
			s.Failf(t.name, "the config id %q is also that of %s", t.zero.GetConfigID(), o)
		}
		ids[t.zero.GetConfigID()] = t.name
		ds := messages(reflect.TypeOf(t.zero).Elem(), 2)
		for _, d := range ds {
			vals = append(vals, val{i, func() config.Config { return d().Interface().(config.Config) }, canon(d())})
		}
		if t.fac == nil {
			continue
		}
		s.Case("factory")
		guard(s, t.name, func() {
			if t.fac.GetConfigID() != t.zero.GetConfigID() {
				s.Failf(t.name, "the config ids are %s and %s", t.fac.GetConfigID(), t.zero.GetConfigID())
			}
			x, y := t.fac.ConstructConfig(), t.fac.ConstructConfig()
			if reflect.TypeOf(x) != reflect.TypeOf(t.zero) || x.GetConfigID() != t.zero.GetConfigID() || canon(reflect.ValueOf(x)) != canon(reflect.ValueOf(t.zero)) {
				s.Failf(t.name, "the factory constructs %T %v", x, x)
			}
			if reflect.TypeOf(t.zero).Elem().NumField() > 1 && x == y {
				s.Failf(t.name, "the factory constructs the same config twice")
			}
			if v := t.fac.GetVersion(); v.Validate() != nil {
				s.Failf(t.name, "the version is %v", v)
			}
		})
	}
	for _, x := range vals {
		name := types[x.t].name + " " + x.k
		guard(s, name, func() {
			if err := x.c().Validate(); (err == nil) != types[x.t].valid(x.c()) {
				s.Failf(name, "Validate returns %v", err)
			}
			if id := x.c().GetConfigID(); id != types[x.t].zero.GetConfigID() {
				s.Failf(name, "the config id is %q", id)
			}
			var none config.Config
			if x.c().EqualsConfig(none) {
				s.Failf(name, "is equal to nothing")
			}
		})
		if s.Over() {
			return
		}
		for _, y := range vals {
			nm := name + " / " + types[y.t].name + " " + y.k
			if !only(s, nm) {
				continue
			}
			s.Case(fmt.Sprint(x.t, y.t))
			s.Trans()
			guard(s, nm, func() {
				if got, want := x.c().EqualsConfig(y.c()), x.t == y.t && x.k == y.k; got != want {
					s.Failf(nm, "EqualsConfig is %v", got)
				}
			})
		}
	}
	// merging of debug values
	dvs := []config.DebugValues{nil, {}, {"a": {"1"}}, {"a": {"2"}, "b": nil}, {"b": {"1", "2"}}, {"a": {"1", "2"}, "c": {"3"}}}
	for _, t := range dvs {
		for _, f := range dvs {
			for _, g := range dvs {
				if t == nil {
					continue
				}
				to := config.DebugValues{}
				for k, v := range t {
					to[k] = append(make([]string, 0, 8), v...)
				}
				s.Case("merge")
				config.MergeDebugVals(to, f, g)
				for _, k := range []string{"a", "b", "c"} {
					want := append(append(append([]string{}, t[k]...), f[k]...), g[k]...)
					if fmt.Sprint(to[k]) != fmt.Sprint(want) {
						s.Failf(fmt.Sprint("merge ", t, f, g), "%s is %v, want %v", k, to[k], want)
					}
				}
			}
		}
	}
}

func init() {
	mcx.RegisterSeq(&mcx.Seq{Prop: "C29", Name: "equiv", Run: equiv})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C29", Name: "share", Run: share})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C29", Name: "configs", Run: configs})
}
