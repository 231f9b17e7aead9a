package demo

import (
	"context"
	"io"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	boilerplate "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	"github.com/aperturerobotics/controllerbus/bus/inmem"
	dc "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/blang/semver/v4"
	"github.com/sirupsen/logrus"
)

// le returns a logger which discards its output.
func le() *logrus.Entry {
	log := logrus.New()
	log.SetOutput(io.Discard)
	return logrus.NewEntry(log)
}

// newBus constructs a bus.
func newBus(ctx context.Context) bus.Bus {
	return inmem.NewBus(dc.NewController(ctx, le()))
}

// dir is a directive which is equivalent to directives with the same name.
type dir struct {
	name string
	vo   directive.ValueOptions
	dbg  func()
}

func (d *dir) GetName() string                          { return d.name }
func (d *dir) Validate() error                          { return nil }
func (d *dir) GetValueOptions() directive.ValueOptions  { return d.vo }
func (d *dir) IsEquivalent(o directive.Directive) bool {
	od, ok := o.(*dir)
	return ok && od.name == d.name
}
func (d *dir) GetDebugVals() directive.DebugValues {
	if d.dbg != nil {
		d.dbg()
	}
	return nil
}

// hnd is a handler function.
type hnd func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error)

func (h hnd) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	return h(ctx, di)
}

// res builds a resolver.
func res(fn func(ctx context.Context, h directive.ResolverHandler) error) directive.Resolver {
	return directive.NewFuncResolver(fn)
}

// handle adds a handler with a list of resolvers to the directives with a name.
func handle(t *testing.T, b directive.Controller, name string, rs ...directive.Resolver) func() {
	rel, err := b.AddHandler(hnd(func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
		if di.GetDirective().GetName() != name {
			return nil, nil
		}
		return rs, nil
	}))
	if err != nil {
		t.Fatal(err)
	}
	return rel
}

// rec records the values.
type rec struct {
	mtx      sync.Mutex
	vals     map[uint32]directive.Value
	added    []directive.Value
	removed  []directive.Value
	disposed int
	onAdd    func(v directive.AttachedValue)
	onRemove func(v directive.AttachedValue)
}

func (r *rec) HandleValueAdded(_ directive.Instance, v directive.AttachedValue) {
	r.mtx.Lock()
	if r.vals == nil {
		r.vals = map[uint32]directive.Value{}
	}
	r.vals[v.GetValueID()] = v.GetValue()
	r.added = append(r.added, v.GetValue())
	r.mtx.Unlock()
	if r.onAdd != nil {
		r.onAdd(v)
	}
}
func (r *rec) HandleValueRemoved(_ directive.Instance, v directive.AttachedValue) {
	r.mtx.Lock()
	delete(r.vals, v.GetValueID())
	r.removed = append(r.removed, v.GetValue())
	r.mtx.Unlock()
	if r.onRemove != nil {
		r.onRemove(v)
	}
}
func (r *rec) HandleInstanceDisposed(directive.Instance) {
	r.mtx.Lock()
	r.disposed++
	r.mtx.Unlock()
}
func (r *rec) count() int {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	return len(r.vals)
}
func (r *rec) has(v directive.Value) bool {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	for _, x := range r.vals {
		if x == v {
			return true
		}
	}
	return false
}

// add adds a directive.
func add(t *testing.T, b directive.Controller, d directive.Directive, r directive.ReferenceHandler) (directive.Instance, directive.Reference) {
	di, ref, err := b.AddDirective(d, r)
	if err != nil {
		t.Fatal(err)
	}
	return di, ref
}

// eventually waits until the condition holds.
func eventually(t *testing.T, what string, cond func() bool) {
	t.Helper()
	for i := 0; i < 4000; i++ {
		if cond() {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	t.Fatalf("never happened: %s", what)
}

// stays checks that the condition does not become false.
func stays(t *testing.T, what string, cond func() bool) {
	t.Helper()
	for i := 0; i < 60; i++ {
		if !cond() {
			t.Fatalf("does not hold: %s", what)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// finish runs a function which must return.
func finish(t *testing.T, what string, fn func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatalf("does not return: %s", what)
	}
}

// ctl is a controller.
type ctl struct {
	exec   func(ctx context.Context) error
	runs   atomic.Int32
	closed atomic.Int32
	conf   config.Config
	ctx    atomic.Pointer[context.Context]
}

func (c *ctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo("demo/ctl", semver.MustParse("0.0.1"), "demo")
}
func (c *ctl) HandleDirective(context.Context, directive.Instance) ([]directive.Resolver, error) {
	return nil, nil
}
func (c *ctl) Execute(ctx context.Context) error {
	c.ctx.Store(&ctx)
	c.runs.Add(1)
	defer c.runs.Add(-1)
	if c.exec != nil {
		return c.exec(ctx)
	}
	<-ctx.Done()
	return ctx.Err()
}
func (c *ctl) Close() error { c.closed.Add(1); return nil }

// conf builds a config.
func conf(v string) config.Config { return &boilerplate.Config{ExampleField: v} }

// fac is a factory of controllers.
type fac struct {
	mtx  sync.Mutex
	ctls []*ctl
	exec func(n int) func(ctx context.Context) error
	// fctx is the factory context
	fctx context.Context
}

func (f *fac) GetConfigID() string            { return (&boilerplate.Config{}).GetConfigID() }
func (f *fac) ConstructConfig() config.Config { return &boilerplate.Config{} }
func (f *fac) GetVersion() semver.Version     { return semver.MustParse("0.0.1") }
func (f *fac) Construct(_ context.Context, c config.Config, _ controller.ConstructOpts) (controller.Controller, error) {
	f.mtx.Lock()
	defer f.mtx.Unlock()
	n := &ctl{conf: c}
	if f.exec != nil {
		n.exec = f.exec(len(f.ctls))
	}
	f.ctls = append(f.ctls, n)
	return n, nil
}
func (f *fac) GetFactoryContext() context.Context {
	if f.fctx != nil {
		return f.fctx
	}
	return context.Background()
}

// all returns the controllers.
func (f *fac) all() []*ctl {
	f.mtx.Lock()
	defer f.mtx.Unlock()
	return append([]*ctl(nil), f.ctls...)
}

// running returns the running controllers.
func (f *fac) running() (out []*ctl) {
	for _, c := range f.all() {
		if c.runs.Load() > 0 {
			out = append(out, c)
		}
	}
	return
}

// start adds a controller to the bus.
func start(t *testing.T, b bus.Bus, c controller.Controller) func() {
	rel, err := b.AddController(context.Background(), c, nil)
	if err != nil {
		t.Fatal(err)
	}
	return rel
}

// newLoader adds a loader.
func newLoader(t *testing.T, b bus.Bus) func() {
	c, err := loader.NewController(le(), b)
	if err != nil {
		t.Fatal(err)
	}
	return start(t, b, c)
}

// newResolver adds a factory resolver.
func newResolver(t *testing.T, b bus.Bus, r controller.FactoryResolver) func() {
	return start(t, b, resolver.NewController(le(), b, r))
}
