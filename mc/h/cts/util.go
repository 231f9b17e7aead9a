// Package cts holds the scenarios on the controller loading chain.
package cts

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/directive"
	boilerplate_controller "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/blang/semver/v4"
)

type ctxT = context.Context

// Conf is a test configuration: the id names the factory.
type Conf struct {
	*boilerplate_controller.Config
	ID string
}

// NewConf builds a valid configuration.
func NewConf(id, val string) *Conf {
	return &Conf{Config: &boilerplate_controller.Config{ExampleField: val}, ID: id}
}
func (c *Conf) GetConfigID() string { return c.ID }
func (c *Conf) EqualsConfig(o config.Config) bool {
	oc, ok := o.(*Conf)
	return ok && oc.ID == c.ID && oc.Config.EqualsConfig(c.Config)
}

var errExec = errors.New("execute failed")
var errCons = errors.New("construct failed")
var errPanic = errors.New("execute paniced")

// Ctl is a controller under the control of the scenario.
type Ctl struct {
	x      *mcx.X
	n      int // serial number
	fac    *Fac
	conf   config.Config
	runs   mcx.Int // calls of Execute
	run    mcx.Int
	closed mcx.Int
	gate   mcx.Box[chan error]
	ctx    mcx.Box[ctxT]
	rel    func()
	fails  int
}

func (c *Ctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo("verif/ctl", c.fac.ver, "test")
}
func (c *Ctl) HandleDirective(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
	if bst.Class(di.GetDirective()) < 0 {
		return nil, nil
	}
	return directive.R(directive.NewValueResolver([]int{c.n}), nil)
}
func (c *Ctl) Execute(ctx ctxT) error {
	if c.closed.Get() != 0 {
		c.x.Failf("Execute was called after Close")
	}
	c.x.Ev("exec", c.n, 0, 0)
	gate := make(chan error, 1)
	if n := c.run.Add(1); n != 1 {
		c.x.Failf("Execute is running %d times at once", n)
	}
	defer c.run.Add(-1)
	c.gate.Set(gate)
	c.ctx.Set(ctx)
	c.runs.Add(1)
	var err error
	select {
	case <-ctx.Done():
		err = ctx.Err()
		if c.fac.slow {
			<-gate
		}
	case err = <-gate:
	}
	c.x.Ev("execend", c.n, 0, 0)
	if err == errPanic {
		panic(errPanic)
	}
	return err
}
func (c *Ctl) Close() error {
	c.x.Ev("close", c.n, 0, 0)
	if c.run.Get() != 0 {
		c.x.Failf("Close was called while Execute is running")
	}
	if c.closed.Add(1) != 1 {
		c.x.Failf("controller %d was closed twice", c.n)
		return nil
	}
	c.rel()
	return nil
}

// Finish lets Execute return.
func (c *Ctl) Finish(err error) {
	select {
	case c.gate.Get() <- err:
	default:
	}
}

// Fac is a factory.
type Fac struct {
	x    *mcx.X
	id   string
	ver  semver.Version
	res  *bst.Res // controllers which are not closed
	mode func(n int) int
	slow bool // Execute does not return before the gate opens
	n    mcx.Int
	ctls mcx.Box[[]*Ctl]
	opts func(controller.ConstructOpts) // called with the options of Construct
}

const (
	cOk = iota
	cErr
	cNil
	cWait // waits for the context
)

// NewFac builds a factory.
func NewFac(x *mcx.X, id string) *Fac {
	return &Fac{x: x, id: id, ver: semver.MustParse("0.0.1"), res: &bst.Res{X: x, Name: "controllers"}}
}
func (f *Fac) GetConfigID() string            { return f.id }
func (f *Fac) ConstructConfig() config.Config { return NewConf(f.id, "") }
func (f *Fac) GetVersion() semver.Version     { return f.ver }
func (f *Fac) Construct(ctx ctxT, conf config.Config, opts controller.ConstructOpts) (controller.Controller, error) {
	n := f.n.Add(1)
	f.x.Ev("construct", n, 0, 0)
	if f.opts != nil {
		f.opts(opts)
	}
	if conf.GetConfigID() != f.id {
		f.x.Failf("factory %s was called with config %s", f.id, conf.GetConfigID())
	}
	if f.mode != nil {
		switch f.mode(n) {
		case cErr:
			return nil, errCons
		case cNil:
			return nil, nil
		case cWait:
			<-ctx.Done()
			return nil, ctx.Err()
		}
	}
	c := &Ctl{x: f.x, n: n, fac: f, conf: conf, rel: f.res.New(n)}
	f.ctls.Set(append(append([]*Ctl{}, f.ctls.Get()...), c))
	return c, nil
}

// Last is the controller constructed last.
func (f *Fac) Last() *Ctl {
	l := f.ctls.Get()
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1]
}

// Running lists the numbers of the executing controllers.
func (f *Fac) Running() (out []any) {
	for _, c := range f.ctls.Get() {
		if c.run.Get() != 0 {
			out = append(out, c.n)
		}
	}
	return
}

// FacCtx is a factory with a context.
type FacCtx struct {
	*Fac
	ctx ctxT
}

func (f *FacCtx) GetFactoryContext() context.Context { return f.ctx }

// Attached lists the numbers of the test controllers on the bus.
func Attached(e *bst.Env) (out []any) {
	for _, c := range e.B.GetControllers() {
		if t, ok := c.(*Ctl); ok {
			out = append(out, t.n)
		}
	}
	return
}

func want(x *mcx.X, what, of string, got, want []any) {
	if a, b := bst.Strs(got), bst.Strs(want); a != b {
		x.Failf("%s: %s are %s, want %s", what, of, a, b)
	}
}

// boff is a scripted backoff: 1s, 2s, ... for max attempts.
type boff struct {
	i, max int
}

func (b *boff) NextBackOff() time.Duration {
	if b.i >= b.max {
		return -1
	}
	b.i++
	return time.Duration(b.i) * time.Second
}
func (b *boff) Reset() {}

func str(v any) string { return fmt.Sprint(v) }

func sleep(sec int) { time.Sleep(time.Duration(sec) * time.Second) }
