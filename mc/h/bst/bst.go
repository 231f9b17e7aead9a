// Package bst holds the harness types used to drive the bus and its helpers.
package bst

import (
	"context"
	"errors"
	"sort"
	"time"

	"github.com/aperturerobotics/controllerbus/bus/inmem"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/blang/semver/v4"
)

// ErrRes is returned by scripted resolvers.
var ErrRes = errors.New("resolver failed")

// Env is an in-memory bus under test.
type Env struct {
	*dct.Env
	B *inmem.Bus
}

// New builds an environment.
func New(x *mcx.X) *Env {
	e := dct.New(x)
	return &Env{Env: e, B: inmem.NewBus(e.C)}
}

// Over returns another bus sharing the context.
func (e *Env) Over() *Env {
	n := dct.New(e.X)
	return &Env{Env: n, B: inmem.NewBus(n.C)}
}

// Must fails on an error.
func Must(x *mcx.X, err error) {
	if err != nil {
		x.Failf("unexpected error: %v", err)
	}
}

// Sec is fake time.
func Sec(n int) time.Duration { return time.Duration(n) * time.Second }

// Src is a handler providing one resolver which is driven by the scenario.
type Src struct {
	X     *mcx.X
	ID    int
	Class int // directives served (-1: all)
	Rh    mcx.Box[directive.ResolverHandler]
	Ctx   mcx.Box[context.Context]
	ret   mcx.Box[chan error]
	ids   mcx.Box[[]idVal]
	Rel   func()
}

type idVal struct {
	id  uint32
	val any
}

// Class of a directive.
func Class(d directive.Directive) int {
	switch t := d.(type) {
	case *dct.Dir:
		return t.Class
	case *dct.Uniq:
		return t.ID
	}
	return -1
}

// NewSrc attaches a scripted source.
func (e *Env) NewSrc(id, class int) *Src {
	s := &Src{X: e.X, ID: id, Class: class}
	rel, err := e.B.AddHandler(s)
	Must(e.X, err)
	s.Rel = rel
	return s
}

// HandleDirective implements directive.Handler.
func (s *Src) HandleDirective(_ context.Context, di directive.Instance) ([]directive.Resolver, error) {
	if s.Class >= 0 && Class(di.GetDirective()) != s.Class {
		return nil, nil
	}
	return directive.R(s, nil)
}

// Resolve implements directive.Resolver.
func (s *Src) Resolve(ctx context.Context, rh directive.ResolverHandler) error {
	s.X.Ev("rstart", s.ID, 0, 0)
	ch := make(chan error, 1)
	s.ret.Set(ch)
	s.ids.Set(nil)
	s.Ctx.Set(ctx)
	s.Rh.Set(rh)
	var err error
	select {
	case err = <-ch:
	case <-ctx.Done():
		err = ctx.Err()
	}
	s.X.Ev("rend", s.ID, 0, 0)
	return err
}

// Add adds a value.
func (s *Src) Add(v any) bool {
	id, ok := s.Rh.Get().AddValue(v)
	if ok {
		s.ids.Set(append(append([]idVal{}, s.ids.Get()...), idVal{id, v}))
	}
	return ok
}

// Remove removes the oldest value equal to v.
func (s *Src) Remove(v any) {
	ids := s.ids.Get()
	for i, iv := range ids {
		if iv.val == v {
			s.ids.Set(append(append([]idVal{}, ids[:i]...), ids[i+1:]...))
			s.Rh.Get().RemoveValue(iv.id)
			return
		}
	}
}

// Present are the values added and not removed.
func (s *Src) Present() (out []any) {
	for _, iv := range s.ids.Get() {
		out = append(out, iv.val)
	}
	return
}

// Present returns the values of all sources in the order of their ids.
func Present(srcs ...*Src) (out []any) {
	var l []idVal
	for _, s := range srcs {
		l = append(l, s.ids.Get()...)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, iv := range l {
		out = append(out, iv.val)
	}
	return
}

// Has reports whether v is present.
func (s *Src) Has(v any) bool {
	for _, iv := range s.ids.Get() {
		if iv.val == v {
			return true
		}
	}
	return false
}

// Clear removes all values.
func (s *Src) Clear() {
	s.ids.Set(nil)
	s.Rh.Get().ClearValues()
}

// Idle marks the resolver.
func (s *Src) Idle(b bool) { s.Rh.Get().MarkIdle(b) }

// Return lets Resolve return.
func (s *Src) Return(err error) {
	select {
	case s.ret.Get() <- err:
	default:
	}
}

// Ctl is a test controller.
type Ctl struct {
	Desc    string
	X       *mcx.X
	ID      int
	Handle  func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error)
	Exec    func(ctx context.Context) error
	OnClose func() error
	running mcx.Int
}

type ctxT = context.Context

var ver = semver.MustParse("0.0.1")

func (c *Ctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo("verif/ctl", ver, "test"+c.Desc)
}
func (c *Ctl) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	c.X.Ev("handle", c.ID, dct.IDOf(di.GetDirective()), 0)
	if c.Handle == nil {
		return nil, nil
	}
	return c.Handle(ctx, di)
}
func (c *Ctl) Execute(ctx context.Context) error {
	if n := c.running.Add(1); n != 1 {
		c.X.Failf("controller %d: Execute is running %d times at once", c.ID, n)
	}
	defer c.running.Add(-1)
	c.X.Ev("exec", c.ID, 0, 0)
	defer c.X.Ev("execend", c.ID, 0, 0)
	if c.Exec == nil {
		return nil
	}
	return c.Exec(ctx)
}
func (c *Ctl) Close() error {
	c.X.Ev("close", c.ID, 0, 0)
	if c.OnClose == nil {
		return nil
	}
	return c.OnClose()
}

// Running reports whether Execute is executing.
func (c *Ctl) Running() bool { return c.running.Get() != 0 }

var _ controller.Controller = (*Ctl)(nil)

// Gone checks that no directive is left on the bus.
func (e *Env) Gone(what string) {
	e.X.Wait()
	if n := len(e.C.GetDirectives()); n != 0 {
		e.X.Failf("%s: %d directive(s) left on the bus", what, n)
	}
}

// Finish tears down.
func (e *Env) Finish() {
	e.Done()
}

var _ controller.Controller = (*Ctl)(nil)
