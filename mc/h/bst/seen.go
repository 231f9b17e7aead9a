package bst

import (
	"fmt"
	"sort"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// Seen is the multiset of values a reference currently has.
type Seen struct {
	X    *mcx.X
	vals mcx.Box[map[uint32]any]
	Disp mcx.Int
	N    mcx.Int
	// OnAdd and OnRem are called with each value.
	OnAdd, OnRem func(v any)
}

// Handler returns the reference handler.
func (s *Seen) Handler() directive.ReferenceHandler {
	return directive.NewCallbackHandler(func(v directive.AttachedValue) {
		m := map[uint32]any{}
		for k, v := range s.vals.Get() {
			m[k] = v
		}
		if _, ok := m[v.GetValueID()]; ok {
			s.X.Failf("value id %d added twice", v.GetValueID())
		}
		m[v.GetValueID()] = v.GetValue()
		s.vals.Set(m)
		s.N.Add(1)
		if s.OnAdd != nil {
			s.OnAdd(v.GetValue())
		}
	}, func(v directive.AttachedValue) {
		m := map[uint32]any{}
		for k, v := range s.vals.Get() {
			m[k] = v
		}
		if _, ok := m[v.GetValueID()]; !ok {
			s.X.Failf("value id %d removed but not added", v.GetValueID())
		}
		delete(m, v.GetValueID())
		s.vals.Set(m)
		if s.OnRem != nil {
			s.OnRem(v.GetValue())
		}
	}, func() { s.Disp.Add(1) })
}

// Strs renders a multiset.
func Strs(l []any) string {
	var o []string
	for _, v := range l {
		o = append(o, fmt.Sprint(v))
	}
	sort.Strings(o)
	return fmt.Sprint(o)
}

// List returns the values.
func (s *Seen) List() (out []any) {
	for _, v := range s.vals.Get() {
		out = append(out, v)
	}
	return
}

// Want compares the values.
func (s *Seen) Want(what string, vals ...any) {
	if a, b := Strs(s.List()), Strs(vals); a != b {
		s.X.Failf("%s: values are %s, want %s", what, a, b)
	}
}

// Res tracks resources which have to be released exactly once.
type Res struct {
	X    *mcx.X
	Name string
	n    mcx.Int
	live mcx.Box[map[int]any]
}

// New acquires a resource, the result releases it.
func (r *Res) New(v any) func() {
	k := r.n.Add(1)
	r.X.Ev("acquire", k, 0, 0)
	m := map[int]any{k: v}
	for k, v := range r.live.Get() {
		m[k] = v
	}
	r.live.Set(m)
	return func() {
		r.X.Ev("release", k, 0, 0)
		m := map[int]any{}
		for k, v := range r.live.Get() {
			m[k] = v
		}
		if _, ok := m[k]; !ok {
			r.X.Failf("%s: resource %v (#%d) released twice", r.Name, v, k)
		}
		delete(m, k)
		r.live.Set(m)
	}
}

// Count is the number of resources acquired so far.
func (r *Res) Count() int { return r.n.Get() }

// Live returns the resources not released.
func (r *Res) Live() (out []any) {
	for _, v := range r.live.Get() {
		out = append(out, v)
	}
	return
}

// Want compares the live resources.
func (r *Res) Want(what string, vals ...any) {
	if a, b := Strs(r.Live()), Strs(vals); a != b {
		r.X.Failf("%s: %s: unreleased resources are %s, want %s", what, r.Name, a, b)
	}
}

// Idle tracks an idle callback.
type Idle struct {
	X    *mcx.X
	N    mcx.Int
	Is   mcx.Int
	Errs mcx.Box[[]error]
	Rel  func()
}

// NewIdle attaches the callback.
func NewIdle(x *mcx.X, di directive.Instance) *Idle {
	i := &Idle{X: x}
	i.Rel = di.AddIdleCallback(func(idle bool, errs []error) {
		n := 0
		if idle {
			n = 1
		}
		i.Errs.Set(append([]error{}, errs...))
		i.Is.Set(n)
		i.N.Add(1)
	})
	return i
}

// Want compares the idle state and the number of errors.
func (i *Idle) Want(what string, idle bool, nerr int) {
	if (i.Is.Get() == 1) != idle || (idle && len(i.Errs.Get()) != nerr) {
		i.X.Failf("%s: idle=%v with %d error(s), want idle=%v with %d", what, i.Is.Get() == 1, len(i.Errs.Get()), idle, nerr)
	}
}

// Provide attaches a handler serving directives of a class with a resolver.
func (e *Env) Provide(class int, f func(di directive.Instance) directive.Resolver) func() {
	rel, err := e.B.AddHandler(&hnd{class, f})
	Must(e.X, err)
	return rel
}

type hnd struct {
	class int
	f     func(di directive.Instance) directive.Resolver
}

func (h *hnd) HandleDirective(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
	if Class(di.GetDirective()) != h.class {
		return nil, nil
	}
	return directive.R(h.f(di), nil)
}
