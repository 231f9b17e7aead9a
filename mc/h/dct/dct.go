// Package dct holds the harness types used to drive the directive engine.
package dct

import (
	"context"
	"io"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
	dcontroller "github.com/aperturerobotics/controllerbus/directive/controller"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/sirupsen/logrus"
)

// Log returns a silent logger.
func Log() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.PanicLevel)
	return logrus.NewEntry(l)
}

// Dir is a test directive: equivalent to directives of the same class, and
// superseding those of a lower revision when Super is set.
type Dir struct {
	ID    int
	Class int
	Rev   int
	Super bool
	Wild  bool // equivalent to every class
	Opts  directive.ValueOptions
}

func (d *Dir) Validate() error                         { return nil }
func (d *Dir) GetValueOptions() directive.ValueOptions { return d.Opts }
func (d *Dir) GetName() string                         { return "dir" }
func (d *Dir) IsEquivalent(o directive.Directive) bool {
	od, ok := o.(*Dir)
	return ok && (od.Class == d.Class || (d.Wild && od.Class < 100))
}
func (d *Dir) Superceeds(o directive.Directive) bool {
	od, ok := o.(*Dir)
	return ok && d.Super && d.Rev > od.Rev
}

// Uniq is a directive without equivalence.
type Uniq struct {
	ID   int
	Opts directive.ValueOptions
}

func (d *Uniq) Validate() error                         { return nil }
func (d *Uniq) GetValueOptions() directive.ValueOptions { return d.Opts }
func (d *Uniq) GetName() string                         { return "uniq" }

// IDOf returns the harness id of a directive.
func IDOf(d directive.Directive) int {
	switch t := d.(type) {
	case *Dir:
		return t.ID
	case *Uniq:
		return t.ID
	}
	return -1
}

// H is a directive handler.
type H struct {
	X    *mcx.X
	ID   int
	Func func(ctx context.Context, di directive.Instance) ([]directive.Resolver, error)
}

func (h *H) HandleDirective(ctx context.Context, di directive.Instance) ([]directive.Resolver, error) {
	h.X.Ev("handle", h.ID, IDOf(di.GetDirective()), 0)
	if h.Func == nil {
		return nil, nil
	}
	return h.Func(ctx, di)
}

// R is a resolver; it records start and end of each Resolve call.
type R struct {
	X    *mcx.X
	ID   int
	Func func(ctx context.Context, h directive.ResolverHandler) error
	run  mcx.Int
}

func (r *R) Resolve(ctx context.Context, h directive.ResolverHandler) error {
	if n := r.run.Add(1); n != 1 {
		r.X.Failf("resolver %d: Resolve is running %d times at once", r.ID, n)
	}
	r.X.Ev("rstart", r.ID, 0, 0)
	err := r.Func(ctx, h)
	r.X.Ev("rend", r.ID, 0, 0)
	r.run.Add(-1)
	return err
}

// Running reports whether Resolve is executing.
func (r *R) Running() bool { return r.run.Get() != 0 }

// Const is a resolver function that adds values and returns.
func Const(vals ...int) func(ctx context.Context, h directive.ResolverHandler) error {
	return func(ctx context.Context, h directive.ResolverHandler) error {
		for _, v := range vals {
			_, _ = h.AddValue(v)
		}
		return nil
	}
}

// Hold adds values, marks idle and waits for cancellation.
func Hold(vals ...int) func(ctx context.Context, h directive.ResolverHandler) error {
	return func(ctx context.Context, h directive.ResolverHandler) error {
		for _, v := range vals {
			_, _ = h.AddValue(v)
		}
		h.MarkIdle(true)
		<-ctx.Done()
		return nil
	}
}

// Ref is a reference handler recording what it is told.
type Ref struct {
	X  *mcx.X
	ID int
	// OnAdd, OnRem, OnDisp are optional re-entrant actions.
	OnAdd  func(v directive.AttachedValue)
	OnRem  func(v directive.AttachedValue)
	OnDisp func()
}

func val(v directive.AttachedValue) int {
	i, ok := v.GetValue().(int)
	if !ok {
		return -1
	}
	return i
}

func (r *Ref) HandleValueAdded(_ directive.Instance, v directive.AttachedValue) {
	r.X.Ev("va", r.ID, int(v.GetValueID()), val(v))
	if r.OnAdd != nil {
		r.OnAdd(v)
	}
}
func (r *Ref) HandleValueRemoved(_ directive.Instance, v directive.AttachedValue) {
	r.X.Ev("vr", r.ID, int(v.GetValueID()), val(v))
	if r.OnRem != nil {
		r.OnRem(v)
	}
}
func (r *Ref) HandleInstanceDisposed(_ directive.Instance) {
	r.X.Ev("disp", r.ID, 0, 0)
	if r.OnDisp != nil {
		r.OnDisp()
	}
}

// Env is a directive controller under test.
type Env struct {
	X      *mcx.X
	Ctx    context.Context
	Cancel context.CancelFunc
	C      *dcontroller.Controller
}

var le = Log()

// New builds an environment.
func New(x *mcx.X) *Env {
	ctx, cancel := context.WithCancel(context.Background())
	return &Env{X: x, Ctx: ctx, Cancel: cancel, C: dcontroller.NewController(ctx, le)}
}

// Done tears everything down: all directives closed, root context canceled.
func (e *Env) Done() {
	for _, d := range e.C.GetDirectives() {
		d.Close()
	}
	e.Cancel()
	e.X.Wait()
}

// Par runs the functions concurrently and waits for all of them to return.
func Par(fns ...func()) {
	mcx.ParBegin()
	defer mcx.ParEnd()
	done := make(chan struct{}, len(fns))
	for _, f := range fns {
		go func() {
			f()
			done <- struct{}{}
		}()
	}
	for range fns {
		<-done
	}
}

// Sleep is fake time.
func Sleep(d time.Duration) { time.Sleep(d) }

// RefState is what a reference handler was told, replayed from the events.
type RefState struct {
	Present map[int]int // id -> value
	Order   []int       // ids in the order of addition
	Added   map[int]int // id -> times added
	Disp    int
}

// CheckRef replays the events of reference id and checks that they are
// consistent: every value is added once, removed at most once after it was
// added, and nothing follows the disposal.
func CheckRef(x *mcx.X, id int) *RefState {
	st := &RefState{Present: map[int]int{}, Added: map[int]int{}}
	rem := map[int]bool{}
	for _, e := range x.Events() {
		if e.A != id {
			continue
		}
		switch e.K {
		case "va", "vr", "disp":
			if st.Disp != 0 {
				x.Failf("ref %d: %s after it was told that the instance is disposed", id, e)
			}
		}
		switch e.K {
		case "va":
			st.Added[e.B]++
			if st.Added[e.B] > 1 {
				x.Failf("ref %d: value id %d delivered twice", id, e.B)
			}
			if n := len(st.Order); n != 0 && st.Order[n-1] >= e.B {
				x.Failf("ref %d: value id %d delivered after id %d (not in order of emission)", id, e.B, st.Order[n-1])
			}
			st.Order = append(st.Order, e.B)
			st.Present[e.B] = e.C
		case "vr":
			if st.Added[e.B] == 0 {
				x.Failf("ref %d: value id %d removed but never added", id, e.B)
			} else if rem[e.B] {
				x.Failf("ref %d: value id %d removed twice", id, e.B)
			}
			if v, ok := st.Present[e.B]; ok && v != e.C {
				x.Failf("ref %d: value id %d removed with value %d, was added with %d", id, e.B, e.C, v)
			}
			rem[e.B] = true
			delete(st.Present, e.B)
		case "disp":
			st.Disp++
			if len(st.Present) != 0 {
				x.Failf("ref %d: instance disposed while values %v were not removed", id, st.Present)
			}
		}
	}
	return st
}

// Vals returns the sorted values currently present.
func (s *RefState) Vals() []int {
	var out []int
	for _, v := range s.Present {
		i := len(out)
		out = append(out, v)
		for i > 0 && out[i-1] > out[i] {
			out[i-1], out[i] = out[i], out[i-1]
			i--
		}
	}
	return out
}

// Eq compares int slices.
func Eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Count counts events.
func Count(x *mcx.X, k string, a, b int) int {
	n := 0
	for _, e := range x.Events() {
		if e.K == k && e.A == a && (b < 0 || e.B == b) {
			n++
		}
	}
	return n
}

// Live reports whether the instance is listed by the controller.
func (e *Env) Live(di directive.Instance) bool {
	for _, d := range e.C.GetDirectives() {
		if d == di {
			return true
		}
	}
	return false
}

// Canceled reports whether ctx is canceled.
func Canceled(ctx context.Context) bool { return ctx.Err() != nil }
