package rss

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/aperturerobotics/util/keyed"
	"github.com/aperturerobotics/util/refcount"
)

const (
	hAccess = iota
	hKeyed
	hRefCount
	nHold
)

const (
	gOk = iota
	gErr
	gEarly   // released before the getter returns
	gConc    // released concurrently with the return
	gWait    // waits for the context or the gate
	gEmpty   // empty value without release function
	gNoRel   // value without release function
	gErrHold // error and a release function
)

// holder runs one of the resource-holding resolvers.
type holder struct {
	x     *mcx.X
	kind  int
	res   *bst.Res
	calls mcx.Int
	curr  mcx.Int // number of the call which returned last
	rels  mcx.Box[[]func()]
	gate  chan struct{}
	mode  func(n int) int
	rc    *refcount.RefCount[int]
}

func (h *holder) get(ctx ctxT, released func()) (int, func(), error) {
	n := h.calls.Add(1)
	h.rels.Set(append(append([]func(){}, h.rels.Get()...), released))
	switch h.mode(n) {
	case gErr:
		return 0, nil, errBad
	case gErrHold:
		return 0, h.res.New(n), errBad
	case gEarly:
		released()
	case gConc:
		go released()
	case gEmpty:
		return 0, nil, nil
	case gNoRel:
		return n, nil, nil
	case gWait:
		select {
		case <-ctx.Done():
			return 0, nil, ctx.Err()
		case <-h.gate:
		}
	}
	return n, h.res.New(n), nil
}

func (h *holder) resolver(ctx ctxT) directive.Resolver {
	switch h.kind {
	case hAccess:
		return directive.NewAccessResolver(h.get)
	case hKeyed:
		return directive.NewKeyedGetterResolver(func(ctx ctxT, key string, released func()) (int, func(), error) {
			if key != "key" {
				h.x.Failf("getter called with key %q", key)
			}
			return h.get(ctx, released)
		}, "key")
	default:
		h.rc = refcount.NewRefCount(ctx, false, nil, nil, h.get)
		return directive.NewRefCountResolver(h.rc)
	}
}

// released invalidates the value of the given call of the getter (1 ...).
func (h *holder) released(n int) {
	if l := h.rels.Get(); n >= 1 && n <= len(l) {
		l[n-1]()
	}
}

func init() {
	depth := 4
	if mcx.Thorough() {
		depth = 5
	}
	mcx.Register(&mcx.Scenario{Prop: "C14", Name: "hold-seq", Weight: 2, EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		h := &holder{x: x, kind: x.Choose(nHold), res: &bst.Res{X: x, Name: "getter"}, gate: make(chan struct{}, 1)}
		modes := []int{gOk, gErr, gEarly, gConc, gWait, gErrHold}
		if h.kind == hKeyed {
			modes = append(modes, gEmpty)
		}
		if h.kind != hRefCount {
			modes = append(modes, gNoRel)
		}
		early := 0
		var last mcx.Int
		h.mode = func(int) int {
			m := modes[x.Choose(len(modes))]
			if m == gEarly || m == gConc {
				if early++; early > 2 {
					m = gOk
				}
			}
			last.Set(m)
			return m
		}
		e := bst.New(x)
		r := h.resolver(e.Ctx)
		rel := e.Provide(2, func(directive.Instance) directive.Resolver { return r })
		m := &bst.Seen{X: x}
		m.OnRem = func(any) {}
		di, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
		bst.Must(x, err)
		for i := 0; ; i++ {
			x.Wait()
			n := h.calls.Get()
			switch last.Get() {
			case gOk, gEarly, gConc:
				m.Want("resolved", n)
				h.res.Want("resolved", n)
			case gNoRel:
				m.Want("resolved", n)
				h.res.Want("resolved")
			default:
				m.Want("not resolved")
				h.res.Want("not resolved")
			}
			if i == depth-1 {
				break
			}
			fin := last.Get() == gErr || last.Get() == gErrHold || last.Get() == gEmpty
			c := x.Choose(5)
			if fin && c < 3 {
				if last.Get() != gEmpty {
					bst.NewIdle(x, di).Want("failed", true, 1)
				}
				c = 4
			}
			switch c {
			case 0: // value is not valid anymore
				if last.Get() == gWait {
					i = depth - 2
					break
				}
				h.released(n)
				x.Wait()
				if h.calls.Get() <= n {
					x.Failf("the value was released but the getter was not called again")
				}
			case 1: // an outdated value is released (again)
				h.released(n - 1)
				x.Wait()
				if h.calls.Get() != n {
					x.Failf("releasing an old value has an effect")
				}
			case 2:
				if last.Get() == gWait {
					h.gate <- struct{}{}
					last.Set(gOk)
				}
			case 3: // a second reference does not resolve again
				m2 := &bst.Seen{X: x}
				ref2 := di.AddReference(m2.Handler(), false)
				x.Wait()
				if h.calls.Get() != n {
					x.Failf("another reference caused another call of the getter")
				}
				m2.Want("second reference", m.List()...)
				ref2.Release()
			case 4:
				i = depth - 2
			}
		}
		switch x.Choose(3) {
		case 0:
			rel()
			x.Wait()
			m.Want("resolver removed")
		case 1:
			di.Close()
		case 2:
			ref.Release()
		}
		x.Wait()
		h.res.Want("released")
		n := h.calls.Get()
		h.released(n)
		h.released(n - 1)
		x.Wait()
		if h.calls.Get() != n {
			x.Failf("the getter was called after the directive was released")
		}
		ref.Release()
		e.Gone("released")
		h.res.Want("end")
		e.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C14", Name: "hold-par", Weight: 3, Body: func(x *mcx.X) {
		h := &holder{x: x, kind: x.Choose(nHold), res: &bst.Res{X: x, Name: "getter"}, gate: make(chan struct{}, 1)}
		op := x.Choose(5)
		h.mode = func(n int) int {
			if n == 1 && op == 3 {
				return gWait
			}
			if n == 2 && op == 4 {
				return gConc
			}
			return gOk
		}
		e := bst.New(x)
		r := h.resolver(e.Ctx)
		rel := e.Provide(2, func(directive.Instance) directive.Resolver { return r })
		m := &bst.Seen{X: x}
		_, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
		bst.Must(x, err)
		if op != 1 {
			x.Wait()
		}
		dct.Par(func() {
			if op == 3 {
				h.gate <- struct{}{}
			}
			h.released(1)
		}, func() {
			switch op {
			case 0:
				ref.Release()
			case 1:
				rel()
			case 2:
				h.released(1)
			case 3:
				ref.Release()
			}
		})
		x.Wait()
		n := h.calls.Get()
		switch op {
		case 2, 4:
			if op == 2 && n != 2 || op == 4 && n != 3 {
				x.Failf("the getter was called %d times", n)
			}
			m.Want("released", n)
			h.res.Want("released", n)
		case 1:
			m.Want("resolver removed")
			h.res.Want("resolver removed")
		default:
			h.res.Want("directive released")
		}
		ref.Release()
		e.Gone("released")
		h.res.Want("end")
		e.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C14", Name: "keyed-refcount-seq", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) { keyedRef(x, depth) }})
	mcx.Register(&mcx.Scenario{Prop: "C14", Name: "keyed-refcount-par", Body: func(x *mcx.X) {
		e := bst.New(x)
		built := mcx.Int{}
		rc := keyed.NewKeyedRefCount(func(k string) (keyed.Routine, int) { return nil, built.Add(1) })
		e.Provide(2, func(directive.Instance) directive.Resolver {
			return directive.NewKeyedRefCountResolver(rc, "k", nil)
		})
		use := func(id int) {
			m := &bst.Seen{X: x}
			_, ref, err := e.B.AddDirective(&dct.Uniq{ID: 2}, m.Handler())
			bst.Must(x, err)
			if id == 0 {
				m.OnRem = func(any) {}
			}
			ref.Release()
		}
		m := &bst.Seen{X: x}
		hold := x.Choose(2) == 1
		var ref directive.Reference
		if hold {
			var err error
			_, ref, err = e.B.AddDirective(&dct.Uniq{ID: 2}, m.Handler())
			bst.Must(x, err)
			x.Wait()
		}
		dct.Par(func() { use(0) }, func() { use(1) })
		x.Wait()
		if hold {
			m.Want("held", 1)
			if n := len(rc.GetKeys()); n != 1 {
				x.Failf("%d keys while referenced", n)
			}
			ref.Release()
		}
		e.Gone("released")
		if n := len(rc.GetKeys()); n != 0 {
			x.Failf("%d keys are still referenced", n)
		}
		e.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C14", Name: "retry-seq", EnvOnly: true, NoRace: true, Body: retry})
	mcx.Register(&mcx.Scenario{Prop: "C14", Name: "retry-par", Body: func(x *mcx.X) {
		op := x.Choose(3)
		e := bst.New(x)
		var calls, live mcx.Int
		rr := directive.NewRetryResolver(dct.Log(), &dct.R{X: x, ID: 1, Func: func(ctx ctxT, h directive.ResolverHandler) error {
			h.ClearValues()
			h.AddValue(calls.Add(1))
			live.Add(1)
			defer live.Add(-1)
			if calls.Get() < 3 {
				return errBad
			}
			<-ctx.Done()
			return ctx.Err()
		}}, &boff{durs: []time.Duration{time.Second, time.Second, time.Second}})
		rel := e.Provide(2, func(directive.Instance) directive.Resolver { return rr })
		m := &bst.Seen{X: x}
		di, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
		bst.Must(x, err)
		dct.Par(func() {
			time.Sleep(time.Second)
		}, func() {
			switch op {
			case 0:
				time.Sleep(time.Second)
				rel()
			case 1:
				time.Sleep(time.Second)
				ref.Release()
			case 2:
				time.Sleep(time.Second)
				di.AddReference(&dct.Ref{X: x, ID: 2}, false)
			}
		})
		n := calls.Get()
		x.Wait()
		if op != 2 {
			if live.Get() != 0 {
				x.Failf("resolver still running after it was removed")
			}
			time.Sleep(bst.Sec(10))
			if calls.Get() > n+1 {
				x.Failf("resolver was retried after it was removed")
			}
			if op == 0 {
				m.Want("resolver removed")
			}
		} else {
			time.Sleep(bst.Sec(10))
			if calls.Get() != 3 {
				x.Failf("%d calls, want 3", calls.Get())
			}
			m.Want("retried", 3)
		}
		ref.Release()
		di.Close()
		e.Gone("released")
		if live.Get() != 0 {
			x.Failf("resolver still running")
		}
		e.Finish()
	}})
}

func keyedRef(x *mcx.X, depth int) {
	e := bst.New(x)
	built := map[string]int{}
	xf := x.Choose(2) == 1
	rc := keyed.NewKeyedRefCount(func(k string) (keyed.Routine, int) {
		built[k]++
		n := built[k]
		if k == "b" {
			n += 10
		}
		if k == "empty" {
			n = 0
		}
		return nil, n
	})
	keys := []string{"a", "b", "empty"}
	build := func(_ ctxT, v int) (directive.Value, error) {
		if v == 2 {
			return nil, errBad
		}
		if v == 0 {
			return nil, nil
		}
		return fmt.Sprint("x", v), nil
	}
	if !xf {
		build = nil
	}
	e.Provide(-1, func(di directive.Instance) directive.Resolver {
		return nil
	})
	for i, k := range keys {
		e.Provide(i, func(di directive.Instance) directive.Resolver {
			return directive.NewKeyedRefCountResolver(rc, k, build)
		})
	}
	type use struct {
		k   int
		m   *bst.Seen
		di  directive.Instance
		ref directive.Reference
		v   int
	}
	var uses []*use
	for i := 0; i < depth; i++ {
		c := x.Choose(3 + len(uses))
		if c < 3 {
			u := &use{k: c, m: &bst.Seen{X: x}}
			var err error
			u.di, u.ref, err = e.B.AddDirective(&dct.Uniq{ID: c}, u.m.Handler())
			bst.Must(x, err)
			x.Wait()
			u.v = built[keys[c]]
			if c == 1 {
				u.v += 10
			}
			uses = append(uses, u)
		} else {
			u := uses[c-3]
			u.ref.Release()
			uses = append(uses[:c-3:c-3], uses[c-2:]...)
			x.Wait()
		}
		refd := map[string]bool{}
		for _, u := range uses {
			switch {
			case u.k == 2:
				u.m.Want("empty value")
			case xf && u.v == 2:
				u.m.Want("failed")
				bst.NewIdle(x, u.di).Want("failed", true, 1)
			case xf:
				u.m.Want("values", fmt.Sprint("x", u.v))
				refd[keys[u.k]] = true
			default:
				u.m.Want("values", u.v)
				refd[keys[u.k]] = true
			}
		}
		if n := len(rc.GetKeys()); n != len(refd) {
			x.Failf("keys %v are referenced, want %v", rc.GetKeys(), refd)
		}
	}
	for _, u := range uses {
		u.ref.Release()
	}
	x.Wait()
	if n := len(rc.GetKeys()); n != 0 {
		x.Failf("keys %v are still referenced", rc.GetKeys())
	}
	e.Finish()
}

// boff is a scripted backoff.
type boff struct {
	durs   []time.Duration
	i      int
	resets int
}

func (b *boff) NextBackOff() time.Duration {
	if b.i >= len(b.durs) {
		return -1
	}
	b.i++
	return b.durs[b.i-1]
}
func (b *boff) Reset() { b.i = 0; b.resets++ }

func retry(x *mcx.X) {
	e := bst.New(x)
	b := &boff{}
	nb := x.Choose(4)
	total := time.Duration(0)
	for i := 0; i < nb; i++ {
		b.durs = append(b.durs, time.Duration(1+i)*time.Second)
		total += b.durs[i]
	}
	fails := x.Choose(5)
	end := x.Choose(3) // 0: return nil, 1: hold, 2: fail with the context's error
	calls := 0
	var times []time.Duration
	start := time.Now()
	rr := directive.NewRetryResolver(dct.Log(), &dct.R{X: x, ID: 1, Func: func(ctx ctxT, h directive.ResolverHandler) error {
		h.ClearValues()
		calls++
		times = append(times, time.Since(start))
		h.AddValue(calls)
		if calls <= fails {
			return fmt.Errorf("attempt %d", calls)
		}
		switch end {
		case 1:
			h.MarkIdle(true)
			<-ctx.Done()
			return nil
		case 2:
			h.MarkIdle(true)
			<-ctx.Done()
			return context.Canceled
		}
		return nil
	}}, b)
	rel := e.Provide(2, func(directive.Instance) directive.Resolver { return rr })
	m := &bst.Seen{X: x}
	di, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
	bst.Must(x, err)
	idl := bst.NewIdle(x, di)
	stopAt := x.Choose(3)
	time.Sleep([]time.Duration{0, 2 * time.Second, 30 * time.Second}[stopAt])
	x.Wait()
	lim := []time.Duration{0, 2 * time.Second, 30 * time.Second}[stopAt]
	// the model: attempts are separated by the backoff durations
	var want []time.Duration
	t := time.Duration(0)
	state := "running"
	for k := 0; ; k++ {
		if t > lim {
			state = "waiting"
			break
		}
		want = append(want, t)
		if k == fails {
			state = "done"
			break
		}
		if k == len(b.durs) {
			state = "failed"
			break
		}
		t += b.durs[k]
	}
	if fmt.Sprint(want) != fmt.Sprint(times) {
		x.Failf("attempts at %v, want %v", times, want)
		return
	}
	switch state {
	case "done":
		idl.Want("done", true, 0)
		if end == 0 && b.resets != 1 {
			x.Failf("backoff was reset %d times", b.resets)
		}
		m.Want("done", calls)
	case "failed":
		idl.Want("no more attempts", true, 1)
		if err := errors.Join(idl.Errs.Get()...); err == nil || err.Error() != fmt.Sprint("attempt ", calls) {
			x.Failf("error is %v, want the one of the last attempt", err)
		}
	default:
		idl.Want("waiting", false, 0)
	}
	if x.Choose(2) == 1 {
		rel()
		x.Wait()
		m.Want("removed")
	}
	n := calls
	ref.Release()
	x.Wait()
	time.Sleep(time.Minute)
	if calls != n {
		x.Failf("retried after the directive was released")
	}
	e.Gone("released")
	e.Finish()
}
