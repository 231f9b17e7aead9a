package bss

import (
	"context"
	"fmt"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/aperturerobotics/util/ccontainer"
	"github.com/aperturerobotics/util/routine"
)

type tav = directive.TypedAttachedValue[int]
type xav = directive.TransformedAttachedValue[int, string]

// watcher observes one directive through a helper.
type watcher struct {
	x    *mcx.X
	kind int
	sel  int
	mode int
	cur  int // current value, 0: none
	hist []int
	act  map[int]int // active effects
	gate chan struct{}
	ref  directive.Reference
	di   directive.Instance
	ctr  *ccontainer.CContainer[int]
	rtn  *routine.StateRoutineContainer[int]
	stop context.CancelFunc
	mtx  chan struct{}
}

const (
	wCb = iota
	wCtr
	wSelect
	wRoutine
	wCh
	wLatest
	wEffect
	wXfrmEffect
	wOneEffect
	wOneXfrmEffect
	nWatch
)

var watchNames = []string{"WatchCb", "WatchCtr", "WatchSelectCb", "WatchRoutine", "WatchCh", "WatchLatestCb", "WatchEffect", "WatchTransformEffect", "OneOffWatchEffect", "OneOffWatchTransformEffect"}

// accept: values divisible by 5 are rejected where the helper allows that.
func accept(v int) bool { return v%5 != 0 }

func (w *watcher) lock()   { w.mtx <- struct{}{} }
func (w *watcher) unlock() { <-w.mtx }

// set records that the current value changed.
func (w *watcher) set(v int) {
	w.lock()
	defer w.unlock()
	w.x.Ev("cur", w.kind, v, 0)
	if n := len(w.hist); n != 0 && w.hist[n-1] == v || n == 0 && v == 0 && w.kind != wCh && w.kind != wLatest {
		w.x.Failf("%s: callback called with %d again (history %v)", watchNames[w.kind], v, w.hist)
	}
	w.hist = append(w.hist, v)
	w.cur = v
}

// effect starts the effect of a value and returns its release function.
func (w *watcher) effect(v int) func() {
	w.lock()
	defer w.unlock()
	w.x.Ev("on", w.kind, v, 0)
	w.act[v]++
	if w.act[v] > 1 {
		w.x.Failf("%s: effect of %d is active %d times", watchNames[w.kind], v, w.act[v])
	}
	if (w.kind == wOneEffect || w.kind == wOneXfrmEffect) && len(w.act) > 1 {
		w.x.Failf("%s: effects of several values are active: %v", watchNames[w.kind], w.act)
	}
	done := false
	return func() {
		w.lock()
		defer w.unlock()
		w.x.Ev("off", w.kind, v, 0)
		if done {
			w.x.Failf("%s: release function of %d called twice", watchNames[w.kind], v)
		}
		done = true
		w.act[v]--
		if w.act[v] == 0 {
			delete(w.act, v)
		}
	}
}

// pick is the select function: 0 lowest id (nil), 1 greatest value, 2 none unless two values.
func pick(sel int, vals []int) int {
	switch {
	case len(vals) == 0:
		return -1
	case sel == 0:
		return 0
	case sel == 1:
		b := 0
		for i, v := range vals {
			if v > vals[b] {
				b = i
			}
		}
		return b
	}
	if len(vals) < 2 {
		return -1
	}
	return 1
}

func (w *watcher) checkSorted(ids []uint32) {
	for i := 1; i < len(ids); i++ {
		if ids[i-1] >= ids[i] {
			w.x.Failf("%s: values passed to the select function are not sorted by id: %v", watchNames[w.kind], ids)
		}
	}
}

// newWatcher starts the helper; mode is for transforms: 0 immediate, 1 gated.
func newWatcher(x *mcx.X, e *bst.Env, kind, sel, mode int) *watcher {
	w := &watcher{x: x, kind: kind, sel: sel, mode: mode, act: map[int]int{}, gate: make(chan struct{}), mtx: make(chan struct{}, 1)}
	dir := &dct.Dir{ID: 1, Class: 1}
	var err error
	cb := func(v tav) {
		if v == nil {
			w.set(0)
		} else {
			w.set(v.GetValue())
		}
	}
	ctx, cancel := context.WithCancel(e.Ctx)
	w.stop = cancel
	xfrm := func(ctx context.Context, v tav) (string, bool, error) {
		if w.mode == 1 {
			select {
			case <-w.gate:
			case <-ctx.Done():
				return "", false, context.Canceled
			}
		}
		return fmt.Sprint("x", v.GetValue()), accept(v.GetValue()), nil
	}
	xeffect := func(v xav) func() {
		if v == nil {
			x.Failf("%s: effect called with nil", watchNames[w.kind])
			return nil
		}
		if v.GetTransformedValue() != fmt.Sprint("x", v.GetValue()) {
			x.Failf("%s: transformed value %v does not belong to %v", watchNames[w.kind], v.GetTransformedValue(), v.GetValue())
		}
		return w.effect(v.GetValue())
	}
	switch kind {
	case wCb:
		w.di, w.ref, err = bus.ExecOneOffWatchCb(func(v tav) bool {
			if v != nil && !accept(v.GetValue()) {
				return false
			}
			cb(v)
			return true
		}, e.B, dir)
	case wCtr:
		w.ctr = ccontainer.NewCContainer(0)
		w.di, w.ref, err = bus.ExecOneOffWatchCtr(w.ctr, e.B, dir)
	case wSelect:
		var f func([]tav) int
		if sel != 0 {
			f = func(vals []tav) int {
				var l []int
				var ids []uint32
				for _, v := range vals {
					l = append(l, v.GetValue())
					ids = append(ids, v.GetValueID())
				}
				w.checkSorted(ids)
				return pick(sel, l)
			}
		}
		w.di, w.ref, err = bus.ExecOneOffWatchSelectCb(e.B, dir, f, cb)
	case wRoutine:
		w.rtn = routine.NewStateRoutineContainer[int](nil)
		w.di, w.ref, err = bus.ExecOneOffWatchRoutine(w.rtn, e.B, dir)
	case wCh:
		var ch <-chan tav
		ch, w.di, w.ref, err = bus.ExecOneOffWatchCh[int](e.B, dir)
		go func() {
			for {
				select {
				case v := <-ch:
					w.lock()
					w.cur = 0
					if v != nil {
						w.cur = v.GetValue()
					}
					w.unlock()
				case <-ctx.Done():
					return
				}
			}
		}()
	case wLatest:
		go func() {
			lerr := bus.ExecOneOffWatchLatestCb(ctx, e.B, dir, func(di directive.Instance, ref directive.Reference) error {
				w.di, w.ref = di, ref
				return nil
			}, func(v tav) error {
				w.lock()
				w.cur = 0
				if v != nil {
					w.cur = v.GetValue()
				}
				w.unlock()
				return nil
			})
			if lerr != context.Canceled {
				x.Failf("ExecOneOffWatchLatestCb returned %v", lerr)
			}
			x.Ev("latest-returned", 0, 0, 0)
		}()
		x.Wait()
	case wEffect:
		w.di, w.ref, err = bus.ExecWatchEffect(func(v tav) func() { return w.effect(v.GetValue()) }, e.B, dir)
	case wXfrmEffect:
		w.di, w.ref, err = bus.ExecWatchTransformEffect(ctx, xfrm, xeffect, e.B, dir)
	case wOneEffect:
		w.di, w.ref, err = bus.ExecOneOffWatchEffect(func(v tav) func() { return w.effect(v.GetValue()) }, e.B, dir)
	case wOneXfrmEffect:
		var f func([]xav) int
		if sel != 0 {
			f = func(vals []xav) int {
				var l []int
				var ids []uint32
				for _, v := range vals {
					l = append(l, v.GetValue())
					ids = append(ids, v.GetValueID())
				}
				w.checkSorted(ids)
				return pick(sel, l)
			}
		}
		w.di, w.ref, err = bus.ExecOneOffWatchTransformEffect(ctx, xfrm, f, xeffect, e.B, dir)
	}
	bst.Must(x, err)
	return w
}

// check compares the watcher to the values present, in order of their ids.
func (w *watcher) check(what string, present []any) {
	w.lock()
	defer w.unlock()
	x, name := w.x, watchNames[w.kind]
	var ints, acc []int
	for _, v := range present {
		if n, ok := v.(int); ok {
			ints = append(ints, n)
			if accept(n) {
				acc = append(acc, n)
			}
		}
	}
	in := func(v int, l []int) bool {
		for _, u := range l {
			if u == v {
				return true
			}
		}
		return false
	}
	cur := w.cur
	switch w.kind {
	case wCtr:
		cur = w.ctr.GetValue()
	case wRoutine:
		cur = w.rtn.GetState()
	}
	switch w.kind {
	case wCb, wCtr, wRoutine, wCh, wLatest:
		l := ints
		if w.kind == wCb {
			l = acc
		}
		if cur == 0 && len(l) != 0 || cur != 0 && !in(cur, l) {
			x.Failf("%s %s: current value is %d, the directive has %v", name, what, cur, l)
		}
	case wSelect:
		want := 0
		if i := pick(w.sel, ints); i >= 0 {
			want = ints[i]
		}
		if cur != want {
			x.Failf("%s %s: current value is %d, selected is %d of %v", name, what, cur, want, ints)
		}
	case wEffect, wXfrmEffect:
		l := ints
		if w.kind == wXfrmEffect {
			l = acc
		}
		ok := len(l) == len(w.act)
		for _, v := range l {
			ok = ok && w.act[v] == 1
		}
		if !ok {
			x.Failf("%s %s: active effects %v, values %v", name, what, w.act, l)
		}
	case wOneEffect:
		if len(w.act) > 1 || len(w.act) == 0 && len(ints) != 0 {
			x.Failf("%s %s: active effects %v, values %v", name, what, w.act, ints)
		}
		for v := range w.act {
			if !in(v, ints) {
				x.Failf("%s %s: active effects %v, values %v", name, what, w.act, ints)
			}
		}
	case wOneXfrmEffect:
		want := 0
		if i := pick(w.sel, acc); i >= 0 {
			want = acc[i]
		}
		if len(w.act) > 1 || (want == 0) != (len(w.act) == 0) || want != 0 && w.act[want] != 1 {
			x.Failf("%s %s: active effects %v, selected is %d of %v", name, what, w.act, want, acc)
		}
	}
}

// newVal: the n-th value; every third one is rejected by the filters.
func newVal(n int) int {
	if n%3 == 1 {
		return 5 * (n + 1)
	}
	return 100 - 7*n - b2i((100-7*n)%5 == 0)
}

func watchEnd(x *mcx.X, e *bst.Env, w *watcher, srcs ...*bst.Src) {
	switch x.Choose(2) {
	case 0:
		w.di.Close()
		x.Wait()
		w.check("closed", nil)
		w.stop()
	case 1:
		if w.kind == wLatest {
			w.stop()
			x.Wait()
			if dct.Count(x, "latest-returned", 0, -1) != 1 {
				x.Failf("ExecOneOffWatchLatestCb did not return")
			}
		} else {
			w.ref.Release()
			w.stop()
		}
		e.Gone("released")
	}
	x.Wait()
	e.Finish()
}

func init() {
	depth := 5
	if mcx.Thorough() {
		depth = 7
	}
	for kind := 0; kind < nWatch; kind++ {
		// every sequence of value changes
		mcx.Register(&mcx.Scenario{Prop: "C11", Name: "seq-" + watchNames[kind], EnvOnly: true, NoRace: true, MapOrder: true, Body: func(x *mcx.X) {
			e := bst.New(x)
			s := e.NewSrc(0, 1)
			sel, mode := 0, 0
			if kind == wSelect || kind == wOneXfrmEffect {
				sel = x.Choose(3)
			}
			w := newWatcher(x, e, kind, sel, mode)
			x.Wait()
			n := 0
			var sharp []any
			for i := 0; i < depth; i++ {
				pres := s.Present()
				c := x.Choose(4 + len(pres))
				switch {
				case c == 0:
					i = depth
				case c == 1:
					s.Add(newVal(n))
					n++
				case c == 2:
					s.Add(fmt.Sprint("s", n))
					n++
				case c == 3:
					if len(pres) != 0 {
						s.Clear()
					}
				default:
					s.Remove(pres[c-4])
				}
				x.Wait()
				w.check(fmt.Sprint("after ", i), s.Present())
			}
			_ = sharp
			watchEnd(x, e, w, s)
		}})
		// concurrent changes by two resolvers
		mcx.Register(&mcx.Scenario{Prop: "C11", Core: true, Name: "par-" + watchNames[kind], MapOrder: true, Body: func(x *mcx.X) {
			e := bst.New(x)
			s0, s1 := e.NewSrc(0, 1), e.NewSrc(1, 1)
			sel, mode := 0, 0
			if kind == wSelect || kind == wOneXfrmEffect {
				sel = x.Choose(2)
			}
			if kind == wXfrmEffect || kind == wOneXfrmEffect {
				mode = x.Choose(2)
			}
			op := x.Choose(3)
			w := newWatcher(x, e, kind, sel, mode)
			x.Wait()
			fns := []func(){func() {
				s0.Add(11)
				s0.Add(5)
				if op > 0 {
					s0.Remove(11)
				}
			}, func() {
				s1.Add(13)
				switch op {
				case 0:
					s1.Remove(13)
				case 1:
					s1.Remove(13)
					s1.Add(12)
				}
			}}
			if mode == 1 {
				fns = append(fns, func() { close(w.gate) })
			}
			dct.Par(fns...)
			x.Wait()
			w.check("at the end", bst.Present(s0, s1))
			watchEnd(x, e, w, s0, s1)
		}})
	}
	// leaving ExecOneOffWatchLatestCb by any way releases the directive
	mcx.Register(&mcx.Scenario{Prop: "C11", Name: "latest-return", Body: func(x *mcx.X) {
		e := bst.New(x)
		s := e.NewSrc(0, 1)
		_, keep, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 1}, nil)
		bst.Must(x, err)
		x.Wait()
		how := x.Choose(3)
		ctx, cancel := context.WithCancel(e.Ctx)
		defer cancel()
		var got error
		go func() {
			got = bus.ExecOneOffWatchLatestCb(ctx, e.B, &dct.Dir{ID: 1, Class: 1}, func(di directive.Instance, ref directive.Reference) error {
				if how == 0 {
					return bst.ErrRes
				}
				return nil
			}, func(v tav) error {
				x.Ev("val", 0, 0, 0)
				if how == 1 {
					return errFilter
				}
				return nil
			})
			x.Ev("ret", 0, 0, 0)
		}()
		dct.Par(func() { s.Add(1); s.Remove(1); s.Add(2) }, func() {
			if how == 2 {
				cancel()
			}
		})
		x.Wait()
		if dct.Count(x, "ret", 0, -1) != 1 {
			x.Failf("ExecOneOffWatchLatestCb did not return")
		} else if want := []error{bst.ErrRes, errFilter, context.Canceled}[how]; got != want {
			x.Failf("ExecOneOffWatchLatestCb returned %v, want %v", got, want)
		}
		keep.Release()
		e.Gone("returned")
		e.Finish()
	}})
}
