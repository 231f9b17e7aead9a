// Package rss holds the scenarios on the resolvers of package directive.
package rss

import (
	"context"
	"errors"
	"fmt"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/aperturerobotics/util/ccontainer"
)

type ctxT = context.Context

var errBad = errors.New("bad value")

// bad is the value for which a transform function fails.
const bad = 13

func accept(n int) bool { return n%5 != 0 }

// newVal: every third value is not accepted by the transform functions.
func newVal(n int) int {
	if n%3 == 1 {
		return 5 + 5*n
	}
	return n*5 + 1
}

const (
	tNil = iota
	tXfrm
	tTyped
	nT
)

func mkTransform(x *mcx.X, e *bst.Env, kind int, res, unk *bst.Res) directive.Resolver {
	dir := &dct.Dir{ID: 1, Class: 1}
	xfrm := func(v any) (string, func(), bool, error) {
		n, ok := v.(int)
		if !ok {
			return "", nil, false, nil
		}
		rel := res.New(v)
		if n == bad {
			return "", rel, false, errBad
		}
		if !accept(n) {
			return "", rel, false, nil
		}
		return fmt.Sprint("x", n), rel, true, nil
	}
	switch kind {
	case tNil:
		return directive.NewTransformResolver[int](e.B, dir, nil)
	case tXfrm:
		return directive.NewTransformResolver(e.B, dir, func(_ ctxT, v directive.AttachedValue) (string, func(), bool, error) {
			return xfrm(v.GetValue())
		})
	default:
		rels := map[uint32]func(){}
		return directive.NewTypedTransformResolver(e.B, dir, func(_ ctxT, v directive.TypedAttachedValue[int]) (string, func(), bool, error) {
			return xfrm(v.GetValue())
		}, directive.NewCallbackHandler(func(v directive.AttachedValue) {
			rels[v.GetValueID()] = unk.New(v.GetValue())
		}, func(v directive.AttachedValue) {
			rels[v.GetValueID()]()
			delete(rels, v.GetValueID())
		}, func() {
			for k, r := range rels {
				r()
				delete(rels, k)
			}
		}))
	}
}

// image is what a transform resolver makes of the source values.
func image(kind int, vals []any) (out, held, unk []any) {
	for _, v := range vals {
		n, ok := v.(int)
		switch {
		case !ok:
			unk = append(unk, v)
		case kind == tNil:
			out = append(out, n)
		case accept(n):
			out = append(out, fmt.Sprint("x", n))
			held = append(held, n)
		}
	}
	if kind != tTyped {
		unk = nil
	}
	return
}

func init() {
	depth := 4
	if mcx.Thorough() {
		depth = 5
	}
	mcx.Register(&mcx.Scenario{Prop: "C13", Name: "transform-seq", Weight: 2, EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		kind := x.Choose(nT)
		e := bst.New(x)
		s := e.NewSrc(0, 1)
		res, unk := &bst.Res{X: x, Name: "transformed values"}, &bst.Res{X: x, Name: "values of unknown type"}
		r := mkTransform(x, e, kind, res, unk)
		rel := e.Provide(2, func(directive.Instance) directive.Resolver { return r })
		m := &bst.Seen{X: x}
		di, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
		bst.Must(x, err)
		idl := bst.NewIdle(x, di)
		x.Wait()
		n, idle, dead, strN := 0, false, false, 0
		srcDi := func() directive.Instance {
			for _, d := range e.C.GetDirectives() {
				if bst.Class(d.GetDirective()) == 1 {
					return d
				}
			}
			return nil
		}
		var keep directive.Reference
		for i := 0; i < depth && !dead; i++ {
			pres := s.Present()
			c := x.Choose(10 + len(pres))
			switch {
			case c == 0:
				i = depth
			case c == 1:
				s.Add(newVal(n))
				n++
			case c == 2:
				s.Add(fmt.Sprint("s", strN))
				strN++
			case c == 3:
				s.Clear()
			case c == 4:
				idle = !idle
				s.Idle(idle)
			case c == 5:
				s.Add(bad)
				dead = kind != tNil
			case c == 6:
				s.Return(bst.ErrRes)
				dead = true
			case c == 7:
				srcDi().Close()
				dead = true
			case c == 8:
				s.Return(nil)
				idle = true
				if len(s.Present()) == 0 {
					i = depth
				}
				i = depth
			case c == 9: // the source remains while the mirror is released
				if keep == nil {
					_, keep, err = e.B.AddDirective(&dct.Dir{ID: 3, Class: 1}, nil)
					bst.Must(x, err)
				}
			default:
				s.Remove(pres[c-10])
			}
			x.Wait()
			if dead {
				break
			}
			out, held, un := image(kind, s.Present())
			m.Want("values changed", out...)
			res.Want("values changed", held...)
			unk.Want("values changed", un...)
			idl.Want("source changed", idle, 0)
		}
		if dead {
			m.Want("failed")
			res.Want("failed")
			idl.Want("failed", true, 1)
		}
		switch x.Choose(3) {
		case 0:
			rel()
			x.Wait()
			m.Want("resolver removed")
			ref.Release()
		case 1:
			di.Close()
		case 2:
			ref.Release()
		}
		x.Wait()
		res.Want("released")
		if keep != nil {
			keep.Release()
		}
		e.Gone("released")
		e.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C13", Name: "transform-par", Core: true, Weight: 3, MapOrder: true, Body: func(x *mcx.X) {
		kind := []int{tXfrm, tTyped}[x.Choose(2)]
		op := x.Choose(6)
		e := bst.New(x)
		s := e.NewSrc(0, 1)
		res, unk := &bst.Res{X: x, Name: "transformed values"}, &bst.Res{X: x, Name: "values of unknown type"}
		r := mkTransform(x, e, kind, res, unk)
		rel := e.Provide(2, func(directive.Instance) directive.Resolver { return r })
		m := &bst.Seen{X: x}
		di, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
		bst.Must(x, err)
		var keep directive.Reference
		if op != 3 {
			_, keep, err = e.B.AddDirective(&dct.Dir{ID: 3, Class: 1}, nil)
			bst.Must(x, err)
		}
		x.Wait()
		s.Add(1)
		x.Wait()
		m2 := &bst.Seen{X: x}
		var idl *bst.Idle
		dct.Par(func() {
			s.Add(2)
			s.Idle(true)
			s.Remove(1)
			s.Add(3)
		}, func() {
			switch op {
			case 0:
				m2.X = x
				di.AddReference(m2.Handler(), false)
				idl = bst.NewIdle(x, di)
			case 1:
				rel()
			case 2:
				ref.Release()
			case 3:
				for _, d := range e.C.GetDirectives() {
					if bst.Class(d.GetDirective()) == 1 {
						d.Close()
					}
				}
			case 4:
				s.Return(bst.ErrRes)
			case 5:
				s.Add(bad)
			}
		})
		x.Wait()
		out, held, _ := image(kind, s.Present())
		switch op {
		case 0:
			m.Want("end", out...)
			m2.Want("second reference", out...)
			res.Want("end", held...)
			idl.Want("end", true, 0)
		case 4, 5:
			m.Want("failed")
			res.Want("failed")
			if op == 4 {
				bst.NewIdle(x, di).Want("failed", true, 1)
			}
		default:
			if op != 2 {
				m.Want("end")
			}
			res.Want("end")
		}
		di.Close()
		x.Wait()
		res.Want("closed")
		if keep != nil {
			keep.Release()
		}
		e.Gone("released")
		e.Finish()
	}})

	// watchable containers
	const nW = 3
	mkWatch := func(kind int, ctr *ccontainer.CContainer[int]) directive.Resolver {
		switch kind {
		case 0:
			return directive.NewWatchableResolver[int](ctr)
		case 1:
			return directive.NewWatchableTransformResolver(ctr, func(_ ctxT, v int) (string, bool, error) {
				if v == bad {
					return "", false, errBad
				}
				return fmt.Sprint("x", v), accept(v), nil
			})
		default:
			return directive.NewGetterResolver(func(ctx ctxT) (string, error) {
				v, err := ctr.WaitValue(ctx, nil)
				if v == bad {
					return "", errBad
				}
				return fmt.Sprint("x", v), err
			})
		}
	}
	wImage := func(kind, v int) []any {
		switch {
		case v == 0 || kind == 1 && (!accept(v)):
			return nil
		case kind == 0:
			return []any{v}
		}
		return []any{fmt.Sprint("x", v)}
	}
	mcx.Register(&mcx.Scenario{Prop: "C13", Name: "watchable-seq", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		kind := x.Choose(nW)
		ctr := ccontainer.NewCContainer(0)
		e := bst.New(x)
		r := mkWatch(kind, ctr)
		rel := e.Provide(2, func(directive.Instance) directive.Resolver { return r })
		m := &bst.Seen{X: x}
		vals := []int{0, 1, 2, 5, bad}
		cur := vals[x.Choose(len(vals))]
		ctr.SetValue(cur)
		di, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
		bst.Must(x, err)
		first := 0
		dead := false
		for i := 0; ; i++ {
			x.Wait()
			if first == 0 {
				first = cur
			}
			if cur == bad && kind == 1 || first == bad && kind == 2 {
				dead = true
			}
			switch {
			case dead:
				m.Want("after an error")
				bst.NewIdle(x, di).Want("after an error", true, 1)
			case kind == 2:
				m.Want("getter", wImage(kind, first)...)
			default:
				m.Want("value changed", wImage(kind, cur)...)
			}
			if i == depth {
				break
			}
			cur = vals[x.Choose(len(vals))]
			ctr.SetValue(cur)
		}
		rel()
		x.Wait()
		m.Want("resolver removed")
		ref.Release()
		e.Gone("released")
		e.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C13", Name: "watchable-par", Body: func(x *mcx.X) {
		kind := x.Choose(2)
		op := x.Choose(3)
		ctr := ccontainer.NewCContainer(0)
		e := bst.New(x)
		r := mkWatch(kind, ctr)
		rel := e.Provide(2, func(directive.Instance) directive.Resolver { return r })
		m := &bst.Seen{X: x}
		var ref directive.Reference
		dct.Par(func() {
			ctr.SetValue(1)
			ctr.SetValue(0)
			ctr.SetValue(2)
			ctr.SetValue(5)
			ctr.SetValue(3)
		}, func() {
			var err error
			_, ref, err = e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
			bst.Must(x, err)
			switch op {
			case 1:
				rel()
			case 2:
				ref.Release()
				m = &bst.Seen{X: x}
				_, ref, err = e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
				bst.Must(x, err)
			}
		})
		x.Wait()
		if op == 1 {
			m.Want("resolver removed")
		} else {
			m.Want("end", wImage(kind, 3)...)
		}
		ref.Release()
		e.Gone("released")
		e.Finish()
	}})
	mcx.Register(&mcx.Scenario{Prop: "C13", Name: "unique-seq", EnvOnly: true, NoRace: true, MapOrder: true, Body: unique})
	mcx.Register(&mcx.Scenario{Prop: "C13", Name: "value-seq", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		var vals []int
		var want []any
		for n := x.Choose(4); len(vals) < n; {
			v := x.Choose(2)
			vals = append(vals, v)
			want = append(want, v)
		}
		e := bst.New(x)
		var r directive.Resolver = directive.NewValueResolver(vals)
		rel := e.Provide(2, func(directive.Instance) directive.Resolver { return r })
		dir := &dct.Dir{ID: 2, Class: 2}
		dir.Opts.UnrefDisposeDur = bst.Sec(1)
		m := &bst.Seen{X: x}
		_, ref, err := e.B.AddDirective(dir, m.Handler())
		bst.Must(x, err)
		x.Wait()
		m.Want("added", want...)
		for i := 0; i < 3; i++ {
			switch x.Choose(3) {
			case 0: // released and added again before it is disposed
				ref.Release()
			case 1:
				rel()
				rel = e.Provide(2, func(directive.Instance) directive.Resolver { return r })
			case 2:
			}
			x.Wait()
			n := &bst.Seen{X: x}
			_, ref2, err := e.B.AddDirective(dir, n.Handler())
			bst.Must(x, err)
			ref.Release()
			ref = ref2
			x.Wait()
			n.Want("again", want...)
		}
		ref.Release()
		e.Done()
	}})
}

type kv struct {
	k, v int
	alt  int // not compared
}

// unique runs the list and map resolvers against a model.
func unique(x *mcx.X) {
	list, xf := x.Choose(2) == 1, x.Choose(2) == 1
	e := bst.New(x)
	cmp := func(k int, a, b kv) bool { return a.v == b.v }
	getKey := func(v kv) int { return v.k }
	xfrm := func(k int, v kv) (string, bool) { return fmt.Sprint(v), v.v != 2 }
	type api struct {
		set, app, remVals func(...kv)
		remKeys           func(...int)
		keys              func() []int
		vals              func() []kv
	}
	m := &bst.Seen{X: x}
	var a mcx.Box[*api]
	gate := make(chan struct{})
	toMap := func(l []kv) map[int]kv {
		o := map[int]kv{}
		for _, v := range l {
			o[v.k] = v
		}
		return o
	}
	e.Provide(2, func(directive.Instance) directive.Resolver {
		return directive.NewFuncResolver(func(ctx ctxT, h directive.ResolverHandler) error {
			switch {
			case list && !xf:
				r := directive.NewUniqueListResolver(getKey, cmp, h)
				a.Set(&api{r.SetValues, r.AppendValues, r.RemoveValues, r.RemoveKeys, r.GetKeys, r.GetValues})
			case list:
				r := directive.NewUniqueListXfrmResolver(getKey, cmp, xfrm, h)
				a.Set(&api{r.SetValues, r.AppendValues, r.RemoveValues, r.RemoveKeys, r.GetKeys, r.GetValues})
			case !xf:
				r := directive.NewUniqueMapResolver(cmp, h)
				a.Set(&api{func(l ...kv) { r.SetValues(toMap(l)) }, func(l ...kv) { r.AppendValues(toMap(l)) }, nil, r.RemoveKeys, r.GetKeys, r.GetValues})
			default:
				r := directive.NewUniqueMapXfrmResolver(cmp, xfrm, h)
				a.Set(&api{func(l ...kv) { r.SetValues(toMap(l)) }, func(l ...kv) { r.AppendValues(toMap(l)) }, nil, r.RemoveKeys, r.GetKeys, r.GetValues})
			}
			close(gate)
			<-ctx.Done()
			return nil
		})
	})
	_, ref, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 2}, m.Handler())
	bst.Must(x, err)
	<-gate
	r := a.Get()
	model := map[int]kv{}
	put := func(l []kv) {
		for _, v := range l {
			if o, ok := model[v.k]; !ok || o.v != v.v {
				model[v.k] = v
			}
		}
	}
	depth := 3
	if mcx.Thorough() {
		depth = 4
	}
	for i := 0; i < depth; i++ {
		gen := func() []kv {
			var l []kv
			n := x.Choose(3)
			used := map[int]bool{}
			for j := 0; j < n; j++ {
				c := x.Choose(6)
				v := kv{k: c % 2, v: 1 + c/2, alt: i*10 + j}
				if !list && used[v.k] {
					continue
				}
				used[v.k] = true
				l = append(l, v)
			}
			return l
		}
		op := x.Choose(4)
		if r.remVals == nil && op == 3 {
			op = 2
		}
		before := m.N.Get()
		switch op {
		case 0:
			l := gen()
			r.set(l...)
			seen := map[int]bool{}
			for _, v := range l {
				seen[v.k] = true
			}
			put(l)
			for k := range model {
				if !seen[k] {
					delete(model, k)
				}
			}
		case 1:
			l := gen()
			r.app(l...)
			put(l)
		case 2:
			k := x.Choose(3)
			r.remKeys(k)
			delete(model, k)
		case 3:
			k := x.Choose(3)
			r.remVals(kv{k: k, v: 9})
			delete(model, k)
		}
		x.Wait()
		_ = before
		var want, keys, vals []any
		for k, v := range model {
			keys, vals = append(keys, k), append(vals, v)
			if !xf {
				want = append(want, v)
			} else if s, ok := xfrm(k, v); ok {
				want = append(want, s)
			}
		}
		m.Want("unique values changed", want...)
		var gk, gv []any
		for _, k := range r.keys() {
			gk = append(gk, k)
		}
		for _, v := range r.vals() {
			gv = append(gv, v)
		}
		if bst.Strs(gk) != bst.Strs(keys) || bst.Strs(gv) != bst.Strs(vals) {
			x.Failf("keys %v values %v, want %v and %v", gk, gv, keys, vals)
		}
	}
	ref.Release()
	e.Gone("released")
	e.Finish()
}
