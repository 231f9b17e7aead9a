package dcs

import (
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

func init() {
	mcx.Register(&mcx.Scenario{Prop: "C01", Name: "add-add-equiv", Body: func(x *mcx.X) {
		e := dct.New(x)
		h := &dct.H{X: x, ID: 1, Func: func(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
			return directive.R(&dct.R{X: x, ID: 1, Func: dct.Hold(10)}, nil)
		}}
		_, err := e.C.AddHandler(h)
		must(x, err)
		n := 3
		dis := make([]directive.Instance, n)
		refs := make([]directive.Reference, n)
		add := func(i int) func() {
			return func() {
				di, ref, err := e.C.AddDirective(&dct.Dir{ID: i, Class: 1}, &dct.Ref{X: x, ID: i})
				must(x, err)
				dis[i], refs[i] = di, ref
			}
		}
		dct.Par(add(0), add(1), add(2))
		x.Wait()
		if dis[0] != dis[1] || dis[1] != dis[2] {
			x.Failf("equivalent directives got different instances")
		}
		if k := len(e.C.GetDirectives()); k != 1 {
			x.Failf("%d live instances of equivalent directives", k)
		}
		for i := 0; i < n; i++ {
			st := dct.CheckRef(x, i)
			if !dct.Eq(st.Vals(), []int{10}) {
				x.Failf("ref %d has values %v", i, st.Vals())
			}
		}
		for i := range refs {
			refs[i].Release()
		}
		x.Wait()
		if k := len(e.C.GetDirectives()); k != 0 {
			x.Failf("%d live instances after all references were released", k)
		}
		e.Done()
	}})
}

func live(e *dct.Env, class int) (out []directive.Instance) {
	for _, d := range e.C.GetDirectives() {
		if dd, ok := d.GetDirective().(*dct.Dir); ok && dd.Class == class {
			out = append(out, d)
		}
	}
	return
}

func holdHandler(x *mcx.X, id int, vals ...int) *dct.H {
	return &dct.H{X: x, ID: id, Func: func(_ ctxT, di directive.Instance) ([]directive.Resolver, error) {
		return directive.R(&dct.R{X: x, ID: id, Func: dct.Hold(vals...)}, nil)
	}}
}

func init() {
	// an old revision exists, two newer equivalent revisions arrive at once
	mcx.Register(&mcx.Scenario{Prop: "C01", Name: "supersede-race", Weight: 2, Body: func(x *mcx.X) {
		e := dct.New(x)
		_, err := e.C.AddHandler(holdHandler(x, 1, 10))
		must(x, err)
		di0, ref0, err := e.C.AddDirective(&dct.Dir{ID: 0, Class: 1, Rev: 0, Super: true}, &dct.Ref{X: x, ID: 0})
		must(x, err)
		other, refo, err := e.C.AddDirective(&dct.Dir{ID: 9, Class: 2, Rev: 0, Super: true}, &dct.Ref{X: x, ID: 9})
		must(x, err)
		x.Wait()
		dis := make([]directive.Instance, 3)
		refs := make([]directive.Reference, 3)
		add := func(i int) func() {
			return func() {
				di, ref, err := e.C.AddDirective(&dct.Dir{ID: i, Class: 1, Rev: 1, Super: true}, &dct.Ref{X: x, ID: i})
				must(x, err)
				dis[i], refs[i] = di, ref
			}
		}
		dct.Par(add(1), add(2))
		x.Wait()
		l := live(e, 1)
		if len(l) != 1 {
			x.Failf("%d live instances of equivalent directives", len(l))
		} else if dis[1] != l[0] || dis[2] != l[0] || l[0] == di0 {
			x.Failf("adds do not share the surviving instance")
		}
		if !dct.Canceled(di0.GetContext()) {
			x.Failf("superseded instance is still running")
		}
		if st := dct.CheckRef(x, 0); st.Disp != 1 {
			x.Failf("reference of the superseded instance was told %d times that it is disposed", st.Disp)
		}
		for i := 1; i < 3; i++ {
			if st := dct.CheckRef(x, i); !dct.Eq(st.Vals(), []int{10}) || st.Disp != 0 {
				x.Failf("ref %d: values %v disposed %d", i, st.Vals(), st.Disp)
			}
		}
		if !e.Live(other) || dct.Canceled(other.GetContext()) {
			x.Failf("unrelated directive was removed")
		}
		if st := dct.CheckRef(x, 9); !dct.Eq(st.Vals(), []int{10}) || st.Disp != 0 {
			x.Failf("unrelated ref: values %v disposed %d", st.Vals(), st.Disp)
		}
		ref0.Release()
		refs[1].Release()
		refs[2].Release()
		refo.Release()
		x.Wait()
		if k := len(e.C.GetDirectives()); k != 0 {
			x.Failf("%d live instances after all references were released", k)
		}
		e.Done()
	}})
	// superseding add while the superseded instance's callbacks change the set of directives
	mcx.Register(&mcx.Scenario{Prop: "C01", Name: "supersede-many", Body: func(x *mcx.X) {
		e := dct.New(x)
		_, err := e.C.AddHandler(holdHandler(x, 1, 10))
		must(x, err)
		mode := x.Choose(4)
		// layout: positions of the superseded directives among unrelated ones
		layout := x.Choose(6)
		pat := [][]int{{1, 2, 101}, {101, 1, 2}, {1, 101, 2}, {1, 2, 3}, {101, 1, 102}, {1, 101, 102}}[layout]
		type ent struct {
			di  directive.Instance
			ref directive.Reference
		}
		ents := make([]ent, len(pat))
		var extra directive.Reference
		for i, c := range pat {
			r := &dct.Ref{X: x, ID: i}
			i := i
			switch mode {
			case 1: // disposal of one releases the following one
				r.OnDisp = func() {
					if j := (i + 1) % len(pat); ents[j].ref != nil {
						ents[j].ref.Release()
						ents[j].ref = nil
					}
				}
			case 2: // disposal adds another, unrelated directive
				r.OnDisp = func() {
					if i == 0 || extra == nil {
						_, rr, err := e.C.AddDirective(&dct.Dir{ID: 50, Class: 150}, nil)
						must(x, err)
						extra = rr
					}
				}
			case 3: // values removed: another directive is released
				r.OnRem = func(directive.AttachedValue) {
					if j := (i + 2) % len(pat); ents[j].ref != nil {
						ents[j].ref.Release()
						ents[j].ref = nil
					}
				}
			}
			di, ref, err := e.C.AddDirective(&dct.Dir{ID: i, Class: c, Rev: 0, Super: true}, r)
			must(x, err)
			ents[i] = ent{di, ref}
		}
		x.Wait()
		dn, rn, err := e.C.AddDirective(&dct.Dir{ID: 20, Class: 5, Rev: 3, Super: true, Wild: true}, &dct.Ref{X: x, ID: 20})
		must(x, err)
		x.Wait()
		if !e.Live(dn) || dct.Canceled(dn.GetContext()) {
			x.Failf("new directive is not live")
		}
		for i, c := range pat {
			st := dct.CheckRef(x, i)
			if c < 100 {
				if e.Live(ents[i].di) || !dct.Canceled(ents[i].di.GetContext()) {
					x.Failf("mode %d layout %d: superseded directive %d is still live", mode, layout, i)
				}
				if ents[i].ref != nil && st.Disp != 1 {
					x.Failf("mode %d layout %d: superseded ref %d told %d times", mode, layout, i, st.Disp)
				}
			} else {
				gone := ents[i].ref == nil
				if !gone && (!e.Live(ents[i].di) || dct.Canceled(ents[i].di.GetContext()) || st.Disp != 0) {
					x.Failf("mode %d layout %d: unrelated directive %d was removed", mode, layout, i)
				}
				if gone && e.Live(ents[i].di) {
					x.Failf("mode %d layout %d: released directive %d is still live", mode, layout, i)
				}
			}
		}
		if mode == 2 && extra != nil {
			if len(live(e, 150)) != 1 {
				x.Failf("directive added by a callback was lost")
			}
		}
		for i := range ents {
			if ents[i].ref != nil {
				ents[i].ref.Release()
			}
		}
		rn.Release()
		if extra != nil {
			extra.Release()
		}
		x.Wait()
		if k := len(e.C.GetDirectives()); k != 0 {
			x.Failf("%d live instances after all references were released", k)
		}
		e.Done()
	}})
	// the last reference goes away while an equivalent directive is added
	for _, dur := range []int{0, 1} {
		name := "release-vs-add"
		if dur != 0 {
			name = "timer-vs-add"
		}
		mcx.Register(&mcx.Scenario{Prop: "C01", Name: name, Body: func(x *mcx.X) {
			e := dct.New(x)
			_, err := e.C.AddHandler(holdHandler(x, 1, 10))
			must(x, err)
			opts := directive.ValueOptions{UnrefDisposeDur: sec(dur)}
			di0, ref0, err := e.C.AddDirective(&dct.Dir{ID: 0, Class: 1, Opts: opts}, &dct.Ref{X: x, ID: 0})
			must(x, err)
			x.Wait()
			var dis [3]directive.Instance
			var refs [3]directive.Reference
			add := func(i int) func() {
				return func() {
					dct.Sleep(sec(dur))
					di, ref, err := e.C.AddDirective(&dct.Dir{ID: i, Class: 1, Opts: opts}, &dct.Ref{X: x, ID: i})
					must(x, err)
					dis[i], refs[i] = di, ref
				}
			}
			dct.Par(func() { ref0.Release() }, add(1), add(2))
			x.Wait()
			l := live(e, 1)
			if len(l) != 1 {
				x.Failf("%d live instances of equivalent directives", len(l))
			} else if dis[1] != l[0] || dis[2] != l[0] {
				x.Failf("an add returned an instance that is not live although its reference was not released")
			}
			if l != nil && l[0] != di0 && !dct.Canceled(di0.GetContext()) {
				x.Failf("two instances are running")
			}
			for i := 1; i < 3; i++ {
				if st := dct.CheckRef(x, i); !dct.Eq(st.Vals(), []int{10}) || st.Disp != 0 {
					x.Failf("ref %d: values %v disposed %d", i, st.Vals(), st.Disp)
				}
			}
			refs[1].Release()
			refs[2].Release()
			dct.Sleep(sec(5))
			x.Wait()
			if k := len(e.C.GetDirectives()); k != 0 {
				x.Failf("%d live instances after all references were released", k)
			}
			e.Done()
		}})
	}
	// directives of different classes and directives without equivalence stay apart
	mcx.Register(&mcx.Scenario{Prop: "C01", Name: "distinct", Body: func(x *mcx.X) {
		e := dct.New(x)
		_, err := e.C.AddHandler(holdHandler(x, 1, 10))
		must(x, err)
		dirs := []directive.Directive{&dct.Dir{ID: 0, Class: 1}, &dct.Dir{ID: 1, Class: 2}, &dct.Uniq{ID: 2}, &dct.Uniq{ID: 3}}
		dis := make([]directive.Instance, len(dirs))
		refs := make([]directive.Reference, len(dirs))
		var fns []func()
		for i := range dirs {
			fns = append(fns, func() {
				di, ref, err := e.C.AddDirective(dirs[i], &dct.Ref{X: x, ID: i})
				must(x, err)
				dis[i], refs[i] = di, ref
			})
		}
		dct.Par(fns...)
		x.Wait()
		if k := len(e.C.GetDirectives()); k != len(dirs) {
			x.Failf("%d live instances, want %d", k, len(dirs))
		}
		for i := range dirs {
			for j := 0; j < i; j++ {
				if dis[i] == dis[j] {
					x.Failf("directives that are not equivalent share an instance")
				}
			}
			if dis[i].GetDirective() != dirs[i] {
				x.Failf("instance %d has another directive", i)
			}
			if st := dct.CheckRef(x, i); !dct.Eq(st.Vals(), []int{10}) {
				x.Failf("ref %d: values %v", i, st.Vals())
			}
			refs[i].Release()
		}
		x.Wait()
		e.Done()
	}})
	// the disposal callback of a superseded instance re-adds the directive
	mcx.Register(&mcx.Scenario{Prop: "C01", Name: "readd-on-dispose", Body: func(x *mcx.X) {
		e := dct.New(x)
		_, err := e.C.AddHandler(holdHandler(x, 1, 10))
		must(x, err)
		var rr mcx.Box[directive.Reference]
		var rd mcx.Box[directive.Instance]
		ref0 := &dct.Ref{X: x, ID: 0}
		rev := x.Choose(3)
		ref0.OnDisp = func() {
			di, ref, err := e.C.AddDirective(&dct.Dir{ID: 7, Class: 1, Rev: rev, Super: true}, &dct.Ref{X: x, ID: 7})
			must(x, err)
			rr.Set(ref)
			rd.Set(di)
		}
		_, r0, err := e.C.AddDirective(&dct.Dir{ID: 0, Class: 1, Rev: 0, Super: true}, ref0)
		must(x, err)
		x.Wait()
		d1, r1, err := e.C.AddDirective(&dct.Dir{ID: 1, Class: 1, Rev: 1, Super: true}, &dct.Ref{X: x, ID: 1})
		must(x, err)
		x.Wait()
		l := live(e, 1)
		if len(l) != 1 {
			x.Failf("rev %d: %d live instances of equivalent directives", rev, len(l))
		}
		if rd.Get() == nil {
			x.Failf("superseded reference was not told")
		}
		for _, d := range []directive.Instance{d1, rd.Get()} {
			if d != nil && (len(l) != 1 || d != l[0]) && !dct.Canceled(d.GetContext()) {
				x.Failf("rev %d: an instance that is not listed is still running", rev)
			}
		}
		r0.Release()
		r1.Release()
		if r := rr.Get(); r != nil {
			r.Release()
		}
		x.Wait()
		e.Done()
	}})
}
