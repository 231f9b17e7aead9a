package dcs

import (
	"fmt"
	"sync"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// disposedState checks that the instance is either fully live or fully disposed.
func consistent(x *mcx.X, e *dct.Env, di directive.Instance, live bool, what string) {
	if l := e.Live(di); l != live {
		x.Failf("%s: listed=%v, want %v", what, l, live)
	}
	if c := dct.Canceled(di.GetContext()); c == live {
		x.Failf("%s: context canceled=%v", what, c)
	}
}

func addOpts(e *dct.Env, id, class int, opts directive.ValueOptions) (directive.Instance, directive.Reference) {
	di, ref, err := e.C.AddDirective(&dct.Dir{ID: id, Class: class, Opts: opts}, &dct.Ref{X: e.X, ID: id})
	must(e.X, err)
	return di, ref
}

func init() {
	// releases, additions and weak references race
	for _, dur := range []int{0, 2} {
		mcx.Register(&mcx.Scenario{Prop: "C03", Name: fmt.Sprintf("release-add-weak-%ds", dur), Body: func(x *mcx.X) {
			e := dct.New(x)
			_, err := e.C.AddHandler(holdHandler(x, 1, 10))
			must(x, err)
			opts := directive.ValueOptions{UnrefDisposeDur: sec(dur)}
			di, r0 := addOpts(e, 0, 1, opts)
			di.AddDisposeCallback(func() { x.Ev("dcb", 1, 0, 0) })
			rel2 := di.AddDisposeCallback(func() { x.Ev("dcb", 2, 0, 0) })
			rel2()
			x.Wait()
			var r1, w directive.Reference
			dct.Par(
				func() { r0.Release(); r0.Release() },
				func() { r1 = di.AddReference(&dct.Ref{X: x, ID: 1}, false) },
				func() { w = di.AddReference(&dct.Ref{X: x, ID: 2}, true) },
			)
			x.Wait()
			s1, s2 := dct.CheckRef(x, 1), dct.CheckRef(x, 2)
			dct.CheckRef(x, 0)
			if s1.Disp == 0 {
				// the reference was added in time: the instance lives as long as it is held
				consistent(x, e, di, true, "referenced instance")
				if dct.Count(x, "dcb", 1, -1) != 0 {
					x.Failf("dispose callback called although the instance is referenced")
				}
				if s2.Disp != 0 {
					x.Failf("weak reference told that the referenced instance is disposed")
				}
				dct.Sleep(sec(60))
				x.Wait()
				consistent(x, e, di, true, "referenced instance after a minute")
				r1.Release()
			}
			if dur != 0 {
				x.Wait()
				consistent(x, e, di, true, "unreferenced instance within UnrefDisposeDur")
			}
			dct.Sleep(sec(dur + 1))
			x.Wait()
			consistent(x, e, di, false, "unreferenced instance")
			w.Release()
			r1.Release()
			x.Wait()
			if n := dct.Count(x, "dcb", 1, -1); n != 1 {
				x.Failf("dispose callback called %d times", n)
			}
			if n := dct.Count(x, "dcb", 2, -1); n != 0 {
				x.Failf("released dispose callback was called")
			}
			if s := dct.CheckRef(x, 2); s.Disp != 1 {
				x.Failf("weak reference told %d times that the instance is disposed", s.Disp)
			}
			finish(x, e)
		}})
	}
	// the timer expires at the moment a reference is added / all is closed
	for _, op := range []string{"addref", "close", "closeunref", "weak", "adddir"} {
		mcx.Register(&mcx.Scenario{Prop: "C03", Name: "timer-vs-" + op, Body: func(x *mcx.X) {
			e := dct.New(x)
			_, err := e.C.AddHandler(holdHandler(x, 1, 10))
			must(x, err)
			opts := directive.ValueOptions{UnrefDisposeDur: sec(1)}
			di, r0 := addOpts(e, 0, 1, opts)
			di.AddDisposeCallback(func() { x.Ev("dcb", 1, 0, 0) })
			x.Wait()
			r0.Release()
			dct.Par(func() {
				dct.Sleep(sec(1))
				switch op {
				case "addref":
					di.AddReference(&dct.Ref{X: x, ID: 1}, false)
				case "weak":
					di.AddReference(&dct.Ref{X: x, ID: 1}, true)
				case "close":
					di.Close()
				case "closeunref":
					if !di.CloseIfUnreferenced(true) {
						x.Failf("CloseIfUnreferenced on an unreferenced instance returned false")
					}
				case "adddir":
					d2, _ := addOpts(e, 1, 1, opts)
					if d2 != di && !dct.Canceled(di.GetContext()) {
						x.Failf("equivalent instance is live")
					}
				}
			}, func() { dct.Sleep(sec(1)); x.Point() })
			x.Wait()
			dct.Sleep(sec(30))
			x.Wait()
			switch s := dct.CheckRef(x, 1); op {
			case "addref":
				consistent(x, e, di, s.Disp == 0, "instance with a reference added at expiry")
				if s.Disp == 0 {
					refVals(x, 1, 10)
				}
			case "adddir":
				if s.Disp != 0 {
					x.Failf("added directive was disposed")
				}
				refVals(x, 1, 10)
			default:
				consistent(x, e, di, false, "unreferenced instance")
				if op == "weak" && s.Disp != 1 {
					x.Failf("weak reference told %d times", s.Disp)
				}
			}
			if n := dct.Count(x, "dcb", 1, -1); n != 1 && !e.Live(di) || n > 1 {
				x.Failf("dispose callback called %d times", n)
			}
			finish(x, e)
			if n := dct.Count(x, "dcb", 1, -1); n != 1 {
				x.Failf("dispose callback called %d times", n)
			}
		}})
	}
	// Close, Release and CloseIfUnreferenced all at once
	mcx.Register(&mcx.Scenario{Prop: "C03", Name: "close-release", Body: func(x *mcx.X) {
		e := dct.New(x)
		_, err := e.C.AddHandler(holdHandler(x, 1, 10))
		must(x, err)
		di, r0 := addOpts(e, 0, 1, directive.ValueOptions{UnrefDisposeDur: sec(x.Choose(2))})
		w := di.AddReference(&dct.Ref{X: x, ID: 1}, true)
		di.AddDisposeCallback(func() { x.Ev("dcb", 1, 0, 0) })
		var rel func()
		x.Wait()
		dct.Par(di.Close, r0.Release, func() { di.CloseIfUnreferenced(false) },
			func() { rel = di.AddDisposeCallback(func() { x.Ev("dcb", 2, 0, 0) }) })
		x.Wait()
		consistent(x, e, di, false, "closed instance")
		for i := 1; i <= 2; i++ {
			if n := dct.Count(x, "dcb", i, -1); n != 1 {
				x.Failf("dispose callback %d called %d times", i, n)
			}
		}
		rel()
		if s := dct.CheckRef(x, 1); s.Disp != 1 || len(s.Present) != 0 {
			x.Failf("weak reference told %d times, values %v", s.Disp, s.Vals())
		}
		dct.CheckRef(x, 0)
		w.Release()
		if r := di.AddReference(&dct.Ref{X: x, ID: 3}, false); r == nil {
			x.Failf("AddReference returned nil")
		}
		x.Wait()
		if s := dct.CheckRef(x, 3); s.Disp != 1 {
			x.Failf("reference added to a closed instance was told %d times", s.Disp)
		}
		if !di.CloseIfUnreferenced(true) {
			x.Failf("CloseIfUnreferenced on a closed instance returned false")
		}
		finish(x, e)
	}})
	// CloseIfUnreferenced against additions
	mcx.Register(&mcx.Scenario{Prop: "C03", Name: "closeunref-vs-addref", Body: func(x *mcx.X) {
		e := dct.New(x)
		incl := x.Choose(2) == 1
		weak := x.Choose(2) == 1
		di, r0 := addOpts(e, 0, 1, directive.ValueOptions{UnrefDisposeDur: sec(100)})
		x.Wait()
		r0.Release()
		var closed mcx.Int
		dct.Par(func() { di.AddReference(&dct.Ref{X: x, ID: 1}, weak) },
			func() {
				if di.CloseIfUnreferenced(incl) {
					closed.Set(1)
				}
			})
		x.Wait()
		s := dct.CheckRef(x, 1)
		consistent(x, e, di, closed.Get() == 0, "CloseIfUnreferenced")
		if (s.Disp != 0) != (closed.Get() != 0) {
			x.Failf("reference told %d times, closed=%d", s.Disp, closed.Get())
		}
		if weak && !incl && closed.Get() == 0 {
			x.Failf("instance with only a weak reference was not closed")
		}
		finish(x, e)
	}})
	// the value goes away or arrives while the directive is unreferenced (EmptyImmediate)
	mcx.Register(&mcx.Scenario{Prop: "C03", Name: "empty-immediate", Body: func(x *mcx.X) {
		e := dct.New(x)
		hasVal := x.Choose(2) == 1
		weak := x.Choose(2) == 1
		h := holdHandler(x, 1)
		if hasVal {
			h = holdHandler(x, 1, 10)
		}
		_, err := e.C.AddHandler(h)
		must(x, err)
		di, r0 := addOpts(e, 0, 1, directive.ValueOptions{UnrefDisposeDur: sec(5), UnrefDisposeEmptyImmediate: true})
		if weak {
			di.AddReference(&dct.Ref{X: x, ID: 1}, true)
		}
		x.Wait()
		r0.Release()
		x.Wait()
		consistent(x, e, di, hasVal, "unreferenced with EmptyImmediate")
		dct.Sleep(sec(4))
		x.Wait()
		consistent(x, e, di, hasVal, "unreferenced with EmptyImmediate")
		dct.Sleep(sec(2))
		x.Wait()
		consistent(x, e, di, false, "unreferenced with EmptyImmediate")
		finish(x, e)
	}})
	// callbacks added after the disposal are made in a new goroutine:
	// the caller may hold a lock which the callback takes
	mcx.Register(&mcx.Scenario{Prop: "C03", Name: "dispose-callback-lock", Body: func(x *mcx.X) {
		e := dct.New(x)
		di, r0 := addOpts(e, 0, 1, directive.ValueOptions{})
		var mtx sync.Mutex
		dct.Par(r0.Release, func() {
			mtx.Lock()
			di.AddDisposeCallback(func() {
				mtx.Lock()
				x.Ev("dcb", 1, 0, 0)
				mtx.Unlock()
			})
			mtx.Unlock()
		})
		x.Wait()
		if n := dct.Count(x, "dcb", 1, -1); n != 1 {
			x.Failf("dispose callback called %d times", n)
		}
		finish(x, e)
	}})
	// dispose callbacks released concurrently with the disposal
	mcx.Register(&mcx.Scenario{Prop: "C03", Name: "dispose-callbacks", Body: func(x *mcx.X) {
		e := dct.New(x)
		di, r0 := addOpts(e, 0, 1, directive.ValueOptions{})
		var rels [4]func()
		for i := range rels {
			rels[i] = di.AddDisposeCallback(func() { x.Ev("dcb", i, 0, 0) })
		}
		k := x.Choose(4)
		rels[k]()
		dct.Par(r0.Release, rels[(k+1)%4], func() { di.AddDisposeCallback(func() { x.Ev("dcb", 9, 0, 0) }) })
		x.Wait()
		for i := range rels {
			n := dct.Count(x, "dcb", i, -1)
			switch {
			case i == k && n != 0:
				x.Failf("released dispose callback %d called", i)
			case i == (k+1)%4 && n > 1, i != k && i != (k+1)%4 && n != 1:
				x.Failf("dispose callback %d called %d times", i, n)
			}
		}
		if n := dct.Count(x, "dcb", 9, -1); n != 1 {
			x.Failf("dispose callback added concurrently called %d times", n)
		}
		finish(x, e)
	}})
}
