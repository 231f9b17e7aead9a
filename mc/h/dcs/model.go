package dcs

import (
	"errors"
	"fmt"
	"time"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// The reference model of one class of equivalent directives: every operation
// sequence up to a depth is executed on the real controller and on the model,
// which are compared after each operation.

type mval struct {
	id, v, res int
}

type mref struct {
	id   int
	weak bool
	held bool
	dead bool // told that the instance is disposed
	ref  directive.Reference
}

type mres struct {
	attached bool // resolver attached to the current instance
	running  bool
	idle     bool
	stopped  bool // by the value cap
	failed   bool // returned an error
	starts   int
	w        *worker
	rel      func()
	hnd      bool // handler is added
}

type model struct {
	x     *mcx.X
	e     *dct.Env
	opts  directive.ValueOptions
	di    directive.Instance
	live  bool
	refs  []*mref
	vals  []mval
	res   []*mres
	full  bool
	exp   int // remaining seconds until disposal; -1: no timer
	nref  int
	nval  int
	insts int
	log   []string
	told  bool // a resolver failed and the instance is idle: the report carries all errors
}

func (m *model) fail(f string, a ...any) {
	m.x.Failf("opts %+v, operations %v: %s", m.opts, m.log, fmt.Sprintf(f, a...))
}

func (m *model) strong() (n int) {
	for _, r := range m.refs {
		if r.held && !r.weak && !r.dead {
			n++
		}
	}
	return
}

func (m *model) disposed() {
	m.live = false
	m.exp = -1
	m.vals = nil
	m.full = false
	for _, r := range m.refs {
		if r.held && !r.dead {
			r.dead = true
		}
	}
	for _, r := range m.res {
		r.attached, r.running, r.idle, r.stopped, r.failed = false, false, true, false, false
	}
}

func (m *model) unref() {
	if !m.live || m.strong() != 0 {
		return
	}
	if m.opts.UnrefDisposeDur == 0 || m.opts.UnrefDisposeEmptyImmediate && len(m.vals) == 0 {
		m.disposed()
	} else if m.exp < 0 {
		m.exp = int(m.opts.UnrefDisposeDur / time.Second)
	}
}

func (m *model) start(r *mres) {
	r.attached = true
	if m.full {
		r.running, r.idle, r.stopped = false, true, true
		return
	}
	r.running, r.idle, r.stopped, r.failed = true, false, false, false
	r.starts++
}

func (m *model) checkFull() {
	max := m.opts.MaxValueCount
	if max == 0 || !m.live {
		return
	}
	if full := len(m.vals) >= max; full != m.full {
		m.full = full
		for i, r := range m.res {
			if !r.attached {
				continue
			}
			if full {
				if r.idle {
					continue
				}
				n := 0
				for _, v := range m.vals {
					if v.res == i {
						n++
					}
				}
				if n == 0 {
					r.running, r.stopped = false, true
				}
				r.idle = true
			} else if r.stopped || r.failed {
				m.start(r)
			}
		}
	}
}

func (m *model) idle() int {
	for _, r := range m.res {
		if r.attached && !r.idle {
			return 0
		}
	}
	return 1
}

// check compares the real state with the model.
func (m *model) check() {
	m.x.Wait()
	if m.di == nil {
		return
	}
	if l := m.e.Live(m.di); l != m.live {
		m.fail("instance listed=%v, want %v", l, m.live)
		return
	}
	if c := dct.Canceled(m.di.GetContext()); c == m.live {
		m.fail("instance context canceled=%v", c)
	}
	n := 0
	if m.live {
		n = 1
	}
	if k := len(m.e.C.GetDirectives()); k != n {
		m.fail("%d directives are listed, want %d", k, n)
	}
	var want []int
	for _, v := range m.vals {
		want = append(want, v.v)
	}
	for _, r := range m.refs {
		s := dct.CheckRef(m.x, r.id)
		if r.dead != (s.Disp == 1) {
			m.fail("ref %d was told %d times that the instance is disposed, want %v", r.id, s.Disp, r.dead)
		}
		if r.held && !r.dead && !dct.Eq(s.Vals(), want) {
			m.fail("ref %d has values %v, want %v", r.id, s.Vals(), want)
		}
	}
	for i, r := range m.res {
		k := 0
		if r.running {
			k = 1
		}
		if g := running(m.x, i); g != k {
			m.fail("resolver %d runs %d times, want %d", i, g, k)
		}
		if g := dct.Count(m.x, "rstart", i, -1); g != r.starts {
			m.fail("resolver %d was started %d times, want %d", i, g, r.starts)
		}
	}
	if m.live {
		idleEndN(m.x, m.insts, m.idle(), true)
		if len(m.vals) > 0 && m.res[0].running {
			if k := m.res[0].w.rh.Get().CountValues(true); k != len(m.vals) {
				m.fail("CountValues = %d, want %d", k, len(m.vals))
			}
		}
		ne := 0
		for _, r := range m.res {
			if r.attached && r.failed {
				ne++
			}
		}
		if k := len(m.di.GetResolverErrors()); k != ne {
			m.fail("%d resolver errors, want %d", k, ne)
		}
		if m.told {
			last := -1
			for _, e := range m.x.Events() {
				if e.K == "idle" && e.A == m.insts {
					last = e.C
				}
			}
			if last != ne {
				m.fail("the last idle report carries %d errors, want %d", last, ne)
			}
			m.told = false
		}
	}
}

func (m *model) newRef(weak bool) *mref {
	m.nref++
	r := &mref{id: m.nref, weak: weak, held: true}
	m.refs = append(m.refs, r)
	return r
}

type mop struct {
	name string
	ok   func(m *model) bool
	do   func(m *model)
}

func pick(m *model, weak bool, last bool) *mref {
	var out *mref
	for _, r := range m.refs {
		if r.held && r.weak == weak {
			out = r
			if !last {
				break
			}
		}
	}
	return out
}

func opAddDir() mop {
	return mop{"AddDirective", nil, func(m *model) {
		r := m.newRef(false)
		di, ref, err := m.e.C.AddDirective(&dct.Dir{ID: 0, Class: 1, Opts: m.opts}, &dct.Ref{X: m.x, ID: r.id})
		must(m.x, err)
		r.ref = ref
		if m.live {
			if di != m.di {
				m.fail("equivalent directive got another instance")
			}
			m.exp = -1
			return
		}
		if di == m.di {
			m.fail("directive was added to a disposed instance")
		}
		m.di, m.live, m.exp = di, true, -1
		m.insts++
		for _, rs := range m.res {
			if rs.hnd {
				m.start(rs)
			}
		}
		m.x.Wait()
		n := m.insts
		di.AddIdleCallback(idleCb(m.x, n))
	}}
}

func opAddRef(weak bool) mop {
	return mop{fmt.Sprintf("AddReference(weak=%v)", weak), func(m *model) bool { return m.di != nil }, func(m *model) {
		r := m.newRef(weak)
		r.ref = m.di.AddReference(&dct.Ref{X: m.x, ID: r.id}, weak)
		if !m.live {
			r.dead = true
			return
		}
		if !weak {
			m.exp = -1
		}
	}}
}

func opRelease(weak, last bool) mop {
	return mop{fmt.Sprintf("Release(weak=%v last=%v)", weak, last), func(m *model) bool { return pick(m, weak, last) != nil }, func(m *model) {
		r := pick(m, weak, last)
		was := r.dead
		r.held = false
		r.ref.Release()
		r.ref.Release()
		if !was {
			m.unref()
		}
	}}
}

func opTime() mop {
	return mop{"1s passes", func(m *model) bool { return m.exp > 0 }, func(m *model) {
		dct.Sleep(time.Second)
		m.exp--
		if m.exp == 0 {
			m.disposed()
		}
	}}
}

func opClose() mop {
	return mop{"Close", func(m *model) bool { return m.di != nil }, func(m *model) {
		m.di.Close()
		if m.live {
			m.disposed()
		}
	}}
}

func opCloseUnref(incl bool) mop {
	return mop{fmt.Sprintf("CloseIfUnreferenced(%v)", incl), func(m *model) bool { return m.di != nil }, func(m *model) {
		got := m.di.CloseIfUnreferenced(incl)
		if m.live {
			n := 0
			for _, r := range m.refs {
				if r.held && !r.dead && (!r.weak || incl) {
					n++
				}
			}
			if n == 0 {
				m.disposed()
			}
		}
		if got == m.live {
			m.fail("CloseIfUnreferenced returned %v", got)
		}
	}}
}

func opAddVal(i int) mop {
	return mop{fmt.Sprintf("resolver %d: AddValue", i), func(m *model) bool { return m.res[i].running }, func(m *model) {
		m.nval++
		id, ok := m.res[i].w.rh.Get().AddValue(m.nval)
		max := m.opts.MaxValueCount
		want := !(m.opts.MaxValueHardCap && max != 0 && len(m.vals) >= max)
		if ok != want {
			m.fail("AddValue accepted=%v, want %v", ok, want)
		}
		if want {
			m.vals = append(m.vals, mval{int(id), m.nval, i})
			m.checkFull()
		}
	}}
}

func opRemVal(i int) mop {
	return mop{fmt.Sprintf("resolver %d: RemoveValue", i), func(m *model) bool {
		for _, v := range m.vals {
			if v.res == i && m.res[i].running {
				return true
			}
		}
		return false
	}, func(m *model) {
		for k, v := range m.vals {
			if v.res == i {
				val, ok := m.res[i].w.rh.Get().RemoveValue(uint32(v.id))
				if !ok || val != v.v {
					m.fail("RemoveValue returned %v %v, want %d", val, ok, v.v)
				}
				m.vals = append(append([]mval(nil), m.vals[:k]...), m.vals[k+1:]...)
				break
			}
		}
		m.checkFull()
	}}
}

func opClear(i int) mop {
	return mop{fmt.Sprintf("resolver %d: ClearValues", i), func(m *model) bool { return m.res[i].running }, func(m *model) {
		got := m.res[i].w.rh.Get().ClearValues()
		var ids []int
		var rest []mval
		for _, v := range m.vals {
			if v.res == i {
				ids = append(ids, v.id)
			} else {
				rest = append(rest, v)
			}
		}
		var g []int
		for _, v := range got {
			g = append(g, int(v))
		}
		if !dct.Eq(g, ids) {
			m.fail("ClearValues returned %v, want %v", g, ids)
		}
		m.vals = rest
		m.checkFull()
	}}
}

func opIdle(i int) mop {
	return mop{fmt.Sprintf("resolver %d: MarkIdle toggled", i), func(m *model) bool { return m.res[i].running }, func(m *model) {
		m.res[i].idle = !m.res[i].idle
		m.res[i].w.rh.Get().MarkIdle(m.res[i].idle)
	}}
}

func opReturn(i int, fail bool) mop {
	return mop{fmt.Sprintf("resolver %d: returns error=%v", i, fail), func(m *model) bool { return m.res[i].running }, func(m *model) {
		r := m.res[i]
		var err error
		if fail {
			err = errors.New("failed")
		}
		r.w.fin.Get() <- err
		r.running, r.idle, r.failed = false, true, fail
		m.told = fail && m.idle() == 1
	}}
}

func opHandler(i int) mop {
	return mop{fmt.Sprintf("handler %d added or removed", i), nil, func(m *model) {
		r := m.res[i]
		if r.hnd {
			r.rel()
			r.hnd = false
			was := r.attached
			r.attached, r.running, r.idle, r.stopped, r.failed = false, false, true, false, false
			if was {
				var rest []mval
				for _, v := range m.vals {
					if v.res != i {
						rest = append(rest, v)
					}
				}
				m.vals = rest
				m.checkFull()
			}
			return
		}
		rel, err := m.e.C.AddHandler(r.w.handler(m.x, i))
		must(m.x, err)
		r.rel, r.hnd = rel, true
		if m.live {
			m.start(r)
		}
	}}
}

func runModel(x *mcx.X, depth int, opts directive.ValueOptions, ops []mop) {
	m := &model{x: x, e: dct.New(x), opts: opts, exp: -1}
	for i := 0; i < 2; i++ {
		r := &mres{w: &worker{}, idle: true}
		m.res = append(m.res, r)
		opHandler(i).do(m)
	}
	opAddDir().do(m)
	m.check()
	for k := 0; k < depth && !x.Failed(); k++ {
		var av []mop
		for _, o := range ops {
			if o.ok == nil || o.ok(m) {
				av = append(av, o)
			}
		}
		o := av[x.Choose(len(av))]
		m.log = append(m.log, o.name)
		o.do(m)
		m.check()
	}
	finish(x, m.e)
}

func init() {
	life := []mop{opAddDir(), opAddRef(false), opAddRef(true), opRelease(false, false), opRelease(false, true), opRelease(true, false), opTime(), opClose(), opCloseUnref(false), opCloseUnref(true), opAddVal(0), opRemVal(0)}
	vals := []mop{opAddVal(0), opAddVal(1), opRemVal(0), opRemVal(1), opClear(0), opIdle(0), opIdle(1), opReturn(1, true), opReturn(1, false), opHandler(0), opHandler(1), opAddRef(false), opClose()}
	reg := func(prop, name string, opts []directive.ValueOptions, ops []mop) {
		mcx.Register(&mcx.Scenario{Prop: prop, Name: name, EnvOnly: true, NoPrune: true, NoRace: true, Weight: 3, Body: func(x *mcx.X) {
			d := 5
			if mcx.Thorough() {
				d = 7
			}
			runModel(x, d, opts[x.Choose(len(opts))], ops)
		}})
	}
	O := func(max int, hard bool, dur int, empty bool) directive.ValueOptions {
		return directive.ValueOptions{MaxValueCount: max, MaxValueHardCap: hard, UnrefDisposeDur: sec(dur), UnrefDisposeEmptyImmediate: empty}
	}
	reg("C03", "model", []directive.ValueOptions{O(0, false, 0, false), O(0, false, 2, false), O(0, false, 2, true)}, life)
	reg("C04", "model", []directive.ValueOptions{O(0, false, 0, false)}, vals)
	reg("C06", "model", []directive.ValueOptions{O(0, false, 0, false), O(1, false, 0, false)}, []mop{opAddVal(0), opRemVal(0), opIdle(0), opIdle(1), opReturn(0, true), opReturn(1, true), opReturn(1, false), opHandler(0), opHandler(1)})
	reg("C07", "model", []directive.ValueOptions{O(1, false, 0, false), O(1, true, 0, false), O(2, false, 0, false), O(2, true, 0, false)}, vals)
}
