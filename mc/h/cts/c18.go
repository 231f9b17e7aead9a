package cts

import (
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// cc is a controller config.
type cc struct {
	rev  uint64
	conf *Conf
}

func (c *cc) GetRev() uint64           { return c.rev }
func (c *cc) GetConfig() config.Config { return c.conf }

func newCC(rev uint64, field string) *cc { return &cc{rev, NewConf("f", field)} }

// renderState renders a state.
func renderState(st configset.State) string {
	if st == nil {
		return "nil"
	}
	s := st.GetId()
	if c, ok := st.GetControllerConfig().(*cc); ok && c != nil {
		s += " rev" + str(c.rev) + "/" + c.conf.ExampleField
	}
	if c, ok := st.GetController().(*Ctl); ok {
		s += " ctrl" + str(c.n)
	}
	if err := st.GetError(); err != nil {
		s += " error"
		if e, ok := err.(nthError); ok {
			s += str(int(e))
		}
	}
	return s
}

// nthError is the error of a run of a controller.
type nthError int

func (n nthError) Error() string { return "run " + str(int(n)) + " failed" }

// csEnv is a bus with the configset controller.
type csEnv struct {
	*bst.Env
	f   *Fac
	c   *configset_controller.Controller
	rel func()
}

func newCsEnv(x *mcx.X) *csEnv {
	e := &csEnv{Env: bst.New(x), f: NewFac(x, "f")}
	addLoader(e.Env)
	addResolver(e.Env, static.NewResolver(e.f))
	e.up()
	x.Wait()
	return e
}

func (e *csEnv) up() {
	c, err := configset_controller.NewController(dct.Log(), e.B)
	bst.Must(e.X, err)
	e.c = c
	e.rel, err = e.B.AddController(e.Ctx, c, nil)
	bst.Must(e.X, err)
}

// holder is a reference or a directive holding configs.
type holder struct {
	keys  []string
	ref   configset.Reference
	last  mcx.Box[string] // last state called back
	calls mcx.Int
	dref  directive.Reference
	m     *bst.Seen
	waits bool // does not provide a config
	confs map[string]*cc
}

func (h *holder) release() {
	if h.ref != nil {
		h.ref.Release()
	} else {
		h.dref.Release()
	}
}

// watch registers the state callback.
func (h *holder) watch(x *mcx.X) *holder {
	// the states are delivered in order: at most one callback is running
	var in mcx.Int
	h.ref.AddStateCallback(func(st configset.State) {
		if in.Add(1) != 1 {
			x.Failf("state callback is called concurrently")
		}
		h.last.Set(renderState(st))
		h.calls.Add(1)
		in.Add(-1)
	})
	if h.calls.Get() == 0 {
		x.Failf("state callback was not called with the initial state")
	}
	return h
}

func (e *csEnv) push(key string, c *cc) *holder {
	r, err := e.c.PushControllerConfig(e.Ctx, key, c)
	bst.Must(e.X, err)
	return (&holder{keys: []string{key}, ref: r}).watch(e.X)
}

func (e *csEnv) persist(key string) *holder {
	r, err := e.c.AddConfigSetReference(e.Ctx, key)
	bst.Must(e.X, err)
	return (&holder{keys: []string{key}, ref: r, waits: true}).watch(e.X)
}

func (e *csEnv) apply(cs configset.ConfigSet) *holder {
	h := &holder{m: &bst.Seen{X: e.X}}
	h.confs = map[string]*cc{}
	for k, c := range cs {
		h.keys = append(h.keys, k)
		h.confs[k] = c.(*cc)
	}
	var err error
	_, h.dref, err = e.B.AddDirective(configset.NewApplyConfigSet(cs), h.m.Handler())
	bst.Must(e.X, err)
	return h
}

func (e *csEnv) lookup(keys ...string) *holder {
	h := &holder{m: &bst.Seen{X: e.X}, keys: keys, waits: true}
	var err error
	_, h.dref, err = e.B.AddDirective(configset.NewLookupConfigSet(keys), h.m.Handler())
	bst.Must(e.X, err)
	return h
}

// state renders the expected state of a key.
func (e *csEnv) state(key string, c *cc) string {
	if c == nil {
		return key
	}
	s := key + " rev" + str(c.rev) + "/" + c.conf.ExampleField
	if c.conf.ExampleField == "" {
		return s + " error"
	}
	l := live(e.X, e.f, c.conf.ExampleField)
	if l == nil || l.run.Get() != 1 {
		e.X.Failf("key %s: the controller is not running", key)
		return ""
	}
	return s + " ctrl" + str(l.n)
}

// check compares the states seen by the holders with the configs in use.
func (e *csEnv) check(what string, cur map[string]*cc, hs ...*holder) {
	x := e.X
	x.Wait()
	fields := map[string]bool{}
	for _, c := range cur {
		if c.conf.ExampleField != "" {
			fields[c.conf.ExampleField] = true
		}
	}
	if n := len(e.f.Running()); n != len(fields) {
		x.Failf("%s: %d controllers are running, want %d", what, n, len(fields))
	}
	if n := len(Attached(e.Env)); n != len(fields) {
		x.Failf("%s: %d controllers are on the bus, want %d", what, n, len(fields))
	}
	for _, h := range hs {
		var w []any
		for _, k := range h.keys {
			w = append(w, e.state(k, cur[k]))
		}
		if h.m != nil {
			var l []any
			for _, v := range h.m.List() {
				st, _ := v.(configset.State)
				l = append(l, renderState(st))
			}
			want(x, what+": directive", "values", l, w)
			continue
		}
		if got := renderState(h.ref.GetState()); got != w[0] {
			x.Failf("%s: state is %q, want %q", what, got, w[0])
		}
		if got := h.last.Get(); h.calls.Get() != 0 && got != w[0] {
			x.Failf("%s: last state called back is %q, want %q", what, got, w[0])
		}
	}
}

// end checks that everything is released.
func (e *csEnv) end() {
	e.check("end", nil)
	e.f.res.Want("end")
	e.Gone("end")
	e.Finish()
}

// model is the expected configset.
type csModel struct {
	cur map[string]*cc
	on  map[string]map[*holder]bool // counted references
	hs  []*holder
}

func newCsModel() *csModel {
	return &csModel{cur: map[string]*cc{}, on: map[string]map[*holder]bool{}}
}

// add adds a holder with its configs.
func (m *csModel) add(h *holder, cs map[string]*cc) {
	m.hs = append(m.hs, h)
	for _, k := range h.keys {
		if m.on[k] == nil {
			m.on[k] = map[*holder]bool{}
		}
		if c := cs[k]; c != nil {
			if m.cur[k] == nil {
				m.cur[k] = c
				for _, w := range m.hs {
					for _, wk := range w.keys {
						if wk == k {
							m.on[k][w] = true
						}
					}
				}
			} else if c.rev > m.cur[k].rev {
				m.cur[k] = c
			}
		}
		if m.cur[k] != nil {
			m.on[k][h] = true
		}
	}
}

func (m *csModel) release(i int) {
	h := m.hs[i]
	m.hs = append(m.hs[:i:i], m.hs[i+1:]...)
	for _, k := range h.keys {
		delete(m.on[k], h)
		if len(m.on[k]) == 0 {
			delete(m.cur, k)
		}
	}
}

func init() {
	depth := 4
	if mcx.Thorough() {
		depth = 5
	}
	reg := func(prop, name string, keep func(int) bool, n int, fast bool) {
		mcx.Register(&mcx.Scenario{Prop: prop, Name: name, Weight: 2, EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
			e := newCsEnv(x)
			m := newCsModel()
			for i := 0; i < n; i++ {
				k := x.Choose(11 + len(m.hs))
				if k < 11 && !keep(k) {
					break
				}
				switch k {
				case 0, 1, 2, 3, 4:
					key := "a"
					if k == 4 {
						key = "b"
					}
					c := []*cc{newCC(1, "1"), newCC(2, "2"), newCC(2, "1"), newCC(3, ""), newCC(1, "1")}[k]
					m.add(e.push(key, c), map[string]*cc{key: c})
				case 5:
					m.add(e.persist("a"), nil)
				case 6:
					m.add(e.lookup("a", "b"), nil)
				case 7:
					a, b := newCC(1, "1"), newCC(2, "2")
					m.add(e.apply(configset.ConfigSet{"a": a, "b": b}), map[string]*cc{"a": a, "b": b})
				case 8:
					a := newCC(4, "3")
					m.add(e.apply(configset.ConfigSet{"a": a}), map[string]*cc{"a": a})
				case 9: // the controller fails and is started again
					c := m.cur["a"]
					if c == nil || c.conf.ExampleField == "" {
						i = n
						break
					}
					l := live(x, e.f, c.conf.ExampleField)
					l.Finish(errExec)
					x.Wait()
					for _, h := range m.hs {
						if h.ref != nil && h.keys[0] == "a" && h.ref.GetState().GetError() == nil {
							x.Failf("the error of the controller is not part of the state")
						}
					}
					sleep(3)
				case 10: // the configset controller is replaced
					e.rel()
					x.Wait()
					e.check("removed", nil)
					for _, h := range m.hs {
						if h.ref != nil {
							h.ref.Release()
						}
					}
					e.up()
					x.Wait()
					old := m
					m = newCsModel()
					for _, h := range old.hs {
						if h.dref == nil {
							continue
						}
						cs := map[string]*cc{}
						if !h.waits {
							for k := range h.confs {
								cs[k] = h.confs[k]
							}
						}
						m.add(h, cs)
					}
				default:
					m.hs[k-11].release()
					m.release(k - 11)
				}
				if !fast || x.Choose(2) == 1 {
					e.check(str(k), m.cur, m.hs...)
				}
			}
			e.check("last", m.cur, m.hs...)
			for _, h := range m.hs {
				h.release()
			}
			e.end()
		}})
	}
	reg("C18", "set-seq", func(k int) bool { return true }, depth, false)
	reg("C18", "set-fast-seq", func(k int) bool { return k < 2 || k == 3 || k == 5 }, depth+1, true)
	reg("C19", "state-seq", func(k int) bool { return k < 2 || k == 3 || k == 5 || k == 7 || k == 9 }, depth+1, false)
	regPar := func(prop, name string, inits int, ops []int) {
		mcx.Register(&mcx.Scenario{Prop: prop, Name: name, Weight: 2, Body: func(x *mcx.X) { csPar(x, inits, ops) }})
	}
	regPar("C18", "set-par", 4, []int{14, 0, 1, 2, 3, 4, 7, 12})
	regPar("C18", "hold-par", 3, []int{14, 1, 2, 3, 5, 6, 10, 11})
	mcx.Register(&mcx.Scenario{Prop: "C18", Name: "set-reentrant", Body: csReentrant})
	mcx.Register(&mcx.Scenario{Prop: "C19", Name: "state-reentrant", Body: csReentrant})
	mcx.Register(&mcx.Scenario{Prop: "C19", Name: "state-busy-seq", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) { csBusy(x, depth+2) }})
	regPar("C19", "state-par", 4, []int{14, 1, 3, 8, 9, 10, 13})
}

// mop is an operation on the model.
type mop func(m *csModel)

// csPar runs two operations at once: the outcome has to be the one of an interleaving.
func csPar(x *mcx.X, inits int, ops []int) {
	x.Calm()
	e := newCsEnv(x)
	c1, c2, c3 := newCC(1, "1"), newCC(2, "2"), newCC(3, "3")
	var base []mop
	var init []*holder
	add := func(h *holder, c *cc) mop {
		return func(m *csModel) { m.add(h, map[string]*cc{"a": c}) }
	}
	del := func(h *holder) mop {
		return func(m *csModel) {
			for i, o := range m.hs {
				if o == h {
					m.release(i)
					return
				}
			}
		}
	}
	kind := x.Choose(inits)
	switch kind {
	case 1:
		init = append(init, e.push("a", c2))
	case 2:
		init = append(init, e.push("a", c2), e.persist("a"))
	case 3:
		init = append(init, e.apply(configset.ConfigSet{"a": c2}))
	}
	for i, h := range init {
		c := c2
		if i == 1 {
			c = nil
		}
		base = append(base, add(h, c))
	}
	x.Wait()
	// the threads of the model: a set of alternatives per thread
	var threads [][][]mop
	gone := map[*holder]bool{}
	var all []*holder
	mk := func(k int) func() {
		h := &holder{keys: []string{"a"}}
		push := func(c *cc) { h.ref = e.push("a", c).ref }
		th := func(alts ...[]mop) { threads = append(threads, alts) }
		dropInit := func(i int) (func(), mop) {
			if len(init) <= i || gone[init[i]] {
				return nil, nil
			}
			g := init[i]
			gone[g] = true
			return g.release, del(g)
		}
		switch k {
		case 0:
			th([]mop{add(h, c1)})
			all = append(all, h)
			return func() { push(c1) }
		case 1:
			th([]mop{add(h, c3)})
			all = append(all, h)
			return func() { push(c3); h.watch(x) }
		case 2:
			th([]mop{add(h, c3), del(h)})
			return func() { push(c3); h.release() }
		case 3, 10:
			r, m := dropInit(k / 10)
			if r != nil {
				th([]mop{m})
			}
			return r
		case 4, 11:
			r, m := dropInit(0)
			if r == nil {
				return nil
			}
			all = append(all, h)
			c := c1
			if k == 11 {
				c = nil
			}
			if kind == 3 {
				th([]mop{m})
				th([]mop{add(h, c)})
			} else {
				th([]mop{m, add(h, c)})
			}
			return func() {
				r()
				if k == 4 {
					push(c1)
				} else {
					h.ref = e.persist("a").ref
				}
			}
		case 5:
			th([]mop{add(h, nil)})
			all = append(all, h)
			return func() { h.ref = e.persist("a").ref; h.watch(x) }
		case 6:
			th([]mop{add(h, nil), del(h)})
			return func() { h.ref = e.persist("a").ref; h.release() }
		case 7:
			th([]mop{add(h, c3), del(h)}, nil)
			return func() { e.apply(configset.ConfigSet{"a": c3}).release() }
		case 8:
			th([]mop{add(h, nil)})
			all = append(all, h)
			return func() { *h = *e.lookup("a") }
		case 9:
			th([]mop{add(h, nil), del(h)}, nil)
			return func() { e.lookup("a").release() }
		case 12:
			th([]mop{add(h, c3)})
			all = append(all, h)
			return func() { *h = *e.apply(configset.ConfigSet{"a": c3}) }
		case 14:
			return func() {}
		case 13: // the controller fails
			if len(init) == 0 {
				return nil
			}
			return func() { e.f.Last().Finish(errExec) }
		}
		return nil
	}
	i := x.Choose(len(ops))
	j := i + x.Choose(len(ops)-i)
	f, g := mk(ops[i]), mk(ops[j])
	if f == nil || g == nil {
		for _, h := range init {
			h.release()
		}
		e.Finish()
		return
	}
	x.Wait()
	x.Loud()
	dct.Par(f, g)
	x.Wait()
	x.Calm()
	sleep(10) // the controller is retried
	x.Wait()
	// what is in use
	got, some := "", false
	for _, h := range append(append([]*holder{}, all...), init...) {
		if gone[h] {
			continue
		}
		some = true
		if h.ref != nil {
			got = curOf(h.ref.GetState())
		} else if l := h.m.List(); len(l) == 1 {
			got = curOf(l[0].(configset.State))
		}
		break
	}
	var match *csModel
	var cands []any
	interleave(threads, func(seq []mop) {
		m := newCsModel()
		for _, o := range append(append([]mop{}, base...), seq...) {
			o(m)
		}
		w := ""
		if c := m.cur["a"]; c != nil && some {
			w = str(c.rev)
		}
		if w == got && (some || len(m.cur) == 0) {
			match = m
		}
		cands = append(cands, w)
	})
	if match == nil {
		x.Failf("config %q is in use, want one of %s", got, bst.Strs(cands))
		return
	}
	// the holders of the model were copied
	e.check("settled", match.cur, match.hs...)
	for _, h := range match.hs {
		h.release()
	}
	e.end()
}

func curOf(st configset.State) string {
	if c, ok := st.GetControllerConfig().(*cc); ok && c != nil {
		return str(c.rev)
	}
	return ""
}

// interleave calls f with the interleavings of the threads.
func interleave(threads [][][]mop, f func([]mop)) {
	var rec func(ths [][]mop, pre []mop)
	rec = func(ths [][]mop, pre []mop) {
		done := true
		for i, t := range ths {
			if len(t) == 0 {
				continue
			}
			done = false
			n := append([][]mop{}, ths...)
			n[i] = t[1:]
			rec(n, append(append([]mop{}, pre...), t[0]))
		}
		if done {
			f(pre)
		}
	}
	var alt func(i int, ths [][]mop)
	alt = func(i int, ths [][]mop) {
		if i == len(threads) {
			rec(ths, nil)
			return
		}
		for _, a := range threads[i] {
			alt(i+1, append(append([][]mop{}, ths...), a))
		}
	}
	alt(0, nil)
}

// csReentrant uses the configset from within a state callback.
func csReentrant(x *mcx.X) {
	x.Calm()
	e := newCsEnv(x)
	m := newCsModel()
	c1, c2, c3 := newCC(1, "1"), newCC(2, "2"), newCC(3, "3")
	kind := x.Choose(3)
	var h *holder
	var other *holder
	switch kind {
	case 0:
		r, err := e.c.PushControllerConfig(e.Ctx, "a", c1)
		bst.Must(x, err)
		h = &holder{keys: []string{"a"}, ref: r}
		m.add(h, map[string]*cc{"a": c1})
	case 1:
		h = &holder{keys: []string{"a"}}
		var err error
		h.ref, err = e.c.AddConfigSetReference(e.Ctx, "a")
		bst.Must(x, err)
		m.add(h, nil)
	case 2:
		other = e.push("a", c1)
		m.add(other, map[string]*cc{"a": c1})
		h = &holder{keys: []string{"a"}}
		var err error
		h.ref, err = e.c.AddConfigSetReference(e.Ctx, "a")
		bst.Must(x, err)
		m.add(h, nil)
	}
	op, when := x.Choose(6), x.Choose(2)
	if x.Choose(2) == 1 {
		x.Wait()
	}
	done := mcx.Int{}
	var nh *holder
	var in mcx.Int
	x.Loud()
	h.ref.AddStateCallback(func(st configset.State) {
		if in.Add(1) != 1 {
			x.Failf("state callback is called concurrently")
		}
		defer in.Add(-1)
		if when == 1 && st.GetController() == nil {
			return
		}
		if done.Add(1) != 1 {
			return
		}
		switch op {
		case 0:
			h.ref.Release()
		case 1:
			renderState(h.ref.GetState())
			var n mcx.Int
			h.ref.AddStateCallback(func(configset.State) { n.Add(1) })
			if n.Get() == 0 {
				x.Failf("callback was not called with the initial state")
			}
		case 2:
			nh = &holder{keys: []string{"a"}}
			nh.ref, _ = e.c.PushControllerConfig(e.Ctx, "a", c2)
		case 3:
			nh = &holder{keys: []string{"a"}}
			nh.ref, _ = e.c.AddConfigSetReference(e.Ctx, "a")
		case 4:
			nh = e.apply(configset.ConfigSet{"a": c3})
		case 5:
			e.rel()
		}
	})
	x.Wait()
	if kind == 1 && when == 1 {
		other = e.push("a", c1)
		m.add(other, map[string]*cc{"a": c1})
	}
	x.Wait()
	x.Calm()
	if done.Get() == 0 {
		x.Failf("callback was not called")
	}
	switch op {
	case 0:
		for i, o := range m.hs {
			if o == h {
				m.release(i)
				break
			}
		}
	case 2:
		m.add(nh, map[string]*cc{"a": c2})
	case 3:
		m.add(nh, nil)
	case 4:
		m.add(nh, map[string]*cc{"a": c3})
	case 5:
		e.check("removed", nil)
		for _, o := range m.hs {
			o.release()
		}
		e.end()
		return
	}
	e.check("settled", m.cur, m.hs...)
	for _, o := range m.hs {
		o.release()
	}
	e.end()
}

// csBusy keeps a state callback busy while the state changes.
func csBusy(x *mcx.X, depth int) {
	e := newCsEnv(x)
	h := &holder{keys: []string{"a"}}
	var err error
	if x.Choose(2) == 0 {
		h.ref, err = e.c.PushControllerConfig(e.Ctx, "a", newCC(1, "1"))
	} else {
		h.ref, err = e.c.AddConfigSetReference(e.Ctx, "a")
		other := e.push("a", newCC(1, "1"))
		defer other.release()
	}
	bst.Must(x, err)
	x.Wait()
	at := x.Choose(3)
	gate := make(chan struct{})
	open := false
	var last mcx.Box[string]
	var calls, in mcx.Int
	go h.ref.AddStateCallback(func(st configset.State) {
		if in.Add(1) != 1 {
			x.Failf("state callback is called concurrently")
		}
		defer in.Add(-1)
		n := calls.Add(1)
		last.Set(renderState(st))
		if n == at+1 {
			<-gate
		}
	})
	x.Wait()
	nerr := 0
	var hs []*holder
	for i := 0; i < depth; i++ {
		k := x.Choose(6)
		switch k {
		case 0:
			i = depth
		case 1: // the controller fails
			l := e.f.Last()
			if l == nil || l.run.Get() == 0 {
				i = depth
				break
			}
			nerr++
			l.Finish(nthError(nerr))
		case 2:
			sleep(3)
		case 3:
			hs = append(hs, e.push("a", newCC(uint64(2+i), "2")))
		case 4:
			if len(hs) == 0 {
				i = depth
				break
			}
			hs[len(hs)-1].release()
			hs = hs[:len(hs)-1]
		case 5:
			if open || in.Get() == 0 {
				i = depth
				break
			}
			open = true
			close(gate)
		}
		x.Wait()
		if in.Get() == 0 && last.Get() != renderState(h.ref.GetState()) {
			x.Failf("last state called back is %q, state is %q", last.Get(), renderState(h.ref.GetState()))
		}
	}
	if !open {
		close(gate)
	}
	x.Wait()
	if last.Get() != renderState(h.ref.GetState()) {
		x.Failf("last state called back is %q, state is %q", last.Get(), renderState(h.ref.GetState()))
	}
	for _, o := range hs {
		o.release()
	}
	h.release()
	x.Wait()
	e.rel()
	x.Wait()
	e.Finish()
}
