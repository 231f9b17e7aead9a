package cts

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_proto "github.com/aperturerobotics/controllerbus/controller/configset/proto"
	controller_exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/controller/resolver/static"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

const (
	stUnknown     = controller_exec.ControllerStatus_ControllerStatus_UNKNOWN
	stConfiguring = controller_exec.ControllerStatus_ControllerStatus_CONFIGURING
	stRunning     = controller_exec.ControllerStatus_ControllerStatus_RUNNING
	stError       = controller_exec.ControllerStatus_ControllerStatus_ERROR
)

// dirSrc serves the directives accepted by ok.
type dirSrc struct {
	*bst.Src
	ok func(d directive.Directive) bool
	ds mcx.Box[directive.Directive]
}

func (d *dirSrc) HandleDirective(ctx ctxT, di directive.Instance) ([]directive.Resolver, error) {
	if !d.ok(di.GetDirective()) {
		return nil, nil
	}
	d.ds.Set(di.GetDirective())
	return directive.R(d.Src, nil)
}

func newDirSrc(e *bst.Env, ok func(d directive.Directive) bool) *dirSrc {
	s := &dirSrc{Src: &bst.Src{X: e.X, ID: 1}, ok: ok}
	rel, err := e.B.AddHandler(s)
	bst.Must(e.X, err)
	s.Rel = rel
	return s
}

// execRun is a call of ExecuteController or Execute.
type execRun struct {
	work   chan func()
	x      *mcx.X
	e      *bst.Env
	src    *dirSrc
	done   mcx.Box[*error]
	gate   mcx.Box[chan struct{}]
	cancel func()
	failCb mcx.Int
	inCb   mcx.Int
	afterC mcx.Int // callbacks after the return
}

// do lets the source perform changes in order; they may have to wait for the
// callback.
func (r *execRun) start() {
	r.work = make(chan func(), 32)
	go func() {
		for {
			select {
			case f := <-r.work:
				f()
			case <-r.e.Ctx.Done():
				return
			}
		}
	}()
}

// enter is called at the start of each callback.
func (r *execRun) enter() error {
	if r.done.Get() != nil {
		r.x.Failf("callback after the call returned")
	}
	if r.inCb.Add(1) != 1 {
		r.x.Failf("callback is called concurrently")
	}
	if g := r.gate.Get(); g != nil {
		<-g
	}
	r.inCb.Add(-1)
	if r.failCb.Get() != 0 {
		return errExec
	}
	return nil
}

// a value of the source
type execVal struct {
	kind int // 0: configuring 1,2: running 3: error
	ctrl *bst.Ctl
}

var execVals = []*execVal{{0, nil}, {1, &bst.Ctl{ID: 1, Desc: " 1"}}, {2, &bst.Ctl{ID: 2, Desc: " 2"}}, {3, nil}, {4, nil}}

var errExec4 = errors.New("another error")

func (v *execVal) controller() controller.Controller {
	if v.ctrl == nil {
		return nil
	}
	return v.ctrl
}

func (v *execVal) err() error {
	switch v.kind {
	case 3:
		return errExec
	case 4:
		return errExec4
	}
	return nil
}

// statusList is the list of reported statuses.
type statusList struct {
	l mcx.Box[[]controller_exec.ControllerStatus]
}

func (s *statusList) add(c controller_exec.ControllerStatus) {
	s.l.Set(append(append([]controller_exec.ControllerStatus{}, s.l.Get()...), c))
}

func (s *statusList) last() controller_exec.ControllerStatus {
	l := s.l.Get()
	if len(l) == 0 {
		return stUnknown
	}
	return l[len(l)-1]
}

// execScript drives one ExecuteController call.
type execScript struct {
	*execRun
	st      statusList
	present []loader.ExecControllerValue // model
	kinds   []int
	sawErr  bool
	gone    bool
	ended   bool
}

func newExecScript(x *mcx.X) *execScript {
	s := &execScript{execRun: &execRun{x: x, e: bst.New(x)}}
	s.src = newDirSrc(s.e, func(d directive.Directive) bool {
		_, ok := d.(resolver.LoadControllerWithConfig)
		return ok
	})
	s.start()
	var ctx ctxT
	ctx, s.cancel = context.WithCancel(s.e.Ctx)
	go func() {
		err := controller_exec.ExecuteController(ctx, s.e.B, NewConf("f", "v"), func(st controller_exec.ControllerStatus) {
			_ = s.enter()
			s.st.add(st)
			x.Ev("status", int(st), 0, 0)
		})
		s.done.Set(&err)
	}()
	x.Wait()
	return s
}

func (s *execScript) add(kind int) {
	v := execVals[kind]
	val := loader.NewExecControllerValue(time.Now(), time.Time{}, v.controller(), v.err())
	s.work <- func() { s.src.Add(val) }
	s.present, s.kinds = append(s.present, val), append(s.kinds, kind)
	s.sawErr = s.sawErr || kind == 3
}

func (s *execScript) remove(i int) {
	if i >= len(s.present) {
		return
	}
	v := s.present[i]
	s.work <- func() { s.src.Remove(v) }
	s.present = append(append([]loader.ExecControllerValue{}, s.present[:i]...), s.present[i+1:]...)
	s.kinds = append(append([]int{}, s.kinds[:i]...), s.kinds[i+1:]...)
}

func (s *execScript) isRunning() bool {
	for _, k := range s.kinds {
		if k == 1 || k == 2 {
			return true
		}
	}
	return false
}

// check compares the reports with the model.
func (s *execScript) check(what string) {
	s.x.Wait()
	if s.gate.Get() != nil && s.inCb.Get() != 0 {
		return // the callback is held
	}
	l := s.st.l.Get()
	for i := range l {
		if i > 0 && l[i] == l[i-1] {
			s.x.Failf("%s: status %v reported twice", what, l[i])
		}
		if l[i] == stError && i != len(l)-1 {
			s.x.Failf("%s: status %v follows an error", what, l[i+1])
		}
		if l[i] == stUnknown {
			s.x.Failf("%s: unknown status reported", what)
		}
	}
	last, done := s.st.last(), s.done.Get()
	switch {
	case s.ended && s.sawErr:
		if done == nil {
			s.x.Failf("%s: ExecuteController did not return", what)
		}
	case s.ended:
		if done == nil {
			s.x.Failf("%s: ExecuteController did not return", what)
		} else if *done != nil && !errors.Is(*done, context.Canceled) {
			s.x.Failf("%s: ExecuteController returned %v", what, *done)
		}
	case s.sawErr && s.gone:
	case s.sawErr:
		if done == nil || *done != errExec {
			s.x.Failf("%s: ExecuteController did not return the error", what)
		} else if last != stError {
			s.x.Failf("%s: last status is %v instead of the error", what, last)
		}
	default:
		if done != nil {
			s.x.Failf("%s: ExecuteController returned %v", what, *done)
			return
		}
		if r := s.isRunning() && !s.gone; r != (last == stRunning) {
			s.x.Failf("%s: last status is %v, controller present: %v (%v)", what, last, r, l)
		}
		if len(s.kinds) != 0 && !s.gone && last == stUnknown {
			s.x.Failf("%s: no status reported", what)
		}
	}
}

func (s *execScript) step(k int) bool {
	switch k {
	case 0, 1, 2, 3:
		if s.done.Get() != nil || s.ended || len(s.present) > 2 {
			return false
		}
		s.add(k)
	case 4, 5:
		if k-4 >= len(s.present) || s.done.Get() != nil {
			return false
		}
		s.remove(k - 4)
	case 6: // replaced
		if len(s.present) == 0 || s.done.Get() != nil {
			return false
		}
		s.remove(0)
		s.add(1)
	case 7: // the reporting is held
		if s.gate.Get() != nil || s.done.Get() != nil {
			return false
		}
		s.gate.Set(make(chan struct{}))
	case 8:
		g := s.gate.Get()
		if g == nil {
			return false
		}
		s.gate.Set(nil)
		close(g)
	case 9:
		if s.ended || s.done.Get() != nil {
			return false
		}
		s.ended = true
		s.cancel()
	case 10: // the handler is removed
		if s.src.Rel == nil {
			return false
		}
		s.work <- s.src.Rel
		s.src.Rel = nil
		s.present, s.kinds = nil, nil
	}
	return true
}

func (s *execScript) end() {
	if g := s.gate.Get(); g != nil {
		s.gate.Set(nil)
		close(g)
	}
	s.check("end")
	s.cancel()
	s.x.Wait()
	if s.done.Get() == nil {
		s.x.Failf("ExecuteController did not return when its context was canceled")
		return
	}
	n := len(s.st.l.Get())
	s.e.Gone("end")
	s.x.Wait()
	if len(s.st.l.Get()) != n {
		s.x.Failf("status reported after the call returned")
	}
	s.e.Finish()
}

func execSeq(x *mcx.X, depth int) {
	s := newExecScript(x)
	for i := 0; i < depth; i++ {
		k := x.Choose(12)
		if k == 11 {
			break
		}
		if s.src.Rel == nil && k < 7 {
			break
		}
		if !s.step(k) {
			break
		}
		// several changes at once
		if s.gate.Get() == nil && x.Choose(2) == 1 {
			continue
		}
		s.check("step " + str(i))
		if x.Failed() {
			break
		}
	}
	s.end()
}

func execPar(x *mcx.X) {
	s := newExecScript(x)
	if k := x.Choose(3); k < 2 {
		s.add(k)
	}
	x.Wait()
	a, b, c := x.Choose(7), x.Choose(8), x.Choose(4)
	dct.Par(func() {
		s.step(a)
		if b < 7 {
			s.step(b)
		}
	}, func() {
		switch c {
		case 0:
			s.cancel()
		case 1:
			x.Point()
		case 2:
			s.work <- s.src.Rel
		}
	})
	s.ended, s.gone = c == 0, c == 2
	s.check("after")
	s.end()
}

// --- ExecControllerRequest.Execute ---

// csVal is a value of ApplyConfigSet.
type csVal struct {
	id string
	v  *execVal
}

func (v *csVal) GetId() string                                   { return v.id }
func (v *csVal) GetControllerConfig() configset.ControllerConfig { return nil }
func (v *csVal) GetController() controller.Controller            { return v.v.controller() }
func (v *csVal) GetError() error                                 { return v.v.err() }

// report renders a response.
func report(r *controller_exec.ExecControllerResponse) string {
	s := r.GetId() + " " + strings.TrimPrefix(r.GetStatus().String(), "ControllerStatus_")
	if i := r.GetControllerInfo(); i != nil {
		s += " " + i.GetId() + " " + i.GetDescription()
	}
	if i := r.GetErrorInfo(); i != "" {
		s += " " + i
	}
	return s
}

func wantReport(id string, v *execVal) string {
	switch {
	case v == nil || v.kind == 0:
		return id + " CONFIGURING"
	case v.err() != nil:
		return id + " ERROR " + v.err().Error()
	}
	return id + " RUNNING verif/ctl test" + v.ctrl.Desc
}

type reqScript struct {
	*execRun
	last    mcx.Box[map[string]string]
	present []*csVal
	n       mcx.Int
	ended   bool
	seen    map[string]bool
}

func newReqScript(x *mcx.X, partial bool) *reqScript {
	s := &reqScript{execRun: &execRun{x: x, e: bst.New(x)}, seen: map[string]bool{}}
	addResolver(s.e, static.NewResolver(NewFac(x, "f")))
	s.src = newDirSrc(s.e, func(d directive.Directive) bool {
		_, ok := d.(configset.ApplyConfigSet)
		return ok
	})
	s.start()
	var ctx ctxT
	ctx, s.cancel = context.WithCancel(s.e.Ctx)
	cs := configset.ConfigSet{}
	for _, k := range []string{"a", "b"} {
		cs[k] = newCC(1, "v"+k)
	}
	req, err := controller_exec.ExecControllerProtoFromConfigSet(cs)
	bst.Must(x, err)
	go func() {
		err := req.Execute(ctx, s.e.B, partial, func(r *controller_exec.ExecControllerResponse) error {
			if err := s.enter(); err != nil {
				return err
			}
			m := map[string]string{}
			for k, v := range s.last.Get() {
				m[k] = v
			}
			m[r.GetId()] = report(r)
			s.last.Set(m)
			x.Ev("report", int(r.GetStatus()), len(r.GetId()), 0)
			return nil
		})
		s.done.Set(&err)
	}()
	x.Wait()
	return s
}

func (s *reqScript) add(id string, kind int) {
	v := &csVal{id, execVals[kind]}
	var av configset.ApplyConfigSetValue = v
	s.work <- func() { s.src.Add(av) }
	s.present = append(s.present, v)
	s.seen[id] = true
}

func (s *reqScript) remove(i int) {
	if i >= len(s.present) {
		return
	}
	av := configset.ApplyConfigSetValue(s.present[i])
	s.work <- func() { s.src.Remove(av) }
	s.present = append(append([]*csVal{}, s.present[:i]...), s.present[i+1:]...)
}

func (s *reqScript) check(what string) {
	s.x.Wait()
	if s.gate.Get() != nil && s.inCb.Get() != 0 {
		return
	}
	done := s.done.Get()
	if s.ended {
		if done == nil {
			s.x.Failf("%s: Execute did not return", what)
		} else if !errors.Is(*done, context.Canceled) && *done != nil && *done != errExec {
			s.x.Failf("%s: Execute returned %v", what, *done)
		}
		return
	}
	if s.failCb.Get() != 0 && done != nil {
		if *done != errExec {
			s.x.Failf("%s: Execute returned %v instead of the error of the callback", what, *done)
		}
		return
	}
	if done != nil {
		s.x.Failf("%s: Execute returned %v", what, *done)
		return
	}
	for _, id := range []string{"a", "b"} {
		var cur *execVal
		for _, v := range s.present {
			if v.id == id {
				cur = v.v
			}
		}
		got := s.last.Get()[id]
		if got != wantReport(id, cur) && !(got == "" && !s.seen[id]) && !(got == "" && cur == nil) {
			s.x.Failf("%s: last report of %s is %q, want %q", what, id, got, wantReport(id, cur))
		}
	}
}

func (s *reqScript) step(k int) bool {
	if (s.done.Get() != nil || s.ended) && k != 11 {
		return false
	}
	switch k {
	case 0, 1, 2, 3:
		if len(s.present) > 2 {
			return false
		}
		s.add("a", k)
	case 4:
		s.add("b", 1)
	case 5, 6:
		if k-5 >= len(s.present) {
			return false
		}
		s.remove(k - 5)
	case 7: // replaced
		if len(s.present) == 0 {
			return false
		}
		id := s.present[0].id
		s.remove(0)
		s.add(id, 2)
	case 8:
		if s.gate.Get() != nil {
			return false
		}
		s.gate.Set(make(chan struct{}))
	case 9:
		if s.failCb.Get() != 0 {
			return false
		}
		s.failCb.Set(1)
	case 10:
		s.ended = true
		s.cancel()
	case 11:
		g := s.gate.Get()
		if g == nil {
			return false
		}
		s.gate.Set(nil)
		close(g)
	case 12:
		if len(s.present) > 2 {
			return false
		}
		s.add("a", 4)
	}
	return true
}

func (s *reqScript) end() {
	if g := s.gate.Get(); g != nil {
		s.gate.Set(nil)
		close(g)
	}
	s.check("end")
	s.cancel()
	s.x.Wait()
	if s.done.Get() == nil {
		s.x.Failf("Execute did not return when its context was canceled")
		return
	}
	s.x.Wait()
	for _, d := range s.e.C.GetDirectives() {
		if _, ok := d.GetDirective().(configset.ApplyConfigSet); ok {
			s.x.Failf("the config set is applied after Execute returned")
		}
	}
	s.e.Finish()
}

func reqSeq(x *mcx.X, depth int) {
	s := newReqScript(x, true)
	for i := 0; i < depth; i++ {
		k := x.Choose(14)
		if k == 13 || !s.step(k) {
			break
		}
		if s.gate.Get() == nil && x.Choose(2) == 1 {
			continue
		}
		s.check("step " + str(i))
		if x.Failed() {
			break
		}
	}
	s.end()
}

func reqPar(x *mcx.X) {
	s := newReqScript(x, x.Choose(2) == 1)
	s.add("a", x.Choose(2))
	x.Wait()
	a, b, c := x.Choose(8), x.Choose(9), x.Choose(3)
	dct.Par(func() {
		s.step(a)
		if b < 8 {
			s.step(b)
		}
	}, func() {
		switch c {
		case 0:
			s.cancel()
		case 1:
			s.failCb.Set(1)
		}
	})
	s.ended = c == 0
	s.check("after")
	s.end()
}

// reqResolve checks which config set a request stands for.
func reqResolve(x *mcx.X) {
	e := bst.New(x)
	addResolver(e, static.NewResolver(NewFac(x, "f")))
	src := newDirSrc(e, func(d directive.Directive) bool {
		_, ok := d.(configset.ApplyConfigSet)
		return ok
	})
	keys := []string{"a", "b"}
	req := &controller_exec.ExecControllerRequest{}
	partial, over := x.Choose(2) == 1, x.Choose(2) == 1
	req.ConfigSetYamlOverwrite = over
	const (
		absent = iota
		good
		bad
	)
	var prot, yam [2]int
	if x.Choose(2) == 1 {
		req.ConfigSet = &configset_proto.ConfigSet{Configs: map[string]*configset_proto.ControllerConfig{}}
		for i, k := range keys {
			prot[i] = x.Choose(3)
			switch prot[i] {
			case good:
				req.ConfigSet.Configs[k] = &configset_proto.ControllerConfig{Id: "f", Rev: 1, Config: []byte(`{"exampleField":"proto"}`)}
			case bad:
				req.ConfigSet.Configs[k] = &configset_proto.ControllerConfig{Id: "f", Rev: 1, Config: []byte(`{"exampleField":`)}
			}
		}
		if x.Choose(2) == 1 { // an entry without a key is not applied
			req.ConfigSet.Configs[""] = &configset_proto.ControllerConfig{Id: "f", Rev: 1}
		}
	}
	malformed := false
	switch x.Choose(3) {
	case 1:
		for i, k := range keys {
			yam[i] = x.Choose(2)
			if yam[i] == good {
				req.ConfigSetYaml += k + ": {id: f, rev: 2, config: {exampleField: yaml}}\n"
			}
		}
	case 2:
		malformed = true
		req.ConfigSetYaml = "a: ["
	}
	// the outcome
	wantErr := req.ConfigSet == nil && req.ConfigSetYaml == "" || malformed
	want, reps, open := map[string]string{}, map[string]bool{}, map[string]bool{}
	nbad := 0
	for i, k := range keys {
		if prot[i] == bad && !partial {
			wantErr = true
		}
		if yam[i] == good && (over || prot[i] == absent) {
			want[k] = "yaml"
		} else if prot[i] == good {
			want[k] = "proto"
		} else if prot[i] == bad {
			nbad++
			if yam[i] == good { // not settled which one is to be used
				open[k] = true
			} else {
				reps[k] = true
			}
		}
	}
	if nbad != 0 && len(want) == 0 && len(open) == 0 {
		wantErr = true
	}
	var got, gotReps mcx.Box[map[string]string]
	var done mcx.Box[*error]
	ctx, cancel := context.WithCancel(e.Ctx)
	go func() {
		err := req.Execute(ctx, e.B, partial, func(r *controller_exec.ExecControllerResponse) error {
			m := map[string]string{}
			for k, v := range gotReps.Get() {
				m[k] = v
			}
			m[r.GetId()] = r.GetStatus().String()
			gotReps.Set(m)
			if r.GetStatus() == stError && (r.GetErrorInfo() == "" || r.GetError() == nil) {
				x.Failf("error report without an error")
			}
			return nil
		})
		done.Set(&err)
	}()
	x.Wait()
	what := fmt.Sprintf("request proto=%v yaml=%v malformed=%v partial=%v overwrite=%v", prot, yam, malformed, partial, over)
	if d := done.Get(); d != nil {
		if *d == nil || errors.Is(*d, context.Canceled) {
			x.Failf("%s: Execute returned %v", what, *d)
		}
		if !wantErr && len(open) == 0 {
			x.Failf("%s: Execute returned %v", what, *d)
		}
	} else if wantErr {
		x.Failf("%s: Execute did not return an error", what)
	} else {
		m := map[string]string{}
		if d, ok := src.ds.Get().(configset.ApplyConfigSet); ok {
			for k, c := range d.GetApplyConfigSet() {
				if k != "" {
					m[k] = c.GetConfig().(*Conf).ExampleField
					if rev := c.GetRev(); rev != map[string]uint64{"proto": 1, "yaml": 2}[m[k]] {
						x.Failf("%s: %s has revision %d", what, k, rev)
					}
				}
			}
		} else {
			x.Failf("%s: no config set was applied", what)
		}
		got.Set(m)
		for _, k := range keys {
			if open[k] {
				continue
			}
			if m[k] != want[k] {
				x.Failf("%s: config applied for %s is %q, want %q", what, k, m[k], want[k])
			}
			if r := gotReps.Get()[k]; (r == stError.String()) != reps[k] {
				x.Failf("%s: report of %s is %q", what, k, r)
			}
		}
	}
	cancel()
	x.Wait()
	if done.Get() == nil {
		x.Failf("Execute did not return when its context was canceled")
	}
	e.Finish()
}

// --- the full chain ---

// reqChain executes a request with all the controllers behind it.
func reqChain(x *mcx.X, depth int) {
	e := newCsEnv(x)
	ok := map[string]bool{"va": true, "vb": true}
	e.f.mode = nil
	cs := configset.ConfigSet{"a": newCC(1, "va"), "b": newCC(1, "vb")}
	var req *controller_exec.ExecControllerRequest
	var err error
	if x.Choose(2) == 1 {
		req, err = controller_exec.ExecControllerProtoFromConfigSet(cs)
	} else {
		req, err = controller_exec.ExecControllerYAMLFromConfigSet(cs)
	}
	bst.Must(x, err)
	_ = ok
	ctx, cancel := context.WithCancel(e.Ctx)
	var last mcx.Box[map[string]string]
	var done mcx.Box[*error]
	go func() {
		err := req.Execute(ctx, e.B, true, func(r *controller_exec.ExecControllerResponse) error {
			m := map[string]string{}
			for k, v := range last.Get() {
				m[k] = v
			}
			m[r.GetId()] = strings.TrimPrefix(r.GetStatus().String(), "ControllerStatus_")
			last.Set(m)
			return nil
		})
		done.Set(&err)
	}()
	up := true
	for i := 0; i < depth; i++ {
		x.Wait()
		// compare
		running := map[string]bool{}
		for _, c := range e.f.ctls.Get() {
			if c.run.Get() != 0 {
				running[c.conf.(*Conf).ExampleField[1:]] = true
			}
		}
		for _, k := range []string{"a", "b"} {
			l := last.Get()[k]
			if running[k] != (l == "RUNNING") {
				x.Failf("step %d: %s is running: %v, reported %s", i, k, running[k], l)
			}
			if !up && (l == "RUNNING" || l == "ERROR") {
				x.Failf("step %d: %s reported as %s without the config set controller", i, k, l)
			}
		}
		if done.Get() != nil {
			x.Failf("step %d: Execute returned", i)
			break
		}
		k := x.Choose(5)
		if k == 4 {
			break
		}
		switch k {
		case 0, 1:
			var t *Ctl
			for _, c := range e.f.ctls.Get() {
				if c.run.Get() != 0 && c.conf.(*Conf).ExampleField == []string{"va", "vb"}[k] {
					t = c
				}
			}
			if t != nil {
				t.Finish(nthError(i))
			}
			x.Wait()
			if t != nil {
				if l := last.Get()[[]string{"a", "b"}[k]]; l != "ERROR" {
					x.Failf("step %d: failed controller is reported as %s", i, l)
				}
			}
			if x.Choose(2) == 1 {
				continue
			}
		case 2:
			sleep(100)
		case 3:
			if up {
				e.rel()
			} else {
				e.upAgain()
			}
			up = !up
		}
	}
	cancel()
	x.Wait()
	if done.Get() == nil {
		x.Failf("Execute did not return when its context was canceled")
	}
	if up {
		e.rel()
	}
	sleep(100)
	x.Wait()
	want(x, "end", "running controllers", e.f.Running(), nil)
	e.f.res.Want("end")
	e.Finish()
}

func (e *csEnv) upAgain() { e.up() }

func sorted(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func init() {
	depth := 4
	if mcx.Thorough() {
		depth = 6
	}
	mcx.Register(&mcx.Scenario{Prop: "C20", Name: "exec-seq", NoRace: true, EnvOnly: true, Body: func(x *mcx.X) { execSeq(x, depth) }})
	mcx.Register(&mcx.Scenario{Prop: "C20", Name: "exec-par", Core: true, Body: execPar})
	mcx.Register(&mcx.Scenario{Prop: "C20", Name: "request-seq", NoRace: true, EnvOnly: true, Body: func(x *mcx.X) { reqSeq(x, depth) }})
	mcx.Register(&mcx.Scenario{Prop: "C20", Name: "request-par", Core: true, Body: reqPar})
	mcx.Register(&mcx.Scenario{Prop: "C20", Name: "request-merge", NoRace: true, EnvOnly: true, MapOrder: true, Body: reqResolve})
	mcx.Register(&mcx.Scenario{Prop: "C20", Name: "request-chain", NoRace: true, EnvOnly: true, Body: func(x *mcx.X) { reqChain(x, depth) }})
}
