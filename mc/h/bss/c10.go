// Package bss holds the scenarios of the bus and its helpers.
package bss

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/aperturerobotics/util/ccontainer"
)

type ctxT = context.Context

var errFilter = errors.New("filter failed")

// steps of the scripted resolver
const (
	sAddRej  = iota // adds a value the filter does not accept
	sAdd            // adds an acceptable value
	sAddType        // adds a value of another type
	sRemove         // removes the oldest value
	sIdle
	sBusy
	sRetNil
	sRetErr
	sClose
	nSteps
	sRemoveNew = nSteps // removes the newest value
)

var stepNames = []string{"add-rejected", "add", "add-other-type", "remove", "idle", "busy", "return", "return-error", "close", "remove-newest"}

// world is the reference model of one directive with one resolver.
type world struct {
	vals   []any
	next   int
	idle   bool
	err    bool
	closed bool
	done   bool // resolver returned
}

func (w world) ok(st int) bool {
	if w.closed {
		return false
	}
	if w.done {
		return st == sClose
	}
	switch st {
	case sRemove:
		return len(w.vals) != 0
	case sRemoveNew:
		return len(w.vals) > 1
	case sIdle:
		return !w.idle
	case sBusy:
		return w.idle
	}
	return true
}

func (w world) step(st int) (world, any) {
	w.vals = append([]any{}, w.vals...)
	var v any
	switch st {
	case sAddRej:
		v = 10 + 2*w.next + 1
	case sAdd:
		v = 10 + 2*w.next
	case sAddType:
		v = fmt.Sprint("s", w.next)
	case sRemove:
		v = w.vals[0]
		w.vals = w.vals[1:]
	case sRemoveNew:
		v = w.vals[len(w.vals)-1]
		w.vals = w.vals[:len(w.vals)-1]
	case sIdle:
		w.idle = true
	case sBusy:
		w.idle = false
	case sRetNil:
		w.done, w.idle = true, true
	case sRetErr:
		w.done, w.idle, w.err = true, true, true
	case sClose:
		w.closed, w.vals = true, nil
	}
	if st <= sAddType {
		w.next++
		w.vals = append(w.vals, v)
	}
	return w, v
}

func doStep(s *bst.Src, di func() directive.Instance, st int, v any) {
	switch st {
	case sAddRej, sAdd, sAddType:
		if !s.Add(v) && s.Ctx.Get().Err() == nil {
			s.X.Failf("value rejected")
		}
	case sRemove, sRemoveNew:
		s.Remove(v)
	case sIdle:
		s.Idle(true)
	case sBusy:
		s.Idle(false)
	case sRetNil:
		s.Return(nil)
	case sRetErr:
		s.Return(bst.ErrRes)
	case sClose:
		di().Close()
	}
}

// plan is a script: the first pre steps happen before the call.
type plan struct {
	steps []int
	vals  []any
	ws    []world // ws[i]: before step i
	pre   int
	late  bool // the call may see the directive after some more steps
}

func (p *plan) closes() bool { return p.ws[len(p.steps)].closed }

func choosePlan(x *mcx.X, depth int, join bool, only ...int) *plan {
	p := &plan{}
	w := world{}
	p.ws = append(p.ws, w)
	for len(p.steps) < depth {
		var en []int
		if len(only) == 0 {
			for st := 0; st < nSteps; st++ {
				if w.ok(st) {
					en = append(en, st)
				}
			}
		} else {
			for _, st := range only {
				if w.ok(st) {
					en = append(en, st)
				}
			}
		}
		c := x.Choose(len(en) + 1)
		if c == 0 {
			break
		}
		var v any
		st := en[c-1]
		w, v = w.step(st)
		p.steps = append(p.steps, st)
		p.vals = append(p.vals, v)
		p.ws = append(p.ws, w)
	}
	if join {
		n := len(p.steps)
		for i, st := range p.steps {
			if st == sClose {
				n = i
			}
		}
		p.pre = x.Choose(n+2) - 1 // -1: the directive does not exist yet
	} else {
		p.pre = -1
	}
	return p
}

func (p *plan) String() string {
	s := ""
	for i, st := range p.steps {
		if i == p.pre {
			s += " [call]"
		}
		s += " " + stepNames[st]
	}
	return s
}

// kinds of idle callback
const (
	iNil = iota
	iReturn
	iIgnore
	nIdle
)

func idleOf(k int) bus.ExecIdleCallback {
	switch k {
	case iReturn:
		return bus.ReturnWhenIdle()
	case iIgnore:
		return bus.WaitWhenIdle(true)
	}
	return nil
}

// kinds of filter
const (
	fNone = iota
	fReject
	fErr
	nFilter
)

// variants of the call
const (
	vOneOff = iota
	vFilter
	vTyped
	vFilterTyped
	vXfrm
	vXfrmTyped
	vWait
	nVariants
)

func hasFilter(v int) bool {
	return v == vFilter || v == vFilterTyped || v == vXfrm || v == vXfrmTyped || v == vWait
}
func isTyped(v int) bool { return v == vTyped || v == vFilterTyped || v == vXfrmTyped || v == vWait }

// passes: 1 accepted, 0 ignored, -1 error
func passes(variant, filter int, v any) int {
	n, isInt := v.(int)
	if !isInt && isTyped(variant) {
		return 0
	}
	if !hasFilter(variant) || filter == fNone {
		return 1
	}
	if isInt && n%2 == 0 {
		return 1
	}
	if filter == fErr {
		return -1
	}
	return 0
}

type result struct {
	val  any
	nil_ bool // no value, no error
	err  error
	ref  directive.Reference
	di   directive.Instance
}

func call(x *mcx.X, ctx context.Context, b bus.Bus, dir directive.Directive, variant, filter, idle int, disp func()) (r result) {
	pass := func(v any) (bool, error) {
		switch passes(variant, filter, v) {
		case 1:
			return true, nil
		case 0:
			return false, nil
		}
		return false, errFilter
	}
	var av directive.AttachedValue
	var tav directive.TypedAttachedValue[int]
	cb := idleOf(idle)
	setT := func() {
		if tav != nil {
			r.val = tav.GetValue()
		}
	}
	switch variant {
	case vOneOff:
		av, r.di, r.ref, r.err = bus.ExecOneOff(ctx, b, dir, cb, disp)
	case vFilter:
		f := func(v directive.AttachedValue) (bool, error) { return pass(v.GetValue()) }
		if filter == fNone {
			f = nil
		}
		av, r.di, r.ref, r.err = bus.ExecOneOffWithFilter(ctx, b, dir, cb, disp, f)
	case vTyped:
		tav, r.di, r.ref, r.err = bus.ExecOneOffTyped[int](ctx, b, dir, cb, disp)
		setT()
	case vFilterTyped:
		f := func(v directive.TypedAttachedValue[int]) (bool, error) { return pass(v.GetValue()) }
		if filter == fNone {
			f = nil
		}
		tav, r.di, r.ref, r.err = bus.ExecOneOffWithFilterTyped(ctx, b, dir, cb, disp, f)
		setT()
	case vXfrm:
		var xv directive.Value
		xv, av, r.di, r.ref, r.err = bus.ExecOneOffWithXfrm(ctx, b, dir, cb, disp, func(v directive.AttachedValue) (directive.Value, bool, error) {
			ok, err := pass(v.GetValue())
			return fmt.Sprint("x", v.GetValue()), ok, err
		})
		if av != nil && xv != fmt.Sprint("x", av.GetValue()) {
			x.Failf("transformed value %v does not belong to value %v", xv, av.GetValue())
		}
	case vXfrmTyped:
		var xv string
		xv, tav, r.di, r.ref, r.err = bus.ExecOneOffWithXfrmTyped(ctx, b, dir, cb, disp, func(v directive.TypedAttachedValue[int]) (string, bool, error) {
			ok, err := pass(v.GetValue())
			return fmt.Sprint("x", v.GetValue()), ok, err
		})
		setT()
		if tav != nil && xv != fmt.Sprint("x", tav.GetValue()) {
			x.Failf("transformed value %v does not belong to value %v", xv, tav.GetValue())
		}
		if tav == nil && xv != "" {
			x.Failf("transformed value %v without a value", xv)
		}
	case vWait:
		f := func(v int) (bool, error) { return pass(v) }
		if filter == fNone {
			f = nil
		}
		var v int
		v, r.di, r.ref, r.err = bus.ExecWaitValue(ctx, b, dir, cb, disp, f)
		if r.ref != nil {
			r.val = v
		} else if v != 0 {
			x.Failf("value %v returned without a reference", v)
		}
	}
	if av != nil {
		r.val = av.GetValue()
	}
	r.nil_ = r.val == nil && r.err == nil
	if (r.ref != nil) != (r.val != nil) {
		x.Failf("reference returned: %v, value returned: %v", r.ref != nil, r.val != nil)
	}
	if r.val != nil && r.di == nil {
		x.Failf("value returned without an instance")
	}
	return
}

// expect walks the script as the call sees it.  soft: the call may return
// without a value; hard: the first event after which it must return.
func (p *plan) expect(start, variant, filter, idle int) (soft bool, val any, err error, must bool) {
	see := func(v any) bool {
		switch passes(variant, filter, v) {
		case 1:
			val = v
			return true
		case -1:
			err = errFilter
			return true
		}
		return false
	}
	var w world
	w = p.ws[start]
	for _, v := range w.vals {
		if see(v) {
			return
		}
	}
	check := func() bool {
		if w.err && idle != iIgnore {
			err = bst.ErrRes
			return true
		}
		if w.idle && idle == iReturn {
			soft = true
		}
		return false
	}
	if check() {
		return
	}
	for i := start; i < len(p.steps); i++ {
		st := p.steps[i]
		w = p.ws[i+1]
		if st <= sAddType && see(p.vals[i]) {
			return
		}
		if st == sClose {
			err = directive.ErrDirectiveDisposed
			return
		}
		if check() {
			return
		}
	}
	must = w.idle && idle == iReturn
	return
}

func oneOff(x *mcx.X, p *plan, variant, filter, idle int, cancel, wait bool) {
	x.Calm()
	e := bst.New(x)
	s := e.NewSrc(0, 1)
	var keep directive.Reference
	var di0 directive.Instance
	add := func() directive.Instance {
		di, ref, err := e.B.AddDirective(&dct.Dir{ID: 9, Class: 1}, &dct.Ref{X: x, ID: 9})
		bst.Must(x, err)
		keep = ref
		return di
	}
	if p.pre >= 0 {
		di0 = add()
		x.Wait()
		for i := 0; i < p.pre; i++ {
			doStep(s, nil, p.steps[i], p.vals[i])
			x.Wait()
		}
	}
	x.Wait()
	x.Loud()
	ctx, ctxCancel := context.WithCancel(context.Background())
	defer ctxCancel()
	var disp mcx.Int
	var done mcx.Int
	var r result
	go func() {
		r = call(x, ctx, e.B, &dct.Dir{ID: 1, Class: 1}, variant, filter, idle, func() { disp.Add(1) })
		done.Set(1)
	}()
	if p.pre >= 0 {
		if p.late = !wait && !p.closes(); !p.late {
			x.Wait()
		}
	} else {
		x.Wait()
		// the call may have returned only if there is nothing to wait for
		p.pre = 0
		ds := e.C.GetDirectives()
		if len(ds) != 1 {
			x.Failf("%d directives while the call waits", len(ds))
			e.Finish()
			return
		}
		di0 = ds[0]
	}
	if cancel {
		go ctxCancel()
	}
	for i := p.pre; i < len(p.steps); i++ {
		doStep(s, func() directive.Instance { return di0 }, p.steps[i], p.vals[i])
		if done.Get() == 1 && keep == nil {
			x.Wait()
			if r.ref == nil {
				break // the directive is gone with the call
			}
		}
	}
	x.Wait()
	x.Calm()
	end := p.ws[len(p.steps)]
	var msg string
	ok, msgDone := false, done.Get() == 1
	var soft bool
	for start := p.pre; start <= len(p.steps); start++ {
		sft, val, err, must := p.expect(start, variant, filter, idle)
		if start == p.pre {
			soft = sft
		}
		if !msgDone {
			ok = ok || !(val != nil || err != nil || must || cancel)
		} else {
			either := err == bst.ErrRes && end.closed && r.err == directive.ErrDirectiveDisposed
			ok = ok || either || r.val != nil && r.val == val || r.err != nil && errors.Is(r.err, err) || r.nil_ && sft || cancel && r.err == context.Canceled
		}
		if msg == "" {
			msg = fmt.Sprintf("script%v: call returned: %v (%v, %v), want (%v, %v), idle %v %v", p, msgDone, r.val, r.err, val, err, sft, must)
		}
		if !p.late {
			break
		}
	}
	if !ok {
		x.Failf("%s", msg)
	}
	if done.Get() == 0 {
		ctxCancel()
		x.Wait()
		if done.Get() == 0 {
			x.Failf("call did not return after its context was canceled")
			e.Finish()
			return
		}
		if r.err != context.Canceled && !(soft && r.nil_) {
			x.Failf("canceled call returned %v, %v", r.val, r.err)
		}
	}
	x.Ev("result", b2i(r.val != nil), b2i(r.err != nil), b2i(r.nil_))
	if r.val != nil {
		present := false
		for _, v := range end.vals {
			present = present || v == r.val
		}
		if present != (disp.Get() == 0) {
			x.Failf("script%v: value %v returned; present: %v, dispose callback called %d times", p, r.val, present, disp.Get())
		}
		if !end.closed && !e.Live(r.di) {
			x.Failf("directive is gone while the reference is held")
		}
		r.ref.Release()
	}
	if keep != nil {
		keep.Release()
	}
	e.Gone("released")
	e.Finish()
}

// oneOffEqual has several values which are equal: the call holds exactly one of them.
func oneOffEqual(x *mcx.X, depth int) {
	e := bst.New(x)
	srcs := []*bst.Src{e.NewSrc(0, 1), e.NewSrc(1, 1), e.NewSrc(2, 1)}
	variant := x.Choose(nVariants)
	_, keep, err := e.B.AddDirective(&dct.Dir{ID: 9, Class: 1}, &dct.Ref{X: x, ID: 9})
	bst.Must(x, err)
	x.Wait()
	var disp, done mcx.Int
	var r result
	go func() {
		r = call(x, e.Ctx, e.B, &dct.Dir{ID: 1, Class: 1}, variant, fNone, iNil, func() { disp.Add(1) })
		done.Set(1)
	}()
	x.Wait()
	held := -1 // the source of the value held
	gone := 0
	for i := 0; i < depth; i++ {
		k := x.Choose(len(srcs) + 1)
		if k == len(srcs) {
			break
		}
		s := srcs[k]
		if s.Has(2) {
			s.Remove(2)
			if held == k && gone == 0 {
				gone = 1
			}
		} else {
			s.Add(2)
			if held < 0 {
				held = k
			}
		}
		x.Wait()
		if (held >= 0) != (done.Get() == 1) {
			x.Failf("call returned: %v, want %v", done.Get() == 1, held >= 0)
		}
		if disp.Get() != gone {
			x.Failf("dispose callback called %d times, want %d", disp.Get(), gone)
		}
	}
	if held < 0 {
		srcs[0].Add(2)
		x.Wait()
	}
	if r.ref == nil {
		x.Failf("no reference returned")
	} else {
		r.ref.Release()
	}
	keep.Release()
	e.Gone("released")
	e.Finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// collect checks ExecCollectValues.
func collect(x *mcx.X, p *plan, waitOne, cancel bool) {
	x.Calm()
	e := bst.New(x)
	s := e.NewSrc(0, 1)
	var keep directive.Reference
	if p.pre >= 0 {
		_, ref, err := e.B.AddDirective(&dct.Dir{ID: 9, Class: 1}, &dct.Ref{X: x, ID: 9})
		bst.Must(x, err)
		keep = ref
		x.Wait()
		for i := 0; i < p.pre; i++ {
			doStep(s, nil, p.steps[i], p.vals[i])
			x.Wait()
		}
	}
	x.Wait()
	x.Loud()
	ctx, ctxCancel := context.WithCancel(context.Background())
	defer ctxCancel()
	var disp, done mcx.Int
	var vals []int
	var ref directive.Reference
	var err error
	go func() {
		vals, _, ref, err = bus.ExecCollectValues[int](ctx, e.B, &dct.Dir{ID: 1, Class: 1}, waitOne, func() { disp.Add(1) })
		done.Set(1)
	}()
	if p.pre < 0 || p.closes() {
		x.Wait()
		p.pre = max(p.pre, 0)
	}
	di0 := e.C.GetDirectives()[0]
	_ = di0
	if cancel {
		go ctxCancel()
	}
	for i := p.pre; i < len(p.steps); i++ {
		doStep(s, func() directive.Instance { return di0 }, p.steps[i], p.vals[i])
		if done.Get() == 1 && keep == nil {
			x.Wait()
			if ref == nil {
				break
			}
		}
	}
	x.Wait()
	x.Calm()
	ints := func(w world) string {
		var out []int
		for _, v := range w.vals {
			if n, ok := v.(int); ok {
				out = append(out, n)
			}
		}
		sort.Ints(out)
		return fmt.Sprint(out)
	}
	// sets of values present at some idle moment
	sets := map[string]int{}
	var hard error
	must := false
	for i := p.pre; i <= len(p.steps); i++ {
		w := p.ws[i]
		if w.err {
			hard = bst.ErrRes
			break
		}
		if w.closed {
			// the values are withdrawn one by one
			hard = directive.ErrDirectiveDisposed
			if b := p.ws[i-1]; b.idle {
				for m := 0; m < 1<<len(b.vals); m++ {
					var u world
					for k, v := range b.vals {
						if m>>k&1 == 1 {
							u.vals = append(u.vals, v)
						}
					}
					if s := ints(u); !waitOne || s != "[]" {
						sets[s] = i
					}
				}
			}
			break
		}
		must = w.idle && (!waitOne || ints(w) != "[]")
		if must {
			sets[ints(w)] = i
		}
	}
	end := p.ws[len(p.steps)]
	if done.Get() == 0 {
		if hard != nil || must || cancel {
			x.Failf("script%v: ExecCollectValues did not return", p)
		}
		ctxCancel()
		x.Wait()
		if done.Get() == 0 {
			x.Failf("ExecCollectValues did not return after its context was canceled")
			e.Finish()
			return
		}
	}
	if err != nil {
		if ref != nil {
			x.Failf("reference returned with an error")
		}
		if !(hard != nil && (errors.Is(err, hard) || end.closed && err == directive.ErrDirectiveDisposed)) && err != context.Canceled {
			x.Failf("script%v: unexpected error %v", p, err)
		}
	} else {
		sort.Ints(vals)
		at, ok := sets[fmt.Sprint(vals)]
		if !ok {
			x.Failf("script%v: ExecCollectValues returned %v, which was not the set of values at any idle moment %v", p, vals, sets)
		}
		_ = at
		if ref == nil {
			x.Failf("no reference returned")
		} else {
			miss := false
			for _, v := range vals {
				found := false
				for _, u := range end.vals {
					found = found || u == any(v)
				}
				miss = miss || !found
			}
			want := b2i(miss || end.closed)
			if disp.Get() != want {
				x.Failf("script%v: returned %v; dispose callback called %d times, want %d", p, vals, disp.Get(), want)
			}
			ref.Release()
		}
	}
	x.Ev("result", len(vals), b2i(err != nil), 0)
	if keep != nil {
		keep.Release()
	}
	e.Gone("released")
	e.Finish()
}

func init() {
	depth := 3
	if mcx.Thorough() {
		depth = 4
	}
	mcx.Register(&mcx.Scenario{Prop: "C10", Name: "oneoff-scripts", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		variant := x.Choose(nVariants)
		filter := 0
		if hasFilter(variant) {
			filter = x.Choose(nFilter)
		}
		idle := x.Choose(nIdle)
		oneOff(x, choosePlan(x, depth+1, true), variant, filter, idle, false, true)
	}})
	mcx.Register(&mcx.Scenario{Prop: "C10", Name: "oneoff-schedules", Weight: 3, Body: func(x *mcx.X) {
		variant := []int{vFilter, vWait}[x.Choose(2)]
		filter := []int{fReject, fErr}[x.Choose(2)]
		idle := x.Choose(nIdle)
		cancel := x.Choose(2) == 1
		oneOff(x, choosePlan(x, depth-1, true), variant, filter, idle, cancel, false)
	}})
	mcx.Register(&mcx.Scenario{Prop: "C10", Name: "collect-scripts", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		waitOne := x.Choose(2) == 1
		collect(x, choosePlan(x, depth+1, true), waitOne, false)
	}})
	mcx.Register(&mcx.Scenario{Prop: "C10", Name: "collect-long", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) {
		waitOne := x.Choose(2) == 1
		collect(x, choosePlan(x, depth+4, x.Choose(2) == 1, sAdd, sRemove, sRemoveNew, sIdle), waitOne, false)
	}})
	mcx.Register(&mcx.Scenario{Prop: "C10", Name: "oneoff-equal", EnvOnly: true, NoRace: true, Body: func(x *mcx.X) { oneOffEqual(x, depth+4) }})
	mcx.Register(&mcx.Scenario{Prop: "C10", Name: "collect-schedules", Weight: 2, Body: func(x *mcx.X) {
		waitOne := x.Choose(2) == 1
		cancel := x.Choose(2) == 1
		collect(x, choosePlan(x, depth, true, sAdd, sRemove, sIdle, sBusy, sRetErr, sClose), waitOne, cancel)
	}})
	// two resolvers: an error of one does not hide the value of the other for good,
	// and the call always returns
	mcx.Register(&mcx.Scenario{Prop: "C10", Name: "oneoff-two", Weight: 2, Body: func(x *mcx.X) {
		x.Calm()
		e := bst.New(x)
		s0, s1 := e.NewSrc(0, 1), e.NewSrc(1, 1)
		x.Loud()
		idle := x.Choose(nIdle)
		op0, op1 := x.Choose(4), x.Choose(4)
		var done, disp mcx.Int
		var r result
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		go func() {
			r = call(x, ctx, e.B, &dct.Dir{ID: 1, Class: 1}, vFilter, fReject, idle, func() { disp.Add(1) })
			done.Set(1)
		}()
		x.Wait()
		act := func(s *bst.Src, op int) func() {
			return func() {
				switch op {
				case 0:
					s.Add(2 + 2*s.ID)
				case 1:
					s.Add(1 + 2*s.ID)
					s.Return(nil)
				case 2:
					s.Return(bst.ErrRes)
				case 3:
					s.Add(2 + 2*s.ID)
					s.Remove(2 + 2*s.ID)
					s.Idle(true)
				}
			}
		}
		dct.Par(act(s0, op0), act(s1, op1))
		x.Wait()
		hasVal := op0 == 0 || op1 == 0 || op0 == 3 || op1 == 3
		hasErr := op0 == 2 || op1 == 2
		must := hasVal || hasErr && idle != iIgnore || idle == iReturn
		if must != (done.Get() == 1) {
			x.Failf("call returned: %v, want %v", done.Get() == 1, must)
		}
		if done.Get() == 0 {
			cancel()
			x.Wait()
		}
		switch {
		case r.val != nil && (!hasVal || r.val.(int)%2 != 0):
			x.Failf("returned value %v", r.val)
		case r.err == bst.ErrRes && !hasErr:
			x.Failf("returned error %v", r.err)
		case r.nil_ && (idle != iReturn || hasVal && hasErr == false && (op0 == 0 || op1 == 0) && (op0 != 0 || op1 != 0) && false):
			x.Failf("returned without value")
		}
		if r.ref != nil {
			r.ref.Release()
		}
		e.Gone("released")
		e.Finish()
	}})
	// a RefCount follows the values of the directive
	mcx.Register(&mcx.Scenario{Prop: "C10", Name: "refcount", Weight: 2, Body: func(x *mcx.X) {
		x.Calm()
		e := bst.New(x)
		s := e.NewSrc(0, 1)
		ctr := ccontainer.NewCContainer(0)
		_, keep, err := e.B.AddDirective(&dct.Dir{ID: 2, Class: 1}, nil)
		bst.Must(x, err)
		rc := bus.NewOneOffRefCount[int](e.Ctx, e.B, &dct.Dir{ID: 1, Class: 1}, nil, func(v directive.TypedAttachedValue[int]) (bool, error) {
			return v.GetValue()%2 == 0, nil
		}, false, ctr, nil)
		ref := rc.AddRef(nil)
		x.Wait()
		x.Loud()
		op := x.Choose(3)
		dct.Par(func() {
			s.Add(1)
			s.Add(2)
			s.Remove(2)
			if op > 0 {
				s.Add(4)
			}
			if op > 1 {
				s.Remove(4)
				s.Add(6)
			}
		})
		x.Wait()
		x.Calm()
		want := []int{0, 4, 6}[op]
		if v := ctr.GetValue(); v != want {
			x.Failf("container holds %d, want %d", v, want)
		}
		ref.Release()
		x.Wait()
		if v := ctr.GetValue(); v != 0 {
			x.Failf("container holds %d without references", v)
		}
		keep.Release()
		e.Gone("released")
		rc.ClearContext()
		e.Finish()
	}})
}
