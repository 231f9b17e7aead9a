package ads

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	callback_controller "github.com/aperturerobotics/controllerbus/controller/callback"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/blang/semver/v4"
	"github.com/sirupsen/logrus"
)

// inst is an instance which is only passed on.
type inst struct {
	directive.Instance
	n int
}

// rec records calls.
type rec struct {
	log []string
	tag string
	to  *[]string
}

func (r *rec) HandleValueAdded(di directive.Instance, v directive.AttachedValue) {
	*r.to = append(*r.to, fmt.Sprintf("%s+%d:%d=%v", r.tag, di.(*inst).n, v.GetValueID(), v.GetValue()))
}
func (r *rec) HandleValueRemoved(di directive.Instance, v directive.AttachedValue) {
	*r.to = append(*r.to, fmt.Sprintf("%s-%d:%d=%v", r.tag, di.(*inst).n, v.GetValueID(), v.GetValue()))
}
func (r *rec) HandleInstanceDisposed(di directive.Instance) {
	*r.to = append(*r.to, fmt.Sprintf("%s!%d", r.tag, di.(*inst).n))
}

// stage is a handler in a chain: what it does with an event.
type stage struct {
	name string
	make func(to *[]string) directive.ReferenceHandler
	want func(e event) []string
}

// event: kind 0 value added, 1 value removed, 2 disposed
type event struct {
	kind int
	di   int
	id   uint32
	val  any
}

func (e event) rec(tag string) string {
	switch e.kind {
	case 0:
		return fmt.Sprintf("%s+%d:%d=%v", tag, e.di, e.id, e.val)
	case 1:
		return fmt.Sprintf("%s-%d:%d=%v", tag, e.di, e.id, e.val)
	}
	return fmt.Sprintf("%s!%d", tag, e.di)
}

// short is the record of a callback which does not get the instance.
func (e event) short(tag string) string {
	switch e.kind {
	case 0:
		return fmt.Sprintf("%s+%d=%v", tag, e.id, e.val)
	case 1:
		return fmt.Sprintf("%s-%d=%v", tag, e.id, e.val)
	}
	return tag + "!"
}

// stages returns all handlers nested up to a depth.
func stages(depth int, path string) []stage {
	leaf := []stage{
		{"record", func(to *[]string) directive.ReferenceHandler { return &rec{tag: path, to: to} }, func(e event) []string { return []string{e.rec(path)} }},
		{"nil", func(to *[]string) directive.ReferenceHandler { return nil }, func(e event) []string { return nil }},
	}
	if depth == 0 {
		return leaf
	}
	out := append([]stage{}, leaf...)
	// callback handler: which callbacks are set
	for m := 0; m < 8; m++ {
		for _, viaBus := range []bool{false, true} {
			out = append(out, stage{fmt.Sprintf("callback%d", m), func(to *[]string) directive.ReferenceHandler {
				var a, r func(directive.AttachedValue)
				var d func()
				if m&1 != 0 {
					a = func(v directive.AttachedValue) {
						*to = append(*to, fmt.Sprintf("%sc+%d=%v", path, v.GetValueID(), v.GetValue()))
					}
				}
				if m&2 != 0 {
					r = func(v directive.AttachedValue) {
						*to = append(*to, fmt.Sprintf("%sc-%d=%v", path, v.GetValueID(), v.GetValue()))
					}
				}
				if m&4 != 0 {
					d = func() { *to = append(*to, path+"c!") }
				}
				if viaBus {
					return bus.NewCallbackHandler(a, r, d)
				}
				return directive.NewCallbackHandler(a, r, d)
			}, func(e event) []string {
				if m&(1<<e.kind) == 0 {
					return nil
				}
				return []string{e.short(path + "c")}
			}})
		}
	}
	for _, in := range stages(depth-1, path+"l") {
		for lg := 0; lg < 2; lg++ {
			out = append(out, stage{fmt.Sprintf("log%d(%s)", lg, in.name), func(to *[]string) directive.ReferenceHandler {
				var le *logrus.Entry
				if lg == 1 {
					l := logrus.New()
					l.SetOutput(io.Discard)
					l.SetLevel(logrus.DebugLevel)
					le = logrus.NewEntry(l)
				}
				return directive.NewLogHandler(le, in.make(to))
			}, in.want})
		}
	}
	for _, in := range stages(depth-1, path+"u") {
		for m := 0; m < 8; m++ {
			out = append(out, stage{fmt.Sprintf("typed%d(%s)", m, in.name), func(to *[]string) directive.ReferenceHandler {
				var a, r func(directive.TypedAttachedValue[int])
				var d func()
				if m&1 != 0 {
					a = func(v directive.TypedAttachedValue[int]) {
						*to = append(*to, fmt.Sprintf("%st+%d=%v", path, v.GetValueID(), v.GetValue()))
					}
				}
				if m&2 != 0 {
					r = func(v directive.TypedAttachedValue[int]) {
						*to = append(*to, fmt.Sprintf("%st-%d=%v", path, v.GetValueID(), v.GetValue()))
					}
				}
				if m&4 != 0 {
					d = func() { *to = append(*to, path+"t!") }
				}
				return directive.NewTypedCallbackHandler(a, r, d, in.make(to))
			}, func(e event) []string {
				if e.kind == 2 {
					var o []string
					if m&4 != 0 {
						o = append(o, path+"t!")
					}
					return append(o, in.want(e)...)
				}
				if _, ok := e.val.(int); !ok {
					return in.want(e)
				}
				if m&(1<<e.kind) == 0 {
					return nil
				}
				return []string{e.short(path + "t")}
			}})
		}
	}
	return out
}

var events = []event{
	{0, 1, 1, 5}, {0, 1, 2, "5"}, {1, 1, 1, 5}, {1, 2, 2, "5"}, {0, 2, 3, nil}, {0, 1, 4, int64(5)}, {2, 1, 0, nil},
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		if n[x]--; n[x] < 0 {
			return false
		}
	}
	return true
}

// handlers checks all nested handlers with all short histories.
func handlers(s *mcx.SeqX) {
	depth := 2
	all := stages(depth, "r")
	s.Sample("%d nested handlers", len(all))
	length := 2
	if s.Tier == "thorough" {
		length = 3
	}
	for _, st := range all {
		if st.name == "nil" {
			continue
		}
		var walk func(h []event)
		walk = func(h []event) {
			if s.Over() {
				return
			}
			if len(h) == length {
				name := fmt.Sprint(st.name, h)
				if !only(s, name) {
					return
				}
				s.Case(st.name)
				guard(s, name, func() {
					var got []string
					hd := st.make(&got)
					for i, e := range h {
						s.Trans()
						got = nil
						di := &inst{n: e.di}
						av := directive.NewAttachedValue(e.id, e.val)
						switch e.kind {
						case 0:
							hd.HandleValueAdded(di, av)
						case 1:
							hd.HandleValueRemoved(di, av)
						case 2:
							hd.HandleInstanceDisposed(di)
						}
						// the order of two handlers for one event is not stated
						if want := st.want(e); !sameSet(got, want) {
							s.Failf(name, "event %d: calls %q, want %q", i, got, want)
						}
						s.State(strings.Join(got, ","))
					}
				})
				return
			}
			for _, e := range events {
				walk(append(h[:len(h):len(h)], e))
			}
		}
		walk(nil)
	}
}

var (
	errA = errors.New("a")
	errB = errors.New("b")
	errW = fmt.Errorf("wrapped: %w", context.DeadlineExceeded)
)

// lists calls fn with all lists of up to n indices below k.
func lists(k, n int, fn func([]int)) {
	var rec func(l []int)
	rec = func(l []int) {
		fn(l)
		if len(l) == n {
			return
		}
		for i := 0; i < k; i++ {
			rec(append(l[:len(l):len(l)], i))
		}
	}
	rec(nil)
}

// funcs checks the functions which build callbacks and lists.
func funcs(s *mcx.SeqX) {
	errs := []error{nil, errA, errB, context.Canceled, errW}
	n := 3
	if s.Tier == "thorough" {
		n = 5
	}
	show := func(l []error) string { return fmt.Sprintf("%v", l) }
	lists(len(errs), n, func(ix []int) {
		if s.Over() {
			return
		}
		var in []error
		var first error
		for _, i := range ix {
			in = append(in, errs[i])
			if first == nil {
				first = errs[i]
			}
		}
		for _, idle := range []bool{false, true} {
			for _, wait := range []bool{false, true} {
				for cp := 0; cp < 4; cp++ {
					name := fmt.Sprint("error channel ", show(in), idle, wait, cp)
					if !only(s, name) {
						continue
					}
					s.Case(fmt.Sprint("ch", idle, wait, cp, len(in)))
					guard(s, name, func() {
						ch := make(chan error, cp)
						directive.NewErrChIdleCallback(ch, wait)(idle, in)
						var got, want []error
						for len(ch) != 0 {
							got = append(got, <-ch)
						}
						for _, e := range in {
							if e != nil && e != context.Canceled && len(want) < cp && (idle || !wait) {
								want = append(want, e)
							}
						}
						if show(got) != show(want) {
							s.Failf(name, "the channel has %v, want %v", got, want)
						}
					})
				}
			}
			// the callbacks for executing a directive
			type cb struct {
				name string
				fn   bus.ExecIdleCallback
				wait bool
				err  error
			}
			cbs := []cb{
				{"wait", bus.WaitWhenIdle(false), first == nil, first},
				{"wait ignoring errors", bus.WaitWhenIdle(true), true, nil},
				{"return", bus.ReturnWhenIdle(), !idle, first},
				{"return if", bus.ReturnIfIdle(true), !idle, first},
				{"return if not", bus.ReturnIfIdle(false), first == nil, first},
			}
			for _, c := range cbs {
				name := fmt.Sprint(c.name, show(in), idle)
				if !only(s, name) {
					continue
				}
				s.Case(fmt.Sprint(c.name, idle, first != nil))
				guard(s, name, func() {
					if strings.HasPrefix(c.name, "return") && !strings.HasSuffix(c.name, "not") && !idle {
						c.err = nil
					}
					w, err := c.fn(idle, in)
					if err != c.err || err == nil && w != c.wait || err != nil && w {
						s.Failf(name, "returns %v, %v", w, err)
					}
				})
			}
		}
	})
	// resolvers
	r := []directive.Resolver{nil, directive.NewValueResolver([]int{1}), directive.NewFuncResolver(nil), directive.NewValueResolver([]int{2})}
	lists(len(r), n+1, func(ix []int) {
		var in, want []directive.Resolver
		for _, i := range ix {
			in = append(in, r[i])
			if r[i] != nil {
				want = append(want, r[i])
			}
		}
		name := fmt.Sprint("resolvers", ix)
		if s.Over() || !only(s, name) {
			return
		}
		s.Case(fmt.Sprint("resolvers", len(in), len(want)))
		same := func(got []directive.Resolver) bool {
			if len(got) != len(want) {
				return false
			}
			for i := range got {
				if got[i] != want[i] {
					return false
				}
			}
			return true
		}
		guard(s, name, func() {
			if got := directive.Resolvers(in...); !same(got) {
				s.Failf(name, "Resolvers returns %d, want %d", len(got), len(want))
			}
			for i := range in {
				if in[i] != r[ix[i]] {
					s.Failf(name, "the argument was changed")
				}
			}
			if len(in) != 1 {
				return
			}
			for _, fn := range []func(directive.Resolver, error) ([]directive.Resolver, error){directive.NewResolver, directive.R} {
				if got, err := fn(in[0], nil); err != nil || !same(got) {
					s.Failf(name, "returns %v, %v", got, err)
				}
				if got, err := fn(in[0], errA); err != errA || len(got) != 0 {
					s.Failf(name, "returns %v, %v for an error", got, err)
				}
			}
		})
	})
	// values
	for _, id := range []uint32{0, 1, ^uint32(0)} {
		for _, v := range []any{nil, 1, "x", errA} {
			name := fmt.Sprint("value ", id, v)
			s.Case("value")
			av := directive.NewAttachedValue(id, v)
			if av.GetValueID() != id || av.GetValue() != v {
				s.Failf(name, "has the id %d and the value %v", av.GetValueID(), av.GetValue())
			}
			tv := directive.NewTypedAttachedValue[any](id, v)
			if tv.GetValueID() != id || tv.GetValue() != v {
				s.Failf(name, "typed: has the id %d and the value %v", tv.GetValueID(), tv.GetValue())
			}
			xv := directive.NewTransformedAttachedValue[any, string](tv, "to")
			if xv.GetValueID() != id || xv.GetValue() != v || xv.GetTransformedValue() != "to" {
				s.Failf(name, "transformed: has the id %d and the values %v, %v", xv.GetValueID(), xv.GetValue(), xv.GetTransformedValue())
			}
		}
	}
	// loggers
	s.Case("logger")
	le := logrus.NewEntry(logrus.New())
	if (&controller.ConstructOpts{Logger: le}).GetLogger() != le {
		s.Failf("logger", "GetLogger does not return the logger")
	}
	if l := (&controller.ConstructOpts{}).GetLogger(); l == nil || l.Logger == nil {
		s.Failf("logger", "GetLogger returns no logger")
	}
	// the callback controller
	for m := 0; m < 16; m++ {
		name := fmt.Sprint("callback controller ", m)
		if !only(s, name) {
			continue
		}
		s.Case(name)
		guard(s, name, func() {
			var log []string
			ctx := context.WithValue(context.Background(), inst{}, m)
			di := &inst{n: 3}
			rs := []directive.Resolver{r[1], r[3]}
			var info *controller.Info
			var ex callback_controller.ExecuteFunc
			var hd directive.HandlerFunc
			var cl callback_controller.CloseFunc
			if m&1 != 0 {
				info = controller.NewInfo("verif/cb", semver.MustParse("1.2.3-rc.1"), "a description")
			}
			if m&2 != 0 {
				ex = func(c context.Context) error {
					log = append(log, fmt.Sprint("execute", c == ctx))
					return errA
				}
			}
			if m&4 != 0 {
				hd = func(c context.Context, i directive.Instance) ([]directive.Resolver, error) {
					log = append(log, fmt.Sprintf("handle%v %v", c == ctx, i == di))
					return rs, errB
				}
			}
			if m&8 != 0 {
				cl = func() error {
					log = append(log, "close")
					return errW
				}
			}
			c := callback_controller.NewCallbackController(info, ex, hd, cl)
			for i := 0; i < 2; i++ {
				gi := c.GetControllerInfo()
				if m&1 == 0 {
					if gi != nil || c.GetControllerID() != "" {
						s.Failf(name, "the info is %v", gi)
					}
				} else if gi.GetId() != "verif/cb" || gi.GetVersion() != "1.2.3-rc.1" || gi.GetDescription() != "a description" || c.GetControllerID() != "verif/cb" {
					s.Failf(name, "the info is %v", gi)
				} else {
					// what was returned belongs to the caller
					gi.Id, gi.Version, gi.Description = "other", "", ""
				}
			}
			log = nil
			if err := c.Execute(ctx); (m&2 != 0) != (err == errA) || m&2 == 0 && err != nil {
				s.Failf(name, "Execute returns %v", err)
			}
			res, err := c.HandleDirective(ctx, di)
			if m&4 != 0 && (err != errB || len(res) != 2 || res[0] != rs[0] || res[1] != rs[1]) || m&4 == 0 && (err != nil || len(res) != 0) {
				s.Failf(name, "HandleDirective returns %v, %v", res, err)
			}
			if err := c.Close(); (m&8 != 0) != (err == errW) || m&8 == 0 && err != nil {
				s.Failf(name, "Close returns %v", err)
			}
			var want []string
			if m&2 != 0 {
				want = append(want, "executetrue")
			}
			if m&4 != 0 {
				want = append(want, "handletrue true")
			}
			if m&8 != 0 {
				want = append(want, "close")
			}
			if fmt.Sprint(log) != fmt.Sprint(want) {
				s.Failf(name, "calls %v, want %v", log, want)
			}
		})
	}
}

func init() {
	mcx.RegisterSeq(&mcx.Seq{Prop: "C31", Name: "handlers", Run: handlers})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C31", Name: "funcs", Run: funcs})
}
