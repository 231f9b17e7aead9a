// Package aps holds the scenarios on the API of the bus.
package aps

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	api_controller "github.com/aperturerobotics/controllerbus/bus/api/controller"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/configset"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	controller_exec "github.com/aperturerobotics/controllerbus/controller/exec"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	boilerplate_controller "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/blang/semver/v4"
)

const confID = "verif/t"

// tConf is the config of a test controller.
type tConf struct {
	*boilerplate_controller.Config
}

func (c *tConf) GetConfigID() string { return confID }
func (c *tConf) EqualsConfig(o config.Config) bool {
	oc, ok := o.(*tConf)
	return ok && oc.Config.EqualsConfig(c.Config)
}

// tFac counts the executing controllers for each value of the config.
type tFac struct {
	mtx sync.Mutex
	run map[string]int
}

func (f *tFac) GetConfigID() string { return confID }
func (f *tFac) ConstructConfig() config.Config {
	return &tConf{Config: &boilerplate_controller.Config{}}
}
func (f *tFac) GetVersion() semver.Version { return semver.MustParse("0.0.1") }
func (f *tFac) Construct(_ context.Context, c config.Config, _ controller.ConstructOpts) (controller.Controller, error) {
	return &tCtl{f: f, val: c.(*tConf).ExampleField}, nil
}
func (f *tFac) running(v string) int {
	f.mtx.Lock()
	defer f.mtx.Unlock()
	return f.run[v]
}

// tCtl executes until the context is canceled.
type tCtl struct {
	f   *tFac
	val string
}

func (c *tCtl) GetControllerInfo() *controller.Info {
	return controller.NewInfo("verif/ctl", semver.MustParse("0.0.2"), "test "+c.val)
}
func (c *tCtl) HandleDirective(context.Context, directive.Instance) ([]directive.Resolver, error) {
	return nil, nil
}
func (c *tCtl) add(n int) {
	c.f.mtx.Lock()
	c.f.run[c.val] += n
	c.f.mtx.Unlock()
}
func (c *tCtl) Execute(ctx context.Context) error {
	c.add(1)
	defer c.add(-1)
	<-ctx.Done()
	return ctx.Err()
}
func (c *tCtl) Close() error { return nil }

// tDir is a directive with debug values.
type tDir struct {
	n    int
	vals directive.DebugValues
}

func (d *tDir) Validate() error                         { return nil }
func (d *tDir) GetValueOptions() directive.ValueOptions { return directive.ValueOptions{} }
func (d *tDir) GetName() string                         { return fmt.Sprintf("tdir%d", d.n) }
func (d *tDir) GetDebugVals() directive.DebugValues     { return d.vals }

// patience bounds the time in which something has to happen.
const patience = 30 * time.Second

// until waits for ok.
func until(ok func() bool) bool {
	end := time.Now().Add(patience)
	for i := 0; ; i++ {
		if ok() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if i < 50 {
			time.Sleep(100 * time.Microsecond)
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
}

// daemon is a bus with an api controller.
type daemon struct {
	fail   func(f string, a ...any)
	ctx    context.Context
	b      bus.Bus
	fac    *tFac
	addr   string
	conf   *api_controller.Config
	cancel context.CancelFunc // nil: stopped
	done   chan error
	conns  [2]*client
}

// client is a connected client.
type client struct {
	nc     net.Conn
	cl     bus_api.SRPCControllerBusServiceClient
	closed func() bool
	// exec is the running request
	cancel context.CancelFunc
	strm   bus_api.SRPCControllerBusService_ExecControllerClient
}

// infoLines describes the controllers and directives of a response.
func infoLines(r *bus_api.GetBusInfoResponse) (out []string) {
	for _, c := range r.GetRunningControllers() {
		out = append(out, fmt.Sprintf("ctrl %s %s %s", c.GetId(), c.GetVersion(), c.GetDescription()))
	}
	for _, d := range r.GetRunningDirectives() {
		s := "dir " + d.GetInfo().GetName()
		for _, v := range d.GetInfo().GetDebugVals() {
			s += fmt.Sprintf(" %q=%q", v.GetKey(), v.GetValues())
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return
}

// busLines describes the controllers and directives of the bus.
func busLines(b bus.Bus) (out []string) {
	for _, c := range b.GetControllers() {
		i := c.GetControllerInfo()
		out = append(out, fmt.Sprintf("ctrl %s %s %s", i.GetId(), i.GetVersion(), i.GetDescription()))
	}
	for _, d := range b.GetDirectives() {
		s := "dir " + d.GetDirective().GetName()
		if g, ok := d.GetDirective().(directive.Debuggable); ok {
			m := g.GetDebugVals()
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				s += fmt.Sprintf(" %q=%q", k, m[k])
			}
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return
}

func (d *daemon) start() {
	ctx, cancel := context.WithCancel(d.ctx)
	d.cancel, d.done = cancel, make(chan error, 1)
	// the factory: the controller is constructed for each start.
	ctrl, err := api_controller.NewFactory(d.b).Construct(ctx, d.conf, controller.ConstructOpts{Logger: dct.Log()})
	if err != nil {
		d.fail("construct: %v", err)
		return
	}
	done := d.done
	go func() { done <- ctrl.Execute(ctx) }()
	// it is up as soon as a connection is accepted
	ok := until(func() bool {
		select {
		case err := <-done:
			d.fail("api controller returned after it was started: %v", err)
			done <- err
			return true
		default:
		}
		c, err := net.Dial("tcp", d.addr)
		if err == nil {
			_ = c.Close()
		}
		return err == nil
	})
	if !ok {
		d.fail("api controller does not listen after it was started")
	}
}

func (d *daemon) stop() {
	d.cancel()
	d.cancel = nil
	select {
	case err := <-d.done:
		if err != nil && err != context.Canceled {
			d.fail("api controller returned an error when its context was canceled: %v", err)
		}
	case <-time.After(patience):
		d.fail("api controller does not return when its context is canceled")
		return
	}
	if c, err := net.Dial("tcp", d.addr); err == nil {
		_ = c.Close()
		d.fail("address is still in use after the api controller has returned")
	}
	for i, c := range d.conns {
		if c == nil {
			continue
		}
		if !until(c.closed) {
			d.fail("connection %d is still open after the api controller has returned", i)
		}
		d.execEnds(i, "api controller was stopped")
		_ = c.nc.Close()
		d.conns[i] = nil
	}
}

func (d *daemon) dial(i int) {
	nc, err := net.Dial("tcp", d.addr)
	if err != nil {
		d.fail("dial: %v", err)
		return
	}
	mc, err := srpc.NewMuxedConn(nc, true, nil)
	if err != nil {
		d.fail("dial: %v", err)
		return
	}
	d.conns[i] = &client{
		nc:     nc,
		closed: mc.IsClosed,
		cl:     bus_api.NewSRPCControllerBusServiceClient(srpc.NewClientWithMuxedConn(mc)),
	}
}

func (d *daemon) hangup(i int) {
	c := d.conns[i]
	_ = c.nc.Close()
	d.execEnds(i, "client has hung up")
	d.conns[i] = nil
}

// info compares the bus with the reported info.
func (d *daemon) info(i int) {
	c := d.conns[i]
	var got, want []string
	ok := until(func() bool {
		want = busLines(d.b)
		ctx, cancel := context.WithTimeout(d.ctx, patience)
		r, err := c.cl.GetBusInfo(ctx, &bus_api.GetBusInfoRequest{})
		timeout := ctx.Err() != nil
		cancel()
		if err != nil {
			if timeout {
				d.fail("client %d: GetBusInfo is not answered", i)
			} else {
				d.fail("client %d: GetBusInfo: %v", i, err)
			}
			got = want
			return true
		}
		got = infoLines(r)
		return fmt.Sprint(got) == fmt.Sprint(want)
	})
	if !ok {
		d.fail("client %d: bus info:\n%s\ncontent of the bus:\n%s", i, strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
}

func (d *daemon) exec(i int) {
	c := d.conns[i]
	val := fmt.Sprint("c", i)
	cs := configset.ConfigSet{"k" + val: configset.NewControllerConfig(1, &tConf{Config: &boilerplate_controller.Config{ExampleField: val}})}
	var req *controller_exec.ExecControllerRequest
	var err error
	if i == 0 {
		req, err = controller_exec.ExecControllerYAMLFromConfigSet(cs)
	} else {
		req, err = controller_exec.ExecControllerProtoFromConfigSet(cs)
	}
	if err != nil {
		d.fail("request: %v", err)
		return
	}
	ctx, cancel := context.WithCancel(d.ctx)
	hang := time.AfterFunc(patience, cancel)
	defer hang.Stop()
	strm, err := c.cl.ExecController(ctx, req)
	if err != nil {
		d.fail("client %d: ExecController: %v", i, err)
		cancel()
		return
	}
	for {
		r, err := strm.Recv()
		if !d.conf.GetBusApiConfig().GetEnableExecController() {
			if err == nil || ctx.Err() != nil {
				d.fail("client %d: ExecController is disabled and returned %v, %v", i, r, err)
			} else if !strings.Contains(err.Error(), bus_api.ErrExecControllerDisabled.Error()) {
				d.fail("client %d: ExecController is disabled and returned the error %v", i, err)
			}
			cancel()
			return
		}
		if err != nil {
			if ctx.Err() != nil {
				err = errors.New("no answer")
			}
			d.fail("client %d: ExecController: %v", i, err)
			cancel()
			return
		}
		if r.GetId() != "k"+val {
			d.fail("client %d: got the status of %q", i, r.GetId())
		}
		switch r.GetStatus() {
		case controller_exec.ControllerStatus_ControllerStatus_RUNNING:
			if s := r.GetControllerInfo().GetDescription(); s != "test "+val {
				d.fail("client %d: info of the running controller: %q", i, s)
			}
		case controller_exec.ControllerStatus_ControllerStatus_CONFIGURING:
			continue
		default:
			d.fail("client %d: status %v %s", i, r.GetStatus(), r.GetErrorInfo())
		}
		break
	}
	c.cancel, c.strm = cancel, strm
}

// execEnds checks that the request of client i has ended.
func (d *daemon) execEnds(i int, why string) {
	c := d.conns[i]
	if c.strm == nil {
		return
	}
	end := make(chan error, 1)
	go func() {
		for {
			if _, err := c.strm.Recv(); err != nil {
				end <- err
				return
			}
		}
	}()
	select {
	case <-end:
	case <-time.After(patience):
		d.fail("client %d: request does not end: %s", i, why)
	}
	c.cancel()
	c.strm, c.cancel = nil, nil
	val := fmt.Sprint("c", i)
	if !until(func() bool { return d.fac.running(val) == 0 }) {
		d.fail("controller of client %d is still running: %s", i, why)
	}
}

// check compares the running controllers.
func (d *daemon) check() {
	for i, c := range d.conns {
		want := 0
		if c != nil && c.strm != nil {
			want = 1
		}
		val := fmt.Sprint("c", i)
		if !until(func() bool { return d.fac.running(val) == want }) {
			d.fail("%d controllers of client %d are running, want %d", d.fac.running(val), i, want)
		}
	}
}

// ops of the histories
const (
	opDial = iota
	opHang
	opInfo
	opExec
	opCancel
	opN
)

var opNames = []string{"dial", "hangup", "info", "exec", "cancel"}

// abs is the abstract state.
type abs struct {
	up    bool
	c     [2]bool // connected
	x     [2]bool // executing
	first bool    // client 0 was connected before
}

// step returns the next abstract state.
func (a abs) step(op int, exec bool) (abs, bool) {
	if op == 0 {
		if a.up {
			f := a.first
			return abs{first: f}, true
		}
		a.up = true
		return a, true
	}
	i, k := (op-1)/opN, (op-1)%opN
	switch k {
	case opDial:
		if !a.up || a.c[i] || (i == 1 && !a.first) {
			return a, false
		}
		a.c[i] = true
		a.first = true
	case opHang:
		if !a.c[i] {
			return a, false
		}
		a.c[i], a.x[i] = false, false
	case opInfo:
		return a, a.c[i]
	case opExec:
		if !a.c[i] || a.x[i] {
			return a, false
		}
		a.x[i] = exec
	case opCancel:
		if !a.x[i] {
			return a, false
		}
		a.x[i] = false
	}
	return a, true
}

func opName(op int, a abs) string {
	if op == 0 {
		if a.up {
			return "stop"
		}
		return "start"
	}
	return fmt.Sprintf("%s%d", opNames[(op-1)%opN], (op-1)/opN)
}

func (d *daemon) do(op int, exec bool) {
	if op == 0 {
		if d.cancel == nil {
			d.start()
		} else {
			d.stop()
		}
		return
	}
	i := (op - 1) / opN
	switch (op - 1) % opN {
	case opDial:
		d.dial(i)
	case opHang:
		d.hangup(i)
	case opInfo:
		d.info(i)
	case opExec:
		d.exec(i)
	case opCancel:
		d.conns[i].cancel()
		d.execEnds(i, "request was canceled")
	}
}

// scratchAddr is a loopback address used by this process only.
func scratchAddr() string {
	for _, a := range []string{fmt.Sprintf("127.%d.%d.7:5110", 100+(os.Getpid()>>8)%100, os.Getpid()&255), "127.0.0.1:0"} {
		l, err := net.Listen("tcp", a)
		if err != nil {
			continue
		}
		s := l.Addr().String()
		_ = l.Close()
		return s
	}
	return ""
}

// history runs one history.
func history(s *mcx.SeqX, addr string, exec bool, ops []int) (failed bool) {
	name := fmt.Sprintf("exec=%v", exec)
	var a abs
	for _, op := range ops {
		name += " " + opName(op, a)
		a, _ = a.step(op, exec)
	}
	if s.Only != "" && s.Only != name {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	d := &daemon{
		ctx:  ctx,
		addr: addr,
		fac:  &tFac{run: map[string]int{}},
		conf: &api_controller.Config{ListenAddr: addr, BusApiConfig: &bus_api.Config{EnableExecController: exec}},
	}
	done := ""
	d.fail = func(f string, args ...any) {
		failed = true
		s.Failf(name, "after%s: %s", done, fmt.Sprintf(f, args...))
	}
	b, _, err := core.NewCoreBus(ctx, dct.Log(), core.WithControllerFactories(d.fac))
	if err != nil {
		d.fail("bus: %v", err)
		return
	}
	d.b = b
	for n := range 2 {
		_, ref, err := b.AddDirective(&tDir{n: n, vals: directive.DebugValues{"k": {"a", fmt.Sprint(n)}}}, nil)
		if err != nil {
			d.fail("directive: %v", err)
			return
		}
		defer ref.Release()
	}
	_, csRef, err := b.AddDirective(resolver.NewLoadControllerWithConfig(&configset_controller.Config{}), nil)
	if err != nil {
		d.fail("configset: %v", err)
		return
	}
	defer csRef.Release()
	a = abs{}
	for _, op := range ops {
		done += " " + opName(op, a)
		d.do(op, exec)
		if failed {
			break
		}
		a, _ = a.step(op, exec)
		s.State(fmt.Sprint(exec, a))
		s.Trans()
		d.check()
	}
	if d.cancel != nil {
		done += " (end)"
		if failed {
			d.cancel()
			for _, c := range d.conns {
				if c != nil {
					_ = c.nc.Close()
				}
			}
			select {
			case <-d.done:
			case <-time.After(time.Second):
			}
		} else {
			d.stop()
		}
	}
	s.Case(fmt.Sprint(exec, a))
	s.Sample("%s", name)
	return
}

// daemonSeq enumerates the histories of clients of an api controller.
func daemonSeq(s *mcx.SeqX) {
	addr := scratchAddr()
	if addr == "" {
		s.Failf("", "no loopback address")
		return
	}
	depth := 7
	if s.Tier == "thorough" {
		depth = 9
	}
	for d := 2; d <= depth; d++ {
		for _, exec := range []bool{true, false} {
			var rec func(a abs, ops []int) bool
			rec = func(a abs, ops []int) bool {
				if len(ops) == d {
					if s.Over() {
						return true
					}
					return history(s, addr, exec, ops)
				}
				for op := range 1 + 2*opN {
					if n, ok := a.step(op, exec); ok {
						if rec(n, append(ops, op)) {
							return true
						}
					}
				}
				return false
			}
			if rec(abs{}, nil) {
				return
			}
		}
	}
}

// pretty enumerates bus infos and reads the printed text.
func pretty(s *mcx.SeqX) {
	ctrls := [][]*controller.Info{nil, {{Id: "a", Version: "0.0.1"}}, {{Id: "a", Version: "0.0.1"}, {Id: "b", Version: "0.1.0"}}}
	vals := [][]*directive.ProtoDebugValue{nil, {{Key: "x"}}, {{Key: "x", Values: []string{"1"}}}, {{Key: "x", Values: []string{"1", "2"}}, {Key: "y"}}}
	var dirs [][]*directive.DirectiveState
	dirs = append(dirs, nil)
	for i, v := range vals {
		d := &directive.DirectiveState{Info: &directive.DirectiveInfo{Name: fmt.Sprint("d", i), DebugVals: v}}
		dirs = append(dirs, []*directive.DirectiveState{d})
		for _, w := range vals {
			dirs = append(dirs, []*directive.DirectiveState{d, {Info: &directive.DirectiveInfo{Name: "e", DebugVals: w}}})
		}
	}
	for ci, cs := range ctrls {
		for di, ds := range dirs {
			name := fmt.Sprint(ci, di)
			if s.Only != "" && s.Only != name {
				continue
			}
			r := &bus_api.GetBusInfoResponse{RunningControllers: cs, RunningDirectives: ds}
			var want []string
			want = append(want, "controller-bus running", "Controllers:")
			for _, c := range cs {
				want = append(want, c.Id+" "+c.Version)
			}
			want = append(want, "Directives:")
			for _, d := range ds {
				want = append(want, d.Info.Name)
				for _, v := range d.Info.DebugVals {
					l := v.Key
					if len(v.Values) != 0 {
						l += " = " + strings.Join(v.Values, ", ")
					}
					want = append(want, l)
				}
			}
			var got []string
			for _, l := range strings.Split(string(r.PrintPrettyStatus()), "\n") {
				l = strings.TrimPrefix(strings.TrimSpace(l), "✓ ")
				if l = strings.TrimSuffix(l, " [none]"); l != "" {
					got = append(got, l)
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				s.Failf(name, "printed %q, want %q", got, want)
			}
			// through the wire formats
			for _, f := range []string{"proto", "json"} {
				o := &bus_api.GetBusInfoResponse{}
				var err error
				var dat []byte
				if f == "proto" {
					if dat, err = r.MarshalVT(); err == nil {
						err = o.UnmarshalVT(dat)
					}
				} else {
					if dat, err = json.Marshal(r); err == nil {
						err = json.Unmarshal(dat, o)
					}
				}
				if err != nil || !o.EqualVT(r) || !bytes.Equal(o.PrintPrettyStatus(), r.PrintPrettyStatus()) {
					s.Failf(name, "%s: %v: got %v, want %v", f, err, o, r)
				}
				s.Trans()
			}
			s.Case(name)
			s.State(name)
		}
	}
	if len((*bus_api.GetBusInfoResponse)(nil).PrintPrettyStatus()) == 0 {
		s.Failf("nil", "nothing printed for nil")
	}
}

// infoPar reads the bus info while controllers and directives come and go.
func infoPar(x *mcx.X) {
	e := bst.New(x)
	defer e.Finish()
	api := bus_api.NewAPI(e.B, &bus_api.Config{EnableExecController: x.Choose(2) == 1})
	// each of: absent, added, present, removed
	kinds := []string{"absent", "added", "present", "removed"}
	kc, kd := x.Choose(4), x.Choose(4)
	fac := &tFac{run: map[string]int{}}
	ctl := &tCtl{f: fac, val: "v"}
	fixed := &tCtl{f: fac, val: "fixed"}
	relFixed, err := e.B.AddController(e.Ctx, fixed, nil)
	bst.Must(x, err)
	_, fixedRef, err := e.B.AddDirective(&tDir{n: 1}, nil)
	bst.Must(x, err)
	var relC func()
	var ref directive.Reference
	addC := func() {
		var err error
		relC, err = e.B.AddController(e.Ctx, ctl, nil)
		bst.Must(x, err)
	}
	addD := func() {
		var err error
		_, ref, err = e.B.AddDirective(&tDir{n: 2, vals: directive.DebugValues{"a": {"b"}}}, nil)
		bst.Must(x, err)
	}
	if kc >= 2 {
		addC()
	}
	if kd >= 2 {
		addD()
	}
	x.Wait()
	get := func() (cs, ds map[string]int) {
		r, err := api.GetBusInfo(e.Ctx, &bus_api.GetBusInfoRequest{})
		bst.Must(x, err)
		cs, ds = map[string]int{}, map[string]int{}
		for _, c := range r.GetRunningControllers() {
			cs[c.GetDescription()]++
		}
		for _, d := range r.GetRunningDirectives() {
			ds[d.GetInfo().GetName()]++
		}
		return
	}
	check := func(what string, got map[string]int, name, fixed, kind string, after bool) {
		n := got[name]
		if got[fixed] != 1 {
			x.Failf("%s which is present is listed %d times: %v", what, got[fixed], got)
		}
		lo, hi := 0, 1
		switch {
		case kind == "absent", kind == "removed" && after:
			hi = 0
		case kind == "present", kind == "added" && after:
			lo = 1
		}
		if n < lo || n > hi {
			x.Failf("%s (%s, after=%v) is listed %d times", what, kind, after, n)
		}
		for k := range got {
			if k != name && k != fixed {
				x.Failf("%s %q is listed", what, k)
			}
		}
	}
	both := func(after bool) {
		cs, ds := get()
		check("controller", cs, "test v", "test fixed", kinds[kc], after)
		check("directive", ds, "tdir2", "tdir1", kinds[kd], after)
	}
	dct.Par(
		func() { both(false) },
		func() {
			switch kinds[kc] {
			case "added":
				addC()
			case "removed":
				relC()
			}
		},
		func() {
			switch kinds[kd] {
			case "added":
				addD()
			case "removed":
				ref.Release()
			}
		},
	)
	x.Wait()
	both(true)
	if kc == 1 || kc == 2 {
		relC()
	}
	if kd == 1 || kd == 2 {
		ref.Release()
	}
	relFixed()
	fixedRef.Release()
}

// infoSeq: histories of controllers and directives, asked about or not.
func infoSeq(x *mcx.X) {
	e := bst.New(x)
	defer e.Finish()
	api := bus_api.NewAPI(e.B, &bus_api.Config{})
	fac := &tFac{run: map[string]int{}}
	depth := 5
	if mcx.Thorough() {
		depth = 7
	}
	var rels, refs [2]func()
	var dirs [2]*tDir
	for i := 0; i < depth; i++ {
		k := x.Choose(5)
		switch {
		case k < 2:
			if rels[k] != nil {
				rels[k]()
				rels[k] = nil
				break
			}
			var err error
			rels[k], err = e.B.AddController(e.Ctx, &tCtl{f: fac, val: fmt.Sprint(k)}, nil)
			bst.Must(x, err)
		case k < 4:
			k -= 2
			if refs[k] != nil {
				refs[k]()
				refs[k], dirs[k] = nil, nil
				break
			}
			d := &tDir{n: k, vals: directive.DebugValues{"k": {fmt.Sprint(k)}}}
			_, ref, err := e.B.AddDirective(d, nil)
			bst.Must(x, err)
			refs[k], dirs[k] = ref.Release, d
		default:
			// its values change
			for k, d := range dirs {
				if d != nil {
					d.vals = directive.DebugValues{"k": {fmt.Sprint(k), fmt.Sprint(i)}}
				}
			}
		}
		x.Wait()
		if i < depth-1 && x.Choose(2) == 1 {
			continue
		}
		r, err := api.GetBusInfo(e.Ctx, &bus_api.GetBusInfoRequest{})
		bst.Must(x, err)
		var got, want []string
		for _, c := range r.GetRunningControllers() {
			got = append(got, c.GetId()+" "+c.GetVersion()+" "+c.GetDescription())
		}
		for _, d := range r.GetRunningDirectives() {
			s := d.GetInfo().GetName()
			for _, v := range d.GetInfo().GetDebugVals() {
				s += fmt.Sprint(" ", v.GetKey(), v.GetValues())
			}
			got = append(got, s)
		}
		for k := range rels {
			if rels[k] != nil {
				want = append(want, fmt.Sprint("verif/ctl 0.0.2 test ", k))
			}
			if d := dirs[k]; d != nil {
				want = append(want, fmt.Sprint("tdir", k, " k", d.vals["k"]))
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.Failf("bus info is %q, want %q", got, want)
		}
	}
	for k := range rels {
		if rels[k] != nil {
			rels[k]()
		}
		if refs[k] != nil {
			refs[k]()
		}
	}
}

func init() {
	mcx.Register(&mcx.Scenario{Prop: "C24", Name: "info-seq", Body: infoSeq, EnvOnly: true})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C24", Name: "daemon-seq", Run: daemonSeq})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C24", Name: "pretty", Run: pretty})
	mcx.Register(&mcx.Scenario{Prop: "C24", Name: "info-par", Body: infoPar})
}
