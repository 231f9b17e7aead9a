// Package pls holds the scenarios on the loaders of plugins.
package pls

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	gplugin "plugin"
	"sort"
	"strings"
	"time"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/plugin"
	shared "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library"
	plugin_fs "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library/filesystem"
	"github.com/aperturerobotics/controllerbus/zz_verif/bst"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/fsnotify/fsnotify"
)

// what a plugin file holds
const (
	cGone = iota
	cV1
	cV2
	cV3
	cBroken // cannot be opened
	cNoSym
	cNotPlugin
	cNil
	cNoRes // has no resolver
	cN
)

var errPlug = errors.New("broken plugin")

// inst is an instance of a plugin.
type inst struct {
	d     *pdir
	file  int
	ver   int
	ctx   mcx.Box[context.Context]
	res   mcx.Int // PrePluginUnload was called on the resolver
	plug  mcx.Int // ... on the plugin
	stat  int     // changes of the file when its state was last looked at
	ready mcx.Int
}

func (p *inst) GetBinaryID() string      { return "bin-" + names[p.file] }
func (p *inst) GetBinaryVersion() string { return fmt.Sprintf("v%d", p.ver) }
func (p *inst) NewPluginResolver(ctx context.Context, b bus.Bus) (plugin.PluginResolver, error) {
	d := p.d
	if b != bus.Bus(d.e.B) {
		d.x.Failf("plugin was given another bus")
	}
	p.ctx.Set(ctx)
	if p.ver == cNoRes {
		p.res.Set(1)
		p.plug.Set(1)
		return nil, errPlug
	}
	if ctx.Err() != nil && d.stop.Get() == 0 {
		d.x.Failf("plugin was loaded with a canceled context")
	}
	d.x.Ev("load", p.file, p.ver, 0)
	p.ready.Set(1)
	return &instRes{Resolver: plugin.NewResolver(ctx, b, p.GetBinaryID(), p.GetBinaryVersion()), p: p}, nil
}

// PrePluginUnload is called on the plugin.
func (p *inst) PrePluginUnload() {
	if p.plug.Add(1) != 1 {
		p.d.x.Failf("plugin was unloaded twice")
	}
	if p.res.Get() == 0 {
		p.d.x.Failf("plugin was unloaded before its resolver")
	}
	if !dct.Canceled(p.ctx.Get()) {
		p.d.x.Failf("plugin is unloaded, but the context it was given is not canceled")
	}
	p.d.x.Ev("unload", p.file, p.ver, 0)
}

type instRes struct {
	*plugin.Resolver
	p *inst
}

// PrePluginUnload is called on the resolver.
func (r *instRes) PrePluginUnload() {
	p := r.p
	if p.res.Add(1) != 1 {
		p.d.x.Failf("plugin resolver was unloaded twice")
	}
	if !dct.Canceled(p.ctx.Get()) {
		p.d.x.Failf("plugin resolver is unloaded, but its context is not canceled")
	}
	if p.d.manual.Get() == 0 && p.d.stop.Get() == 0 && p.d.chg[p.file].Get() == p.stat {
		p.d.x.Failf("plugin %s was unloaded although its file did not change", names[p.file])
	}
	r.Resolver.PrePluginUnload()
}

var names = [...]string{"a", "b"}

// pdir is a plugin directory and what was loaded from it.
type pdir struct {
	x      *mcx.X
	e      *bst.Env
	path   string
	obj    mcx.Int // stands for the directory
	cur    [2]mcx.Int
	chg    [2]mcx.Int
	seen   [2]mcx.Int // changes when the file was last looked at
	insts  mcx.Box[[]*inst]
	stop   mcx.Int
	manual mcx.Int // plugins are loaded and unloaded by hand
	h      *fsnotify.Hooks
	ret    mcx.Box[error]
	ended  mcx.Int
}

func newDir(x *mcx.X) *pdir {
	tmp := os.Getenv("MC_TMP")
	if tmp == "" {
		tmp = os.TempDir()
	}
	d := &pdir{x: x, e: bst.New(x), path: filepath.Join(tmp, fmt.Sprintf("mcplug-%d", os.Getpid())), h: &fsnotify.Hooks{}}
	os.VsSetHook(nil)
	_ = time.Now().String() // loads the time zone
	_ = os.RemoveAll(d.path)
	bst.Must(x, os.MkdirAll(d.path, 0o755))
	fsnotify.SetH(d.h)
	gplugin.SetHook(d.open)
	os.VsSetHook(d.touched)
	return d
}

// touched is called before each access to the file system.
func (d *pdir) touched(name string) {
	if !strings.HasPrefix(name, d.path) {
		return
	}
	d.x.Point()
	d.obj.Get()
	for i := range names {
		if name == d.file(i) {
			d.seen[i].Set(d.chg[i].Get())
		}
	}
}

func (d *pdir) file(i int) string { return filepath.Join(d.path, names[i]+shared.PluginSuffix) }

// change changes a file.
func (d *pdir) change(i, c int) {
	d.x.Point()
	d.obj.Add(1)
	was := d.cur[i].Get()
	d.cur[i].Set(c)
	d.chg[i].Add(1)
	d.x.Ev("file", i, c, 0)
	os.VsSetHook(nil)
	d.put(d.file(i), c, d.chg[i].Get()+4*i)
	os.VsSetHook(d.touched)
	switch {
	case c == cGone && was != cGone:
		d.h.Inject(d.file(i), fsnotify.Remove)
	case c != cGone && was == cGone:
		d.h.Inject(d.file(i), fsnotify.Create)
	case c != cGone:
		d.h.Inject(d.file(i), fsnotify.Write)
	}
}

// put writes a file.
func (d *pdir) put(f string, c, n int) {
	if c == cGone {
		_ = os.Remove(f)
		return
	}
	st := fstats[0]
	if n < len(fstats) {
		st = fstats[n]
	} else {
		st.sz, st.tm = n, st.tm+time.Duration(n)*time.Hour
	}
	t := time.Unix(1e9, 0).Add(st.tm)
	bst.Must(d.x, os.WriteFile(f, make([]byte, st.sz), 0o644))
	bst.Must(d.x, os.Chtimes(f, t, t))
}

// fstats are the sizes and times of a file after so many changes: two of them
// differ in the size or in the time, a newer one can be older or smaller.
var fstats = []struct {
	sz int
	tm time.Duration
}{
	{2, 0},
	{2, 5 * time.Second},
	{3, 5 * time.Second},
	{3, 3 * time.Second},
	{3, 3*time.Second + 1},
	{2, 3*time.Second + 1},
	{2, 9 * time.Second},
}

// open opens a plugin.
func (d *pdir) open(path string) (*gplugin.Plugin, error) {
	d.x.Point()
	d.obj.Get()
	for i := range names {
		if path != d.file(i) {
			continue
		}
		c := d.cur[i].Get()
		p := &inst{d: d, file: i, ver: c, stat: d.seen[i].Get()}
		var sym any
		switch c {
		case cGone, cBroken:
			return nil, errPlug
		case cNoSym:
			return &gplugin.Plugin{}, nil
		case cNotPlugin:
			sym = new(int)
			if d.chg[i].Get()%2 == 0 {
				sym = func() {}
			}
		case cNil:
			sym = new(plugin.Plugin)
		case cV2:
			// another type which implements the interface
			d.note(p)
			var q interface {
				plugin.Plugin
				NewPluginResolver(context.Context, bus.Bus) (plugin.PluginResolver, error)
			} = p
			sym = &q
		default:
			d.note(p)
			q := plugin.Plugin(p)
			sym = &q
		}
		return &gplugin.Plugin{Syms: map[string]any{plugin.PluginGlobalVar: sym}}, nil
	}
	d.x.Failf("something else was opened: %s", strings.TrimPrefix(path, d.path))
	return nil, errPlug
}

func (d *pdir) note(p *inst) {
	for _, o := range d.insts.Get() {
		if d.manual.Get() == 0 && o.file == p.file && o.plug.Get() == 0 {
			d.x.Failf("plugin %s is loaded again before it was unloaded", names[p.file])
		}
	}
	d.insts.Set(append(append([]*inst{}, d.insts.Get()...), p))
}

// run runs the loader.
func (d *pdir) run(ctx context.Context, watch bool) {
	f := plugin_fs.NewFactory(d.e.B)
	c, err := f.Construct(ctx, &plugin_fs.Config{Dir: d.path + "/", Watch: watch}, controller.ConstructOpts{Logger: dct.Log()})
	bst.Must(d.x, err)
	if err == nil {
		err = c.Execute(ctx)
	}
	d.ret.Set(err)
	d.ended.Set(1)
	d.check("when the loader returned", nil)
	if d.h.Open() != 0 {
		d.x.Failf("the loader returned and left a file watcher behind")
	}
}

// live lists the loaded plugins.
func (d *pdir) live() (l []string) {
	for _, p := range d.insts.Get() {
		if p.ready.Get() != 0 && p.plug.Get() == 0 {
			l = append(l, p.GetBinaryID()+"/"+p.GetBinaryVersion())
			if c := p.ctx.Get(); c != nil && dct.Canceled(c) && d.stop.Get() == 0 {
				d.x.Failf("the context of a loaded plugin is canceled")
			}
		}
	}
	sort.Strings(l)
	return
}

// onBus lists the plugins whose resolver is on the bus.
func (d *pdir) onBus() (l []string) {
	for _, c := range d.e.B.GetControllers() {
		if r, ok := c.(*resolver.Controller); ok {
			id := strings.Split(r.GetControllerID(), "/plugin/")
			l = append(l, strings.TrimSuffix(id[len(id)-1], "/static-resolver"))
		}
	}
	sort.Strings(l)
	return
}

// good lists the plugins which are in the directory.
func (d *pdir) good() (l []string) {
	for i := range names {
		if c := d.cur[i].Get(); c == cV1 || c == cV2 || c == cV3 {
			l = append(l, fmt.Sprintf("bin-%s/v%d", names[i], c))
		}
	}
	return
}

func (d *pdir) check(when string, want []string) {
	if l := d.live(); fmt.Sprint(l) != fmt.Sprint(want) {
		d.x.Failf("%s: the loaded plugins are %v, want %v", when, l, want)
	}
	for _, p := range d.insts.Get() {
		if c := p.ctx.Get(); c != nil && p.plug.Get() != 0 && !dct.Canceled(c) {
			d.x.Failf("%s: the context of an unloaded plugin is not canceled", when)
		}
	}
}

// settled checks that the directory is mirrored.
func (d *pdir) settled(when string) {
	dct.Sleep(bst.Sec(5))
	d.x.Wait()
	want := d.good()
	if d.ended.Get() != 0 {
		if d.stop.Get() == 0 {
			d.x.Failf("%s: the loader returned: %v", when, d.ret.Get())
		}
		want = nil
	}
	d.check(when, want)
	if l := d.onBus(); fmt.Sprint(l) != fmt.Sprint(want) {
		d.x.Failf("%s: the plugins on the bus are %v, want %v", when, l, want)
	}
}

// end stops the loader.
func (d *pdir) end(cancel func()) {
	d.stop.Set(1)
	cancel()
	dct.Sleep(bst.Sec(1))
	d.x.Wait()
	if d.ended.Get() == 0 {
		d.x.Failf("the loader does not return")
	}
	d.settled("after stopping")
	d.fini()
}

func (d *pdir) fini() {
	d.e.Finish()
	os.VsSetHook(nil)
	_ = os.RemoveAll(d.path)
}

func init() {
	// a history of the directory
	mcx.Register(&mcx.Scenario{Prop: "C25", Name: "dir-seq", EnvOnly: true, NoPrune: true, Weight: 4, Body: func(x *mcx.X) {
		d := newDir(x)
		watch := x.Choose(2) == 1
		d.change(0, []int{cV2, cGone}[x.Choose(2)])
		os.VsSetHook(nil)
		bst.Must(x, os.Mkdir(filepath.Join(d.path, "c"+shared.PluginSuffix), 0o755))
		bst.Must(x, os.WriteFile(filepath.Join(d.path, "d"+shared.PluginSuffix+".bak"), nil, 0o644))
		bst.Must(x, os.Symlink("nowhere", filepath.Join(d.path, "e"+shared.PluginSuffix)))
		os.VsSetHook(d.touched)
		ctx, cancel := context.WithCancel(d.e.Ctx)
		go d.run(ctx, watch)
		d.settled("after starting")
		if !watch {
			d.end(cancel)
			return
		}
		depth := 3
		if mcx.Thorough() {
			depth = 4
		}
		for i := 0; i < depth; i++ {
			// the ways of being broken are told apart by the first change only
			ops, pauses := []int{cGone, cV1, cV2, cNoRes, cN, cN + 1, cN + 2}, 2
			if i == 0 {
				ops, pauses = append(ops, cV3, cBroken, cNoSym, cNotPlugin, cNil), 3
			}
			k := ops[x.Choose(len(ops))]
			switch {
			case k == cN:
				d.change(1, cV3)
			case k == cN+1:
				d.change(1, cGone)
			case k == cN+2:
				// nothing changed
				x.Ev("spurious", 0, 0, 0)
				d.h.Inject(d.file(0), fsnotify.Write)
			default:
				d.change(0, k)
			}
			switch x.Choose(pauses) {
			case 0:
				d.settled("after a change")
			case 1:
			case 2:
				dct.Sleep(600 * time.Millisecond)
			}
		}
		d.end(cancel)
	}})
	// the directory changes while the loader starts
	mcx.Register(&mcx.Scenario{Prop: "C25", Name: "start-par", Weight: 2, Core: true, Body: func(x *mcx.X) {
		d := newDir(x)
		seq := [][][2]int{
			{{0, cV1}},
			{{0, cV1}, {0, cV2}},
			{{0, cV2}, {1, cV1}},
			{{0, cV3}, {0, cGone}},
			{{0, cBroken}, {0, cV3}},
			{{0, cNoRes}, {0, cV1}},
		}
		ops := seq[x.Choose(len(seq))]
		if x.Choose(2) == 1 {
			d.change(0, cV2)
		}
		ctx, cancel := context.WithCancel(d.e.Ctx)
		dct.Par(
			func() { go d.run(ctx, true) },
			func() {
				for _, o := range ops {
					d.change(o[0], o[1])
				}
			},
		)
		d.settled("after the changes")
		d.end(cancel)
	}})
	// the directory changes while it is scanned again
	mcx.Register(&mcx.Scenario{Prop: "C25", Name: "resync-par", Weight: 2, Core: true, Body: func(x *mcx.X) {
		d := newDir(x)
		d.change(0, cV1)
		ctx, cancel := context.WithCancel(d.e.Ctx)
		go d.run(ctx, true)
		dct.Sleep(bst.Sec(1))
		op := [][2]int{{0, cGone}, {0, cV3}, {1, cV1}, {0, cBroken}}[x.Choose(4)]
		first := [][2]int{{0, cV2}, {1, cV2}}[x.Choose(2)]
		dct.Par(func() {
			d.change(first[0], first[1])
			// as long as the loader waits
			dct.Sleep(bst.Sec(1))
			d.change(op[0], op[1])
		})
		d.settled("after the changes")
		d.end(cancel)
	}})
	// the loader is stopped at any time
	mcx.Register(&mcx.Scenario{Prop: "C25", Name: "stop-par", Weight: 2, Core: true, Body: func(x *mcx.X) {
		d := newDir(x)
		d.change(0, cV1)
		running := x.Choose(2) == 1
		ctx, cancel := context.WithCancel(d.e.Ctx)
		if running {
			go d.run(ctx, true)
			dct.Sleep(bst.Sec(1))
			d.change(0, cV2)
			d.change(1, []int{cV1, cNoRes}[x.Choose(2)])
		}
		dct.Par(func() {
			if !running {
				go d.run(ctx, true)
			} else {
				dct.Sleep(bst.Sec(1))
			}
			d.stop.Set(1)
			cancel()
		})
		d.end(cancel)
	}})
	// the file system fails
	mcx.Register(&mcx.Scenario{Prop: "C25", Name: "fault-seq", EnvOnly: true, NoPrune: true, Body: func(x *mcx.X) {
		d := newDir(x)
		d.change(0, cV1)
		ctx, cancel := context.WithCancel(d.e.Ctx)
		k := x.Choose(5)
		switch k {
		case 0:
			d.h.New = func() error { return errPlug }
		case 1:
			d.h.Add = func(string) error { return errPlug }
		}
		if k < 2 {
			d.stop.Set(1)
		}
		go d.run(ctx, true)
		dct.Sleep(bst.Sec(1))
		d.stop.Set(1)
		switch k {
		case 2:
			d.h.Fail(fsnotify.ErrEventOverflow)
		case 3:
			d.change(1, cV1)
			d.h.Fail(errPlug)
		case 4:
			os.VsSetHook(nil)
			_ = os.RemoveAll(d.path)
			os.VsSetHook(d.touched)
			d.h.Inject(d.file(0), fsnotify.Remove)
		}
		dct.Sleep(bst.Sec(3))
		x.Wait()
		if d.ended.Get() == 0 || d.ret.Get() == nil {
			x.Failf("the loader did not fail: %v", d.ret.Get())
		}
		d.end(cancel)
	}})
	// plugins are loaded and unloaded by hand
	mcx.Register(&mcx.Scenario{Prop: "C25", Name: "manual-par", Core: true, Body: func(x *mcx.X) {
		d := newDir(x)
		d.manual.Set(1)
		d.change(0, cV1)
		d.change(1, cV2)
		w := plugin_fs.NewWatcher(dct.Log(), d.e.B)
		load := func() { bst.Must(x, w.LoadPlugin(d.e.Ctx, d.file(0))) }
		if x.Choose(2) == 1 {
			load()
		}
		dct.Par(load, []func(){
			func() { w.UnloadPlugin(d.file(0)) },
			func() { bst.Must(x, w.SyncPlugins(d.e.Ctx, d.path)) },
			func() { w.UnloadAll() },
			load,
		}[x.Choose(4)])
		l := d.live()
		if len(l) > 2 || len(l) == 2 && l[0] == l[1] {
			x.Failf("loaded by hand: %v", l)
		}
		bst.Must(x, w.SyncPlugins(d.e.Ctx, d.path))
		d.settled("after loading by hand")
		w.UnloadPlugin(d.file(0))
		d.check("after unloading by hand", []string{"bin-b/v2"})
		bst.Must(x, w.LoadPlugin(d.e.Ctx, d.file(0)))
		d.check("after loading by hand again", []string{"bin-a/v1", "bin-b/v2"})
		w.UnloadAll()
		x.Wait()
		d.check("after unloading all", nil)
		if l := d.onBus(); len(l) != 0 {
			x.Failf("after unloading all: the plugins on the bus are %v", l)
		}
		d.fini()
	}})
}
