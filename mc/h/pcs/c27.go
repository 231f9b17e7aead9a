package pcs

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	plugin_compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/fsnotify/fsnotify"
)

const patience = 60 * time.Second

func outPattern(dir string) string { return filepath.Join(dir, "out/demo-{buildHash}.cbus.so") }

// watched are the watched packages: one is given by its import path, the other
// relative to the lookup path, the third one has no factory.
var watched = []string{"example.com/m1/a", "example.com/app/plugin", "example.com/m1/util"}

func watcherOf(dir string) *plugin_compiler.Watcher {
	return plugin_compiler.NewWatcher(discard, filepath.Join(dir, "src/app"), []string{watched[0], "./plugin", watched[2]})
}

var (
	reConst = regexp.MustCompile(`const ((?:Rev|Extra)\w*)\s*= (\d+)`)
	reVer   = regexp.MustCompile(`BinaryVersion\s*= "([^"]*)"`)
	reUUID  = regexp.MustCompile("HotPluginBuildUUID = `([^`]*)`")
	reOut   = regexp.MustCompile(`^demo-([a-zA-Z0-9]{16})\.cbus\.so$`)
)

// sources are the constants of the watched packages.
func sources(dir string) (string, error) {
	var l []string
	for _, p := range watched {
		d := filepath.Join(dir, "src", modOf(p).dir, strings.TrimPrefix(p, modOf(p).path+"/"))
		ents, err := os.ReadDir(d)
		if err != nil {
			return "", err
		}
		for _, e := range ents {
			if filepath.Ext(e.Name()) != ".go" {
				continue
			}
			b, err := os.ReadFile(filepath.Join(d, e.Name()))
			if err != nil {
				return "", err
			}
			for _, m := range reConst.FindAllStringSubmatch(string(b), -1) {
				l = append(l, p+"/"+e.Name()+" "+m[1]+m[2])
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n"), nil
}

// decode reads a plugin made by the stand-in for the linker.
func decode(file string) (src, ver, uuid string, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	var l []string
	for _, part := range strings.Split(string(b), "== ./")[1:] {
		name, text, _ := strings.Cut(part, "\n")
		for _, m := range reConst.FindAllStringSubmatch(text, -1) {
			l = append(l, name+" "+m[1]+m[2])
		}
		if name == "plugin/bin/plugin.go" {
			if m := reVer.FindStringSubmatch(text); m != nil {
				ver = m[1]
			}
			if m := reUUID.FindStringSubmatch(text); m != nil {
				uuid = m[1]
			}
		}
	}
	sort.Strings(l)
	src = strings.Join(l, "\n")
	if uuid == "" {
		err = errors.New("it is incomplete")
	}
	return
}

var decoys = []string{"my-demo-0123456789abcdef.cbus.so", "demo-x.cbus.so", "demo-0123456789abcdef.cbus.so.bak", "other.cbus.so"}

// outputs lists the versions of the plugin, each of which has to be complete.
func outputs(dir string) (map[string]string, error) {
	out := map[string]string{}
	ents, err := os.ReadDir(filepath.Join(dir, "out"))
	if err != nil {
		return nil, err
	}
	have := map[string]bool{}
	for _, e := range ents {
		have[e.Name()] = true
		m := reOut.FindStringSubmatch(e.Name())
		if m == nil {
			continue
		}
		src, ver, uuid, err := decode(filepath.Join(dir, "out", e.Name()))
		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			return nil, fmt.Errorf("plugin %s: %w", e.Name(), err)
		}
		if ver != "v-"+m[1] || !strings.Contains(uuid, m[1]) {
			return nil, fmt.Errorf("plugin %s has version %q and id %q", e.Name(), ver, uuid)
		}
		out[e.Name()] = src
	}
	for _, d := range decoys {
		if !have[d] {
			return nil, fmt.Errorf("%s, which is not a version of the plugin, was deleted", d)
		}
	}
	return out, nil
}

// current checks that the output directory holds exactly the plugin of the
// current sources.
func current(dir string) (string, error) {
	want, err := sources(dir)
	if err != nil {
		return "", err
	}
	out, err := outputs(dir)
	if err != nil {
		return "", err
	}
	if len(out) != 1 {
		return "", fmt.Errorf("there are %d versions of the plugin", len(out))
	}
	for n, s := range out {
		// the stand-in uses the prefixed paths
		var l []string
		for _, x := range strings.Split(s, "\n") {
			l = append(l, x)
		}
		sort.Strings(l)
		if strings.Join(l, "\n") != want {
			return "", fmt.Errorf("plugin %s was compiled from %q, the sources are %q", n, s, want)
		}
		return n, nil
	}
	return "", nil
}

// run is a running watcher.
type run struct {
	pl     *place
	cancel context.CancelFunc
	done   chan error
	mtx    sync.Mutex
	cb     []string
	point  int
	// at is called before the n-th command or addition of a directory to watch;
	// false fails the command.
	at   func(r *run, n int, what string) bool
	last atomic.Int64
	busy atomic.Int32
	log  []string
	rev  int
}

var hooks = &fsnotify.Hooks{}
var runs sync.Map // place dir -> *run

func hookAdd(dir string) error {
	runs.Range(func(k, v any) bool {
		if strings.HasPrefix(dir, k.(string)+"/") {
			v.(*run).reach("add")
		}
		return true
	})
	return nil
}

func (r *run) reach(what string) bool {
	r.mtx.Lock()
	n := r.point
	r.point++
	r.log = append(r.log, what)
	r.mtx.Unlock()
	ok := r.at == nil || r.at(r, n, what)
	r.last.Store(time.Now().UnixNano())
	return ok
}

// prepare sets up the directories of a place.
func prepare(pl *place) error {
	for _, d := range []string{"out", "gen"} {
		if err := os.RemoveAll(filepath.Join(pl.dir, d)); err != nil {
			return err
		}
		if err := os.MkdirAll(filepath.Join(pl.dir, d), 0o755); err != nil {
			return err
		}
	}
	for _, d := range decoys {
		if err := os.WriteFile(filepath.Join(pl.dir, "out", d), []byte(d), 0o644); err != nil {
			return err
		}
	}
	for _, p := range watched {
		d := srcDir(pl, p)
		ents, _ := os.ReadDir(d)
		for _, e := range ents {
			_ = os.Remove(filepath.Join(d, e.Name()))
		}
		if err := os.WriteFile(filepath.Join(d, "f.go"), []byte(findPkg(p).source(1)), 0o644); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(d, "g.go"), []byte("package "+findPkg(p).name+"\n\nconst ExtraG = 1\n"), 0o644); err != nil {
			return err
		}
	}
	return os.WriteFile(filepath.Join(pl.dir, "fake"), nil, 0o644)
}

func srcDir(pl *place, p string) string {
	return filepath.Join(pl.dir, "src", modOf(p).dir, strings.TrimPrefix(p, modOf(p).path+"/"))
}

func start(pl *place, at func(r *run, n int, what string) bool) (*run, error) {
	r := &run{pl: pl, done: make(chan error, 1), at: at, rev: 1}
	r.last.Store(time.Now().UnixNano())
	ask, ans := filepath.Join(pl.dir, "ask"), filepath.Join(pl.dir, "answer")
	for _, f := range []string{ask, ans} {
		_ = os.Remove(f)
		if err := syscall.Mkfifo(f, 0o600); err != nil {
			return nil, err
		}
	}
	af, err := os.OpenFile(ask, os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	wf, err := os.OpenFile(ans, os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	stop := make(chan struct{})
	r.cancel = func() {
		cancel()
		select {
		case <-stop:
		default:
			close(stop)
		}
		_ = af.Close()
		_ = wf.Close()
		_ = os.Remove(ask)
		_ = os.Remove(ans)
		runs.Delete(pl.dir)
	}
	runs.Store(pl.dir, r)
	go func() {
		b := bufio.NewReader(af)
		for {
			l, err := b.ReadString('\n')
			if err != nil {
				return
			}
			r.busy.Add(1)
			a := "ok\n"
			if !r.reach(strings.TrimSpace(l)) {
				a = "fail\n"
			}
			r.busy.Add(-1)
			if _, err := wf.WriteString(a); err != nil {
				return
			}
		}
	}()
	go func() {
		r.done <- watcherOf(pl.dir).WatchCompilePlugin(ctx, filepath.Join(pl.dir, "gen"), outPattern(pl.dir), "the id", "v-{buildHash}",
			func(_ []string, out string) error {
				r.mtx.Lock()
				r.cb = append(r.cb, filepath.Base(out))
				r.mtx.Unlock()
				return nil
			})
	}()
	return r, nil
}

// settle waits until the output is current and nothing happens any more.
func (r *run) settle() (string, error) {
	t0 := time.Now()
	var bad error
	for {
		var n string
		n, bad = current(r.pl.dir)
		if bad == nil {
			r.mtx.Lock()
			if len(r.cb) != 0 && r.cb[len(r.cb)-1] != n {
				bad = fmt.Errorf("the callback was last called with %s, the plugin is %s", r.cb[len(r.cb)-1], n)
			}
			r.mtx.Unlock()
		}
		select {
		case err := <-r.done:
			return "", fmt.Errorf("the watcher has returned: %v", err)
		default:
		}
		// longer than the quiet period of the watcher
		if quiet := time.Since(time.Unix(0, r.last.Load())); bad == nil && quiet > 700*time.Millisecond && r.idle() {
			return n, nil
		} else if time.Since(t0) > patience || bad != nil && quiet > 12*time.Second && r.idle() {
			return "", bad
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// idle: the generated code of a compilation has been removed.
func (r *run) idle() bool {
	ents, err := os.ReadDir(filepath.Join(r.pl.dir, "gen"))
	if err != nil || r.busy.Load() != 0 {
		return false
	}
	for _, e := range ents {
		if e.Name() != "bin" {
			return false
		}
	}
	return true
}

func (r *run) ended() error {
	select {
	case err := <-r.done:
		return err
	case <-time.After(patience):
		return errors.New("hangs")
	}
}

var errNotReached = errors.New("not reached")

// endedAt is like ended for a watcher to be stopped at a point, which a
// compilation may not have.
func (r *run) endedAt(at int) error {
	t0 := time.Now()
	for {
		select {
		case err := <-r.done:
			return err
		case <-time.After(50 * time.Millisecond):
		}
		r.mtx.Lock()
		n := r.point
		r.mtx.Unlock()
		if n <= at {
			if _, err := current(r.pl.dir); err == nil && time.Since(time.Unix(0, r.last.Load())) > 2*time.Second && r.idle() {
				return errNotReached
			}
		}
		if time.Since(t0) > patience {
			return errors.New("hangs")
		}
	}
}

// ops are what can happen to the sources.
var ops = map[string]func(r *run, p string){
	"write": func(r *run, p string) { // in place
		f := filepath.Join(srcDir(r.pl, p), "f.go")
		_ = os.WriteFile(f, []byte(findPkg(p).source(r.rev)), 0o644)
		hooks.Inject(f, fsnotify.Write, fsnotify.Write)
	},
	"same": func(r *run, p string) { // written, but the same
		f := filepath.Join(srcDir(r.pl, p), "g.go")
		b, _ := os.ReadFile(f)
		_ = os.WriteFile(f, b, 0o644)
		hooks.Inject(f, fsnotify.Write)
	},
	"replace": func(r *run, p string) { // by a new file
		d := srcDir(r.pl, p)
		t, f := filepath.Join(d, ".f.go.swp"), filepath.Join(d, "f.go")
		_ = os.WriteFile(t, []byte(findPkg(p).source(r.rev)), 0o644)
		hooks.Inject(t, fsnotify.Create, fsnotify.Write)
		_ = os.Rename(t, f)
		hooks.Inject(t, fsnotify.Rename)
		hooks.Inject(f, fsnotify.Create)
	},
	"new": func(r *run, p string) { // another file
		f := filepath.Join(srcDir(r.pl, p), fmt.Sprintf("n%d.go", r.rev))
		_ = os.WriteFile(f, []byte(fmt.Sprintf("package %s\n\nconst ExtraN%d = %d\n", findPkg(p).name, r.rev, r.rev)), 0o644)
		hooks.Inject(f, fsnotify.Create, fsnotify.Write)
	},
	"gone": func(r *run, p string) { // all files
		d := srcDir(r.pl, p)
		ents, _ := os.ReadDir(d)
		for _, e := range ents {
			f := filepath.Join(d, e.Name())
			if os.Remove(f) == nil {
				hooks.Inject(f, fsnotify.Remove)
			}
		}
	},
	"remove": func(r *run, p string) {
		f := filepath.Join(srcDir(r.pl, p), "g.go")
		if os.Remove(f) == nil {
			hooks.Inject(f, fsnotify.Remove)
		}
	},
}

func (r *run) do(op string) {
	name, k, _ := strings.Cut(op, ".")
	i, _ := strconv.Atoi(k)
	r.rev++
	ops[name](r, watched[i])
}

// points of a compilation: two analyses with the directories added in between,
// then two rounds of tidy and build.
const (
	nPoints = 11
	idlePt  = 99
)

// watchCase: "point:op ..."; the ops happen before the given commands, counted
// from the start, or when nothing happens any more.
func watchCase(pl *place, c string) error {
	type step struct {
		at int
		op string
	}
	var steps []step
	for _, f := range strings.Fields(c) {
		a, op, _ := strings.Cut(f, ":")
		n, err := strconv.Atoi(a)
		if err != nil {
			return err
		}
		steps = append(steps, step{n, op})
	}
	if err := prepare(pl); err != nil {
		return err
	}
	r, err := start(pl, func(r *run, n int, what string) bool {
		for len(steps) != 0 && steps[0].at == n {
			op := steps[0].op
			steps = steps[1:]
			switch op {
			case "cancel":
				r.cancel()
				return false
			case "fail":
				if what == "add" || what == "listed" { // the next command
					steps = []step{{n + 1, op}}
					return true
				}
				return false
			}
			r.do(op)
		}
		return true
	})
	if err != nil {
		return err
	}
	defer func() { r.cancel() }()
	if len(steps) != 0 && (steps[len(steps)-1].op == "cancel" || steps[len(steps)-1].op == "fail") && steps[len(steps)-1].at < nPoints {
		at := steps[len(steps)-1].at
		err := r.endedAt(at)
		if err == errNotReached {
			return nil
		}
		if err == nil || err.Error() == "hangs" {
			return fmt.Errorf("stopped at point %d, the watcher returns: %v", r.point, err)
		}
		if _, err := outputs(pl.dir); err != nil {
			return err
		}
		r.cancel()
		steps = nil
		if r, err = start(pl, nil); err != nil {
			return err
		}
	}
	for {
		n, err := r.settle()
		if err != nil {
			return fmt.Errorf("%w (commands: %v)", err, r.log)
		}
		if len(steps) == 0 {
			break
		}
		op := steps[0].op
		steps = steps[1:]
		st, _ := os.Stat(filepath.Join(pl.dir, "out", n))
		ncb := len(r.cb)
		r.last.Store(time.Now().UnixNano())
		if op == "restart" || op == "cancel" {
			r.cancel()
			if err := r.ended(); !errors.Is(err, context.Canceled) {
				return fmt.Errorf("canceled, the watcher returns %v", err)
			}
			ncb = 0
			if r, err = start(pl, r.at); err != nil {
				return err
			}
			// until the first compilation is over
			for i := 0; i < 3000 && r.count("build") == 0; i++ {
				time.Sleep(20 * time.Millisecond)
			}
		} else {
			r.do(op)
		}
		if strings.HasPrefix(op, "same") || op == "restart" {
			n2, err := r.settle()
			if err != nil {
				return err
			}
			st2, _ := os.Stat(filepath.Join(pl.dir, "out", n2))
			if n2 != n || !os.SameFile(st, st2) || !st.ModTime().Equal(st2.ModTime()) || len(r.cb) != ncb {
				return fmt.Errorf("the sources are the same, but the plugin was written again")
			}
		}
	}
	r.cancel()
	if err := r.ended(); !errors.Is(err, context.Canceled) {
		return fmt.Errorf("canceled, the watcher returns %v", err)
	}
	return nil
}

func (r *run) count(what string) (n int) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	for _, l := range r.log {
		if l == what {
			n++
		}
	}
	return
}

func watch(s *mcx.SeqX) {
	w, err := newWorld()
	if err != nil {
		s.Failf("", "set-up: %v", err)
		return
	}
	defer w.close()
	hooks.Add = hookAdd
	fsnotify.SetH(hooks)
	var cases []string
	pts := []int{idlePt}
	for i := 0; i < nPoints; i++ {
		pts = append(pts, i)
	}
	for _, p := range pts {
		for _, op := range []string{"write.0", "write.1", "write.2", "replace.0", "new.1", "remove.0", "gone.0 %[1]d:write.0", "same.0"} {
			if p == idlePt && strings.HasPrefix(op, "gone") {
				continue
			}
			cases = append(cases, fmt.Sprintf("%[1]d:"+op, p))
		}
		if p != idlePt {
			for _, op := range []string{"cancel", "fail"} {
				cases = append(cases, fmt.Sprintf("%d:%s", p, op))
			}
		}
	}
	cases = append(cases, "99:restart", "99:write.0 99:restart", "99:same.1 99:write.0 99:remove.1 99:new.0")
	// a second change while the first one is dealt with
	second := []string{"write.0"}
	maxPt := nPoints + 5
	if s.Tier == "thorough" {
		second = []string{"write.0", "write.1", "replace.1", "new.0", "remove.1"}
	}
	for p := 0; p <= maxPt; p++ {
		for q := p; q <= maxPt; q++ {
			for _, op := range second {
				first := "write.0"
				if p >= nPoints {
					continue
				}
				cases = append(cases, fmt.Sprintf("%d:%s %d:%s", p, first, q, op))
			}
		}
	}
	// the sources are not there for a while, which is shorter than an analysis
	for p := 0; p < nPoints; p++ {
		for q := p + 1; q <= p+2; q++ {
			cases = append(cases, fmt.Sprintf("%d:gone.1 %d:write.1", p, q))
		}
	}
	parallel(s, w, 12, cases, watchCase)
}

// ---- crashes ----

func runChild(j childJob, cwd string) (int, string) {
	b, _ := json.Marshal(j)
	exe, _ := os.Executable()
	c := exec.Command(exe)
	c.Dir = cwd
	c.Env = append(os.Environ(), "PCS_CHILD="+string(b))
	out, err := c.Output()
	if err != nil && c.ProcessState == nil {
		return -1, err.Error()
	}
	return c.ProcessState.ExitCode(), string(out)
}

func crashCase(pl *place, c string) error {
	var old, at int
	if _, err := fmt.Sscanf(c, "old=%d at=%d", &old, &at); err != nil {
		return err
	}
	if err := prepare(pl); err != nil {
		return err
	}
	j := childJob{Mode: "watch", Dir: pl.dir}
	if old == 1 {
		if rc, out := runChild(j, ""); rc != 0 {
			return errors.New(out)
		}
		f := filepath.Join(srcDir(pl, watched[0]), "f.go")
		if err := os.WriteFile(f, []byte(findPkg(watched[0]).source(2)), 0o644); err != nil {
			return err
		}
	}
	j.At = at
	rc, out := runChild(j, "")
	if rc == 0 {
		return fmt.Errorf("not reached: %s", out)
	}
	if rc != 9 {
		return errors.New(out)
	}
	if _, err := outputs(pl.dir); err != nil {
		return fmt.Errorf("after the crash: %w", err)
	}
	// the generated code is left there; it does not matter
	for i := 0; ; i++ {
		r, err := start(pl, nil)
		if err != nil {
			return err
		}
		for i := 0; i < 3000 && r.count("build") == 0; i++ {
			time.Sleep(20 * time.Millisecond)
		}
		err = r.recovered()
		r.cancel()
		<-r.done
		if err != nil {
			return fmt.Errorf("started again after the crash: %w", err)
		}
		return nil
	}
}

func (r *run) recovered() error {
	t0 := time.Now()
	for {
		_, bad := current(r.pl.dir)
		quiet := time.Since(time.Unix(0, r.last.Load()))
		if bad == nil && quiet > 400*time.Millisecond {
			return nil
		}
		if time.Since(t0) > patience || quiet > 12*time.Second {
			return bad
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func crash(s *mcx.SeqX) {
	w, err := newWorld()
	if err != nil {
		s.Failf("", "set-up: %v", err)
		return
	}
	defer w.close()
	hooks.Add = hookAdd
	fsnotify.SetH(hooks)
	pl, err := w.newPlace("count")
	if err == nil {
		err = prepare(pl)
	}
	if err != nil {
		s.Failf("", "set-up: %v", err)
		return
	}
	rc, out := runChild(childJob{Mode: "watch", Dir: pl.dir}, "")
	i := strings.LastIndex(out, "steps ")
	if rc != 0 || i < 0 {
		s.Failf("", "set-up: %s", out)
		return
	}
	var n int
	fmt.Sscan(out[i+6:], &n)
	s.Sample("%d modifications of files in a run", n)
	var cases []string
	for old := 0; old < 2; old++ {
		for at := n; at > 0; at-- {
			cases = append(cases, fmt.Sprintf("old=%d at=%d", old, at))
		}
	}
	parallel(s, w, 8, cases, crashCase)
}

// ---- names ----

// cleanup: which files are removed as old versions.
func cleanup(s *mcx.SeqX) {
	tmp, err := os.MkdirTemp(os.Getenv("MC_TMP"), "pcs")
	if err != nil {
		s.Failf("", "set-up: %v", err)
		return
	}
	defer os.RemoveAll(tmp)
	h1, h2 := "5KkTz1mNQpRwX2yb", "9ABCdefGHijkmnoP"
	pres, sufs := []string{"", "demo-", "a.b+c_", "demo"}, []string{".cbus.so", "-x.cbus.so", "", ".so"}
	for _, pre := range pres {
		for _, suf := range sufs {
			for kind := 0; kind < 2; kind++ {
				pat := pre + "{buildHash}" + suf
				id := fmt.Sprint(pat, " ", kind)
				if s.Only != "" && s.Only != id {
					continue
				}
				dir := filepath.Join(tmp, "d")
				_ = os.RemoveAll(dir)
				_ = os.MkdirAll(dir, 0o755)
				names := map[string]bool{} // name -> is a version
				for _, p := range append([]string{"x"}, pres...) {
					for _, q := range append([]string{".txt"}, sufs...) {
						for _, h := range []string{h1, h2, "", "{buildHash}"} {
							for _, e := range []string{"", ".bak", "~"} {
								n := p + h + q + e
								if n != "" {
									names[n] = false
								}
							}
						}
					}
				}
				for n := range names {
					names[n] = len(n) == len(pre)+16+len(suf) && strings.HasPrefix(n, pre) && strings.HasSuffix(n, suf) &&
						alnum(n[len(pre):len(n)-len(suf)])
				}
				for n := range names {
					f := filepath.Join(dir, n)
					var err error
					if kind == 0 {
						err = os.WriteFile(f, []byte(n), 0o644)
					} else {
						err = os.MkdirAll(filepath.Join(f, "sub"), 0o755)
					}
					if err != nil {
						s.Failf(id, "set-up: %v", err)
						return
					}
				}
				if err := plugin_compiler.CleanupOldVersions(discard, filepath.Join(dir, pat)); err != nil {
					s.Failf(id, "cleaning up %s: %v", pat, err)
					return
				}
				for n, is := range names {
					_, err := os.Lstat(filepath.Join(dir, n))
					if gone := os.IsNotExist(err); gone != (is && kind == 0) {
						s.Failf(id, "cleaning up %s: removal of %q (directory: %v) is %v", pat, n, kind == 1, gone)
					}
				}
				s.Case(id)
				s.State(id)
				s.Trans()
			}
		}
	}
}

func alnum(x string) bool {
	for _, c := range x {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

func init() {
	mcx.RegisterSeq(&mcx.Seq{Prop: "C27", Name: "watch", Run: watch})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C27", Name: "crash", Run: crash})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C27", Name: "cleanup", Run: cleanup})
}
