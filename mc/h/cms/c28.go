package cms

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/ghodss/yaml"
)

// The daemon and its clients run as processes of their own, as the commands do.
// What runs in a daemon is seen from outside: controllers which listen on an
// address of their own, and those which the bus-info command lists.

const settleTime = 25 * time.Second

// place is where a case happens: a directory and addresses.
type place struct {
	dir  string
	net  string
	errs []string
}

// addr is an address no other place uses; 0 is the daemon's.
func (p *place) addr(i int) string { return fmt.Sprintf("%s.%d:5110", p.net, i+1) }

func (p *place) file(name string) string { return filepath.Join(p.dir, name) }

// proc is a running command.
type proc struct {
	cmd  *exec.Cmd
	mtx  sync.Mutex
	out  bytes.Buffer
	log  bytes.Buffer
	in   io.WriteCloser
	done chan struct{}
	code int
}

type lockedBuf struct {
	m *sync.Mutex
	b *bytes.Buffer
}

func (l lockedBuf) Write(b []byte) (int, error) {
	l.m.Lock()
	defer l.m.Unlock()
	return l.b.Write(b)
}

func (p *place) start(j childJob) (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	js, _ := json.Marshal(j)
	c := &proc{cmd: exec.Command(exe), done: make(chan struct{})}
	c.cmd.Dir = p.dir
	c.cmd.Env = append(os.Environ(), "CMS_CHILD="+string(js))
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	c.cmd.Stdout, c.cmd.Stderr = lockedBuf{&c.mtx, &c.out}, lockedBuf{&c.mtx, &c.log}
	if c.in, err = c.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	if err := c.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		_ = c.cmd.Wait()
		c.code = c.cmd.ProcessState.ExitCode()
		close(c.done)
	}()
	return c, nil
}

func (c *proc) output() string {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	return c.out.String()
}

func (c *proc) ended() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

func (c *proc) stop(sig syscall.Signal) {
	if c == nil {
		return
	}
	_ = c.cmd.Process.Signal(sig)
	select {
	case <-c.done:
	case <-time.After(10 * time.Second):
		_ = c.cmd.Process.Kill()
		<-c.done
	}
}

// run waits for the end of a command.
func (p *place) run(j childJob) (*proc, error) {
	c, err := p.start(j)
	if err != nil {
		return nil, err
	}
	select {
	case <-c.done:
		return c, nil
	case <-time.After(settleTime):
		c.stop(syscall.SIGKILL)
		return nil, fmt.Errorf("%s does not end; output: %s", strings.Join(j.Args, " "), c.output())
	}
}

// what runs in a daemon
type running struct {
	Up    string         // the addresses which accept connections
	Count map[string]int // controllers by id, as the bus-info command lists them
}

const nAddr = 5

func listening(a string) bool {
	c, err := net.DialTimeout("tcp", a, time.Second)
	if err != nil {
		return false
	}
	_ = c.Close()
	return true
}

func (p *place) ups() string {
	s := ""
	for i := 1; i < nAddr; i++ {
		if listening(p.addr(i)) {
			s += fmt.Sprint(i)
		}
	}
	return s
}

const (
	idAPI  = "controllerbus/bus/api"
	idBoil = "controllerbus/example/boilerplate"
)

// info runs the bus-info command in both of its forms.
func (p *place) info(addr string) (map[string]int, error) {
	c, err := p.run(childJob{Args: []string{"client", "--dial-addr", addr, "bus-info", "--interactive=false"}})
	if err != nil {
		return nil, err
	}
	if c.code != 0 {
		return nil, fmt.Errorf("bus-info fails: %s", c.output())
	}
	var r struct {
		RunningControllers []struct{ Id, Version string }
	}
	if err := json.Unmarshal([]byte(c.output()), &r); err != nil {
		return nil, fmt.Errorf("bus-info is not JSON: %v: %s", err, c.output())
	}
	m := map[string]int{}
	for _, x := range r.RunningControllers {
		m[x.Id]++
	}
	return m, nil
}

// pretty checks that the interactive form lists the same controllers.
func (p *place) pretty(addr string, m map[string]int) error {
	c, err := p.run(childJob{Args: []string{"client", "--dial-addr", addr, "bus-info"}})
	if err != nil {
		return err
	}
	if c.code != 0 {
		return fmt.Errorf("bus-info fails: %s", c.output())
	}
	for id, n := range m {
		if k := strings.Count(c.output(), "\n\t"+id+" "); k != n {
			return fmt.Errorf("bus-info lists %s %d times instead of %d times: %s", id, k, n, c.output())
		}
	}
	return nil
}

// want is what is expected of a daemon.
type want struct {
	Up    string // addresses
	Boil  int    // boilerplate controllers; -1: any
	NoAPI bool
}

// expect waits until exactly what is wanted runs, and still does.
func (p *place) expect(d *proc, w want) error {
	end := time.Now().Add(settleTime)
	var last error
	for good := 0; good < 2; {
		select {
		case <-d.done:
			return fmt.Errorf("daemon ends: %s", d.output())
		default:
		}
		last = nil
		if u := p.ups(); u != w.Up {
			last = fmt.Errorf("controllers %q of the config set run instead of %q", u, w.Up)
		}
		if last == nil && !w.NoAPI {
			if !listening(p.addr(0)) {
				last = errors.New("daemon does not listen on its address")
			} else {
				m, err := p.info(p.addr(0))
				if err != nil {
					last = err
				} else if n := m[idAPI]; n != len(w.Up)+1 {
					last = fmt.Errorf("%d api controllers are listed instead of %d", n, len(w.Up)+1)
				} else if n := m[idBoil]; n != w.Boil && w.Boil >= 0 {
					last = fmt.Errorf("%d boilerplate controllers are listed instead of %d", n, w.Boil)
				} else if m["controllerbus/configset"] != 1 || m["controllerbus/loader"] != 1 {
					last = fmt.Errorf("controllers of the core bus are not listed: %v", m)
				} else if good == 1 && w.Boil >= 0 {
					last = p.pretty(p.addr(0), m)
				}
			}
		}
		if last == nil {
			good++
			time.Sleep(20 * time.Millisecond)
			continue
		}
		good = 0
		if time.Now().After(end) {
			return last
		}
		time.Sleep(30 * time.Millisecond)
	}
	return nil
}

func (p *place) daemon(conf string, more ...string) childJob {
	return childJob{Args: append([]string{"daemon", "--config", conf, "--api-listen", p.addr(0)}, more...)}
}

// api is an item of a config set: a controller listening on an address.
func (p *place) api(key string, rev uint64, i int) string {
	s := fmt.Sprintf("%s:\n  id: %s\n", key, idAPI)
	if rev != 0 {
		s += fmt.Sprintf("  rev: %d\n", rev)
	}
	return s + fmt.Sprintf("  config:\n    listenAddr: \"%s\"\n", p.addr(i))
}

func boil(key, field, fail string) string {
	s := fmt.Sprintf("%s:\n  id: %s\n  config:\n    exampleField: %q\n", key, idBoil, field)
	if fail != "" {
		s += fmt.Sprintf("    failWithErr: %q\n", fail)
	}
	return s
}

// parallel runs the cases in n places.
func parallel(s *mcx.SeqX, n int, cases []string, run func(p *place, c string) error) {
	tmp, err := os.MkdirTemp(os.Getenv("MC_TMP"), "cms")
	if err != nil {
		s.Failf("", "set-up: %v", err)
		return
	}
	defer os.RemoveAll(tmp)
	in := make(chan string)
	type res struct {
		c   string
		err error
	}
	out := make(chan res)
	var failed atomic.Int32
	var wg sync.WaitGroup
	var nth atomic.Int32
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range in {
				k := nth.Add(1)
				pid := os.Getpid()
				p := &place{dir: filepath.Join(tmp, fmt.Sprint("p", k)), net: fmt.Sprintf("127.%d.%d", 1+pid%120, k%250)}
				if k >= 250 {
					p.net = fmt.Sprintf("127.%d.%d", 121+pid%120, k%250)
				}
				_ = os.MkdirAll(p.dir, 0o755)
				err := run(p, c)
				if err != nil {
					failed.Add(1)
				}
				out <- res{c, err}
				_ = os.RemoveAll(p.dir)
			}
		}()
	}
	go func() {
		for _, c := range cases {
			if s.Only != "" && s.Only != c || failed.Load() > 5 {
				continue
			}
			in <- c
		}
		close(in)
		wg.Wait()
		close(out)
	}()
	for r := range out {
		s.Case(r.c)
		s.State(r.c)
		s.Trans()
		s.Sample("%s", r.c)
		if r.err != nil {
			s.Failf(r.c, "%s: %v", r.c, r.err)
		}
	}
}

// file is a state of the config file.
type file struct {
	name  string
	text  func(p *place) string
	want  want
	err   bool // the daemon ends with an error
	waits bool // for a config which nothing provides: nothing runs
	prep  func(p *place, conf string) error
}

func files() []file {
	t := func(s string) func(*place) string { return func(*place) string { return s } }
	a := func(p *place) string { return p.api("a", 0, 1) }
	b := func(p *place) string { return p.api("b", 0, 2) }
	fs := []file{
		{name: "missing", err: true},
		{name: "empty", text: t("")},
		{name: "braces", text: t("{}\n")},
		{name: "null", text: t("null\n")},
		{name: "comment", text: t("# nothing\n")},
		{name: "one", text: a, want: want{Up: "1"}},
		{name: "two", text: func(p *place) string { return a(p) + b(p) }, want: want{Up: "12"}},
		{name: "all", text: func(p *place) string {
			return "# three\n" + a(p) + b(p) + p.api("c", 5, 3) + boil("x", "one", "") + boil("y", "two", "")
		}, want: want{Up: "123", Boil: 2}},
		{name: "keys", text: func(p *place) string {
			return p.api(`"1"`, 1, 1) + p.api(`"true"`, 18446744073709551615, 2) + p.api(`"a: b # c"`, 0, 3) + boil(`"null"`, "x: y # z\n\"", "")
		}, want: want{Up: "123", Boil: 1}},
		{name: "json", text: func(p *place) string {
			return fmt.Sprintf(`{"a": {"id": %q, "config": {"listenAddr": %q}}, "b": {"config": {"listenAddr": %q}, "rev": 2, "id": %q}}`, idAPI, p.addr(1), p.addr(2), idAPI)
		}, want: want{Up: "12"}},
		// one which is not valid or fails: the others run
		{name: "invalid", text: func(p *place) string { return a(p) + boil("x", "", "") + b(p) }, want: want{Up: "12", Boil: 0}},
		{name: "failing", text: func(p *place) string { return a(p) + boil("x", "x", "fails") + b(p) }, want: want{Up: "12", Boil: -1}},
		// not a config set
		{name: "syntax", text: func(p *place) string { return a(p) + "b: [\n" }, err: true},
		{name: "list", text: t("- a\n"), err: true},
		{name: "scalar", text: t("hello\n"), err: true},
		{name: "null-entry", text: func(p *place) string { return a(p) + "b: null\n" }, err: true},
		{name: "no-id", text: func(p *place) string { return a(p) + "b:\n  config: {}\n" }, err: true},
		{name: "config-list", text: func(p *place) string { return a(p) + "b:\n  id: " + idBoil + "\n  config: [1]\n" }, err: true},
		{name: "field-type", text: func(p *place) string { return a(p) + "b:\n  id: " + idBoil + "\n  config: {exampleField: {}}\n" }, err: true},
		{name: "rev-type", text: func(p *place) string { return a(p) + "b:\n  id: " + idBoil + "\n  rev: x\n" }, err: true},
		{name: "unknown", text: func(p *place) string { return "b:\n  id: test/unknown\n  config: {x: 1}\n" }, waits: true},
		{name: "directory", err: true, prep: func(p *place, conf string) error { return os.Mkdir(conf, 0o755) }},
		{name: "symlink", text: a, want: want{Up: "1"}, prep: func(p *place, conf string) error {
			if err := os.Mkdir(p.file("real"), 0o755); err != nil {
				return err
			}
			if err := os.Rename(conf, p.file("real/f.yaml")); err != nil {
				return err
			}
			return os.Symlink("real/f.yaml", conf)
		}},
		{name: "private", text: a, want: want{Up: "1"}, prep: func(p *place, conf string) error { return os.Chmod(conf, 0o600) }},
	}
	return fs
}

func (f *file) put(p *place, conf string) error {
	if f.text != nil {
		if err := os.WriteFile(conf, []byte(f.text(p)), 0o644); err != nil {
			return err
		}
	}
	if f.prep != nil {
		return f.prep(p, conf)
	}
	return nil
}

// snap is the state of the config file.
func snap(conf string) string {
	st, err := os.Stat(conf)
	if err != nil {
		return "none"
	}
	if st.IsDir() {
		return "dir"
	}
	l, _ := os.Readlink(conf)
	d, _ := os.ReadFile(conf)
	return fmt.Sprintf("%v %s\n%s", st.Mode(), l, d)
}

// meaning is what a config file says: entries without their empty fields.
func meaning(text []byte) (string, error) {
	var m map[string]map[string]any
	js, err := yaml.YAMLToJSON(text)
	if err != nil {
		return "", err
	}
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		return "", err
	}
	for _, e := range m {
		c, _ := e["config"].(map[string]any)
		for _, x := range []map[string]any{e, c} {
			for k, v := range x {
				if v == nil || v == "" || fmt.Sprint(v) == "0" || fmt.Sprint(v) == "map[]" {
					delete(x, k)
				}
			}
		}
		if r, ok := e["rev"]; ok {
			e["rev"] = fmt.Sprint(r)
		}
		if len(c) == 0 {
			delete(e, "config")
		}
	}
	b, err := json.Marshal(m)
	if string(b) == "null" {
		b = []byte("{}")
	}
	return string(b), err
}

// same checks that the file still says the same.
func same(conf string, text []byte) error {
	now, err := os.ReadFile(conf)
	if err != nil {
		return err
	}
	a, err := meaning(text)
	if err != nil {
		return err
	}
	b, err := meaning(now)
	if err != nil {
		return fmt.Errorf("%v in the written file: %s", err, now)
	}
	if a != b {
		return fmt.Errorf("the written file has another meaning: %s instead of %s", b, a)
	}
	return nil
}

// attr is the state of the file without its text.
func attr(conf string) string {
	a, _, _ := strings.Cut(snap(conf), "\n")
	return a
}

func ls(dir string) string {
	var out []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// again starts a daemon which only reads the file.
func (p *place) again(conf string, w want, missing bool) error {
	before := snap(conf)
	d, err := p.start(p.daemon(conf))
	if err != nil {
		return err
	}
	defer d.stop(syscall.SIGKILL)
	if missing && before == "none" {
		<-d.done
		if d.code == 0 {
			return errors.New("a missing file is no error")
		}
		return nil
	}
	if err := p.expect(d, w); err != nil {
		return fmt.Errorf("%v; the file: %s", err, before)
	}
	if s := snap(conf); s != before {
		return fmt.Errorf("the file was changed though this was not asked for: %s", s)
	}
	return nil
}

func startOne(p *place, f *file, write bool) error {
	conf := p.file("conf.yaml")
	if err := f.put(p, conf); err != nil {
		return err
	}
	before, files := snap(conf), ls(p.dir)
	text, _ := os.ReadFile(conf)
	var more []string
	if write {
		more = append(more, "--write-config")
	}
	fails := f.err && !(write && f.name == "missing")
	d, err := p.start(p.daemon(conf, more...))
	if err != nil {
		return err
	}
	defer d.stop(syscall.SIGKILL)
	switch {
	case fails:
		select {
		case <-d.done:
		case <-time.After(settleTime):
			return errors.New("daemon does not end with an error")
		}
		if d.code == 0 || strings.TrimSpace(d.output()) == "" {
			return fmt.Errorf("daemon ends with code %d and output %q", d.code, d.output())
		}
	case f.waits:
		select {
		case <-d.done:
			return fmt.Errorf("daemon ends instead of waiting for the config: %s", d.output())
		case <-time.After(1500 * time.Millisecond):
		}
		if u := p.ups(); u != "" {
			return fmt.Errorf("controllers %q run", u)
		}
	default:
		if err := p.expect(d, f.want); err != nil {
			return err
		}
	}
	d.stop(syscall.SIGKILL)
	if after := snap(conf); (!write || fails || f.waits) && after != before {
		return fmt.Errorf("the file was changed: %s", after)
	}
	if !write || fails || f.waits {
		if l := ls(p.dir); l != files {
			return fmt.Errorf("files were created: %s", l)
		}
		return nil
	}
	if f.name != "missing" && attr(conf) != strings.SplitN(before, "\n", 2)[0] {
		return fmt.Errorf("mode or link of the file was changed: %s", attr(conf))
	}
	if l := ls(p.dir); f.name != "missing" && l != files {
		return fmt.Errorf("files were created: %s", l)
	}
	if err := same(conf, text); err != nil {
		return err
	}
	return p.again(conf, f.want, false)
}

func startSeq(s *mcx.SeqX) {
	var cases []string
	fs := map[string]file{}
	for _, f := range files() {
		fs[f.name] = f
		for _, w := range []string{"keep", "write"} {
			cases = append(cases, f.name+" "+w)
		}
	}
	parallel(s, 6, cases, func(p *place, c string) error {
		n, w, _ := strings.Cut(c, " ")
		f := fs[n]
		return startOne(p, &f, w == "write")
	})
	// the flags
	parallel(s, 6, []string{"no-api", "busy-address", "default-name", "no-config", "hot", "hot-empty", "hot-missing", "no-daemon", "no-exec"}, flagCase)
}

func flagCase(p *place, c string) error {
	conf := p.file("conf.yaml")
	text := p.api("a", 0, 1)
	j := p.daemon(conf)
	w := want{Up: "1"}
	var free func()
	switch c {
	case "no-api":
		j.Args = []string{"daemon", "--config", conf, "--api-listen", ""}
		w.NoAPI = true
	case "busy-address":
		l, err := net.Listen("tcp", p.addr(0))
		if err != nil {
			return err
		}
		free = func() { _ = l.Close() }
		defer free()
		w.NoAPI = true
	case "default-name":
		conf = p.file("controllerbus_daemon.yaml")
		j.Args = []string{"daemon", "--api-listen", p.addr(0)}
	case "no-config":
		j.Args = []string{"daemon", "--config", "", "--write-config", "--api-listen", p.addr(0)}
		w.Up = ""
	case "hot", "hot-empty", "hot-missing":
		if c != "hot-missing" {
			_ = os.Mkdir(p.file("hot"), 0o755)
		}
		if c == "hot" {
			_ = os.WriteFile(p.file("hot/x.cbus.so"), []byte("x"), 0o755)
			text += "h:\n  id: test/plug\n  config: {exampleField: x}\n"
			w.Boil = 1
		}
		j = p.daemon(conf, "--hot-load-dir", p.file("hot"), "--write-config")
	case "no-daemon":
		for _, a := range [][]string{{"bus-info"}, {"exec", "-f", conf}} {
			_ = os.WriteFile(conf, []byte(text), 0o644)
			r, err := p.run(childJob{Args: append([]string{"client", "--dial-addr", p.addr(0)}, a...)})
			if err != nil {
				return err
			}
			if r.code == 0 || r.output() == "" {
				return fmt.Errorf("%s ends with code %d and %q without a daemon", a[0], r.code, r.output())
			}
		}
		return nil
	}
	if err := os.WriteFile(conf, []byte(text), 0o644); err != nil {
		return err
	}
	d, err := p.start(j)
	if err != nil {
		return err
	}
	defer d.stop(syscall.SIGKILL)
	if err := p.expect(d, w); err != nil {
		if c == "busy-address" && d.ended() && d.code != 0 && d.output() != "" {
			return nil
		}
		return err
	}
	switch c {
	case "busy-address":
		free()
		w.NoAPI = false
		if err := p.expect(d, w); err != nil && !(d.ended() && d.code != 0 && d.output() != "") {
			return err
		}
		return nil
	case "no-exec":
		// the api of the config file does not allow to execute controllers
		e := p.file("exec.yaml")
		if err := os.WriteFile(e, []byte(p.api("b", 0, 2)), 0o644); err != nil {
			return err
		}
		r, err := p.run(childJob{Args: []string{"client", "--dial-addr", p.addr(1), "exec", "-f", e}})
		if err != nil {
			return err
		}
		if r.code == 0 {
			return errors.New("controllers are executed though this is not enabled")
		}
		if _, err := p.info(p.addr(1)); err != nil {
			return err
		}
		for _, bad := range []string{"- a\n", "a: [", "a: null\n", "a:\n  id: " + idBoil + "\n  config: [1]\n", "a:\n  rev: 1\n"} {
			if err := os.WriteFile(e, []byte(bad), 0o644); err != nil {
				return err
			}
			r, err := p.run(childJob{Args: []string{"client", "--dial-addr", p.addr(0), "exec", "-f", e}})
			if err != nil {
				return err
			}
			if r.code == 0 {
				return fmt.Errorf("executing %q is no error", bad)
			}
		}
		r, err = p.run(childJob{Args: []string{"client", "--dial-addr", p.addr(0), "exec", "-f", p.file("none")}})
		if err != nil {
			return err
		}
		if r.code == 0 {
			return errors.New("executing a missing file is no error")
		}
		return p.expect(d, w)
	case "hot":
		d.stop(syscall.SIGKILL)
		d, err = p.start(p.daemon(conf, "--hot-load-dir", p.file("hot")))
		if err != nil {
			return err
		}
		defer d.stop(syscall.SIGKILL)
		return p.expect(d, w)
	}
	return nil
}

func init() {
	mcx.RegisterSeq(&mcx.Seq{Prop: "C28", Name: "start-seq", Run: startSeq})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C28", Name: "crash-seq", Run: crashSeq})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C28", Name: "client-seq", Run: clientSeq})
}

// crashSeq kills the daemon before each of its modifications of a file, and lets
// each byte be the first which does not fit on the disk.
func crashSeq(s *mcx.SeqX) {
	fs := map[string]file{}
	for _, f := range files() {
		fs[f.name] = f
	}
	names := []string{"missing", "one", "all", "symlink", "private", "keys"}
	var cases []string
	for _, n := range names {
		for at := 1; at <= 12; at++ {
			for _, torn := range []int{0, 2, 4} {
				cases = append(cases, fmt.Sprintf("%s at %d %d", n, at, torn))
			}
		}
		if n == "one" || n == "missing" || n == "all" || s.Tier == "thorough" {
			for full := 1; full <= 600; full++ {
				if s.Tier != "thorough" && full > 8 && full%16 != 0 {
					continue
				}
				cases = append(cases, fmt.Sprintf("%s full %d 0", n, full))
			}
		}
	}
	parallel(s, 6, cases, func(p *place, c string) error {
		var n, mode string
		var k, torn int
		if _, err := fmt.Sscan(c, &n, &mode, &k, &torn); err != nil {
			return err
		}
		f := fs[n]
		conf := p.file("conf.yaml")
		if err := f.put(p, conf); err != nil {
			return err
		}
		before := snap(conf)
		text, _ := os.ReadFile(conf)
		j := p.daemon(conf, "--write-config")
		if mode == "at" {
			j.Dir, j.At, j.Torn = p.dir, k, torn
		} else {
			j.Full = k
		}
		d, err := p.start(j)
		if err != nil {
			return err
		}
		defer d.stop(syscall.SIGKILL)
		ended := make(chan struct{})
		go func() {
			<-d.done
			close(ended)
		}()
		// either it ends, or it runs
		up := make(chan error, 1)
		go func() { up <- p.expect(d, f.want) }()
		select {
		case <-ended:
			<-up
			if d.code == 0 {
				return errors.New("daemon ends without an error")
			}
			if mode == "full" && strings.TrimSpace(d.output()) == "" {
				return errors.New("daemon ends without a message")
			}
		case err := <-up:
			if err != nil {
				select {
				case <-ended:
				default:
					return err
				}
			}
		}
		d.stop(syscall.SIGKILL)
		if snap(conf) == before {
			return nil
		}
		if mode == "full" && d.code > 0 {
			return fmt.Errorf("the file could not be written, but is changed: %s", snap(conf))
		}
		if n != "missing" && attr(conf) != strings.SplitN(before, "\n", 2)[0] {
			return fmt.Errorf("mode or link of the file was changed: %s", attr(conf))
		}
		if n != "missing" {
			if err := same(conf, text); err != nil {
				return err
			}
		}
		return p.again(conf, f.want, n == "missing")
	})
}
