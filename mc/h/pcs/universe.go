// Package pcs holds the scenarios on the plugin compiler.  The compiler is run
// for real, with the real go command on small modules of its own; the only
// thing replaced is the last step: instead of a shared library, the command is
// told to link the generated package, with a main function added to it, into a
// program which reports what a plugin loader would see.
package pcs

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"go/build"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sirupsen/logrus"
)

const cbus = "github.com/aperturerobotics/controllerbus"

// pkg is a package of the universe.
type pkg struct {
	path string // import path
	name string // package name
	mod  *mod
	fac  bool     // has a NewFactory
	imps []string // imported packages of the universe
	odd  bool     // contains unusual syntax
	emb  bool     // embeds files
	side []string // packages imported for their side effects
}

// mod is a module of the universe.
type mod struct {
	path, dir string // dir: within the universe
	req       []string
	rep       [][2]string
}

var mods = []*mod{
	{path: cbus, dir: "cb"},
	{path: "example.com/m1", dir: "m1", req: []string{cbus}, rep: [][2]string{{cbus, "../cb"}}},
	{path: "example.com/app/sub/v2", dir: "app/sub", req: []string{cbus, "example.com/par"},
		rep: [][2]string{{cbus, "../../cb"}, {"example.com/par", "../../par"}}},
	{path: "example.com/par", dir: "par", req: []string{cbus}, rep: [][2]string{{cbus, "../cb"}}},
	// kid replaces par by its parent directory
	{path: "example.com/kid", dir: "par/kid", req: []string{cbus, "example.com/par"},
		rep: [][2]string{{cbus, "../../cb"}, {"example.com/par", ".."}}},
	{path: "example.com/app", dir: "app", req: []string{cbus, "example.com/m1", "example.com/app/sub/v2", "example.com/par", "example.com/kid", "example.com/tp", "example.com/fk"},
		rep: [][2]string{{cbus, "../cb"}, {"example.com/m1", "../m1"}, {"example.com/app/sub/v2", "./sub"}, {"example.com/par", "../par"}, {"example.com/kid", "../par/kid"},
			// not the version in use
			{"example.com/tp " + tpNewer, "../tpnew"},
			{"example.com/fk v1.0.0", "../fk"}, {"example.com/fk v1.1.0", "../tpnew"}}},
	{path: "example.com/fk", dir: "fk", req: []string{cbus}, rep: [][2]string{{cbus, "../cb"}}},
	// tp comes from the module cache
	{path: "example.com/tp", dir: "", req: []string{cbus}},
}

var pkgs = []*pkg{
	{path: "example.com/m1/a", name: "a", fac: true},
	{path: "example.com/m1/x/a", name: "a", fac: true},
	{path: "example.com/app", name: "app", fac: true, imps: []string{"example.com/m1/a", "example.com/fk/f"}},
	{path: "example.com/fk/f", name: "f", fac: true},
	{path: "example.com/m1/bus", name: "bus", fac: true},
	{path: "example.com/m1/controller", name: "controller", fac: true},
	{path: "example.com/app/plugin", name: "plugin", fac: true, imps: []string{"example.com/m1/util"}},
	{path: "example.com/m1/side", name: "side", fac: true, side: []string{"example.com/m1/b", "example.com/m1/util"}},
	{path: "example.com/m1/util", name: "util"},
	{path: "example.com/m1/b", name: "b", fac: true, imps: []string{"example.com/m1/x/a"}},
	{path: "example.com/m1/lib", name: "lib"},
	{path: "example.com/m1/dir", name: "ctl_name", fac: true, imps: []string{"example.com/m1/a", "example.com/m1/lib"}, odd: true},
	{path: "example.com/app/sub/v2", name: "sub", fac: true, imps: []string{"example.com/par"}},
	{path: "example.com/par", name: "par", fac: true},
	{path: "example.com/kid/k", name: "k", fac: true, imps: []string{"example.com/par"}},
	{path: "example.com/tp/t", name: "t", fac: true, imps: []string{"example.com/tp/util"}},
	{path: cbus + "/ex", name: "ex", fac: true},
	{path: "example.com/m1/emb", name: "emb", fac: true, emb: true},
	{path: "example.com/app/main2", name: "main", fac: false},
}

// support packages are not analysed
var support = []*pkg{
	{path: "example.com/tp/util", name: "util"},
}

func modOf(path string) *mod {
	var m *mod
	for _, c := range mods {
		if (path == c.path || strings.HasPrefix(path, c.path+"/")) && (m == nil || len(c.path) > len(m.path)) {
			m = c
		}
	}
	return m
}

func findPkg(path string) *pkg {
	for _, p := range append(pkgs, support...) {
		if p.path == path {
			return p
		}
	}
	return nil
}

const tpVersion, tpNewer = "v1.2.0", "v1.3.0"

func (m *mod) goMod() string {
	var b strings.Builder
	fmt.Fprintf(&b, "module %s\n\ngo 1.24\n\n", m.path)
	for _, r := range m.req {
		v := "v0.0.0"
		switch {
		case r == "example.com/tp":
			v = tpVersion
		case r == "example.com/fk":
			v = "v1.0.0"
		case strings.HasSuffix(r, "/v2"):
			v = "v2.0.0"
		}
		fmt.Fprintf(&b, "require %s %s\n", r, v)
	}
	for _, r := range m.rep {
		fmt.Fprintf(&b, "replace %s => %s\n", r[0], r[1])
	}
	return b.String()
}

// source is the code of a package at a revision.
func (p *pkg) source(rev int) string {
	var b strings.Builder
	if p.odd {
		b.WriteString("//go:build !never\n\n// Package has a comment.\n")
	}
	fmt.Fprintf(&b, "package %s\n\nimport (\n\tcb %q\n", p.name, cbus+"/bus")
	if p.fac {
		fmt.Fprintf(&b, "\tcc %q\n", cbus+"/controller")
	}
	for _, im := range p.side {
		fmt.Fprintf(&b, "\t_ %q\n", im)
	}
	if p.emb {
		b.WriteString("\t\"embed\"\n")
	}
	for i, im := range p.imps {
		q := findPkg(im)
		switch {
		case p.odd && i == 1:
			fmt.Fprintf(&b, "\t. %q\n", im)
		case p.odd:
			fmt.Fprintf(&b, "\timp%d %q // comment\n", i, im)
		default:
			fmt.Fprintf(&b, "\t%s %q\n", q.name, im)
		}
	}
	b.WriteString(")\n\n")
	if p.name == "lib" {
		fmt.Fprintf(&b, "type LibT struct{}\n\nfunc init() { cb.Link(LibT{}, %d) }\n", rev)
		return b.String()
	}
	fmt.Fprintf(&b, "const Rev = %d\n\nfunc init() { cb.Link(T{}, Rev) }\n\n", rev)
	if p.name == "main" {
		b.WriteString("type T struct{}\n\nfunc main() {}\n")
		return b.String()
	}
	if p.odd {
		b.WriteString("const raw = `a\n//line x.go:1\n\t\"b\"\n`\n\n")
		b.WriteString("type gen[K comparable, V any] struct{ m map[K]V }\n\nfunc (g *gen[K, V]) get(k K) V { return g.m[k] }\n\n")
		b.WriteString("type T2 = T\n\n// T is a type.\ntype T struct{} /* end */\n\nfunc init() { _ = (&gen[string, int]{}).get(raw) }\n\n")
	} else {
		b.WriteString("type T struct{}\n\n")
	}
	b.WriteString("func Types() []any {\n\tout := []any{T{}}\n")
	for i, im := range p.imps {
		switch {
		case p.odd && i == 1:
			b.WriteString("\tout = append(out, LibT{})\n")
		case p.odd:
			fmt.Fprintf(&b, "\tout = append(out, imp%d.T{})\n", i)
		default:
			fmt.Fprintf(&b, "\tout = append(out, %s.T{})\n", findPkg(im).name)
		}
	}
	b.WriteString("\treturn out\n}\n")
	cid := fmt.Sprintf("%q", p.path)
	if p.emb {
		b.WriteString("\n//go:embed text.txt\nvar text string\n\n//go:embed all:sub\nvar dir embed.FS\n")
		cid = "text + name()"
		b.WriteString("\nfunc name() string {\n\td, err := dir.ReadFile(\"sub/_in/t.txt\")\n\tif err != nil {\n\t\treturn err.Error()\n\t}\n\treturn string(d)\n}\n")
	}
	if p.fac {
		fmt.Fprintf(&b, `
type Factory struct{ b cb.Bus }

func (f *Factory) GetConfigID() string { return %s + " on " + f.b.Name() }
func (f *Factory) Rev() int            { return Rev }
func (f *Factory) Refs() []any         { return Types() }

func NewFactory(b cb.Bus) cc.Factory { return &Factory{b: b} }
`, cid)
	}
	return b.String()
}

// oddSecond is the second file of the package with unusual syntax.
func (p *pkg) oddSecond() string {
	return "package " + p.name + "\n\n//go:generate echo\n\nvar (\n\t_ = 1 // one\n\n\t// two\n\t_ = 2\n)\n"
}

var cbFiles = map[string]string{
	"bus/bus.go": `package bus

type Bus interface{ Name() string }

// Linked are types and revisions of the packages of the program.  (Importing a
// package of the standard library here would be slow.)
var Linked []any

func Link(t any, rev int) { Linked = append(Linked, t, rev) }
`,
	"controller/controller.go": "package controller\n\ntype Factory interface {\n\tGetConfigID() string\n\tRev() int\n\tRefs() []any\n}\n",
	"plugin/plugin.go": `package plugin

import (
	"` + cbus + `/bus"
	"` + cbus + `/controller"
)

type Plugin interface {
	Info() (string, string, func(b bus.Bus) []controller.Factory)
}

type StaticPlugin struct {
	id, ver string
	fac     func(b bus.Bus) []controller.Factory
}

func NewStaticPlugin(id, ver string, fac func(b bus.Bus) []controller.Factory) *StaticPlugin {
	return &StaticPlugin{id, ver, fac}
}

func (s *StaticPlugin) Info() (string, string, func(b bus.Bus) []controller.Factory) {
	return s.id, s.ver, s.fac
}
`,
}

// reportMain is added to the generated package.
const reportMain = `package main

import (
	"os"
	"reflect"
	"runtime/debug"
	"strconv"

	"` + cbus + `/bus"
)

type reportBus struct{}

func (reportBus) Name() string { return "reportbus" }

func main() {
	out := os.Stdout.WriteString
	id, ver, facs := ControllerBusPlugin.Info()
	out("id " + id + "\n")
	out("version " + ver + "\n")
	out("prefix " + HotPluginBuildPrefix + "\n")
	out("uuid " + HotPluginBuildUUID + "\n")
	for _, f := range facs(reportBus{}) {
		out("factory " + f.GetConfigID() + " rev " + strconv.Itoa(f.Rev()))
		for _, r := range f.Refs() {
			out(" " + reflect.TypeOf(r).PkgPath())
		}
		out("\n")
	}
	for i := 0; i < len(bus.Linked); i += 2 {
		out("linked " + reflect.TypeOf(bus.Linked[i]).PkgPath() + " rev " + strconv.Itoa(bus.Linked[i+1].(int)) + "\n")
	}
	bi, _ := debug.ReadBuildInfo()
	for _, d := range bi.Deps {
		if d.Path == "example.com/tp" {
			out("tp " + d.Version)
			if d.Replace != nil {
				out(" " + d.Replace.Path)
			}
			out("\n")
		}
	}
}
`

// shim stands in for the go command.  It counts the commands run in a case
// (found from the working directory), lets the harness act in between, and
// turns the link of a plugin into the link of a reporting program.
const shim = `#!/bin/bash
real=%[1]s
root=%[2]s/gopath
case $PWD in
$root/*) rest=${PWD#$root/}; dir=$root/${rest%%%%/*} ;;
*) exec $real "$@" ;;
esac
step() {
  if [ -p $dir/ask ]; then
    printf '%%s\n' "$1" > $dir/ask
    read -r ans < $dir/answer
    [ "$ans" = fail ] && exit 1
  fi
}
case $1 in
list) for a in "$@"; do [ "$a" = -json ] && n=1; case $a in -json=*) n=1;; esac; done; 
  [ -z "$n" ] && exec $real "$@"
  step list
  $real "$@"
  rc=$?
  step listed
  exit $rc ;;
mod)
  step tidy
  [ -e $dir/fake ] && exit 0 ;;
build)
  step build
  if [ -e $dir/fake ]; then
    while [ $# -gt 1 ]; do [ "$1" = -o ] && out=$2; shift; done
    cd ../.. && find . -name '*.go' | sort | while read -r f; do echo "== $f"; cat "$f"; done > $out
    exit 0
  fi
  args=()
  for a in "$@"; do
    case $a in
    -buildmode=plugin) pl=1 ;;
    *) args+=("$a") ;;
    esac
  done
  [ -z "$pl" ] && { echo "not a plugin build" >&2; exit 3; }
  last=${args[-1]}
  case $last in
  *.go) d=$(dirname "$last"); args+=("$d/zz_report.go") ;;
  *) d=. ;;
  esac
  cp %[2]s/report.go.txt $d/zz_report.go
  for v in HotPluginBuildPrefix HotPluginBuildUUID; do
    cat $d/*.go | grep -Eq "$v[[:space:]]*=" || echo "var $v = \"none\"" >> $d/zz_report.go
  done
  $real "${args[@]}"
  rc=$?
  rm -f $d/zz_report.go
  exit $rc ;;
esac
exec $real "$@"
`

const realGo = "/opt/veriftools/go1.25.14/bin/go"

var discard = func() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return logrus.NewEntry(l)
}()

// world is the scratch directory of a run.
type world struct{ root string }

// newWorld creates the directory, the go command and the module proxy, and
// points the environment at them.
func newWorld() (*world, error) {
	tmp := os.Getenv("MC_TMP")
	if tmp == "" {
		tmp = os.TempDir()
	}
	// the names are those of directories which are not watched
	root, err := os.MkdirTemp(tmp, "pcs-vendor.bldr-")
	if err != nil {
		return nil, err
	}
	w := &world{root: root}
	put := func(p, s string, mode fs.FileMode) {
		p = filepath.Join(root, p)
		if err == nil {
			err = os.MkdirAll(filepath.Dir(p), 0o755)
		}
		if err == nil {
			err = os.WriteFile(p, []byte(s), mode)
		}
	}
	put("bin/go", fmt.Sprintf(shim, realGo, root), 0o755)
	put("report.go.txt", reportMain, 0o644)
	put("tmp/x", "", 0o644)
	put("home/x", "", 0o644)
	put("gopath/pkg/x", "", 0o644)
	px := "proxy/example.com/tp/@v/"
	put(px+"list", tpVersion+"\n"+tpNewer+"\n", 0o644)
	tp := modOf("example.com/tp")
	for i, v := range []string{tpVersion, tpNewer} {
		put(px+v+".info", fmt.Sprintf(`{"Version":%q,"Time":"2020-01-01T00:00:00Z"}`, v), 0o644)
		put(px+v+".mod", tp.goMod(), 0o644)
		files := map[string]string{"go.mod": tp.goMod()}
		for _, p := range append(pkgs, support...) {
			if modOf(p.path) == tp {
				files[strings.TrimPrefix(p.path, tp.path+"/")+"/f.go"] = p.source(10 + i)
			}
		}
		var z []byte
		if z, err = zipOf(tp.path+"@"+v, files); err != nil {
			return nil, err
		}
		put(px+v+".zip", string(z), 0o644)
	}
	if err != nil {
		return nil, err
	}
	for k, v := range map[string]string{
		"PATH":      filepath.Join(root, "bin") + ":/usr/bin:/bin",
		"GOROOT":    "/opt/veriftools/go1.25.14",
		"GOPATH":    filepath.Join(root, "gopath"),
		"GOFLAGS":   "-mod=mod -modcacherw",
		"GOPROXY":   "file://" + filepath.Join(root, "proxy"),
		"GONOSUMDB": "*", "GONOSUMCHECK": "1", "GOSUMDB": "off",
		"GOWORK": "off", "GOTOOLCHAIN": "local", "GO111MODULE": "on",
		"HOME": filepath.Join(root, "home"), "XDG_CACHE_HOME": filepath.Join(root, "home"),
		"TMPDIR": filepath.Join(root, "tmp"),
		"GOCACHE": func() string {
			if c := os.Getenv("GOCACHE"); c != "" {
				return c
			}
			return filepath.Join(os.Getenv("HOME"), ".cache/go-build")
		}(),
	} {
		os.Setenv(k, v)
	}
	os.Unsetenv("GOMODCACHE")
	build.Default.GOPATH = filepath.Join(root, "gopath")
	return w, nil
}

func (w *world) close() { _ = os.RemoveAll(w.root) }

// place is a copy of the universe.
type place struct {
	dir string
}

func (w *world) newPlace(name string) (*place, error) {
	p := &place{dir: filepath.Join(w.root, "gopath", "pkg-"+name)}
	var err error
	put := func(f, s string) {
		f = filepath.Join(p.dir, "src", f)
		if err == nil {
			err = os.MkdirAll(filepath.Dir(f), 0o755)
		}
		if err == nil {
			err = os.WriteFile(f, []byte(s), 0o644)
		}
	}
	for _, m := range mods {
		if m.dir != "" {
			put(m.dir+"/go.mod", m.goMod())
		}
	}
	for f, s := range cbFiles {
		put("cb/"+f, s)
	}
	tp := modOf("example.com/tp")
	put("tpnew/go.mod", tp.goMod())
	for _, q := range append(pkgs, support...) {
		if modOf(q.path) == tp {
			put("tpnew/"+strings.TrimPrefix(q.path, tp.path+"/")+"/f.go", q.source(12))
		}
	}
	for _, q := range pkgs {
		if m := modOf(q.path); m.dir != "" {
			d := m.dir + "/" + strings.TrimPrefix(strings.TrimPrefix(q.path, m.path), "/")
			put(d+"/f.go", q.source(1))
			if q.emb {
				put(d+"/text.txt", q.path[:len(q.path)-3])
				put(d+"/sub/_in/t.txt", q.path[len(q.path)-3:])
			}
			if q.odd {
				put(d+"/g_linux.go", q.oddSecond())
				put(d+"/g_windows.go", "package wrong\n")
				put(d+"/f_test.go", "package "+q.name+"\n\nimport _ \"no/such/package\"\n")
			}
		}
	}
	if err != nil {
		return nil, err
	}
	// go.sum of the module that uses the module cache
	c := exec.Command(realGo, append([]string{"list", "-deps", "-f", "{{.Dir}}"}, paths(pkgs)...)...)
	c.Dir = filepath.Join(p.dir, "src/app")
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		return nil, errors.New(b.String())
	}
	return p, nil
}

// digest of a directory tree.
func digest(dir string) (string, error) {
	h := sha256.New()
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		fmt.Fprintf(h, "%s %v\n", rel, d.Type())
		if d.Type().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			h.Write(b)
		}
		return nil
	})
	return fmt.Sprintf("%x", h.Sum(nil)), err
}

// report is what a compiled plugin says.
func report(file string) ([]string, error) {
	c := exec.Command(file)
	out, err := c.Output()
	if err != nil {
		return nil, err
	}
	l := strings.Split(strings.TrimSpace(string(out)), "\n")
	return l, nil
}

// want is what the plugin of a set of packages has to say.
func want(set []*pkg, id, ver, prefix string, rev func(p *pkg) int) []string {
	in := map[string]bool{}
	tp := false
	for _, p := range set {
		in[p.path] = true
	}
	pre := func(s string) string {
		if in[s] {
			return prefix + "/" + s
		}
		return s
	}
	linked := map[string]bool{}
	// link adds a package, generated or original, and what it imports: the
	// original imports originals.
	var link func(p *pkg, gen bool)
	link = func(p *pkg, gen bool) {
		gen = gen && in[p.path]
		path := p.path
		if gen {
			path = prefix + "/" + path
		} else if modOf(p.path).path == "example.com/tp" {
			tp = true
		}
		l := fmt.Sprintf("linked %s rev %d", path, rev(p))
		if linked[l] {
			return
		}
		linked[l] = true
		for _, im := range append(append([]string{}, p.imps...), p.side...) {
			link(findPkg(im), gen)
		}
	}
	out := []string{"id " + id, "version " + ver, "prefix " + prefix, "uuid " + prefix}
	for _, p := range set {
		if !p.fac {
			continue
		}
		l := fmt.Sprintf("factory %s on reportbus rev %d %s", p.path, rev(p), pre(p.path))
		for _, i := range p.imps {
			l += " " + pre(i)
		}
		out = append(out, l)
		link(p, true)
	}
	for l := range linked {
		out = append(out, l)
	}
	if tp {
		out = append(out, "tp "+tpVersion)
	}
	sort.Strings(out)
	return out
}
