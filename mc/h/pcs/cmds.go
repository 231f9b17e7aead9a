package pcs

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// The ways to start the compiler: BuildPlugin, the command line and a single
// generated file.

type cmdCase struct {
	Mode                      string // build, compile, codegen, file
	Prefix, ID, Ver, Out, Gen string
	Keep, Bad                 bool
}

func (c cmdCase) String() string {
	b, _ := json.Marshal(c)
	return string(b)
}

var reHash = regexp.MustCompile(`[a-zA-Z0-9]{16}`)

// cmdRun runs the compiler, with what an earlier run has generated and kept if
// again is set.
func cmdRun(pl *place, c cmdCase, again bool) (string, error) {
	app := filepath.Join(pl.dir, "src/app")
	list := []string{"example.com/m1/a", "./plugin"}
	set := setOf("example.com/m1/a example.com/app/plugin")
	before, _ := digest(filepath.Join(pl.dir, "src"))
	out, gen, home := filepath.Join(pl.dir, "o"), filepath.Join(pl.dir, "g"), filepath.Join(pl.dir, "home")
	for _, d := range []string{out, gen, home} {
		if d == out || !again {
			_ = os.RemoveAll(d)
		}
		_ = os.MkdirAll(d, 0o755)
	}
	_ = os.WriteFile(filepath.Join(gen, "keep"), nil, 0o644)
	_ = os.WriteFile(filepath.Join(out, "other.cbus.so"), nil, 0o644)
	j := childJob{Dir: pl.dir}
	var restore []func()
	genArg := ""
	if c.Gen != "" {
		genArg = gen
	}
	outArg := filepath.Join(out, "d", c.Out)
	switch c.Mode {
	case "build":
		j.Mode = "build"
		j.Args = append([]string{".", outArg, genArg}, list...)
	case "file":
		j.Mode = "file"
		_ = os.MkdirAll(filepath.Join(app, "zz"), 0o755)
		_ = os.MkdirAll(filepath.Dir(outArg), 0o755)
		// the go command tidies the module which the file is compiled in
		for _, f := range []string{"go.mod", "go.sum"} {
			f = filepath.Join(app, f)
			old, err := os.ReadFile(f)
			restore = append(restore, func() {
				if _ = os.RemoveAll(f); err == nil {
					_ = os.WriteFile(f, old, 0o644)
				}
			})
		}
		restore = append(restore, func() { _ = os.RemoveAll(filepath.Join(app, "zz")) })
		j.Args = append([]string{"./zz/plugin.go", outArg}, list...)
	default:
		j.Mode = "cli"
		j.Args = []string{"plugin"}
		for _, f := range [][2]string{{"codegen-dir", genArg}, {"output", outArg}, {"build-prefix", c.Prefix}, {"plugin-binary-id", c.ID}, {"plugin-binary-version", c.Ver}} {
			if f[1] != "" {
				j.Args = append(j.Args, "--"+f[0], f[1])
			}
		}
		if c.Keep {
			j.Args = append(j.Args, "--no-cleanup")
		}
		j.Args = append(append(j.Args, c.Mode), list...)
	}
	b, _ := json.Marshal(j)
	exe, _ := os.Executable()
	cmd := exec.Command(exe)
	cmd.Dir = app
	cmd.Env = append(os.Environ(), "PCS_CHILD="+string(b), "XDG_CACHE_HOME="+home)
	res, err := cmd.Output()
	for _, f := range restore {
		f()
	}
	if _, err2 := os.Stat(filepath.Join(out, "other.cbus.so")); err2 != nil {
		return "", errors.New("another file in the output directory was deleted")
	}
	if _, err2 := os.Stat(filepath.Join(gen, "keep")); err2 != nil {
		return "", errors.New("another file in the directory of generated code was deleted")
	}
	if after, _ := digest(filepath.Join(pl.dir, "src")); after != before {
		return "", errors.New("the source files have been changed")
	}
	outs, _ := os.ReadDir(filepath.Dir(outArg))
	if c.Bad {
		if err == nil || len(outs) != 0 {
			return "", fmt.Errorf("output path %s is accepted", c.Out)
		}
		return "", nil
	}
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, res)
	}
	// what is left of the generated code
	left := 0
	for _, d := range []string{gen, home} {
		files, _ := filepath.Glob(filepath.Join(d, "*"))
		more, _ := filepath.Glob(filepath.Join(d, "cbus/codegen/*"))
		for _, f := range append(files, more...) {
			if b := filepath.Base(f); b != "keep" && b != "cbus" && b != "bin" {
				left++
			}
		}
	}
	if keep := c.Keep || c.Mode == "build" && c.Gen != ""; keep != (left != 0) && c.Mode != "file" {
		return "", fmt.Errorf("%d directories of generated code are left", left)
	}
	if c.Mode == "codegen" {
		if len(outs) != 0 {
			return "", errors.New("code generation writes to the output path")
		}
		return "", nil
	}
	if len(outs) != 1 {
		return "", fmt.Errorf("there are %d plugins in the output directory", len(outs))
	}
	name := outs[0].Name()
	hash := ""
	if p, q, ok := strings.Cut(c.Out, "{buildHash}"); ok {
		hash = strings.TrimSuffix(strings.TrimPrefix(name, p), q)
		if !reHash.MatchString(hash) || len(hash) != 16 {
			return "", fmt.Errorf("output path %s becomes %s", c.Out, name)
		}
	} else if name != c.Out {
		return "", fmt.Errorf("output path %s becomes %s", c.Out, name)
	}
	if c.Mode == "file" {
		// shared objects need not be executable
		_ = os.Chmod(filepath.Join(filepath.Dir(outArg), name), 0o755)
	}
	got, err := report(filepath.Join(filepath.Dir(outArg), name))
	if err != nil {
		return "", err
	}
	val := map[string]string{}
	for _, l := range got {
		k, v, _ := strings.Cut(l, " ")
		val[k] = v
	}
	if c.Mode == "file" {
		if hash != "" && !strings.HasPrefix(val["uuid"], hash) || len(val["uuid"]) < 16 {
			return "", fmt.Errorf("plugin %s has the unique build id %q", name, val["uuid"])
		}
		return name + val["uuid"], nil
	}
	if strings.ContainsAny(val["version"], "{}") {
		return "", fmt.Errorf("the version of the plugin is %q", val["version"])
	}
	vh := ""
	switch {
	case c.Ver == "":
		vh = reHash.FindString(val["version"])
	case strings.Contains(c.Ver, "{buildHash}"):
		p, q, _ := strings.Cut(c.Ver, "{buildHash}")
		vh = strings.TrimSuffix(strings.TrimPrefix(val["version"], p), q)
		if p+vh+q != val["version"] {
			vh = ""
		}
	default:
		if val["version"] != c.Ver {
			return "", fmt.Errorf("the version of the plugin is %q, want %q", val["version"], c.Ver)
		}
		vh = "fixed"
	}
	if vh == "" || vh != "fixed" && (len(vh) != 16 || hash != "" && vh != hash) {
		return "", fmt.Errorf("the version of plugin %s is %q, for %q", name, val["version"], c.Ver)
	}
	if c.ID != "" && val["id"] != c.ID || val["id"] == "" {
		return "", fmt.Errorf("the id of the plugin is %q, want %q", val["id"], c.ID)
	}
	if c.Prefix != "" && val["prefix"] != c.Prefix || val["prefix"] == "" {
		return "", fmt.Errorf("the build prefix of the plugin is %q, want %q", val["prefix"], c.Prefix)
	}
	w := want(set, val["id"], val["version"], val["prefix"], func(*pkg) int { return curRev(pl) })
	sort.Strings(got)
	if d := diff(got, w); d != "" {
		return "", errors.New(d)
	}
	return name + " " + val["version"], nil
}

func curRev(pl *place) int {
	b, _ := os.ReadFile(filepath.Join(srcDir(pl, watched[0]), "f.go"))
	n := 0
	if m := reConst.FindStringSubmatch(string(b)); m != nil {
		fmt.Sscan(m[2], &n)
	}
	return n
}

func setRev(pl *place, rev int) {
	for _, p := range watched {
		_ = os.WriteFile(filepath.Join(srcDir(pl, p), "f.go"), []byte(findPkg(p).source(rev)), 0o644)
		// a type which is in another file in each revision
		for i := 1; i < 3; i++ {
			f := filepath.Join(srcDir(pl, p), fmt.Sprintf("r%d.go", i))
			if i == rev {
				_ = os.WriteFile(f, []byte("package "+findPkg(p).name+"\n\ntype Moved struct{}\n"), 0o644)
			} else {
				_ = os.RemoveAll(f)
			}
		}
	}
}

func commands(s *mcx.SeqX) {
	w, err := newWorld()
	if err != nil {
		s.Failf("", "set-up: %v", err)
		return
	}
	defer w.close()
	const hashed = "p.{buildHash}.cbus.so"
	cs := []cmdCase{
		{Mode: "build", Out: hashed}, {Mode: "build", Out: "p.cbus.so"},
		{Mode: "build", Out: hashed, Gen: "given"}, {Mode: "build", Out: "p.cbus.so", Gen: "given"},
		{Mode: "file", Out: hashed}, {Mode: "file", Out: "p.cbus.so"},
		{Mode: "compile", Out: "p.so", Bad: true}, {Mode: "codegen", Out: "p.cbus.so.x", Bad: true},
	}
	for _, prefix := range []string{"", "my-prefix"} {
		for _, id := range []string{"", "my id"} {
			for _, gen := range []string{"", "given"} {
				for _, keep := range []bool{false, true} {
					cs = append(cs, cmdCase{Mode: "codegen", Prefix: prefix, ID: id, Gen: gen, Keep: keep, Out: "p.cbus.so"})
					if keep != (gen == "") && s.Tier != "thorough" {
						continue
					}
					for _, ver := range []string{"", "v1", "v-{buildHash}-x"} {
						for _, out := range []string{"p.cbus.so", hashed} {
							cs = append(cs, cmdCase{Mode: "compile", Prefix: prefix, ID: id, Gen: gen, Keep: keep, Ver: ver, Out: out})
						}
					}
				}
			}
		}
	}
	var cases []string
	for _, c := range cs {
		cases = append(cases, c.String())
	}
	parallel(s, w, 6, cases, func(pl *place, js string) error {
		var c cmdCase
		if err := json.Unmarshal([]byte(js), &c); err != nil {
			return err
		}
		setRev(pl, 1)
		a, err := cmdRun(pl, c, false)
		if err != nil || a == "" {
			return err
		}
		setRev(pl, 2)
		b, err := cmdRun(pl, c, true)
		if err != nil {
			return err
		}
		if a == b && strings.Contains(c.Out+c.Ver, "{buildHash}") {
			return fmt.Errorf("two plugins with different code are both %s", a)
		}
		setRev(pl, 1)
		d, err := cmdRun(pl, c, true)
		if err == nil && a != d {
			err = fmt.Errorf("the same packages are compiled to %s and to %s", a, d)
		}
		return err
	})
}

func init() {
	mcx.RegisterSeq(&mcx.Seq{Prop: "C26", Name: "commands", Run: commands})
}
