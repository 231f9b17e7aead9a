package pcs

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	plugin_compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

func paths(set []*pkg) (out []string) {
	for _, p := range set {
		out = append(out, p.path)
	}
	return
}

// closed: the go.mod files of the modules of the set suffice to build it.
func closed(set []*pkg) bool {
	var tp, app bool
	for _, p := range set {
		m := modOf(p.path).path
		tp = tp || m == "example.com/tp"
		app = app || m == "example.com/app"
	}
	return app || !tp
}

func diff(got, want []string) string {
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") == strings.Join(want, "\n") {
		return ""
	}
	return fmt.Sprintf("the plugin reports %q, want %q", got, want)
}

// buildSet generates and compiles the plugin of a set of packages under two
// prefixes in turn, from the same analysis.
func buildSet(pl *place, set []*pkg) error {
	before, err := digest(filepath.Join(pl.dir, "src"))
	if err != nil {
		return err
	}
	gen := filepath.Join(pl.dir, "gen")
	defer os.RemoveAll(gen)
	if err := os.MkdirAll(gen, 0o755); err != nil {
		return err
	}
	ctx := context.Background()
	an, err := plugin_compiler.AnalyzePackages(ctx, discard, filepath.Join(pl.dir, "src/app"), paths(set))
	if err != nil {
		return fmt.Errorf("analysis: %w", err)
	}
	for i, pre := range []string{"pass1", "cbus-plugin-Ab1"} {
		mc, err := plugin_compiler.NewModuleCompiler(ctx, discard, pre, gen, "the id")
		if err != nil {
			return err
		}
		ver := fmt.Sprint("v", i, " \"{buildHash}\"")
		if err := mc.GenerateModules(an, ver); err != nil {
			return fmt.Errorf("prefix %s: generation: %w", pre, err)
		}
		out := filepath.Join(pl.dir, "out.cbus.so")
		if err := mc.CompilePlugin(out); err != nil {
			b, _ := os.ReadFile(filepath.Join(gen, pre, "plugin/bin/plugin.go"))
			m, _ := os.ReadFile(filepath.Join(gen, pre, "plugin/go.mod"))
			return fmt.Errorf("prefix %s: the generated module does not build: %w\n%s\n%s", pre, err, b, m)
		}
		got, err := report(out)
		if err != nil {
			return err
		}
		_ = os.Remove(out)
		if d := diff(got, want(set, "the id", ver, pre, func(p *pkg) int {
			if modOf(p.path).dir == "" {
				return 10
			}
			return 1
		})); d != "" {
			return errors.New(d)
		}
		mc.Cleanup()
		if _, err := os.Stat(filepath.Join(gen, pre)); err == nil {
			return fmt.Errorf("prefix %s: the generated files are left after Cleanup", pre)
		}
	}
	after, err := digest(filepath.Join(pl.dir, "src"))
	if err != nil {
		return err
	}
	if before != after {
		return errors.New("the source files have been changed")
	}
	return nil
}

// parallel runs the cases in a number of places.
func parallel(s *mcx.SeqX, w *world, n int, cases []string, run func(pl *place, c string) error) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(n))
	type res struct {
		c   string
		err error
	}
	in, out := make(chan string), make(chan res)
	var failed atomic.Int32
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		pl, err := w.newPlace(fmt.Sprint("w", i))
		if err != nil {
			s.Failf("", "set-up: %v", err)
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range in {
				out <- res{c, run(pl, c)}
			}
		}()
	}
	go func() {
		for _, c := range cases {
			if s.Only != "" && s.Only != c || failed.Load() > 10 {
				continue
			}
			in <- c
		}
		close(in)
		wg.Wait()
		close(out)
	}()
	for r := range out {
		s.Case(r.c)
		s.State(r.c)
		s.Trans()
		s.Sample("%s", r.c)
		if r.err != nil {
			s.Failf(r.c, "%s: %v", r.c, r.err)
			failed.Add(1)
		}
	}
}

func setOf(c string) (set []*pkg) {
	for _, p := range strings.Fields(c) {
		set = append(set, findPkg(p))
	}
	return
}

func sets(s *mcx.SeqX) {
	w, err := newWorld()
	if err != nil {
		s.Failf("", "set-up: %v", err)
		return
	}
	defer w.close()
	var cases []string
	add := func(set ...*pkg) {
		if closed(set) {
			cases = append(cases, strings.Join(paths(set), " "))
		}
	}
	add(pkgs...)
	for i, p := range pkgs {
		add(p)
		for j, q := range pkgs[i+1:] {
			add(p, q)
			if s.Tier == "thorough" {
				for _, r := range pkgs[i+1+j+1:] {
					add(p, q, r)
				}
			}
		}
	}
	parallel(s, w, 6, cases, func(pl *place, c string) error { return buildSet(pl, setOf(c)) })
}

// bad lists of packages: an error is returned, and nothing else happens.
func badSets(s *mcx.SeqX) {
	w, err := newWorld()
	if err != nil {
		s.Failf("", "set-up: %v", err)
		return
	}
	defer w.close()
	bad := []string{"example.com/none/x", "example.com/m1/nothere", "example.com/m1/syntax", "example.com/m1/types", "fmt", "./no-such", ""}
	var cases []string
	for _, b := range bad {
		cases = append(cases, b, b+" example.com/m1/a", "example.com/app "+b)
	}
	parallel(s, w, 6, cases, func(pl *place, c string) (err error) {
		for n, src := range map[string]string{"syntax": "package syntax\n\nfunc {\n", "types": "package types\n\nvar x int = \"\"\n"} {
			d := filepath.Join(pl.dir, "src/m1", n)
			_ = os.MkdirAll(d, 0o755)
			_ = os.WriteFile(filepath.Join(d, "f.go"), []byte(src), 0o644)
		}
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		gen := filepath.Join(pl.dir, "gen")
		defer os.RemoveAll(gen)
		_ = os.MkdirAll(gen, 0o755)
		before, _ := digest(filepath.Join(pl.dir, "src"))
		list := strings.Split(c, " ")
		if c == "" {
			list = []string{}
		}
		an, err := plugin_compiler.AnalyzePackages(context.Background(), discard, filepath.Join(pl.dir, "src/m1"), list)
		if err == nil {
			mc, err2 := plugin_compiler.NewModuleCompiler(context.Background(), discard, "pre", gen, "id")
			if err2 != nil {
				return err2
			}
			if err = mc.GenerateModules(an, "v"); err == nil {
				return errors.New("no error is returned for packages which cannot be compiled")
			}
			mc.Cleanup()
		}
		if l, _ := os.ReadDir(gen); len(l) != 0 {
			return fmt.Errorf("%s is left in the directory of generated code", l[0].Name())
		}
		if after, _ := digest(filepath.Join(pl.dir, "src")); before != after {
			return errors.New("the source files have been changed")
		}
		return nil
	})
}

// ---- determinism ----

var orderAn *plugin_compiler.Analysis
var orderPl *place
var orderErr error
var orderWant string

//go:norace
func getOrder() (*plugin_compiler.Analysis, *place, error) { return orderAn, orderPl, orderErr }

func orderSetup() {
	w, err := newWorld()
	if err == nil {
		orderPl, err = w.newPlace("order")
	}
	if err == nil {
		orderAn, err = plugin_compiler.AnalyzePackages(context.Background(), discard, filepath.Join(orderPl.dir, "src/app"), []string{
			"example.com/m1/a", "example.com/m1/x/a", "example.com/app", "example.com/app/sub/v2", "example.com/kid/k", "example.com/m1/bus",
		})
	}
	orderErr = err
	if err == nil {
		orderWant, orderErr = orderGen()
	}
}

func orderGen() (string, error) {
	an, pl, err := getOrder()
	if err != nil {
		return "", err
	}
	gen := filepath.Join(pl.dir, "gen")
	if err := os.RemoveAll(gen); err != nil {
		return "", err
	}
	if err := os.MkdirAll(gen, 0o755); err != nil {
		return "", err
	}
	mc, err := plugin_compiler.NewModuleCompiler(context.Background(), discard, "pre", gen, "id")
	if err == nil {
		err = mc.GenerateModules(an, "v")
	}
	if err != nil {
		return "", err
	}
	gf, err := plugin_compiler.GeneratePluginWrapper(context.Background(), discard, an, "id", "v")
	if err != nil {
		return "", err
	}
	dat, err := plugin_compiler.FormatFile(gf)
	if err != nil {
		return "", err
	}
	d, err := digest(gen)
	return d + string(dat), err
}

func order(x *mcx.X) {
	got, err := orderGen()
	if err != nil {
		x.Failf("generation: %v", err)
		return
	}
	if got != orderWant {
		x.Failf("what is generated from an analysis depends on the order of a map")
	}
	x.Ev("same", 0, 0, 0)
}

func init() {
	mcx.RegisterSeq(&mcx.Seq{Prop: "C26", Name: "sets", Run: sets})
	mcx.RegisterSeq(&mcx.Seq{Prop: "C26", Name: "bad-sets", Run: badSets})
	mcx.Register(&mcx.Scenario{Prop: "C26", Name: "order", Body: order, Setup: orderSetup, MapOrder: true, NoRace: true, Weight: 2})
}
