package pcs

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/aperturerobotics/cli"
	plugin_cli "github.com/aperturerobotics/controllerbus/plugin/cli"
	plugin_compiler "github.com/aperturerobotics/controllerbus/plugin/compiler"
	"github.com/fsnotify/fsnotify"
)

// order of a child process: some entry points use the working directory, and a
// crash needs a process of its own.
type childJob struct {
	Mode string
	Args []string
	Dir  string // of the place
	At   int    // crash before the n-th modification of a file
}

func init() {
	if j := os.Getenv("PCS_CHILD"); j != "" {
		os.Exit(child(j))
	}
}

func child(js string) int {
	var j childJob
	err := json.Unmarshal([]byte(js), &j)
	if err == nil {
		ctx := context.Background()
		switch j.Mode {
		case "cli":
			var a plugin_cli.CompilerArgs
			app := cli.NewApp()
			app.Commands = []*cli.Command{a.BuildDevtoolCommand()}
			err = app.Run(append([]string{"controllerbus"}, j.Args...))
		case "build":
			// search path, output path, codegen dir, packages
			err = plugin_compiler.BuildPlugin(ctx, discard, j.Args[0], j.Args[1], j.Args[2], j.Args[3:])
		case "file":
			// go file, output path, packages
			var an *plugin_compiler.Analysis
			if an, err = plugin_compiler.AnalyzePackages(ctx, discard, ".", j.Args[2:]); err != nil {
				break
			}
			gf, err2 := plugin_compiler.GeneratePluginWrapper(ctx, discard, an, "the id", "v1")
			if err = err2; err != nil {
				break
			}
			hooked := 0
			err = plugin_compiler.CompilePluginFromFile(ctx, discard, gf, j.Args[0], j.Args[1], func(out, contents string) error {
				hooked++
				if _, err := os.Stat(contents); err != nil {
					return err
				}
				fmt.Println("hook", out)
				return nil
			})
		case "watch":
			err = watchChild(&j)
		}
	}
	if err != nil {
		fmt.Println("child:", err)
		return 1
	}
	return 0
}

var errDone = errors.New("done")

func watchChild(j *childJob) error {
	n := 0
	dirty := map[string]bool{}
	os.VsSetWrHook(func(op, name string) {
		a, b, _ := strings.Cut(name, "\x00")
		if !strings.HasPrefix(a, j.Dir) || n < 0 {
			return
		}
		n++
		if n == j.At {
			// what was not synced need not be on the disk
			n = -1
			for f := range dirty {
				if st, err := os.Stat(f); err == nil {
					_ = os.Truncate(f, st.Size()/2)
				}
			}
			os.Exit(9)
		}
		switch op {
		case "write", "open":
			dirty[a] = true
		case "sync":
			delete(dirty, a)
		case "rename":
			if dirty[a] {
				dirty[b] = true
			}
			delete(dirty, a)
		case "remove":
			delete(dirty, a)
		}
	})
	fsnotify.SetH(&fsnotify.Hooks{})
	err := watcherOf(j.Dir).WatchCompilePlugin(context.Background(), filepath.Join(j.Dir, "gen"), outPattern(j.Dir), "the id", "v-{buildHash}",
		func([]string, string) error { return errDone })
	if err == errDone {
		fmt.Println("steps", n)
		return nil
	}
	return err
}
