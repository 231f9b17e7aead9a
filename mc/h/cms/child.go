// Package cms holds the scenarios on the commands: the daemon and its clients.
package cms

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/signal"
	gplugin "plugin"
	"strings"
	"syscall"

	"github.com/aperturerobotics/controllerbus/bus"
	ccli "github.com/aperturerobotics/controllerbus/cli"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	boilerplate_controller "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	"github.com/aperturerobotics/controllerbus/plugin"
	"github.com/aperturerobotics/controllerbus/zz_verif/cbcmd"
	"github.com/fsnotify/fsnotify"
)

// childJob is the order of a child process, which becomes the command.
type childJob struct {
	Args []string
	Lib  bool   // the client as a library: standard input cancels its context
	At   int    // the process is killed before the n-th modification of a file ...
	Torn int    // ... of the files not synced, this many quarters are on the disk
	Dir  string // ... below this directory
	Full int    // files cannot become longer than this, if not 0
}

func init() {
	if js := os.Getenv("CMS_CHILD"); js != "" {
		var j childJob
		if err := json.Unmarshal([]byte(js), &j); err != nil {
			panic(err)
		}
		os.Unsetenv("CMS_CHILD")
		child(&j)
		os.Exit(0)
	}
}

func child(j *childJob) {
	fsnotify.SetH(&fsnotify.Hooks{})
	gplugin.SetHook(openPlugin)
	if j.Dir != "" {
		crashAt(j)
	}
	if j.Full != 0 {
		signal.Ignore(syscall.SIGXFSZ)
		n := uint64(j.Full)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			panic(err)
		}
	}
	if j.Lib {
		lib(j)
		return
	}
	os.Args = append([]string{"controllerbus"}, j.Args...)
	cbcmd.Main()
}

// lib runs the exec command until standard input ends.
func lib(j *childJob) {
	ctx, cancel := context.WithCancel(context.Background())
	var a ccli.ClientArgs
	a.SetContext(ctx)
	a.DialAddr, a.ExecConfigSetPath = j.Args[0], j.Args[1]
	go func() {
		_, _ = bufio.NewReader(os.Stdin).ReadString('\n')
		cancel()
	}()
	if err := a.RunExecController(nil); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("returned")
	// the process stays, so that what was executed ends because of the context
	select {}
}

func crashAt(j *childJob) {
	n := 0
	dirty := map[string]bool{}
	os.VsSetWrHook(func(op, name string) {
		a, b, _ := strings.Cut(name, "\x00")
		if !strings.HasPrefix(a, j.Dir) || n < 0 {
			return
		}
		n++
		if n == j.At {
			// what was not synced need not be on the disk
			n = -1
			for f := range dirty {
				if st, err := os.Stat(f); err == nil {
					_ = os.Truncate(f, st.Size()*int64(j.Torn)/4)
				}
			}
			os.Exit(9)
		}
		switch op {
		case "write", "open":
			dirty[a] = true
		case "sync":
			delete(dirty, a)
		case "rename":
			if dirty[a] {
				dirty[b] = true
			}
			delete(dirty, a)
		case "remove":
			delete(dirty, a)
		}
	})
}

// openPlugin stands in for the opening of a shared library: it provides the
// factory of the boilerplate controller under another id.
func openPlugin(path string) (*gplugin.Plugin, error) {
	if _, err := os.Stat(path); err != nil {
		return nil, err
	}
	var p plugin.Plugin = plug{}
	return &gplugin.Plugin{Syms: map[string]any{plugin.PluginGlobalVar: &p}}, nil
}

type plug struct{}

func (plug) GetBinaryID() string      { return "plug" }
func (plug) GetBinaryVersion() string { return "v1" }
func (plug) PrePluginUnload()         {}
func (plug) NewPluginResolver(ctx context.Context, b bus.Bus) (plugin.PluginResolver, error) {
	return plugin.NewResolver(ctx, b, "plug", "v1", plugFactory{boilerplate_controller.NewFactory(b)}), nil
}

// plugConf is the config of the controller of the plugin.
type plugConf struct{ *boilerplate_controller.Config }

func (plugConf) GetConfigID() string { return "test/plug" }
func (c plugConf) EqualsConfig(o config.Config) bool {
	p, ok := o.(plugConf)
	return ok && c.Config.EqualsConfig(p.Config)
}

type plugFactory struct{ controller.Factory }

func (plugFactory) GetConfigID() string            { return "test/plug" }
func (plugFactory) GetControllerID() string        { return "test/plug" }
func (plugFactory) ConstructConfig() config.Config { return plugConf{&boilerplate_controller.Config{}} }
func (f plugFactory) Construct(ctx context.Context, c config.Config, o controller.ConstructOpts) (controller.Controller, error) {
	p, ok := c.(plugConf)
	if !ok {
		return nil, errors.New("wrong config")
	}
	return f.Factory.Construct(ctx, p.Config, o)
}
