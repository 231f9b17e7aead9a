package pls

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
	"github.com/fsnotify/fsnotify"
	fsreal "verif.local/fsreal"
)

// The stand-in for the file notification library is compared to the real one:
// the same histories of a directory are replayed on both, and the files for
// which there are events have to be the same.

const confOps = 7 // w.Add, then: write a, write b, remove a, move in a, remove b, chmod a

func confReal(dir string, ops []int) (string, error) {
	w, err := fsreal.NewWatcher()
	if err != nil {
		return "", err
	}
	defer w.Close()
	stage := filepath.Join(dir, "..", filepath.Base(dir)+".stage")
	add := false
	for _, o := range ops {
		a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
		switch o {
		case 0:
			if add {
				continue
			}
			add = true
			err = w.Add(dir)
		case 1:
			err = os.WriteFile(a, []byte("x"), 0o644)
		case 2:
			err = os.WriteFile(b, []byte("x"), 0o644)
		case 3:
			_ = os.Remove(a)
		case 4:
			_ = os.WriteFile(stage, nil, 0o644)
			err = os.Rename(stage, a)
		case 5:
			_ = os.Remove(b)
		case 6:
			_ = os.Chmod(a, 0o600)
		}
		if err != nil {
			return "", err
		}
	}
	// a last event, after which everything was received
	last := filepath.Join(dir, "last")
	if err := os.WriteFile(last, nil, 0o644); err != nil {
		return "", err
	}
	var got []string
	tmo := time.After(10 * time.Second)
	for add {
		select {
		case ev := <-w.Events:
			if ev.Name == last {
				return squash(got), nil
			}
			if ev.Op != fsreal.Chmod {
				kind := "+"
				if ev.Op == fsreal.Remove || ev.Op == fsreal.Rename {
					kind = "-"
				}
				got = append(got, kind+filepath.Base(ev.Name))
			}
		case err := <-w.Errors:
			return "", err
		case <-tmo:
			return "", errors.New("no event")
		}
	}
	return "", nil
}

func confFake(dir string, ops []int) (string, error) {
	h := &fsnotify.Hooks{}
	fsnotify.SetH(h)
	w, err := fsnotify.NewWatcher()
	if err != nil {
		return "", err
	}
	defer w.Close()
	add := false
	have := map[string]bool{}
	put := func(n string, there bool) {
		f := filepath.Join(dir, n)
		switch {
		case there && !have[n]:
			h.Inject(f, fsnotify.Create)
		case there:
			h.Inject(f, fsnotify.Write)
		case have[n]:
			h.Inject(f, fsnotify.Remove)
		}
		have[n] = there
	}
	for _, o := range ops {
		switch o {
		case 0:
			if !add {
				err = w.Add(dir)
			}
			add = true
		case 1, 4:
			put("a", true)
		case 2:
			put("b", true)
		case 3:
			put("a", false)
		case 5:
			put("b", false)
		}
		if err != nil {
			return "", err
		}
	}
	put("last", true)
	var got []string
	for add {
		ev := <-w.Events
		if filepath.Base(ev.Name) == "last" {
			break
		}
		kind := "+"
		if ev.Op == fsnotify.Remove {
			kind = "-"
		}
		got = append(got, kind+filepath.Base(ev.Name))
	}
	return squash(got), nil
}

// squash merges the events of one change.
func squash(l []string) string {
	var out []string
	for _, e := range l {
		if n := len(out); n == 0 || out[n-1] != e {
			out = append(out, e)
		}
	}
	return strings.Join(out, " ")
}

func init() {
	mcx.RegisterSeq(&mcx.Seq{Prop: "C25", Name: "notify-conf", Run: func(s *mcx.SeqX) {
		tmp := os.Getenv("MC_TMP")
		if tmp == "" {
			tmp = os.TempDir()
		}
		root := filepath.Join(tmp, fmt.Sprintf("mcconf-%d", os.Getpid()))
		defer os.RemoveAll(root)
		depth := 3
		if s.Tier == "thorough" {
			depth = 4
		}
		var rec func(ops []int)
		rec = func(ops []int) {
			if s.Over() {
				return
			}
			if len(ops) < depth {
				for o := 0; o < confOps; o++ {
					rec(append(ops[:len(ops):len(ops)], o))
				}
				return
			}
			dir := filepath.Join(root, "d")
			_ = os.RemoveAll(root)
			if err := os.MkdirAll(dir, 0o755); err != nil {
				return
			}
			id := fmt.Sprint(ops)
			want, err := confReal(dir, ops)
			if err != nil {
				return // there are no notifications here
			}
			got, err := confFake(dir, ops)
			if err != nil || got != want {
				s.Failf(id, "the model of the file notifications is wrong: %v %s, want %s", err, got, want)
			}
			s.Case(want)
			s.State(want)
			s.Trans()
		}
		rec(nil)
	}})
}
