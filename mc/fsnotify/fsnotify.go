// Package fsnotify stands in for github.com/fsnotify/fsnotify: the kernel's
// queue is replaced by one which the harness fills.  As with inotify, what
// happens in a directory after Add returned is queued until it is received
// from Events, in order, and nothing else is.
package fsnotify

import (
	"errors"
	"path/filepath"
	"strings"
	"sync"
)

var (
	ErrNonExistentWatch = errors.New("fsnotify: can't remove non-existent watch")
	ErrClosed           = errors.New("fsnotify: watcher already closed")
	ErrEventOverflow    = errors.New("fsnotify: queue or buffer overflow")
	ErrUnsupported      = errors.New("fsnotify: not supported with this backend")
)

// Op describes a set of file operations.
type Op uint32

const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
)

func (o Op) String() string {
	var b []string
	for i, n := range []string{"CREATE", "WRITE", "REMOVE", "RENAME", "CHMOD"} {
		if o&(1<<i) != 0 {
			b = append(b, n)
		}
	}
	if len(b) == 0 {
		return "[no events]"
	}
	return strings.Join(b, "|")
}
func (o Op) Has(h Op) bool { return o&h != 0 }

// Event represents a file system notification.
type Event struct {
	Name string
	Op   Op
}

func (e Event) Has(op Op) bool { return e.Op.Has(op) }
func (e Event) String() string { return e.Op.String() + " " + e.Name }

// Watcher watches a set of paths.
type Watcher struct {
	Events chan Event
	Errors chan error

	mtx    sync.Mutex
	dirs   map[string]bool
	queue  []Event
	closed bool
	wake   chan struct{}
	done   chan struct{}
	gone   chan struct{}
}

// Hooks of the harness.
type Hooks struct {
	// New and Add may fail the call.
	New func() error
	Add func(dir string) error
	mtx sync.Mutex
	all []*Watcher
}

var theHooks *Hooks

// SetH sets the hooks for an execution.
//
//go:norace
func SetH(h *Hooks) { theHooks = h }

//go:norace
func getH() *Hooks { return theHooks }

func NewWatcher() (*Watcher, error) { return NewBufferedWatcher(0) }

func NewBufferedWatcher(sz uint) (*Watcher, error) {
	H := getH()
	if H == nil {
		return nil, errors.New("fsnotify: no harness")
	}
	if H.New != nil {
		if err := H.New(); err != nil {
			return nil, err
		}
	}
	w := &Watcher{
		Events: make(chan Event, sz), Errors: make(chan error),
		dirs: map[string]bool{}, wake: make(chan struct{}, 1), done: make(chan struct{}), gone: make(chan struct{}),
	}
	H.mtx.Lock()
	H.all = append(H.all, w)
	H.mtx.Unlock()
	go w.pump()
	return w, nil
}

func (w *Watcher) pump() {
	defer func() {
		close(w.gone)
		close(w.Errors)
		close(w.Events)
	}()
	for {
		w.mtx.Lock()
		var ev Event
		n := len(w.queue)
		if n != 0 {
			ev = w.queue[0]
			w.queue = w.queue[1:]
		}
		w.mtx.Unlock()
		if n == 0 {
			select {
			case <-w.wake:
			case <-w.done:
				return
			}
			continue
		}
		select {
		case w.Events <- ev:
		case <-w.done:
			return
		}
	}
}

func (w *Watcher) Add(path string) error {
	path = filepath.Clean(path)
	if H := getH(); H.Add != nil {
		if err := H.Add(path); err != nil {
			return err
		}
	}
	w.mtx.Lock()
	defer w.mtx.Unlock()
	if w.closed {
		return ErrClosed
	}
	w.dirs[path] = true
	return nil
}

func (w *Watcher) Remove(path string) error {
	path = filepath.Clean(path)
	w.mtx.Lock()
	defer w.mtx.Unlock()
	if w.closed {
		return nil
	}
	if !w.dirs[path] {
		return ErrNonExistentWatch
	}
	delete(w.dirs, path)
	return nil
}

func (w *Watcher) WatchList() (l []string) {
	w.mtx.Lock()
	defer w.mtx.Unlock()
	for d := range w.dirs {
		l = append(l, d)
	}
	return
}

func (w *Watcher) Close() error {
	w.mtx.Lock()
	was := w.closed
	w.closed = true
	w.mtx.Unlock()
	if !was {
		close(w.done)
		<-w.gone
	}
	return nil
}

// Inject queues what happened to a file.
func (h *Hooks) Inject(name string, ops ...Op) {
	h.mtx.Lock()
	all := append([]*Watcher(nil), h.all...)
	h.mtx.Unlock()
	for _, w := range all {
		w.mtx.Lock()
		if !w.closed && w.dirs[filepath.Dir(name)] {
			for _, op := range ops {
				w.queue = append(w.queue, Event{Name: name, Op: op})
			}
			select {
			case w.wake <- struct{}{}:
			default:
			}
		}
		w.mtx.Unlock()
	}
}

// Open counts the watchers which are not closed.
func (h *Hooks) Open() (n int) {
	h.mtx.Lock()
	defer h.mtx.Unlock()
	for _, w := range h.all {
		w.mtx.Lock()
		if !w.closed {
			n++
		}
		w.mtx.Unlock()
	}
	return
}

// Fail reports an error on every watcher.
func (h *Hooks) Fail(err error) {
	h.mtx.Lock()
	all := append([]*Watcher(nil), h.all...)
	h.mtx.Unlock()
	for _, w := range all {
		select {
		case w.Errors <- err:
		case <-w.done:
		}
	}
}
