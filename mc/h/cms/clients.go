package cms

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// item is a config in a set of a client.
type item struct {
	key  string
	rev  uint64
	addr int
}

var sets = [][]item{
	{{"k", 1, 1}},
	{{"k", 2, 2}, {"m", 0, 3}},
	{{"k", 1, 1}, {"m", 0, 3}},
}

// client is a client which may run.
type client struct {
	i    int
	proc *proc
	lib  bool
}

func (c *client) has(key string) bool {
	for _, it := range sets[c.i] {
		if it.key == key {
			return true
		}
	}
	return false
}

// ends waits for the command to end.
func (c *client) ends() error {
	for end := time.Now().Add(settleTime); ; time.Sleep(5 * time.Millisecond) {
		if c.lib && strings.HasSuffix(c.proc.output(), "returned\n") {
			return nil
		}
		select {
		case <-c.proc.done:
			return nil
		default:
		}
		if time.Now().After(end) {
			return errors.New("exec does not end when the daemon was killed")
		}
	}
}

// clientSeq lets three clients come and go in all orders, and the
// daemon be killed and started again.
func clientSeq(s *mcx.SeqX) {
	depth := 4
	if s.Tier == "thorough" {
		depth = 5
	}
	var cases []string
	var gen func(pre string, n int)
	gen = func(pre string, n int) {
		if n == 0 {
			cases = append(cases, pre)
			return
		}
		for c := 0; c <= len(sets); c++ {
			if c == len(sets) && (pre == "" || strings.HasSuffix(pre, fmt.Sprint(c))) {
				continue
			}
			gen(pre+fmt.Sprint(c), n-1)
		}
	}
	gen("", depth)
	parallel(s, 6, cases, clientCase)
}

func clientCase(p *place, c string) error {
	conf := p.file("conf.yaml")
	if err := os.WriteFile(conf, []byte(p.api("d", 0, 4)), 0o644); err != nil {
		return err
	}
	var setFile []string
	for i, set := range sets {
		t := ""
		for _, it := range set {
			t += p.api(it.key, it.rev, it.addr)
		}
		setFile = append(setFile, p.file(fmt.Sprint("set", i)))
		if err := os.WriteFile(setFile[i], []byte(t), 0o644); err != nil {
			return err
		}
	}
	d, err := p.start(p.daemon(conf))
	if err != nil {
		return err
	}
	defer d.stop(syscall.SIGKILL)
	if err := p.expect(d, want{Up: "4"}); err != nil {
		return err
	}
	best := map[string]item{}
	up := make([]*client, len(sets))
	var all []*proc
	defer func() {
		for _, c := range all {
			c.stop(syscall.SIGKILL)
		}
	}()
	for n, r := range c {
		i := int(r - '0')
		if i == len(sets) {
			// the daemon is killed: its clients end
			d.stop(syscall.SIGKILL)
			for j, cl := range up {
				if cl == nil {
					continue
				}
				if err := cl.ends(); err != nil {
					return fmt.Errorf("step %d: %v", n+1, err)
				}
				up[j] = nil
			}
			if d, err = p.start(p.daemon(conf)); err != nil {
				return err
			}
			all = append(all, d)
		} else if cl := up[i]; cl == nil {
			cl = &client{i: i, lib: i == 2}
			j := childJob{Args: []string{"client", "--dial-addr", p.addr(0), "exec", "--config-set-file", setFile[i]}}
			if cl.lib {
				j = childJob{Lib: true, Args: []string{p.addr(0), setFile[i]}}
			}
			if cl.proc, err = p.start(j); err != nil {
				return err
			}
			all = append(all, cl.proc)
			up[i] = cl
		} else {
			up[i] = nil
			switch {
			case cl.lib:
				_, _ = cl.proc.in.Write([]byte("\n"))
				end := time.Now().Add(settleTime)
				for !strings.HasSuffix(cl.proc.output(), "returned\n") {
					select {
					case <-cl.proc.done:
						return fmt.Errorf("exec returns an error when its context is canceled: %s", cl.proc.output())
					case <-time.After(5 * time.Millisecond):
					}
					if time.Now().After(end) {
						return errors.New("exec does not return when its context is canceled")
					}
				}
			case i == 0:
				cl.proc.stop(syscall.SIGKILL)
			default:
				cl.proc.stop(syscall.SIGTERM)
			}
		}
		// the newest applied while a key is held
		for k := range best {
			held := false
			for _, cl := range up {
				held = held || cl != nil && cl.has(k)
			}
			if !held {
				delete(best, k)
			}
		}
		if i < len(up) && up[i] != nil {
			for _, it := range sets[i] {
				if b, ok := best[it.key]; !ok || it.rev > b.rev {
					best[it.key] = it
				}
			}
		}
		w := want{}
		for a := 1; a < nAddr; a++ {
			for _, it := range best {
				if it.addr == a {
					w.Up += fmt.Sprint(a)
				}
			}
		}
		w.Up += "4"
		if err := p.expect(d, w); err != nil {
			return fmt.Errorf("step %d: %v", n+1, err)
		}
		for _, cl := range up {
			if cl == nil {
				continue
			}
			if err := cl.statuses(); err != nil {
				return fmt.Errorf("step %d: %v", n+1, err)
			}
		}
	}
	return nil
}

// statuses checks what a client has printed: each of its configs runs.
func (c *client) statuses() error {
	end := time.Now().Add(settleTime)
	for {
		select {
		case <-c.proc.done:
			return fmt.Errorf("client %d ends: %s", c.i, c.proc.output())
		default:
		}
		last := map[string]string{}
		out := c.proc.output()
		for _, l := range strings.SplitAfter(out, "\n") {
			if !strings.HasSuffix(l, "\n") {
				continue
			}
			var r struct{ Id, Status string }
			if err := json.Unmarshal([]byte(l), &r); err != nil {
				return fmt.Errorf("client %d prints %q", c.i, l)
			}
			last[r.Id] = r.Status
		}
		ok := len(last) == len(sets[c.i])
		for _, it := range sets[c.i] {
			ok = ok && last[it.key] == "ControllerStatus_RUNNING"
		}
		if ok {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("client %d does not print that its controllers run: %s", c.i, out)
		}
		time.Sleep(20 * time.Millisecond)
	}
}
