package dcs

import (
	"fmt"

	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/aperturerobotics/controllerbus/zz_verif/dct"
	"github.com/aperturerobotics/controllerbus/zz_verif/mcx"
)

// The reference model of a tree of resolvers with values and removal
// callbacks: every operation sequence up to a depth.

type tnode struct {
	s      *script
	parent int
	live   bool
	rel    func() // of a sub-resolver
	id     int
}

type tval struct {
	id   uint32
	v    int
	node int
	live bool
}

type tcb struct {
	id     int
	node   int // called when this node is removed, or
	val    int // when this value is removed
	rel    func()
	relsed bool
	want   int
}

type tree struct {
	x     *mcx.X
	e     *dct.Env
	nodes []*tnode
	vals  []*tval
	cbs   []*tcb
	rels  []func()
	di    directive.Instance
	log   []string
}

func (t *tree) fail(f string, a ...any) {
	t.x.Failf("operations %v: %s", t.log, fmt.Sprintf(f, a...))
}

func (t *tree) rmVal(k int) {
	if !t.vals[k].live {
		return
	}
	t.vals[k].live = false
	for _, c := range t.cbs {
		if c.val == k && !c.relsed {
			c.want, c.relsed = 1, true
		}
	}
}

func (t *tree) rmNode(k int) {
	if !t.nodes[k].live {
		return
	}
	t.nodes[k].live = false
	for i, v := range t.vals {
		if v.node == k {
			t.rmVal(i)
		}
	}
	for i, n := range t.nodes {
		if n.parent == k {
			t.rmNode(i)
		}
	}
	for _, c := range t.cbs {
		if c.node == k && !c.relsed {
			c.want, c.relsed = 1, true
		}
	}
}

func (t *tree) newCb(node, val int) (*tcb, func()) {
	c := &tcb{id: 1000 + len(t.cbs), node: node, val: val}
	t.cbs = append(t.cbs, c)
	dead := node >= 0 && !t.nodes[node].live || val >= 0 && !t.vals[val].live
	if dead {
		c.want, c.relsed = 1, true
	}
	return c, func() {
		t.x.Ev("tcb", c.id, 0, 0)
		t.e.C.GetDirectives() // no lock is held
	}
}

type top struct {
	name string
	n    func(t *tree) int // number of targets
	do   func(t *tree, k int)
}

// ends picks the first or last element.
func ends(k, n int) int {
	if k == 0 {
		return 0
	}
	return n - 1
}

func two(n int) int { return min(n, 2) }

var treeOps = []top{
	{"AddResolver", func(t *tree) int { return two(len(t.nodes)) }, func(t *tree, k int) {
		k = ends(k, len(t.nodes))
		n := &tnode{s: &script{}, parent: k, live: t.nodes[k].live, id: 10 + len(t.nodes)}
		c, fn := t.newCb(-1, -1)
		if !n.live {
			c.want, c.relsed = 1, true
		}
		c.node = len(t.nodes)
		t.nodes = append(t.nodes, n)
		n.rel = t.nodes[k].s.rh.Get().AddResolver(n.s.resolver(t.x, n.id), fn)
		if !n.live { // no resolver handler
			t.nodes = t.nodes[:len(t.nodes)-1]
			c.node = -1
			n.rel()
		}
	}},
	{"release sub-resolver", func(t *tree) int { return two(len(t.nodes) - 2) }, func(t *tree, k int) {
		k = 2 + ends(k, len(t.nodes)-2)
		t.rmNode(k)
		t.nodes[k].rel()
	}},
	{"AddValue", func(t *tree) int { return two(len(t.nodes)) }, func(t *tree, k int) {
		k = ends(k, len(t.nodes))
		v := 100 + len(t.vals)
		id, ok := t.nodes[k].s.rh.Get().AddValue(v)
		if ok != t.nodes[k].live {
			t.fail("AddValue accepted=%v of a resolver which is live=%v", ok, t.nodes[k].live)
		}
		if ok {
			t.vals = append(t.vals, &tval{id: id, v: v, node: k, live: true})
		}
	}},
	{"RemoveValue", func(t *tree) int { return two(len(t.vals)) }, func(t *tree, k int) {
		k = ends(k, len(t.vals))
		v := t.vals[k]
		was := v.live
		t.rmVal(k)
		if _, ok := t.nodes[v.node].s.rh.Get().RemoveValue(v.id); ok != was {
			t.fail("RemoveValue found=%v want %v", ok, was)
		}
	}},
	{"AddValueRemovedCallback", func(t *tree) int { return two(len(t.vals)) }, func(t *tree, k int) {
		k = ends(k, len(t.vals))
		c, fn := t.newCb(-1, k)
		c.rel = t.nodes[t.vals[k].node].s.rh.Get().AddValueRemovedCallback(t.vals[k].id, fn)
	}},
	{"AddResolverRemovedCallback", func(t *tree) int { return two(len(t.nodes)) }, func(t *tree, k int) {
		k = ends(k, len(t.nodes))
		c, fn := t.newCb(k, -1)
		c.rel = t.nodes[k].s.rh.Get().AddResolverRemovedCallback(fn)
	}},
	{"release callback", func(t *tree) int { return two(t.nrel()) }, func(t *tree, k int) {
		k = ends(k, t.nrel())
		for _, c := range t.cbs {
			if c.rel == nil {
				continue
			}
			if k == 0 {
				c.relsed = true
				c.rel()
				c.rel()
				return
			}
			k--
		}
	}},
	{"remove handler", func(t *tree) int { return 1 }, func(t *tree, k int) {
		t.rmNode(0)
		t.rels[0]()
	}},
	{"Close", func(t *tree) int { return 1 }, func(t *tree, k int) {
		t.rmNode(0)
		t.rmNode(1)
		t.di.Close()
	}},
}

func (t *tree) nrel() (n int) {
	for _, c := range t.cbs {
		if c.rel != nil {
			n++
		}
	}
	return
}

func (t *tree) check() {
	t.x.Wait()
	for _, c := range t.cbs {
		if n := dct.Count(t.x, "tcb", c.id, -1); n != c.want {
			t.fail("removed callback of resolver %d / value %d was called %d times, want %d", c.node, c.val, n, c.want)
		}
	}
	for i, n := range t.nodes {
		k := 0
		if n.live {
			k = 1
		}
		if r := running(t.x, n.id); r != k {
			t.fail("resolver %d runs %d times, want %d", i, r, k)
		}
	}
	var want []int
	for _, v := range t.vals {
		if v.live {
			want = append(want, v.v)
		}
	}
	if got := dct.CheckRef(t.x, 0).Vals(); !dct.Eq(got, want) {
		t.fail("values %v, want %v", got, want)
	}
}

func runTree(x *mcx.X, depth int) {
	t := &tree{x: x, e: dct.New(x)}
	for i := 0; i < 2; i++ {
		n := &tnode{s: &script{}, parent: -1, live: true, id: i}
		t.nodes = append(t.nodes, n)
		rel, err := t.e.C.AddHandler(&dct.H{X: x, ID: i, Func: func(ctxT, directive.Instance) ([]directive.Resolver, error) {
			return directive.R(n.s.resolver(x, i), nil)
		}})
		must(x, err)
		t.rels = append(t.rels, rel)
	}
	t.di, _, _ = t.e.C.AddDirective(&dct.Dir{ID: 0, Class: 1}, &dct.Ref{X: x, ID: 0})
	t.check()
	// start with one value of the first resolver
	treeOps[2].do(t, 0)
	for d := 0; d < depth && !x.Failed(); d++ {
		type pick struct{ op, k int }
		var av []pick
		for i, o := range treeOps {
			for k := 0; k < o.n(t); k++ {
				av = append(av, pick{i, k})
			}
		}
		p := av[x.Choose(len(av))]
		t.log = append(t.log, fmt.Sprintf("%s#%d", treeOps[p.op].name, p.k))
		treeOps[p.op].do(t, p.k)
		t.check()
	}
	t.log = append(t.log, "final Close")
	treeOps[8].do(t, 0)
	t.check()
	finish(x, t.e)
}

func init() {
	for _, prop := range []string{"C04", "C05"} {
		mcx.Register(&mcx.Scenario{Prop: prop, Name: "model-tree", EnvOnly: true, NoPrune: true, NoRace: true, Weight: 4, Body: func(x *mcx.X) {
			d := 5
			if mcx.Thorough() {
				d = 7
			}
			runTree(x, d)
		}})
	}
}
