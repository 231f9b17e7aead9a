// Package mcx is the systematic exploration engine: it enumerates every
// schedule (and harness choice) of a scenario, in order of the number of
// deviations from the default schedule, pruning executions whose
// happens-before fingerprint was already expanded.
package mcx

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
	"vsched"
)

// Ev is one observed event of an execution.
type Ev struct {
	K       string
	A, B, C int
	G       int
}

func (e Ev) String() string { return fmt.Sprintf("g%d %s(%d,%d,%d)", e.G, e.K, e.A, e.B, e.C) }

const maxEv = 4096

// X is the context of one execution of a scenario.
type X struct {
	n      int
	evs    [maxEv]Ev
	failed bool
	msg    string
	key    string
	covers [64]uint64
	obj    [64]byte
}

// Ev records an event; all events are totally ordered.
//
//go:norace
func (x *X) Ev(k string, a, b, c int) {
	vsched.Note(unsafe.Pointer(&x.obj[0]), true, uint64(a)*31+uint64(b)*7+uint64(c)+uint64(len(k)))
	if x.n < maxEv {
		x.evs[x.n] = Ev{K: k, A: a, B: b, C: c, G: vsched.GID()}
		x.n++
	}
}

// Events returns a copy of the events so far.
//
//go:norace
func (x *X) Events() []Ev {
	vsched.Note(unsafe.Pointer(&x.obj[0]), false, 0)
	out := make([]Ev, x.n)
	for i := 0; i < x.n; i++ {
		out[i] = x.evs[i]
	}
	return out
}

// N is the number of events so far.
//
//go:norace
func (x *X) N() int {
	vsched.Note(unsafe.Pointer(&x.obj[0]), false, 0)
	return x.n
}

// Failf records a violation (the first one wins).
//
//go:norace
func (x *X) Failf(f string, args ...any) { x.Fail("", fmt.Sprintf(f, args...)) }

// Fail records a violation under a stable key (for known findings).
//
//go:norace
func (x *X) Fail(key, msg string) {
	vsched.Note(unsafe.Pointer(&x.obj[1]), true, 1)
	if !x.failed {
		x.failed, x.msg, x.key = true, msg, key
	}
}

//go:norace
func (x *X) Failed() bool { return x.failed }

// Choose is a harness choice among n alternatives, all explored.
func (x *X) Choose(n int) int { return vsched.Choose(n) }

// Point is an explicit scheduling point.
func (x *X) Point() { vsched.Point(unsafe.Pointer(&x.obj[2]), true) }

// Wait blocks until all other goroutines are durably blocked.
func (x *X) Wait() { vsched.Wait() }

// Calm turns the enumeration of schedules off: the default schedule is used
// (set-up and tear-down). Harness choices are still enumerated.
func (x *X) Calm() { vsched.Quiet(true) }

// Loud turns it on again.
func (x *X) Loud() { vsched.Quiet(false) }

// Int is a harness variable that may be shared without synchronisation.
type Int struct{ v int }

//go:norace
func (i *Int) Get() int { vsched.Note(unsafe.Pointer(i), false, 0); return i.v }

//go:norace
func (i *Int) Set(v int) { vsched.Note(unsafe.Pointer(i), true, uint64(v)); i.v = v }

//go:norace
func (i *Int) Add(v int) int {
	vsched.Note(unsafe.Pointer(i), true, uint64(v))
	i.v += v
	return i.v
}

// Box is a shared harness variable of any type; what it hands over is
// synchronised, as it would be in a program.
type Box[T any] struct{ p atomic.Pointer[T] }

func (b *Box[T]) Get() (v T) {
	vsched.Note(unsafe.Pointer(b), false, 0)
	if p := b.p.Load(); p != nil {
		v = *p
	}
	return
}

func (b *Box[T]) Set(v T) {
	vsched.Note(unsafe.Pointer(b), true, 1)
	b.p.Store(&v)
}

// Scenario is a closed program whose executions are enumerated.
type Scenario struct {
	Prop     string
	Name     string
	Body     func(x *X)
	MapOrder bool   // iteration order of small maps is a choice
	MaxSteps uint64 // scheduling points after which the execution counts as a livelock
	NoPrune  bool   // disable happens-before pruning
	NoRace   bool   // do not run under the race detector
	RaceOnly bool
	Weight   int  // relative share of the time budget (default 1)
	Bound    int  // maximum number of deviations (0 = tier default)
	EnvOnly  bool // enumerate the harness choices only, under the default schedule
	// AllowLeak: goroutines may remain blocked when the body returns.
	AllowLeak bool
	Setup     func()
	// Core: schedules are enumerated from the start of the concurrent part
	// (Par) until everything has settled after it; the default schedule is used
	// before and after.
	Core bool
}

var core bool

// ParBegin and ParEnd delimit the concurrent part of a Core scenario.
func ParBegin() {
	if core {
		vsched.Quiet(false)
	}
}

func ParEnd() {
	if core {
		vsched.Wait()
		vsched.Quiet(true)
	}
}

var registry []*Scenario

// Register adds a scenario.
func Register(s *Scenario) {
	if s.MaxSteps == 0 {
		s.MaxSteps = 20000
	}
	if s.Weight == 0 {
		s.Weight = 1
	}
	registry = append(registry, s)
}

// SeqResult is the outcome of an exhaustive enumeration of sequential cases.
type Seq struct {
	Prop string
	Name string
	// Run enumerates; it reports through s.
	Run func(s *SeqX)
}

var seqs []*Seq

func RegisterSeq(s *Seq) { seqs = append(seqs, s) }

// SeqX is the context of an enumeration.
type SeqX struct {
	Tier     string
	Deadline time.Time
	Evals    uint64
	Distinct map[string]struct{}
	Samples  []string
	Trunc    bool
	viol     []violation
	Only     string // replay: only this case
	states   map[string]struct{}
	trans    uint64
}

// Case counts one evaluated case; sig identifies its behaviour class.
func (s *SeqX) Case(sig string) {
	s.Evals++
	if s.Evals%1024 == 0 {
		vsched.Watchdog()
	}
	if len(s.Distinct) < 2000000 {
		s.Distinct[sig] = struct{}{}
	}
}

// State counts a distinct model state, Trans a transition.
func (s *SeqX) State(k string) bool {
	if _, ok := s.states[k]; ok {
		return false
	}
	s.states[k] = struct{}{}
	return true
}
func (s *SeqX) Trans() { s.trans++ }

func (s *SeqX) Sample(f string, a ...any) {
	if len(s.Samples) < 5 {
		s.Samples = append(s.Samples, fmt.Sprintf(f, a...))
	}
}

// Over reports whether the time budget is used up.
func (s *SeqX) Over() bool {
	if s.Evals&63 == 0 && time.Now().After(s.Deadline) {
		s.Trunc = true
	}
	return s.Trunc
}

// Failf records a violation on the given case.
func (s *SeqX) Failf(caseID, f string, a ...any) {
	if len(s.viol) < 20 {
		s.viol = append(s.viol, violation{Msg: fmt.Sprintf(f, a...), Case: caseID})
	}
}

func (s *SeqX) FailKey(key, caseID, f string, a ...any) {
	if len(s.viol) < 20 {
		s.viol = append(s.viol, violation{Key: key, Msg: fmt.Sprintf(f, a...), Case: caseID})
	}
}

type violation struct {
	Key   string      `json:"key"`
	Msg   string      `json:"msg"`
	Case  string      `json:"case,omitempty"`
	Devs  [][2]uint32 `json:"devs,omitempty"`
	Trace []string    `json:"trace,omitempty"`
	Evs   []string    `json:"events,omitempty"`
	Kind  string      `json:"kind,omitempty"`
	Stack string      `json:"stack,omitempty"`
}

// Report is what one scenario run prints as JSON.
type Report struct {
	Prop       string      `json:"prop"`
	Scenario   string      `json:"scenario"`
	Race       bool        `json:"race"`
	Seq        bool        `json:"seq"`
	Executions uint64      `json:"executions"`
	States     uint64      `json:"states"`
	Steps      uint64      `json:"steps"`
	Choices    uint64      `json:"choice_points"`
	MaxGos     int         `json:"max_goroutines"`
	Bound      int         `json:"bound_completed"`
	Full       bool        `json:"full"`
	Diverged   uint64      `json:"diverged"`
	Repeats    uint64      `json:"repeats"`
	Outcomes   int         `json:"distinct_outcomes"`
	Samples    []string    `json:"samples"`
	Evals      uint64      `json:"evaluations"`
	Distinct   uint64      `json:"distinct"`
	WallS      float64     `json:"wall_s"`
	Viol       []violation `json:"violations"`
	Truncated  bool        `json:"truncated"`
	Fatal      bool        `json:"fatal"` // process cannot continue after this report
	PerBound   []uint64    `json:"executions_per_bound"`
}

type node struct {
	parent *node
	pos    uint32
	choice uint32
	depth  int
}

func (n *node) devs(buf []vsched.Dev) []vsched.Dev {
	k := n.depth
	buf = buf[:k]
	for n.parent != nil {
		k--
		buf[k] = vsched.Dev{Pos: n.pos, Choice: n.choice}
		n = n.parent
	}
	return buf
}

var watch = []string{
	"-github.com/aperturerobotics/controllerbus/zz_verif/",
	"github.com/aperturerobotics/controllerbus/",
	"github.com/aperturerobotics/util/",
}

var theX = &X{}

type outcome struct {
	res  vsched.Result
	x    *X
	viol *violation
}

// The execution context is handed over outside of the race detector's sight:
// the bubble's end synchronises with the explorer.
//
//go:norace
func runOnce(s *Scenario, devs []vsched.Dev, buf []vsched.Rec) (o outcome) {
	x := theX
	x.n, x.failed, x.msg, x.key = 0, false, "", ""
	o.x = x
	o.res = vsched.Run(devs, buf, s.MaxSteps, func() {
		if s.Core {
			vsched.Quiet(true)
		}
		s.Body(x)
	})
	r := &o.res
	fail := func(kind, key, msg string) {
		if o.viol == nil {
			o.viol = &violation{Kind: kind, Key: key, Msg: msg}
		}
	}
	switch {
	case x.failed:
		fail("assert", x.key, x.msg)
	case r.Reason == vsched.Deadlock:
		fail("deadlock", "", "deadlock: no goroutine can make progress (blocked on a mutex or similar)")
	case r.Reason == vsched.StepLimit:
		fail("livelock", "", fmt.Sprintf("no termination within %d scheduling points", s.MaxSteps))
	case r.Reason == vsched.TooLong:
		fail("livelock", "", "too many choice points in one execution")
	case r.Panic != nil:
		m := fmt.Sprint(r.Panic)
		if !(s.AllowLeak && strings.Contains(m, "main bubble goroutine has exited")) {
			fail("blocked", "", m)
		}
	}
	if o.viol == nil && r.Races > 0 {
		fail("race", "", fmt.Sprintf("%d data race(s) reported by the race detector", r.Races))
	}
	if o.viol != nil {
		o.viol.Stack = string(r.Stack)
	}
	return o
}

// Options of a run.
type Options struct {
	Tier   string
	Budget time.Duration
	Shard  int
	Shards int
	Bound  int // 0: unlimited
	Known  map[string]bool
	MaxVis int
}

func gcEvery(n uint64) {
	if n%256 == 0 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 768<<20 {
			vsched.Collect()
		}
	}
}

func outcomeSig(x *X) string {
	// order-insensitive summary of the execution's events
	m := make([]string, 0, x.n)
	for _, e := range x.evs[:x.n] {
		m = append(m, fmt.Sprintf("%s/%d/%d/%d", e.K, e.A, e.B, e.C))
	}
	sort.Strings(m)
	return strings.Join(m, " ")
}

func traceStrings(tr []vsched.Rec) []string {
	var out []string
	fn := func(pc uintptr) string {
		if pc == 0 {
			return "-"
		}
		fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
		name := fr.Function
		if i := strings.LastIndex(name, "/"); i >= 0 {
			name = name[i+1:]
		}
		file := fr.File
		if i := strings.LastIndex(file, "/"); i >= 0 {
			file = file[i+1:]
		}
		return fmt.Sprintf("%s %s:%d", name, file, fr.Line)
	}
	kinds := []string{"", "preempt?", "next", "select", "maporder", "env"}
	for i, r := range tr {
		mark := " "
		if r.Choice != 0 {
			mark = "*"
		}
		out = append(out, fmt.Sprintf("%s%3d %-8s g%d at %s -> %d/%d g%d (started at %s)", mark, i, kinds[r.Kind], r.GID, fn(r.PC), r.Choice, r.N, r.To, fn(r.GoPC)))
	}
	return out
}

//go:norace
func explore(s *Scenario, opt Options) *Report {
	rep := &Report{Prop: s.Prop, Scenario: s.Name, Race: vsched.RaceEnabled, Bound: -1}
	start := time.Now()
	deadline := start.Add(opt.Budget)
	vsched.GCOff()
	vsched.Config(watch, s.MapOrder)
	core = s.Core
	if s.Setup != nil {
		s.Setup()
	}
	buf := make([]vsched.Rec, 1<<15)
	dbuf := make([]vsched.Dev, 4096)
	// warm-up execution: global lazily initialised state
	record := func(o *outcome, devs []vsched.Dev) {
		v := o.viol
		for _, d := range devs {
			v.Devs = append(v.Devs, [2]uint32{d.Pos, d.Choice})
		}
		v.Trace = traceStrings(o.res.Trace)
		if len(v.Trace) > 4000 {
			v.Trace = v.Trace[:4000]
		}
		for _, e := range o.x.Events() {
			v.Evs = append(v.Evs, e.String())
		}
		if len(v.Stack) > 60000 {
			v.Stack = v.Stack[:60000]
		}
		rep.Viol = append(rep.Viol, *v)
		if o.res.Reason != vsched.Finished {
			rep.Fatal = true
		}
	}
	if o := runOnce(s, nil, buf); o.viol != nil && o.res.Reason != vsched.Finished {
		record(&o, nil)
		return rep
	}
	vsched.Collect()
	visited := make(map[uint64]uint32)
	outcomes := make(map[string]struct{})
	buckets := [][]*node{{&node{}}}
	bound := s.Bound
	if opt.Bound > 0 && (bound == 0 || opt.Bound < bound) {
		bound = opt.Bound
	}
	maxVis := opt.MaxVis
	if maxVis == 0 {
		maxVis = 12_000_000
	}
	known := map[string]bool{}
	isKnown := func(v *violation) bool { return v.Key != "" && opt.Known[v.Key] }
	sharded := 0
loop:
	for cost := 0; cost < len(buckets); cost++ {
		var execs uint64
		for qi := 0; qi < len(buckets[cost]); qi++ {
			n := buckets[cost][qi]
			buckets[cost][qi] = nil
			if rep.Executions > 0 && time.Now().After(deadline) {
				rep.Truncated = true
				break loop
			}
			devs := n.devs(dbuf)
			o := runOnce(s, devs, buf)
			rep.Executions++
			execs++
			rep.Steps += o.res.Steps
			rep.Choices += uint64(len(o.res.Trace))
			if o.res.Gos > rep.MaxGos {
				rep.MaxGos = o.res.Gos
			}
			if o.viol != nil {
				if isKnown(o.viol) {
					if !known[o.viol.Key] {
						known[o.viol.Key] = true
						record(&o, devs)
					}
				} else {
					record(&o, devs)
					break loop
				}
			}
			if len(outcomes) < 20000 {
				sig := outcomeSig(o.x)
				if _, ok := outcomes[sig]; !ok {
					outcomes[sig] = struct{}{}
					if len(rep.Samples) < 3 {
						rep.Samples = append(rep.Samples, sampleOf(devs, &o))
					}
				}
			}
			if o.res.Diverged != 0 {
				rep.Diverged++
				continue
			}
			st := 0
			if len(devs) > 0 {
				st = int(devs[len(devs)-1].Pos) + 1
			}
			for i := st; i < len(o.res.Trace); i++ {
				r := &o.res.Trace[i]
				if !s.NoPrune {
					if by, ok := visited[r.Key]; ok {
						if by == uint32(rep.Executions) {
							// nothing happened since an earlier point of this execution
							rep.Repeats++
							continue
						}
						break
					}
					if len(visited) < maxVis {
						visited[r.Key] = uint32(rep.Executions)
					}
				} else {
					rep.States++
				}
				c := cost + 1
				if r.Kind == vsched.KindEnv {
					c = cost
				}
				if (bound > 0 || s.EnvOnly) && c > bound {
					rep.Truncated = rep.Truncated || false
					continue
				}
				for k := 1; k < int(r.N); k++ {
					if n.depth == 0 && opt.Shards > 1 {
						sharded++
						if sharded%opt.Shards != opt.Shard {
							continue
						}
					}
					for len(buckets) <= c {
						buckets = append(buckets, nil)
					}
					if n.depth+1 < len(dbuf) {
						buckets[c] = append(buckets[c], &node{parent: n, pos: uint32(i), choice: uint32(k), depth: n.depth + 1})
					}
				}
			}
			gcEvery(rep.Executions)
		}
		rep.PerBound = append(rep.PerBound, execs)
		buckets[cost] = nil
		rep.Bound = cost
	}
	if !s.NoPrune {
		rep.States = uint64(len(visited))
	}
	rep.Full = !rep.Truncated && len(rep.Viol) == 0 && (s.EnvOnly || bound == 0 || rep.Bound < bound)
	rep.Outcomes = len(outcomes)
	rep.WallS = time.Since(start).Seconds()
	return rep
}

func sampleOf(devs []vsched.Dev, o *outcome) string {
	var b strings.Builder
	fmt.Fprintf(&b, "deviations=%v choice_points=%d events:", devs, len(o.res.Trace))
	evs := o.x.Events()
	for i, e := range evs {
		if i == 40 {
			b.WriteString(" ...")
			break
		}
		b.WriteString(" " + e.String())
	}
	return b.String()
}

func runSeq(q *Seq, opt Options, only string) *Report {
	rep := &Report{Prop: q.Prop, Scenario: q.Name, Race: vsched.RaceEnabled, Seq: true}
	start := time.Now()
	s := &SeqX{Tier: opt.Tier, Deadline: start.Add(opt.Budget), Distinct: map[string]struct{}{}, Only: only, states: map[string]struct{}{}}
	q.Run(s)
	rep.Evals = s.Evals
	rep.Executions = s.Evals
	rep.Distinct = uint64(len(s.Distinct))
	rep.States = uint64(len(s.states))
	rep.Steps = s.trans
	rep.Samples = s.Samples
	rep.Truncated = s.Trunc
	rep.Full = !s.Trunc
	rep.Viol = s.viol
	rep.WallS = time.Since(start).Seconds()
	return rep
}

// Main is the entry point of the harness binary:
//
//	mc list
//	mc run PROP SCENARIO   (environment: MC_TIER MC_BUDGET MC_SHARD MC_SHARDS MC_BOUND MC_KNOWN)
//	mc replay PROP SCENARIO FILE
func Main() {
	runtime.GOMAXPROCS(1)
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: mc list|run|replay")
		os.Exit(2)
	}
	opt := Options{Tier: os.Getenv("MC_TIER"), Budget: 10 * time.Second, Shards: 1, Known: map[string]bool{}}
	if v, err := time.ParseDuration(os.Getenv("MC_BUDGET")); err == nil {
		opt.Budget = v
	}
	fmt.Sscan(os.Getenv("MC_SHARD"), &opt.Shard)
	fmt.Sscan(os.Getenv("MC_SHARDS"), &opt.Shards)
	fmt.Sscan(os.Getenv("MC_BOUND"), &opt.Bound)
	fmt.Sscan(os.Getenv("MC_MAXVIS"), &opt.MaxVis)
	for _, k := range strings.Fields(os.Getenv("MC_KNOWN")) {
		opt.Known[k] = true
	}
	switch args[0] {
	case "list":
		type item struct {
			Prop, Name string
			Seq        bool
			NoRace     bool
			RaceOnly   bool
			Weight     int
		}
		var out []item
		for _, s := range registry {
			out = append(out, item{s.Prop, s.Name, false, s.NoRace, s.RaceOnly, s.Weight})
		}
		for _, s := range seqs {
			out = append(out, item{s.Prop, s.Name, true, true, false, 1})
		}
		json.NewEncoder(os.Stdout).Encode(out)
	case "run":
		for _, s := range registry {
			if s.Prop == args[1] && s.Name == args[2] {
				emit(explore(s, opt))
				return
			}
		}
		for _, s := range seqs {
			if s.Prop == args[1] && s.Name == args[2] {
				emit(runSeq(s, opt, ""))
				return
			}
		}
		fmt.Fprintln(os.Stderr, "no such scenario")
		os.Exit(2)
	case "replay":
		b, err := os.ReadFile(args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, s := range registry {
			if s.Prop == args[1] && s.Name == args[2] {
				emit(replay(s, v))
				return
			}
		}
		for _, s := range seqs {
			if s.Prop == args[1] && s.Name == args[2] {
				rep := runSeq(s, opt, v.Case)
				emit(rep)
				return
			}
		}
		fmt.Fprintln(os.Stderr, "no such scenario")
		os.Exit(2)
	}
}

//go:norace
func replay(s *Scenario, v violation) *Report {
	rep := &Report{Prop: s.Prop, Scenario: s.Name, Race: vsched.RaceEnabled}
	vsched.GCOff()
	vsched.Config(watch, s.MapOrder)
	core = s.Core
	if s.Setup != nil {
		s.Setup()
	}
	buf := make([]vsched.Rec, 1<<15)
	runOnce(s, nil, buf)
	var devs []vsched.Dev
	for _, d := range v.Devs {
		devs = append(devs, vsched.Dev{Pos: d[0], Choice: d[1]})
	}
	// the first runs initialise global state which is initialised lazily
	var o outcome
	for rep.Executions < 3 && o.viol == nil {
		o = runOnce(s, devs, buf)
		rep.Executions++
		if os.Getenv("MC_TRACE") != "" {
			fmt.Fprintln(os.Stderr, strings.Join(traceStrings(o.res.Trace), "\n")+"\n")
		}
	}
	if o.res.Diverged != 0 {
		rep.Diverged = 1
	}
	if o.viol != nil {
		w := o.viol
		w.Devs = v.Devs
		w.Trace = traceStrings(o.res.Trace)
		for _, e := range o.x.Events() {
			w.Evs = append(w.Evs, e.String())
		}
		rep.Viol = append(rep.Viol, *w)
	}
	return rep
}

func emit(r *Report) {
	os.Stdout.WriteString("\nMC-REPORT ")
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	os.Stdout.WriteString("\n")
}

// Thorough reports whether this is a thorough run.
func Thorough() bool { return os.Getenv("MC_TIER") == "thorough" }
