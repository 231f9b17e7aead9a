// Package vsched drives the controlled scheduler that /verif compiles into the
// runtime (see rt/runtime_vsched.go).
package vsched

import (
	"internal/race"
	"internal/synctest"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"
)

// Rec is one recorded choice point (layout shared with the runtime).
type Rec struct {
	Key    uint64
	PC     uintptr
	GoPC   uintptr
	N      uint16
	Choice uint16
	Kind   uint16
	GID    uint16
	To     uint16
	_      uint16
}

// Dev is a deviation from the default schedule.
type Dev struct {
	Pos    uint32
	Choice uint32
}

const (
	KindYield  = 1
	KindBlock  = 2
	KindSelect = 3
	KindMap    = 4
	KindEnv    = 5
)

const (
	Finished  = 1
	Deadlock  = 2
	StepLimit = 3
	TooLong   = 4
)

//go:linkname choose
func choose(n int) int
//go:linkname note
func note(obj uintptr, write bool, salt uint64)
//go:linkname point
func point(obj uintptr, write bool)
//go:linkname quiet
func quiet(on bool) bool
//go:linkname gid
func gid() int
//go:linkname config
func config(pfx []string, mapOn bool)
//go:linkname begin
func begin(devs []Dev, trace []Rec, maxSteps uint64)
//go:linkname end
func end()
//go:linkname prepare
func prepare()
//go:linkname wait
func wait()
//go:linkname result
func result() (reason int, ntrace int, steps, switches uint64, diverg int, ngo int, hash uint64)

// Config sets the package path prefixes whose synchronisation operations are
// scheduling points, and whether map iteration order is a choice.
func Config(prefixes []string, mapOn bool) { config(prefixes, mapOn) }

// Choose is a nondeterministic choice of the harness among n alternatives.
func Choose(n int) int { return choose(n) }

// Note records an access to harness state identified by obj.
func Note(obj unsafe.Pointer, write bool, salt uint64) { note(uintptr(obj), write, salt) }

// Point is a scheduling point of the harness on obj.
func Point(obj unsafe.Pointer, write bool) { point(uintptr(obj), write) }

// Quiet turns scheduling choices off (the default schedule is used) or on again
// and returns the previous setting. Harness choices are not affected.
func Quiet(on bool) bool { return quiet(on) }

// GID is the creation index of the current goroutine within the execution.
func GID() int { return gid() }

// Result of one execution.
type Result struct {
	Reason   int
	Trace    []Rec
	Steps    uint64
	Switches uint64
	Diverged int // position+1 of the first unusable deviation
	Gos      int
	Hash     uint64
	Panic    any // panic raised by the bubble itself (durable deadlock)
	Stack    []byte
	Races    int
}

// Run executes f in a fresh bubble under the given deviations. buf holds the
// recorded trace. When Reason is Deadlock or StepLimit the process must not
// run further executions (its goroutines stay stuck).
//go:norace
func Run(devs []Dev, buf []Rec, maxSteps uint64, f func()) Result {
	var res Result
	Watchdog()
	r0 := race.Errors()
	prepare()
	var pv any
	go func() {
		defer end()
		defer func() { pv = recover() }()
		begin(devs, buf, maxSteps)
		synctest.Run(f)
	}()
	wait()
	reason, n, steps, sw, dv, ngo, hash := result()
	res.Reason = reason
	res.Trace = buf[:n]
	res.Steps = steps
	res.Switches = sw
	res.Diverged = dv
	res.Gos = ngo
	res.Hash = hash
	res.Panic = pv
	if reason != Finished || pv != nil {
		b := make([]byte, 1<<20)
		res.Stack = b[:runtime.Stack(b, true)]
	}
	res.Races = race.Errors() - r0
	return res
}

// Wait blocks until every other goroutine of the bubble is durably blocked.
func Wait() { synctest.Wait() }

// RaceEnabled reports whether the race detector is compiled in.
const RaceEnabled = race.Enabled

// GCOff disables the garbage collector; Collect runs it.
func GCOff() { debug.SetGCPercent(-1) }

func Collect() { runtime.GC() }

// Watchdog ends the process if it uses 10 seconds of CPU time before the next call.
func Watchdog() {
	it := [4]int64{0, 0, 10, 0}
	syscall.RawSyscall(syscall.SYS_SETITIMER, 1, uintptr(unsafe.Pointer(&it)), 0)
}
