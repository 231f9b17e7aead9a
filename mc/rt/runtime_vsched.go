// Controlled scheduler used by the model checker in /verif. It is compiled
// into the runtime with `go build -overlay` and is inert unless vs.on is set.
//
// While an exploration runs, every goroutine of the synctest bubble is
// "controlled": exactly one of them executes at any time (the one that holds
// the token) and the others are blocked or in vs.pend. At each scheduling
// point (synchronisation operation, block, exit, select with several ready
// cases, iteration over a small map) the next step is taken from a list of
// deviations supplied by the explorer, and recorded.

package runtime

import (
	"internal/abi"
	"internal/runtime/sys"
	"unsafe"
)

const (
	vsKindYield  = 1 // before a synchronisation operation; alternatives: self, pending...
	vsKindBlock  = 2 // current goroutine blocked or exited; alternatives: pending...
	vsKindSelect = 3 // several select cases ready
	vsKindMap    = 4 // map iteration order
	vsKindEnv    = 5 // harness choice
	vsKindTimer  = 6
)

const (
	vsFSync   = 1 // hook sits in package sync
	vsFAtomic = 2 // hook sits in package sync/atomic
	vsFCtx    = 3 // hook sits in package context
	vsFChan   = 4 // hook sits in the runtime (channels)
	vsFTimer  = 5 // hook sits in the runtime (timers)
)

// vsRec describes one choice point of an execution.
type vsRec struct {
	key    uint64 // state fingerprint before the choice
	pc     uintptr
	gopc   uintptr // creation pc of the goroutine chosen
	n      uint16
	choice uint16
	kind   uint16
	gid    uint16 // goroutine (creation index) that was running
	to     uint16 // goroutine (creation index) chosen
	_      uint16
}

type vsDev struct {
	pos    uint32
	choice uint32
}

type vsObj struct {
	addr uintptr
	gen  uint32
	lamW uint32
	lamR uint32
	id   uint64
	last uint64
	racc uint64
}

const (
	vsMaxPend  = 2048
	vsObjBits  = 14
	vsObjSize  = 1 << vsObjBits
	vsPCBits   = 16
	vsPCSize   = 1 << vsPCBits
	vsMaxPfx   = 16
	vsStackMax = 64
)

type vsPC struct {
	pc    uintptr
	class uint8
}

var vs struct {
	printed bool
	on     bool
	busy   bool
	abort  bool
	reason int32 // 1 finished, 2 deadlock, 3 step limit, 4 too many choices
	mon    guintptr
	next   guintptr
	npend  int
	pend   [vsMaxPend]guintptr

	devs   []vsDev
	ndev   int
	trace  []vsRec
	ntrace int
	diverg int32 // recorded position of first divergence + 1

	steps    uint64
	maxSteps uint64
	switches uint64
	ngo      uint32
	mapOn    bool
	quiet    bool

	hash uint64
	gen  uint32

	npfx int
	pfx  [vsMaxPfx]string
}

// kept out of vs so that the GC does not have to look at them
var vsObjs [vsObjSize]vsObj
var vsPCs [vsPCSize]vsPC

//go:nosplit
func vsMix(a, b uint64) uint64 {
	x := a ^ (b * 0x9e3779b97f4a7c15) ^ (b >> 29)
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	return x
}

//go:nosplit
func vsRand(gp *g) uint64 {
	gp.vsrc++
	return vsMix(gp.vstid, uint64(gp.vsrc))
}

// ---- goroutine bookkeeping ----

func vsInitG(gp *g, parent *g) {
	gp.vsid = vs.ngo
	vs.ngo++
	gp.vscnt = 0
	gp.vsrc = 0
	gp.vsspawn = 0
	if parent == nil {
		gp.vstid = 0x1234567
		gp.vslam = 1
		gp.vsh = gp.vstid
		return
	}
	parent.vsspawn++
	gp.vstid = vsMix(parent.vstid, uint64(parent.vsspawn)+77)
	gp.vslam = parent.vslam + 1
	gp.vsh = vsMix(gp.vstid, parent.vsh)
	vs.hash += gp.vsh
}

func vsPendAdd(gp *g) {
	n := vs.npend
	if n >= vsMaxPend {
		throw("vsched: too many runnable goroutines")
	}
	// keep ordered by (lamport time, identity): canonical for equivalent schedules
	i := n
	for i > 0 {
		o := vs.pend[i-1].ptr()
		if o.vslam < gp.vslam || (o.vslam == gp.vslam && o.vstid <= gp.vstid) {
			break
		}
		vs.pend[i] = vs.pend[i-1]
		i--
	}
	vs.pend[i].set(gp)
	vs.npend = n + 1
}

func vsPendDel(i int) *g {
	gp := vs.pend[i].ptr()
	for j := i; j+1 < vs.npend; j++ {
		vs.pend[j] = vs.pend[j+1]
	}
	vs.npend--
	vs.pend[vs.npend] = 0
	return gp
}

func vsChooseAt(kind int, n int, key uint64, pc uintptr, gid uint32) int {
	if n <= 1 {
		return 0
	}
	if vs.quiet && kind != vsKindEnv {
		return 0
	}
	c := 0
	if vs.ndev < len(vs.devs) && vs.devs[vs.ndev].pos == uint32(vs.ntrace) {
		c = int(vs.devs[vs.ndev].choice)
		vs.ndev++
		if c >= n {
			if vs.diverg == 0 {
				vs.diverg = int32(vs.ntrace) + 1
			}
			c = 0
		}
	}
	if vs.ntrace < len(vs.trace) {
		r := &vs.trace[vs.ntrace]
		r.key = key
		r.pc = pc
		r.gopc = 0
		r.n = uint16(n)
		r.choice = uint16(c)
		r.kind = uint16(kind)
		r.gid = uint16(gid)
		r.to = 0
		vs.ntrace++
	} else {
		vs.reason = 4
	}
	return c
}

func vsSetTo(gp *g) {
	if vs.quiet {
		return
	}
	if vs.ntrace > 0 && vs.ntrace <= len(vs.trace) {
		vs.trace[vs.ntrace-1].to = uint16(gp.vsid)
		vs.trace[vs.ntrace-1].gopc = gp.gopc
	}
}

// vsDispatch hands the token to a pending goroutine.
func vsDispatch(pp *p, gp *g) {
	if vs.npend == 0 || vs.abort {
		return
	}
	c := 0
	if vs.npend > 1 {
		var id uint32
		if gp != nil {
			id = gp.vsid
		}
		c = vsChooseAt(vsKindBlock, vs.npend, vsMix(vs.hash, 0x51), 0, id)
		vsSetTo(vs.pend[c].ptr())
	}
	next := vsPendDel(c)
	vs.busy = true
	vs.switches++
	runqput(pp, next, true)
}

// vsReadied is called by ready() instead of queueing gp.
func vsReadied(pp *p, gp *g) {
	var wh uint64
	cur := getg().m.curg
	if cur != nil && cur.bubble != nil {
		wh = cur.vsh
		if cur.vslam+1 > gp.vslam {
			gp.vslam = cur.vslam + 1
		}
	} else {
		wh = uint64(gp.bubble.now)
		if gp.bubble.root != nil && gp.bubble.root.vslam+1 > gp.vslam {
			gp.vslam = gp.bubble.root.vslam + 1
		}
	}
	gp.vsh = vsMix(vsMix(gp.vsh, 0xa5), wh)
	vs.hash += gp.vsh
	vsPendAdd(gp)
	if !vs.busy {
		vsDispatch(pp, nil)
	}
}

// vsNew is called for a new controlled goroutine instead of queueing it.
func vsNew(pp *p, gp *g) {
	vsPendAdd(gp)
	if !vs.busy {
		vsDispatch(pp, nil)
	}
}

// vsParked records that gp blocked (called before the token is released).
func vsParked(gp *g) {
	gp.vsh = vsMix(gp.vsh, 0xb10c+uint64(gp.waitreason))
	gp.vslam++
	vs.hash += gp.vsh
}

func vsUnparked(gp *g) {
	gp.vsh = vsMix(gp.vsh, 0xdead)
	vs.hash += gp.vsh
}

// vsRelease is called on g0 after a controlled goroutine parked or exited.
func vsRelease(gp *g) {
	vs.busy = false
	if vs.abort {
		return
	}
	if vs.npend == 0 {
		vs.reason = 2
		vsWakeMon()
		return
	}
	vsDispatch(getg().m.p.ptr(), gp)
}

func vsWakeMon() {
	vs.abort = true
	mon := vs.mon.ptr()
	if mon != nil {
		vs.mon = 0
		ready(mon, 0, true)
	}
}

func vsyield_m(gp *g) {
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	vsPendAdd(gp)
	next := vs.next.ptr()
	vs.next = 0
	vs.switches++
	execute(next, true)
}

// ---- classification of call sites ----

const (
	vsCRuntime = 1
	vsCSync    = 2
	vsCAtomic  = 3
	vsCCtx     = 4
	vsCTime    = 5
	vsCWatch   = 6
	vsCBoring  = 7
	vsCHarness = 8 // harness code: events are recorded but are no scheduling points
)

func vsHasPrefix(s, p string) bool {
	return len(s) >= len(p) && s[:len(p)] == p
}

func vsClassOf(pc uintptr) uint8 {
	h := (pc * 0x9e3779b97f4a7c15) >> (64 - vsPCBits)
	for i := 0; i < 64; i++ {
		e := &vsPCs[(h+uintptr(i))&(vsPCSize-1)]
		if e.pc == pc {
			return e.class
		}
		if e.pc == 0 {
			c := vsClassSlow(pc)
			e.class = c
			e.pc = pc
			return c
		}
	}
	return vsClassSlow(pc)
}

func vsClassSlow(pc uintptr) uint8 {
	f := findfunc(pc - 1)
	if !f.valid() {
		return vsCBoring
	}
	name := funcname(f)
	switch {
	case vsHasPrefix(name, "runtime."), vsHasPrefix(name, "internal/runtime/"), vsHasPrefix(name, "vsched."), vsHasPrefix(name, "type:."):
		return vsCRuntime
	case vsHasPrefix(name, "sync/atomic."):
		return vsCAtomic
	case vsHasPrefix(name, "sync."), vsHasPrefix(name, "internal/sync."):
		return vsCSync
	case vsHasPrefix(name, "context."):
		return vsCCtx
	case vsHasPrefix(name, "time."):
		return vsCTime
	}
	for i := 0; i < vs.npfx; i++ {
		p := vs.pfx[i]
		if len(p) > 0 && p[0] == '-' {
			if vsHasPrefix(name, p[1:]) {
				return vsCHarness
			}
		} else if vsHasPrefix(name, p) {
			return vsCWatch
		}
	}
	return vsCBoring
}

// vsCaller finds the first frame that matters for a hook of type flag.
// 0: ignore, 1: scheduling point, 2: record the event only.
func vsCaller(fp uintptr, flag int) (int, uintptr) {
	viaCtx := false
	for i := 0; i < vsStackMax && fp != 0; i++ {
		pc := *(*uintptr)(unsafe.Pointer(fp + 8))
		fp = *(*uintptr)(unsafe.Pointer(fp))
		if pc == 0 {
			break
		}
		switch vsClassOf(pc) {
		case vsCRuntime:
			continue
		case vsCAtomic:
			if flag == vsFChan {
				return 0, 0
			}
			continue
		case vsCSync:
			if flag == vsFSync || flag == vsFCtx {
				continue
			}
			return 0, 0
		case vsCCtx:
			switch flag {
			case vsFCtx:
				continue
			case vsFChan:
				viaCtx = true
				continue
			}
			return 0, 0
		case vsCTime:
			if flag == vsFTimer {
				continue
			}
			return 0, 0
		case vsCHarness:
			return 2, pc
		case vsCWatch:
			if viaCtx {
				return 2, pc
			}
			return 1, pc
		default:
			if viaCtx || flag == vsFCtx {
				return 2, pc
			}
			return 0, 0
		}
	}
	return 0, 0
}

// ---- events ----

func vsEvent(gp *g, addr uintptr, write bool, salt uint64) {
	h := (addr * 0x9e3779b97f4a7c15) >> (64 - vsObjBits)
	var o *vsObj
	for i := uintptr(0); ; i++ {
		if i == vsObjSize {
			throw("vsched: object table full")
		}
		o = &vsObjs[(h+i)&(vsObjSize-1)]
		if o.gen != vs.gen {
			o.gen = vs.gen
			o.addr = addr
			o.id = vsMix(gp.vsh, uint64(gp.vscnt)+0x7777)
			o.last = 0
			o.racc = 0
			o.lamW = 0
			o.lamR = 0
			break
		}
		if o.addr == addr {
			break
		}
	}
	gp.vscnt++
	e := vsMix(gp.vsh, o.id)
	e = vsMix(e, o.last)
	e = vsMix(e, salt)
	lam := gp.vslam
	if o.lamW > lam {
		lam = o.lamW
	}
	if write {
		e = vsMix(e, o.racc+1)
		o.last = e
		o.racc = 0
		if o.lamR > lam {
			lam = o.lamR
		}
		lam++
		o.lamW = lam
		o.lamR = 0
	} else {
		e = vsMix(e, 0x5ead)
		o.racc += e
		lam++
		if lam > o.lamR {
			o.lamR = lam
		}
	}
	gp.vslam = lam
	gp.vsh = e
	vs.hash += e
}

// vsPoint is the hook placed before every synchronisation operation.
// kind: bit 0 set = the operation writes, bit 1 set = no scheduling point.
//
//go:linkname vsPoint
//go:noinline
func vsPoint(obj unsafe.Pointer, kind int, flag int) {
	if !vs.on {
		return
	}
	gp := getg()
	if gp.bubble == nil || gp != gp.m.curg || gp.m.locks != 0 || gp.m.mallocing != 0 || vs.abort {
		return
	}
	what, pc := vsCaller(getcallerfpvs(), flag)
	if what == 0 {
		return
	}
	if what == 1 && kind&2 == 0 {
		vsStep(gp, pc, kind)
	}
	vsEvent(gp, uintptr(obj), kind&1 != 0, uint64(kind))
}

// getcallerfpvs returns the frame pointer of its caller.
//
//go:nosplit
//go:noinline
func getcallerfpvs() uintptr {
	fp := getfp() // this function's frame pointer
	if fp != 0 {
		fp = *(*uintptr)(unsafe.Pointer(fp))
	}
	return fp
}

func vsStep(gp *g, pc uintptr, kind int) {
	vs.steps++
	if vs.steps > vs.maxSteps {
		vs.reason = 3
		systemstack(vsWakeMon)
		gopark(nil, nil, waitReasonZero, traceBlockForever, 1)
	}
	if vs.npend > 0 {
		key := vsMix(vsMix(vs.hash, gp.vstid), uint64(kind)+0x99)
		c := vsChooseAt(vsKindYield, vs.npend+1, key, pc, gp.vsid)
		if c > 0 {
			next := vsPendDel(c - 1)
			vsSetTo(next)
			vs.next.set(next)
			mcall(vsyield_m)
		} else {
			vsSetTo(gp)
		}
	}
}

// vsSelect is called by selectgo (no locks held) before polling.
func vsSelect(gp *g, scases []scase, pc uintptr) bool {
	what, pc2 := vsCaller(getcallerfpvs(), vsFChan)
	_ = pc
	if what == 0 {
		return false
	}
	if what == 1 {
		vsStep(gp, pc2, 1)
	}
	for i := range scases {
		if scases[i].c != nil {
			vsEvent(gp, uintptr(unsafe.Pointer(scases[i].c)), true, uint64(i)+0x100)
		}
	}
	return true
}

// vsSelectChoose picks among the ready cases of a select (all channels locked).
func vsSelectChoose(gp *g, nready int) int {
	c := vsChooseAt(vsKindSelect, nready, vsMix(vsMix(vs.hash, gp.vstid), 0x5e1), 0, gp.vsid)
	gp.vsh = vsMix(gp.vsh, uint64(c)+0x1000)
	vs.hash += gp.vsh
	vsSetTo(gp)
	return c
}

//go:linkname vsMapChoose internal/runtime/maps.vsMapChoose
func vsMapChoose(n int) int {
	if !vs.on || !vs.mapOn {
		return 0
	}
	gp := getg()
	if gp.bubble == nil || gp != gp.m.curg || gp.m.locks != 0 || gp.m.mallocing != 0 || vs.abort || n < 2 {
		return 0
	}
	what, pc := vsCaller(getcallerfpvs(), vsFChan)
	if what != 1 {
		return 0
	}
	c := vsChooseAt(vsKindMap, n, vsMix(vsMix(vs.hash, gp.vstid), 0x3a9), pc, gp.vsid)
	gp.vsh = vsMix(gp.vsh, uint64(c)+0x2000)
	vs.hash += gp.vsh
	vsSetTo(gp)
	return c
}

// ---- interface for package vsched ----

//go:linkname vsched_choose vsched.choose
func vsched_choose(n int) int {
	if !vs.on {
		return 0
	}
	gp := getg()
	c := vsChooseAt(vsKindEnv, n, vsMix(vsMix(vs.hash, gp.vstid), 0xe14), sys.GetCallerPC(), gp.vsid)
	gp.vsh = vsMix(gp.vsh, uint64(c)+0x3000)
	vs.hash += gp.vsh
	vsSetTo(gp)
	return c
}

//go:linkname vsched_note vsched.note
func vsched_note(obj uintptr, write bool, salt uint64) {
	if !vs.on {
		return
	}
	gp := getg()
	if gp.bubble == nil || vs.abort {
		return
	}
	vsEvent(gp, obj, write, salt)
}

//go:linkname vsched_point vsched.point
func vsched_point(obj uintptr, write bool) {
	if !vs.on {
		return
	}
	gp := getg()
	if gp.bubble == nil || vs.abort {
		return
	}
	vsStep(gp, sys.GetCallerPC(), 1)
	vsEvent(gp, obj, write, 0x700)
}

//go:linkname vsched_quiet vsched.quiet
func vsched_quiet(on bool) bool {
	old := vs.quiet
	vs.quiet = on
	return old
}

//go:linkname vsched_gid vsched.gid
func vsched_gid() int {
	return int(getg().vsid)
}

//go:linkname vsched_config vsched.config
func vsched_config(pfx []string, mapOn bool) {
	vs.npfx = 0
	for _, p := range pfx {
		if vs.npfx < vsMaxPfx {
			vs.pfx[vs.npfx] = p
			vs.npfx++
		}
	}
	vs.mapOn = mapOn
	for i := range vsPCs {
		vsPCs[i] = vsPC{}
	}
}

// vsched_begin starts an execution; the caller is about to call synctest.Run.
//
//go:linkname vsched_begin vsched.begin
func vsched_begin(devs []vsDev, trace []vsRec, maxSteps uint64) {
	gp := getg()
	vs.gen++
	if vs.gen == 0 {
		for i := range vsObjs {
			vsObjs[i].gen = 0
		}
		vs.gen = 1
	}
	vs.hash = 0
	vs.devs = devs
	vs.ndev = 0
	vs.trace = trace
	vs.ntrace = 0
	vs.diverg = 0
	vs.steps = 0
	vs.switches = 0
	vs.maxSteps = maxSteps
	vs.npend = 0
	vs.quiet = false
	vs.ngo = 0
	vs.abort = false
	vsInitG(gp, nil)
	vs.busy = true
	vs.on = true
}

//go:linkname vsched_end vsched.end
func vsched_end() {
	vs.on = false
	vs.busy = false
	vs.abort = true
	if vs.reason == 0 {
		vs.reason = 1
	}
	systemstack(vsWakeMon)
}

func vswait_c(gp *g, _ unsafe.Pointer) bool {
	if vs.reason != 0 && vs.abort {
		return false
	}
	vs.mon.set(gp)
	return true
}

// vsched_prepare must be called before the execution goroutine is started.
//
//go:linkname vsched_prepare vsched.prepare
func vsched_prepare() {
	vs.reason = 0
	vs.abort = false
	vs.mon = 0
}

//go:linkname vsched_wait vsched.wait
func vsched_wait() {
	gopark(vswait_c, nil, waitReasonZero, traceBlockForever, 1)
}

//go:linkname vsched_result vsched.result
func vsched_result() (reason int, ntrace int, steps, switches uint64, diverg int, ngo int, hash uint64) {
	return int(vs.reason), vs.ntrace, vs.steps, vs.switches, int(vs.diverg), int(vs.ngo), vs.hash
}

// vsPrintTrace prints the schedule of the current execution when the process dies.
func vsPrintTrace() {
	if vs.printed {
		return
	}
	vs.printed = true
	n := 0
	if vs.on {
		n = vs.ntrace
	}
	vs.on = false
	printlock()
	print("\nVSCHED-DEVIATIONS:")
	for i := 0; i < n; i++ {
		if vs.trace[i].choice != 0 {
			print(" ", i, ":", vs.trace[i].choice)
		}
	}
	print("\n")
	printunlock()
}

var _ = abi.FuncPCABI0

//go:linkname vsMapOn internal/runtime/maps.vsMapOn
func vsMapOn() bool {
	return vs.on && getg().bubble != nil
}
