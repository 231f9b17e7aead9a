#!/usr/bin/env python3
"""Generates the patched standard library files and the overlay for the
controlled scheduler.  usage: mkoverlay.py GOROOT OUTDIR
Only the pinned Go toolchain's own sources are patched here; nothing of the
repository under test is touched."""
import os, re, sys

def main(goroot, out):
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(goroot, "src")
    os.makedirs(out, exist_ok=True)
    rep = {}

    def emit(rel, text):
        p = os.path.join(out, "std", rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        old = None
        if os.path.exists(p):
            old = open(p).read()
        if old != text:
            open(p, "w").write(text)
        rep[os.path.join(src, rel)] = p

    def patch(rel, *subs):
        t = open(os.path.join(src, rel)).read()
        for s in subs:
            a, b = s[0], s[1]
            n = s[2] if len(s) > 2 else 1
            c = t.count(a)
            if c != n:
                raise SystemExit("patch %s: %d matches (want %d) for:\n%s" % (rel, c, n, a))
            t = t.replace(a, b)
        emit(rel, t)

    def rpatch(rel, fn):
        t = open(os.path.join(src, rel)).read()
        t2 = fn(t)
        if t == t2:
            raise SystemExit("patch %s: no change" % rel)
        emit(rel, t2)

    # ---- runtime ----
    emit("runtime/vsched.go", open(os.path.join(here, "rt/runtime_vsched.go")).read())
    patch("runtime/runtime2.go",
        ("	bubble  *synctestBubble\n",
         "	bubble  *synctestBubble\n\n	vstid, vsh uint64\n	vscnt, vsrc, vslam, vsspawn, vsid uint32\n"))
    patch("runtime/proc.go",
        ("""	casgstatus(gp, _Gwaiting, _Grunnable)
	if trace.ok() {
		trace.GoUnpark(gp, traceskip)
		traceRelease(trace)
	}
	runqput(mp.p.ptr(), gp, next)
	wakep()
""", """	casgstatus(gp, _Gwaiting, _Grunnable)
	if trace.ok() {
		trace.GoUnpark(gp, traceskip)
		traceRelease(trace)
	}
	if vs.on && gp.bubble != nil {
		vsReadied(mp.p.ptr(), gp)
		releasem(mp)
		return
	}
	runqput(mp.p.ptr(), gp, next)
	wakep()
"""),
        ("""	casgstatus(gp, _Grunning, _Gwaiting)
	if trace.ok() {
		traceRelease(trace)
	}

	dropg()

	if fn := mp.waitunlockf; fn != nil {""",
         """	vsctl := vs.on && bubble != nil
	if vsctl {
		vsParked(gp)
	}
	casgstatus(gp, _Grunning, _Gwaiting)
	if trace.ok() {
		traceRelease(trace)
	}

	dropg()

	if fn := mp.waitunlockf; fn != nil {"""),
        ("""			casgstatus(gp, _Gwaiting, _Grunnable)
			if bubble != nil {
				bubble.decActive()
			}
""", """			if vsctl {
				vsUnparked(gp)
			}
			casgstatus(gp, _Gwaiting, _Grunnable)
			if bubble != nil {
				bubble.decActive()
			}
"""),
        ("""	if bubble != nil {
		bubble.decActive()
	}

	schedule()
}
""", """	if bubble != nil {
		bubble.decActive()
	}
	if vsctl {
		vsRelease(gp)
	}

	schedule()
}
"""),
        ("""func goexit0(gp *g) {
	gdestroy(gp)
	schedule()
}
""", """func goexit0(gp *g) {
	vsctl := vs.on && gp.bubble != nil
	gdestroy(gp)
	if vsctl {
		vsRelease(gp)
	}
	schedule()
}
"""),
        ("""	checkTimeouts()
	mcall(goyield_m)
""", """	checkTimeouts()
	if vs.on && getg().bubble != nil {
		return
	}
	mcall(goyield_m)
"""),
        ("""		pp := getg().m.p.ptr()
		runqput(pp, newg, true)

		if mainStarted {
			wakep()
		}
	})
}

// Create a new g in state""", """		pp := getg().m.p.ptr()
		if vs.on && newg.bubble != nil {
			vsNew(pp, newg)
			return
		}
		runqput(pp, newg, true)

		if mainStarted {
			wakep()
		}
	})
}

// Create a new g in state"""),
        ("""		newg.bubble = callergp.bubble
		if mp.curg != nil {""", """		newg.bubble = callergp.bubble
		if vs.on && newg.bubble != nil {
			vsparent := callergp
			if vsparent == mp.g0 {
				vsparent = newg.bubble.root
			}
			vsInitG(newg, vsparent)
		}
		if mp.curg != nil {"""),
        ("""func gosched_m(gp *g) {
""", """func gosched_m(gp *g) {
	if vs.on && gp.bubble != nil && !vs.abort && vs.npend > 0 {
		vs.steps++
		next := vsPendDel(0)
		gp.vslam = next.vslam + 1
		vs.next.set(next)
		vsyield_m(gp)
	}
"""),
    )
    patch("runtime/synctest.go",
        ("""		pp := getg().m.p.ptr()
		runqput(pp, bubble.main, true)
		wakep()
""", """		pp := getg().m.p.ptr()
		if vs.on {
			vsNew(pp, bubble.main)
			return
		}
		runqput(pp, bubble.main, true)
		wakep()
"""))
    patch("runtime/rand.go",
        ("""	mp := getg().m
	c := &mp.chacha8
""", """	if vs.on {
		if gp := getg(); gp.bubble != nil {
			return vsRand(gp)
		}
	}
	mp := getg().m
	c := &mp.chacha8
"""),
        ("""	mp := getg().m
	// Implement wyrand: https://github.com/wangyi-fudan/wyhash
	// Only the platform that math.Mul64 can be lowered
""", """	if vs.on {
		if gp := getg(); gp.bubble != nil {
			return uint32(vsRand(gp))
		}
	}
	mp := getg().m
	// Implement wyrand: https://github.com/wangyi-fudan/wyhash
	// Only the platform that math.Mul64 can be lowered
"""))
    patch("runtime/panic.go",
        ("func dopanic_m(gp *g, pc, sp uintptr, bubble *synctestBubble) bool {\n",
         "func dopanic_m(gp *g, pc, sp uintptr, bubble *synctestBubble) bool {\n	vsPrintTrace()\n"))
    patch("runtime/signal_unix.go",
        ("	gp = fatalsignal(sig, c, gp, mp)\n", "	gp = fatalsignal(sig, c, gp, mp)\n	vsPrintTrace()\n"))
    # the watchdog timer (ITIMER_VIRTUAL) ends a process whose execution does not terminate
    patch("runtime/sigtab_linux_generic.go",
        ('{_SigNotify, "SIGVTALRM: virtual alarm clock"}', '{_SigThrow, "SIGVTALRM: execution does not terminate"}'))
    patch("runtime/chan.go",
        ("	chansend(c, elem, true, sys.GetCallerPC())\n", "	vschan(c)\n	chansend(c, elem, true, sys.GetCallerPC())\n"),
        ("//go:nosplit\nfunc chansend1(", "func chansend1("),
        ("//go:nosplit\nfunc chanrecv1(", "func chanrecv1("),
        ("//go:nosplit\nfunc chanrecv2(", "func chanrecv2("),
        ("	chanrecv(c, elem, true)\n}", "	vschan(c)\n	chanrecv(c, elem, true)\n}"),
        ("	_, received = chanrecv(c, elem, true)\n", "	vschan(c)\n	_, received = chanrecv(c, elem, true)\n"),
        ("	return chansend(c, elem, false, sys.GetCallerPC())\n", "	vschan(c)\n	return chansend(c, elem, false, sys.GetCallerPC())\n"),
        ("	return chanrecv(c, elem, false)\n", "	vschan(c)\n	return chanrecv(c, elem, false)\n"),
        ("		panic(plainError(\"close of nil channel\"))\n	}\n", "		panic(plainError(\"close of nil channel\"))\n	}\n	vschan(c)\n"),
        ("func (q *waitq) enqueue(sgp *sudog) {", """//go:noinline
func vschan(c *hchan) {
	if vs.on && c != nil {
		vsPoint(unsafe.Pointer(c), 1, vsFChan)
	}
}

func (q *waitq) enqueue(sgp *sudog) {"""),
    )
    patch("runtime/select.go",
        ("""	// generate permuted order
	norder := 0
""", """	vsctl := vs.on && gp.bubble != nil && gp == gp.m.curg && gp.m.locks == 0 && gp.m.mallocing == 0 && !vs.abort
	vswatch := false
	if vsctl {
		vswatch = vsSelect(gp, scases, 0)
	}

	// generate permuted order
	norder := 0
"""),
        ("		j := cheaprandn(uint32(norder + 1))\n", "		j := cheaprandn(uint32(norder + 1))\n		if vsctl {\n			j = uint32(norder)\n		}\n"),
        ("""	var recvOK bool
	for _, casei := range pollorder {
		casi = int(casei)
		cas = &scases[casi]
		c = cas.c
""", """	var recvOK bool
	vsskip := 0
	if vswatch {
		nready := 0
		for _, casei := range pollorder {
			c := scases[casei].c
			if int(casei) >= nsends {
				if c.sendq.first != nil || c.qcount > 0 || c.closed != 0 {
					nready++
				}
			} else if c.closed != 0 || c.recvq.first != nil || c.qcount < c.dataqsiz {
				nready++
			}
		}
		if nready > 1 {
			vsskip = vsSelectChoose(gp, nready)
		}
	}
	for _, casei := range pollorder {
		casi = int(casei)
		cas = &scases[casi]
		c = cas.c
		if vsskip > 0 {
			isready := false
			if casi >= nsends {
				isready = c.sendq.first != nil || c.qcount > 0 || c.closed != 0
			} else {
				isready = c.closed != 0 || c.recvq.first != nil || c.qcount < c.dataqsiz
			}
			if isready {
				vsskip--
				continue
			}
		}
"""),
    )
    patch("runtime/time.go",
        ("func stopTimer(t *timeTimer) bool {\n", "func stopTimer(t *timeTimer) bool {\n	vsPoint(unsafe.Pointer(t), 1, vsFTimer)\n"),
        ("func resetTimer(t *timeTimer, when, period int64) bool {\n", "func resetTimer(t *timeTimer, when, period int64) bool {\n	vsPoint(unsafe.Pointer(t), 1, vsFTimer)\n"),
    )
    # ---- sync ----
    patch("internal/sync/mutex.go",
        ("			starving = starving || runtime_nanotime()-waitStartTime > starvationThresholdNs\n",
         "			starving = false // controlled scheduler: no dependence on real time\n			_ = starvationThresholdNs\n"))
    t = open(os.path.join(src, "sync/runtime.go")).read()
    emit("sync/runtime.go", t + "\n//go:linkname vsPoint runtime.vsPoint\n//go:noescape\nfunc vsPoint(p unsafe.Pointer, kind, flag int)\n")
    P = "	vsPoint(unsafe.Pointer(%s), %d, 1)\n"
    patch("sync/mutex.go",
        ("import (\n", "import (\n	\"unsafe\"\n"),
        ("	m.mu.Lock()\n", P % ("m", 1) + "	m.mu.Lock()\n" + P % ("m", 3)),
        ("	return m.mu.TryLock()\n", P % ("m", 1) + "	return m.mu.TryLock()\n"),
        ("	m.mu.Unlock()\n", P % ("m", 3) + "	m.mu.Unlock()\n"))
    def fhead(text, sig, body):
        i = text.find(sig)
        if i < 0 or text.find(sig, i + 1) >= 0:
            raise SystemExit("sig not unique: " + sig)
        j = text.index("{\n", i) + 2
        return text[:j] + body + text[j:]
    def rw(t):
        t = fhead(t, "func (rw *RWMutex) RLock() {", P % ("rw", 0) + "	defer vsPoint(unsafe.Pointer(rw), 2, 1)\n")
        t = fhead(t, "func (rw *RWMutex) TryRLock() bool {", P % ("rw", 0))
        t = fhead(t, "func (rw *RWMutex) RUnlock() {", P % ("rw", 3))
        t = fhead(t, "func (rw *RWMutex) Lock() {", P % ("rw", 3) + "	defer vsPoint(unsafe.Pointer(rw), 3, 1)\n")
        t = fhead(t, "func (rw *RWMutex) TryLock() bool {", P % ("rw", 3))
        t = fhead(t, "func (rw *RWMutex) Unlock() {", P % ("rw", 3))
        return t
    rpatch("sync/rwmutex.go", rw)
    def wg(t):
        t = fhead(t, "func (wg *WaitGroup) Add(delta int) {", P % ("wg", 1))
        t = fhead(t, "func (wg *WaitGroup) Wait() {", P % ("wg", 1))
        return t
    rpatch("sync/waitgroup.go", wg)
    def cond(t):
        t = fhead(t, "func (c *Cond) Wait() {", P % ("c", 1))
        t = fhead(t, "func (c *Cond) Signal() {", P % ("c", 1))
        t = fhead(t, "func (c *Cond) Broadcast() {", P % ("c", 1))
        return t
    rpatch("sync/cond.go", cond)
    def once(t):
        t = fhead(t, "func (o *Once) Do(f func()) {", P % ("o", 1))
        t = t.replace("import (\n", "import (\n	\"unsafe\"\n", 1)
        return t
    rpatch("sync/once.go", once)
    def hmap(t):
        t = t.replace("import (\n", "import (\n	\"unsafe\"\n", 1)
        def f(m):
            name = m.group(2)
            k = 0 if name in ("Load", "Range") else 1
            return m.group(0) + P % ("m", k)
        return re.sub(r"func \(m \*Map\) ()(\w+)\([^\n]*\{\n", f, t)
    rpatch("sync/hashtriemap.go", hmap)
    # ---- sync/atomic ----
    AP = "	vsPoint(unsafe.Pointer(x), %d, 2)\n"
    def atype(t):
        def f(m):
            name = m.group(2)
            k = 0 if name == "Load" else 1
            rest = m.group(0)
            if rest.endswith("{\n"):
                return rest + AP % k
            # one-liner
            body = m.group(3)
            sig = rest[:rest.index("{")]
            return sig + "{\n" + AP % k + "	" + body.strip() + "\n}"
        t = re.sub(r"func \(x \*(\w+(?:\[T\])?)\) (\w+)\([^\n]*?\{(?:\n|([^\n]*)\})", f, t)
        return t + "\n//go:linkname vsPoint runtime.vsPoint\n//go:noescape\nfunc vsPoint(p unsafe.Pointer, kind, flag int)\n\n// VsCtx is the hook used by package context.\nfunc VsCtx(p unsafe.Pointer, kind int) { vsPoint(p, kind, 3) }\n"
    rpatch("sync/atomic/type.go", atype)
    def aval(t):
        t = fhead(t, "func (v *Value) Load() (val any) {", "	vsPoint(unsafe.Pointer(v), 0, 2)\n")
        t = fhead(t, "func (v *Value) Store(val any) {", "	vsPoint(unsafe.Pointer(v), 1, 2)\n")
        t = fhead(t, "func (v *Value) Swap(new any) (old any) {", "	vsPoint(unsafe.Pointer(v), 1, 2)\n")
        t = fhead(t, "func (v *Value) CompareAndSwap(old, new any) (swapped bool) {", "	vsPoint(unsafe.Pointer(v), 1, 2)\n")
        return t
    rpatch("sync/atomic/value.go", aval)
    # ---- context ----
    def ctx(t):
        t = t.replace("import (\n", "import (\n	\"unsafe\"\n", 1)
        t = fhead(t, "func (c *cancelCtx) Err() error {", "	atomic.VsCtx(unsafe.Pointer(c), 0)\n")
        t = fhead(t, "func (c *cancelCtx) cancel(removeFromParent bool, err, cause error) {", "	atomic.VsCtx(unsafe.Pointer(c), 1)\n")
        t = fhead(t, "func (c *cancelCtx) propagateCancel(parent Context, child canceler) {", "	if p, ok := parentCancelCtx(parent); ok {\n		atomic.VsCtx(unsafe.Pointer(p), 1)\n	}\n")
        return t
    rpatch("context/context.go", ctx)
    # ---- maps ----
    patch("internal/runtime/maps/table.go",
        ("	it.entryOffset = rand()\n", """	it.entryOffset = rand()
	if dirIdx == -1 && m.used > 1 {
		// controlled scheduler: choose which entry comes first
		if c := vsMapChoose(int(m.used)); true {
			k := 0
			for i := uintptr(0); i < abi.SwissMapGroupSlots; i++ {
				if groupSmall.ctrls().get(i)&ctrlEmpty == ctrlEmpty {
					continue
				}
				if k == c {
					if vsMapOn() {
						it.entryOffset = uint64(i)
					}
					break
				}
				k++
			}
		}
	}
"""))
    t = open(os.path.join(src, "internal/runtime/maps/runtime.go")).read()
    emit("internal/runtime/maps/runtime.go", t + "\n//go:linkname vsMapChoose\nfunc vsMapChoose(n int) int\n\n//go:linkname vsMapOn\nfunc vsMapOn() bool\n")
    # ---- os: accesses to the file system are announced; plugin: a stand-in ----
    emit("os/vshook.go", "package os\n\nvar vsHook func(name string)\n\n// VsSetHook sets what is called before an access to the file system.\n//\n//go:norace\nfunc VsSetHook(f func(name string)) { vsHook = f }\n\n//go:norace\nfunc vsGetHook() func(name string) { return vsHook }\n"
         "\nvar vsWrHook func(op, name string)\n\n// VsSetWrHook sets what is called before a modification of the file system.\nfunc VsSetWrHook(f func(op, name string)) { vsWrHook = f }\n")
    def wr(op, name):
        return "	if vsWrHook != nil {\n		vsWrHook(\"%s\", %s)\n	}\n" % (op, name)
    hk = "	if vsh := vsGetHook(); vsh != nil {\n		vsh(name)\n	}\n"
    patch("os/stat.go",
        ("func Stat(name string) (FileInfo, error) {\n", "func Stat(name string) (FileInfo, error) {\n" + hk),
        ("func Lstat(name string) (FileInfo, error) {\n", "func Lstat(name string) (FileInfo, error) {\n" + hk))
    patch("os/file.go",
        ("func openDir(name string) (*File, error) {\n", "func openDir(name string) (*File, error) {\n" + hk),
        ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n" + hk + "	if vsWrHook != nil && flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 {\n		vsWrHook(\"open\", name)\n	}\n"),
        ("func (f *File) ReadFrom(r io.Reader) (n int64, err error) {\n", "func (f *File) ReadFrom(r io.Reader) (n int64, err error) {\n" + wr("write", "f.Name()")),
        ("func (f *File) Write(b []byte) (n int, err error) {\n", "func (f *File) Write(b []byte) (n int, err error) {\n" + wr("write", "f.Name()")),
        ("func Mkdir(name string, perm FileMode) error {\n", "func Mkdir(name string, perm FileMode) error {\n" + wr("mkdir", "name")),
        ("func Rename(oldpath, newpath string) error {\n", "func Rename(oldpath, newpath string) error {\n" + wr("rename", 'oldpath+"\\x00"+newpath')))
    patch("os/file_posix.go",
        ("func (f *File) Sync() error {\n", "func (f *File) Sync() error {\n" + wr("sync", "f.Name()")))
    patch("os/file_unix.go",
        ("func Remove(name string) error {\n", "func Remove(name string) error {\n" + wr("remove", "name")))
    patch("os/path.go",
        ("func RemoveAll(path string) error {\n", "func RemoveAll(path string) error {\n" + wr("remove", "path")))
    emit("plugin/plugin.go", open(os.path.join(here, "rt/plugin/plugin.go")).read())
    emit("plugin/plugin_dlopen.go", "package plugin\n")
    # ---- vsched ----
    d = os.path.join(here, "rt/vsched")
    for f in sorted(os.listdir(d)):
        rep[os.path.join(src, "vsched", f)] = os.path.join(d, f)
    return rep

if __name__ == "__main__":
    import json
    goroot, out = sys.argv[1], sys.argv[2]
    rep = main(goroot, out)
    json.dump({"Replace": rep}, open(os.path.join(out, "std-overlay.json"), "w"), indent=1)
