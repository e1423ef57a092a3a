#!/usr/bin/env python3
"""Writes a 'go build -overlay' file that makes the Go runtime of the simulator
binary (and of nothing else) deterministic:
  - a goroutine blocked on a sync.Mutex/RWMutex counts as blocked for the
    simulated clock and for quiescence (plain synctest waits for it for ever),
  - inside a simulated run, select order, map iteration order and the global
    math/rand come from a generator the simulator seeds per run,
  - the process-wide hash seeds are constants,
  - no time-slice preemption inside a burst of work; instead, every
    synchronization point (mutex, channel, select) may yield and a woken
    goroutine may or may not run next, as decided by the same seeded generator,
  - every statement of the program under test, and the middle of every change
    of a map it makes, may yield in the same way,
  - file writes, syncs and positioned reads pass a hook,
  - an uncaught panic or os.Exit in a simulated process ends that simulated
    process instead of the simulator.
It also maps the sources of /repo's relay command (package main) into the
importable package btpsim/relaycmd.
Usage: overlay.py GOROOT OUTDIR [REPO [SIMDIR]]"""
import json, os, shutil, subprocess, sys

goroot, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
repo = sys.argv[3] if len(sys.argv) > 3 else "/repo"
simdir = sys.argv[4] if len(sys.argv) > 4 else os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim")
simdir = os.path.abspath(simdir)
rt = os.path.join(goroot, "src", "runtime")


def patch(name, subs, base=None):
    p = os.path.join(base or rt, name)
    s = open(p).read()
    for old, new in subs:
        if s.count(old) != 1:
            sys.exit("overlay.py: %s: expected one occurrence of %r" % (name, old))
        s = s.replace(old, new)
    q = os.path.join(out, os.path.relpath(p, os.path.join(goroot, "src")).replace("/", "_"))
    if not os.path.exists(q) or open(q).read() != s:
        open(q, "w").write(s)
    return p, q


rep = dict([
    patch("runtime2.go", [(
        "	waitReasonSyncCondWait:          true,\n	waitReasonSynctestWaitGroupWait: true,\n",
        "	waitReasonSyncCondWait:          true,\n	waitReasonSynctestWaitGroupWait: true,\n"
        "	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n"
        "	waitReasonSyncRWMutexLock:       true,\n")]),
    patch("rand.go", [
        ("	\"internal/goarch\"\n", "	\"internal/goarch\"\n	\"internal/stringslite\"\n"),
        ("func rand() uint64 {\n",
         "func rand() uint64 {\n	if verifRand != 0 && getg().bubble != nil {\n		return verifNext(0)\n	}\n"),
        ("func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n	if verifRand != 0 && getg().bubble != nil {\n		return verifNext(2)\n	}\n"),
        ("	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&",
         "	seed := &globalRand.seed\n	if true {\n		copy(seed[:], \"btp simulator: constant hash seed\")\n	} else if len(startupRand) >= 16 &&"),
        ("func mrandinit(mp *m) {\n",
         "var verifRand uint64\n\n"
         "var verifS [8]uint64\n\n"
         "// one stream per use, so that what one use consumes does not shift the others\n//\n//go:nosplit\nfunc verifNext(i int) uint64 {\n"
         "	x := verifS[i]\n	x ^= x << 13\n	x ^= x >> 7\n	x ^= x << 17\n	verifS[i] = x\n	return x * 2685821657736338717\n}\n\n"
         "// verifSetSeed is called by the simulator before every step.\n//\n//go:linkname verifSetSeed\n"
         "func verifSetSeed(x uint64) {\n	verifRand = x\n	for i := range verifS {\n"
         "		x ^= x << 13\n		x ^= x >> 7\n		x ^= x << 17\n		verifS[i] = x*2685821657736338717 | 1\n	}\n}\n\n"
         "//go:linkname verifMathRand\nfunc verifMathRand() uint64 {\n	if verifRand != 0 && getg().bubble != nil {\n		return verifNext(1)\n	}\n	return rand()\n}\n\n"
         "var verifYieldN, verifStmtN uint64\nvar verifRootG *g\n\n"
         "// VerifStmt is called before every statement of the program under test.\n"
         "func VerifStmt() {\n	if verifStmtN == 0 {\n		return\n	}\n	gp := getg()\n	if gp.bubble != nil && gp != verifRootG && gp == gp.m.curg && verifNext(7)>>9%verifStmtN == 0 {\n		Gosched()\n	}\n}\n\n"
         "//go:linkname verifSetStmt\nfunc verifSetStmt(n uint64) {\n	verifStmtN = n\n}\n\n"
         "// verifMapYield is called in the middle of every change of a map.\n//\n//go:linkname verifMapYield internal/runtime/maps.verifYield\n"
         "func verifMapYield() {\n	if verifStmtN == 0 {\n		return\n	}\n	gp := getg()\n	if gp.bubble != nil && gp != verifRootG && gp == gp.m.curg && gp.m.locks == 0 && verifOurs() && verifNext(7)>>9%4 == 0 {\n		Gosched()\n	}\n}\n\n"
         "// verifSetYield makes the caller the root of a run, in which every nth synchronization point yields.\n//\n//go:linkname verifSetYield\n"
         "func verifSetYield(n uint64) {\n	verifYieldN = n\n	verifRootG = getg()\n}\n\n"
         "//go:linkname verifYield sync.runtime_verifYield\n"
         "func verifYield() {\n	gp := getg()\n	if verifYieldN != 0 && gp.bubble != nil && gp != verifRootG && gp == gp.m.curg && verifOurs() && verifNext(3)%verifYieldN == 0 {\n		Gosched()\n	}\n}\n\n"
         "// verifOurs tells whether the synchronization point is in the program under test itself.\n"
         "func verifOurs() bool {\n	var pcs [8]uintptr\n	n := callers(1, pcs[:])\n	for _, pc := range pcs[:n] {\n"
         "		s := funcname(findfunc(pc - 1))\n		if stringslite.HasPrefix(s, \"runtime.\") || stringslite.HasPrefix(s, \"sync.\") || stringslite.HasPrefix(s, \"internal/sync.\") || stringslite.HasPrefix(s, \"internal/runtime/maps.\") {\n			continue\n		}\n"
         "		return stringslite.HasPrefix(s, \"github.com/icon-project/btp\") || stringslite.HasPrefix(s, \"btpsim/relaycmd\")\n	}\n	return false\n}\n\n"
         "// verifPanic, if set, decides what becomes of an uncaught panic of a simulated goroutine.\n//\n//go:linkname verifPanic\n"
         "var verifPanic func(any) bool\n\n"
         "//go:linkname verifLabel\nfunc verifLabel() uintptr {\n	return uintptr(getg().labels)\n}\n\n"
         "func mrandinit(mp *m) {\n"),
    ]),
    patch("panic.go", [(
        "func maps_fatal(s string) {\n",
        "func verifFatal(s string) {\n	if gp := getg(); verifPanic != nil && gp.bubble != nil && gp == gp.m.curg && verifPanic(\"fatal error: \"+s) {\n		goexit1()\n	}\n}\n\n"
        "func maps_fatal(s string) {\n	verifFatal(s)\n"),
        ("func internal_sync_fatal(s string) {\n", "func internal_sync_fatal(s string) {\n	verifFatal(s)\n"),
        (
        "	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n",
        "	if verifPanic != nil && gp.bubble != nil && verifPanic(e) {\n"
        "		runningPanicDefers.Add(-1)\n		goexit1()\n	}\n"
        "	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n")]),
    patch("proc.go", [(
        "func Exit(code int) {\n",
        "// VerifExit, if set, sees an exit first.\nvar VerifExit func(code int)\n\n"
        "func Exit(code int) {\n	if VerifExit != nil {\n		VerifExit(code)\n	}\n")],
        os.path.join(goroot, "src", "os")),
    patch("proc.go", [
        ("const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 3000 * 1000 * 1000"),
        # a slow system call must not let another goroutine run first
        ("		// Drop allpLock so we can take sched.lock.\n", "		if verifRand != 0 && !sysretake {\n			continue\n		}\n		// Drop allpLock so we can take sched.lock.\n"),
        ("	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if verifRand == 0 && pp.schedtick%61 == 0 && !sched.runq.empty() {"),
        ("	if randomizeScheduler && next && randn(2) == 0 {\n",
         "	if next && verifYieldN != 0 && gp.bubble != nil && verifNext(4)>>5%2 == 0 {\n		next = false\n	}\n"
         "	if randomizeScheduler && next && randn(2) == 0 {\n"),
    ]),
    patch("chan.go", [
        ("func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n",
         "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	if block && verifYieldN != 0 {\n		verifYield()\n	}\n"),
        ("func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n",
         "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	if block && verifYieldN != 0 {\n		verifYield()\n	}\n"),
    ]),
    patch("time.go", [("			t.rand = cheaprand()\n",
                       "			t.rand = cheaprand()\n			if verifRand != 0 {\n				t.rand = uint32(verifNext(6) >> 7)\n			}\n")]),
    patch("sema.go", [("func internal_sync_nanotime() int64 {\n",
                       "func internal_sync_nanotime() int64 {\n	if gp := getg(); gp.bubble != nil {\n		return gp.bubble.now // mutex starvation must not depend on real time\n	}\n")]),
    patch("select.go", [
        ("		j := cheaprandn(uint32(norder + 1))\n",
         "		j := cheaprandn(uint32(norder + 1))\n		if verifRand != 0 && getg().bubble != nil {\n			j = uint32(verifNext(5)>>8) % uint32(norder+1)\n		}\n"),
        ("nsends, nrecvs int, block bool) (int, bool) {\n	gp := getg()\n",
         "nsends, nrecvs int, block bool) (int, bool) {\n	if verifYieldN != 0 {\n		verifYield()\n	}\n	gp := getg()\n"),
    ]),
    patch("mutex.go", [
        ("func (m *Mutex) Lock() {\n	m.mu.Lock()\n", "func (m *Mutex) Lock() {\n	runtime_verifYield()\n	m.mu.Lock()\n"),
        ("func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n", "func runtime_verifYield()\n\nfunc (m *Mutex) Unlock() {\n	m.mu.Unlock()\n	runtime_verifYield()\n"),
    ], os.path.join(goroot, "src", "sync")),
    patch("rwmutex.go", [
        ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_verifYield()\n"),
        ("func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	defer runtime_verifYield()\n"),
    ], os.path.join(goroot, "src", "sync")),
])
# files: the simulator sees (and may fail) the writes, syncs and reads of the databases
rep.update([
    patch("file.go", [
        ("func (f *File) Write(b []byte) (n int, err error) {\n	if err := f.checkValid(\"write\"); err != nil {\n		return 0, err\n	}\n",
         "// VerifIO, if set, sees what is done to a file first.\nvar VerifIO func(op, name string, b []byte, do func([]byte) (int, error)) (n int, err error, done bool)\n\n"
         "func (f *File) Write(b []byte) (n int, err error) {\n	if err := f.checkValid(\"write\"); err != nil {\n		return 0, err\n	}\n"
         "	if VerifIO != nil {\n		if n, err, done := VerifIO(\"write\", f.name, b, f.write); done {\n			return n, err\n		}\n	}\n"),
        ("func (f *File) ReadAt(b []byte, off int64) (n int, err error) {\n	if err := f.checkValid(\"read\"); err != nil {\n		return 0, err\n	}\n",
         "func (f *File) ReadAt(b []byte, off int64) (n int, err error) {\n	if err := f.checkValid(\"read\"); err != nil {\n		return 0, err\n	}\n"
         "	if VerifIO != nil {\n		if n, err, done := VerifIO(\"read\", f.name, b, nil); done {\n			return n, err\n		}\n	}\n"),
        ("	n, e := f.read(b)\n	return n, f.wrapErr(\"read\", e)\n",
         "	if VerifIO != nil {\n		if n, err, done := VerifIO(\"readseq\", f.name, b, f.read); done {\n			return n, err\n		}\n	}\n"
         "	n, e := f.read(b)\n	return n, f.wrapErr(\"read\", e)\n"),
        ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n",
         "// VerifPath, if set, sees what is done to a path first and may refuse it.\nvar VerifPath func(op, name string, write bool) error\n\n"
         "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n	if VerifPath != nil {\n"
         "		if err := VerifPath(\"open\", name, flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC|O_APPEND) != 0); err != nil {\n			return nil, &PathError{Op: \"open\", Path: name, Err: err}\n		}\n	}\n"),
        ("func Rename(oldpath, newpath string) error {\n",
         "func Rename(oldpath, newpath string) error {\n	if VerifPath != nil {\n		for _, p := range []string{oldpath, newpath} {\n"
         "			if err := VerifPath(\"rename\", p, true); err != nil {\n				return &LinkError{\"rename\", oldpath, newpath, err}\n			}\n		}\n	}\n"),
        ("func Mkdir(name string, perm FileMode) error {\n",
         "func Mkdir(name string, perm FileMode) error {\n	if VerifPath != nil {\n		if err := VerifPath(\"mkdir\", name, true); err != nil {\n			return &PathError{Op: \"mkdir\", Path: name, Err: err}\n		}\n	}\n"),
    ], os.path.join(goroot, "src", "os")),
    patch("file_posix.go", [
        ("func (f *File) Sync() error {\n	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n",
         "func (f *File) Sync() error {\n	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n"
         "	if VerifIO != nil {\n		if _, err, done := VerifIO(\"sync\", f.name, nil, nil); done {\n			return err\n		}\n	}\n"),
    ], os.path.join(goroot, "src", "os")),
])
rep.update([patch("file_unix.go", [(
    "func Remove(name string) error {\n",
    "func Remove(name string) error {\n	if VerifPath != nil {\n		if err := VerifPath(\"remove\", name, true); err != nil {\n			return &PathError{Op: \"remove\", Path: name, Err: err}\n		}\n	}\n")],
    os.path.join(goroot, "src", "os"))])
# key stores: the same function of all of its parameters, without the work it is meant to cost
# (a copy of the module, for a replace directive: the module cache cannot be overlaid)
xc = os.environ.get("VERIF_XCRYPTO", "")
if xc:
    to = os.path.join(out, "xcrypto")
    shutil.rmtree(to, ignore_errors=True)
    shutil.copytree(xc, to)
    f = os.path.join(to, "scrypt", "scrypt.go")
    subprocess.check_call(["chmod", "-R", "u+w", to])
    t = open(f).read()
    old = "	xy := make([]uint32, 64*r)\n"
    if t.count(old) != 1:
        sys.exit("overlay.py: scrypt.go is not as expected")
    open(f, "w").write(t.replace(old, "	if N > 2 {\n		salt = append(append([]byte{}, salt...), byte(N), byte(N>>8), byte(N>>16), byte(N>>24))\n		N = 2\n	}\n" + old))
rep.update([patch("mfinal.go", [(
    "func SetFinalizer(obj any, finalizer any) {\n",
    "func SetFinalizer(obj any, finalizer any) {\n	if verifRand != 0 && getg().bubble != nil {\n		return // finalizers would run outside the simulation\n	}\n")])])
for d in ("math/rand", "math/rand/v2"):
    rep.update([patch("rand.go", [("//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.verifMathRand\n")],
                      os.path.join(goroot, "src", *d.split("/")))])
rep.update([patch("synctest.go", [(
    "func Wait() {\n", "func Wait() {\n	synctest.Wait()\n}\n\n// Run executes f in a new bubble.\nfunc Run(f func()) {\n	synctest.Run(f)\n}\n\nfunc wait1() {\n")],
    os.path.join(goroot, "src", "testing", "synctest"))])
maps = os.path.join(goroot, "src", "internal", "runtime", "maps")
for f in ("map.go", "runtime.go", "runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go"):
    t = open(os.path.join(maps, f)).read()
    old = "	m.writing ^= 1 // toggle, see comment on writing\n"
    if old not in t:
        sys.exit("overlay.py: maps/%s is not as expected" % f)
    t = t.replace(old, old + "	verifYield()\n")
    if f == "map.go":
        t += "\nfunc verifYield()\n"
    q = os.path.join(out, "maps_" + f)
    if not os.path.exists(q) or open(q).read() != t:
        open(q, "w").write(t)
    rep[os.path.join(maps, f)] = q
cmd = os.path.join(repo, "cmd", "relay")
# the program under test, with a point where another goroutine may run before every statement
gen = os.path.join(out, "yieldgen")
subprocess.check_call([os.path.join(goroot, "bin", "go"), "build", "-o", gen, "main.go"], cwd=os.path.join(os.path.dirname(os.path.abspath(__file__)), "yieldgen"),
                      env=dict(os.environ, GO111MODULE="off", GOFLAGS=""))
rep.update(json.loads(subprocess.check_output([gen, repo, os.path.join(out, "src"), "common", "chain", "cmd/relay=" + os.path.join(simdir, "relaycmd")])))
json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
