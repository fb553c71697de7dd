#!/usr/bin/env python3
"""Writes patched copies of a few Go runtime/sync files and the overlay.json that
`go build -overlay` takes, so that a simulation binary (built with -tags faketime,
run with GOMAXPROCS=1) is a pure function of its input:
 * every runtime random number (select choice, map seeds, math/rand seeds, run-queue
   shuffling) comes from one counter that the program reseeds (runtime.verifReseed);
 * contention between runtime threads consumes none of them;
 * the system monitor thread does not run, so wall-clock preemption is off and only one
   thread ever runs Go code;
 * woken goroutines are queued in a random order, and channel operations, selects and
   mutex acquisitions outside the Kafka client library yield with a probability the program
   sets (runtime.verifReseed); those of the code under test are also stalled for a while of
   virtual time, with another probability;
 * with a third one, they yield or are stalled between any two statements of the code under test
   (and in the middle of x++ and x += y), which is compiled from copies that rt/instr writes.
The repository under test is not touched, and the copies say the same as the original.

    gen_overlay.py OUTDIR [REPOSITORY]"""
import json, os, subprocess, sys
out = sys.argv[1]
repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
os.makedirs(out, exist_ok=True)
rep = {}
def patch(rel, *subs):
    src = f"{goroot}/src/{rel}"
    t = open(src).read()
    for a, b in subs:
        if t.count(a) != 1:
            sys.exit(f"gen_overlay: {rel}: pattern occurs {t.count(a)} times: {a!r}")
        t = t.replace(a, b)
    dst = f"{out}/{rel.replace('/', '_')}"
    if not os.path.exists(dst) or open(dst).read() != t:
        open(dst, "w").write(t)
    rep[src] = dst
patch("runtime/rand.go",
 ("\t\"internal/goarch\"\n", "\t\"internal/goarch\"\n\t\"internal/stringslite\"\n"),
 ("\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n"),
 ("func rand() uint64 {\n", "func rand() uint64 {\n\tif verifOn {\n\t\treturn verifNext()\n\t}\n"),
 ("func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n\tif verifOn {\n\t\treturn uint32(verifNext() >> 32)\n\t}\n"),
 ("func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n\tif verifOn {\n\t\treturn verifNext()\n\t}\n"),
 # (threads are started whenever the operating system makes it necessary)
 ("\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tmp.cheaprand, mp.cheaprand64 = 1, 1\n"),
 ("var readRandomFailed bool\n", '''var readRandomFailed bool

const verifOn = true

var verifState uint64 = 0x1234567
var verifYieldP, verifStallP uint32

//go:nosplit
func verifNext() uint64 {
	verifState += 0x9e3779b97f4a7c15
	z := verifState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// verifReseed restarts the random state and sets the probabilities (of 65536) of yields and stalls.
//
//go:linkname verifReseed
func verifReseed(seed uint64, yieldP, stallP, stmtN uint32) {
	verifState = seed
	verifStmtN, verifLeft = uint64(stmtN), ^uint64(0)
	if stmtN > 0 {
		verifLeft = 1
	}
	verifYieldP, verifStallP = yieldP, stallP
	mp := acquirem()
	mp.p.ptr().schedtick = 1
	releasem(mp)
}

// verifSave and verifRestore bracket code (tracing) that must not disturb the run.
//
//go:linkname verifSave
func verifSave() (uint64, uint32, uint32) {
	s, y, st := verifState, verifYieldP, verifStallP
	verifYieldP, verifStallP = 0, 0
	return s, y, st
}

//go:linkname verifRestore
func verifRestore(s uint64, y, st uint32) { verifState, verifYieldP, verifStallP = s, y, st }

var verifStmtN, verifLeft uint64 = 0, 1 << 63

// VerifStmt precedes every statement of the code under test.
func VerifStmt() {
	verifLeft--
	if verifLeft == 0 {
		verifStmt()
	}
}

func verifStmt() {
	z := verifNext()
	verifLeft = 1 + (z>>16)%(2*verifStmtN)
	gp := getg()
	mp := gp.m
	if gp == mp.g0 || gp == mp.gsignal || mp.curg != gp || mp.locks != 0 || mp.preemptoff != "" || mp.dying != 0 {
		return
	}
	if verifStallP > 0 && z%16 == 0 {
		z = verifNext()
		timeSleep(int64(10000+(z>>32)%10000) << (z % 11))
		return
	}
	mcall(gosched_m)
}

//go:linkname verifYield
func verifYield() {
	if verifYieldP+verifStallP == 0 {
		return
	}
	r := uint32(verifNext() >> 48)
	if r >= verifYieldP+verifStallP {
		return
	}
	gp := getg()
	mp := gp.m
	if gp == mp.g0 || gp == mp.gsignal || mp.curg != gp || mp.locks != 0 || mp.preemptoff != "" || mp.dying != 0 {
		return
	}
	// not inside the client library: it is not under test, and has lost-wakeup windows of its own
	var pcs [6]uintptr
	n := callers(1, pcs[:])
	for i := 0; i < n; i++ {
		name := funcname(findfunc(pcs[i] - 1))
		if stringslite.HasPrefix(name, "runtime.") || stringslite.HasPrefix(name, "sync.") || stringslite.HasPrefix(name, "internal/sync.") {
			continue
		}
		if stringslite.HasPrefix(name, "github.com/twmb/") {
			return
		}
		if r >= verifYieldP && !stringslite.HasPrefix(name, "github.com/aws/go-kafka-event-source") {
			return
		}
		break
	}
	if r >= verifYieldP {
		// as if the operating system had taken the processor away: 10 us to 20 ms
		z := verifNext()
		timeSleep(int64(10000+(z>>32)%10000) << (z % 11))
		return
	}
	mcall(gosched_m)
}
'''))
patch("runtime/proc.go",
 ("const randomizeScheduler = raceenabled\n", "const randomizeScheduler = true\n"),
 ("const haveSysmon = GOARCH != \"wasm\"\n", "const haveSysmon = false\n"),
 ("\tif !haveSysmon && next {\n", "\tif false && !haveSysmon && next {\n"),
 ("stealOrder.start(cheaprand())", "stealOrder.start(uint32(mp_verifSteal()))"),
  ("func stealWork(now int64) ", "func mp_verifSteal() uint32 { return 0 }\n\nfunc stealWork(now int64) "),
 ("func retake(now int64) uint32 {\n\tn := 0\n", "func retake(now int64) uint32 {\n\tif faketime != 0 {\n\t\treturn 0\n\t}\n\tn := 0\n"))
# (contention between the runtime's own threads must not consume random numbers)
patch("runtime/lock_spinbit.go", ("antiStarve := cheaprandn(mutexTailWakePeriod) == 0", "antiStarve := false"))
patch("runtime/mprof.go", ("\tif cheaprandn(gTrackingPeriod) == 0 {\n\t\treturn nanotime()", "\tif false {\n\t\treturn nanotime()"),
 ("\tif prev := prof.cycles; prev > 0 {\n", "\tif prev := prof.cycles; prev >= 0 {\n\t\treturn\n"))
# (this cache belongs to a thread, and which thread runs Go code is up to the operating system)
patch("runtime/symtab.go", ("ci := cheaprandn(uint32(len(cache.entries[ck])))", "ci := uint32(targetpc>>3) % uint32(len(cache.entries[ck]))"))
patch("runtime/chan.go",
 ("\tchansend(c, elem, true, sys.GetCallerPC())\n}\n", "\tverifYield()\n\tchansend(c, elem, true, sys.GetCallerPC())\n}\n"),
 ("\tchanrecv(c, elem, true)\n}\n", "\tverifYield()\n\tchanrecv(c, elem, true)\n}\n"),
 ("\t_, received = chanrecv(c, elem, true)\n\treturn\n}\n", "\tverifYield()\n\t_, received = chanrecv(c, elem, true)\n\treturn\n}\n"))
patch("runtime/select.go",
 ("block bool) (int, bool) {\n\tgp := getg()\n", "block bool) (int, bool) {\n\tverifYield()\n\tgp := getg()\n"))
patch("sync/mutex.go",
 ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tverifYield()\n"),
 ("// A Locker represents", "//go:linkname verifYield runtime.verifYield\nfunc verifYield()\n\n// A Locker represents"),
 ("\tisync \"internal/sync\"\n", "\tisync \"internal/sync\"\n\t_ \"unsafe\"\n"))
patch("sync/rwmutex.go",
 ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tverifYield()\n"))
# (signals of the simulated process: delivered by the simulation, and no thread waits for real ones)
patch("os/signal/signal_unix.go",
 ("\twatchSignalLoop = loop\n", "\t_ = loop\n"),
 ("const (\n\tnumSig", "//go:linkname verifDeliver\nfunc verifDeliver(s os.Signal) { process(s) }\n\nconst (\n\tnumSig"),
 ("\t\"syscall\"\n", "\t\"syscall\"\n\t_ \"unsafe\"\n"))
env = {k: v for k, v in os.environ.items() if k not in ("GOFLAGS", "GOOS", "GOARCH")}
here = os.path.dirname(os.path.abspath(__file__))
for l in subprocess.check_output(["go", "run", here + "/instr/main.go", out] + [f"{repo}/streams{d}" for d in ("", "/sak", "/stores")], text=True, env=env, cwd=out).splitlines():
    src, dst = l.split("\t")
    rep[src] = dst
json.dump({"Replace": rep}, open(f"{out}/overlay.json", "w"), indent=1)
