// The simulation child: runs one Case in virtual time and writes the Result.
// It reads case.json and writes result.json in the working directory.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
	_ "unsafe"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/google/uuid"
	"verifsim/scen"
)

//go:linkname verifReseed runtime.verifReseed
func verifReseed(seed uint64, yieldP, stallP, stmtN uint32)

//go:linkname deliver os/signal.verifDeliver
func deliver(os.Signal)

//go:linkname verifSave runtime.verifSave
func verifSave() (uint64, uint32, uint32)

//go:linkname verifRestore runtime.verifRestore
func verifRestore(uint64, uint32, uint32)

var (
	res        = &scen.Result{Stats: map[string]int{}}
	start      time.Time
	resultPath string
	finished   bool
)

func viol(kind string, props []string, f string, a ...any) {
	if finished || len(res.Viols) >= 40 {
		return
	}
	s, y, st := verifSave()
	defer verifRestore(s, y, st)
	msg := fmt.Sprintf("[%.4fs] ", time.Since(start).Seconds()) + fmt.Sprintf(f, a...)
	res.Viols = append(res.Viols, scen.Viol{Props: props, Kind: kind, Msg: msg})
	trace("VIOL %s %v %s", kind, props, msg)
}

func trace(f string, a ...any) {
	if finished {
		return
	}
	s, y, st := verifSave()
	defer verifRestore(s, y, st)
	if len(res.Trace) > 200000 {
		res.Trace = append(res.Trace[:0], res.Trace[100000:]...)
	}
	res.Trace = append(res.Trace, fmt.Sprintf("%11.6f ", time.Since(start).Seconds())+fmt.Sprintf(f, a...))
}

func stat(k string, n int) { res.Stats[k] += n }
func statMax(k string, n int) {
	if n > res.Stats[k] {
		res.Stats[k] = n
	}
}

func writeResult() {
	finished = true
	saveResult()
}

func saveResult() {
	s, y, st := verifSave()
	defer verifRestore(s, y, st)
	// the trace is always recorded, so that asking for it does not change the run
	out := *res
	if _, err := os.Stat(resultPath + ".trace"); err != nil {
		if len(res.Viols) == 0 {
			out.Trace = nil
		} else if len(res.Trace) > 1500 {
			out.Trace = res.Trace[len(res.Trace)-1500:]
		}
	}
	out.Virtual = time.Since(start).Seconds()
	b, _ := json.Marshal(out)
	if err := os.WriteFile(resultPath, b, 0o644); err != nil {
		os.Exit(7)
	}
}

type simLogger struct{}

func (simLogger) log(l, m string, a ...any) {
	if !finished {
		s, y, st := verifSave()
		defer verifRestore(s, y, st)
		trace("%s %s", l, fmt.Sprintf(m, a...))
	}
}
func (s simLogger) Tracef(m string, a ...any) { s.log("T", m, a...) }
func (s simLogger) Debugf(m string, a ...any) { s.log("D", m, a...) }
func (s simLogger) Infof(m string, a ...any)  { s.log("I", m, a...) }
func (s simLogger) Warnf(m string, a ...any)  { s.log("W", m, a...) }
func (s simLogger) Errorf(m string, a ...any) { s.log("E", m, a...) }

func main() {
	debug.SetMemoryLimit(3 << 30)
	// (fixed file names and buffer: memory layout must not depend on where a case is run)
	b := make([]byte, 4<<20)
	f, err := os.Open("case.json")
	if err != nil {
		os.Exit(5)
	}
	n, err := io.ReadFull(f, b)
	if n == 0 || n == len(b) {
		os.Exit(5)
	}
	f.Close()
	b = b[:n]
	resultPath = "result.json"
	var c scen.Case
	if err := json.Unmarshal(b, &c); err != nil {
		os.Exit(6)
	}
	cpu := uint64(scen.CPULimitS(c.Kind))
	syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: cpu, Max: cpu + 1})
	for i := 0; i < 100; i++ { // let the runtime's own goroutines settle
		runtime.Gosched()
	}
	time.Sleep(time.Millisecond)
	uuid.SetRand(rand.New(rand.NewSource(int64(c.Seed) ^ 0x1234)))
	streams.InitLogger(simLogger{}, streams.LogLevelError)
	start = time.Now()
	if c.StallP > 0 {
		emitLimit = time.Second
	}
	verifReseed(c.Seed, c.YieldP, c.StallP, c.StmtN)
	done := make(chan struct{})
	go func() {
		switch c.Kind {
		case "e2e":
			runE2E(c.E2E)
		case "sched":
			runSched(c.Sched)
		case "batch":
			runBatch(c.Batch)
		case "topics":
			runTopics(c.Topics)
		case "gcl":
			runGCL(c.GCL)
		case "config":
			runConfig(c.Config)
		case "rebal":
			runRebal(c.Rebal)
		case "prod":
			runProd(c.Prod)
		default:
			os.Exit(6)
		}
		close(done)
	}()
	select {
	case <-done:
		res.Complete = true
	case <-time.After(3 * time.Hour):
		viol("hang", []string{"*"}, "simulation did not end within 3 virtual hours")
	}
	writeResult()
	os.Exit(0)
}
