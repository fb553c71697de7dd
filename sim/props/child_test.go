package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verifsim/scen"
)

// decode strips the frame headers that the fake-time runtime puts on its output.
func decode(b []byte) string {
	var o bytes.Buffer
	for i := 0; i < len(b); {
		if i+16 <= len(b) && b[i] == 0 && b[i+1] == 0 && b[i+2] == 'P' && b[i+3] == 'B' {
			n := int(b[i+12])<<24 | int(b[i+13])<<16 | int(b[i+14])<<8 | int(b[i+15])
			i += 16
			if i+n > len(b) {
				n = len(b) - i
			}
			o.Write(b[i : i+n])
			i += n
		} else {
			o.WriteByte(b[i])
			i++
		}
	}
	return o.String()
}

type limWriter struct{ b bytes.Buffer }

func (l *limWriter) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// simulate runs the case in a child process.
func simulate(c *scen.Case, trace bool) (*scen.Result, string, error) {
	watchFrom.Store(0)
	dir := env("VERIF_OUT", os.TempDir())
	cf, rf := filepath.Join(dir, "case.json"), filepath.Join(dir, "result.json")
	b, _ := json.Marshal(c)
	if err := os.WriteFile(cf, b, 0o644); err != nil {
		return nil, "", err
	}
	os.Remove(rf)
	cmd := exec.Command(os.Getenv("SIM_BIN"))
	cmd.Dir = dir
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "HOME=/root", "PATH=/usr/bin:/bin"}
	os.Remove(rf + ".trace")
	if trace { // (a file, not an argument: the run must not change)
		os.WriteFile(rf+".trace", nil, 0o644)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var se limWriter
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	tm := time.AfterFunc(600*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	tm.Stop()
	if err == nil {
		var r scen.Result
		rb, e := os.ReadFile(rf)
		if e == nil {
			e = json.Unmarshal(rb, &r)
		}
		if e != nil {
			return nil, "", fmt.Errorf("no result: %v", e)
		}
		return &r, "", nil
	}
	cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
	if cpu >= time.Duration(scen.CPULimitS(c.Kind)-2)*time.Second {
		return nil, fmt.Sprintf("livelock: the program used %.0fs of CPU without virtual time advancing", cpu.Seconds()), nil
	}
	text := decode(se.b.Bytes())
	if rb, e := os.ReadFile(rf); e == nil && cmd.ProcessState.ExitCode() > 0 {
		// a handler asked for the process to exit; what was found until then counts
		var r scen.Result
		if json.Unmarshal(rb, &r) == nil && r.Fatal {
			r.Complete = true
			return &r, "", nil
		}
	}
	if cmd.ProcessState.ExitCode() == 2 && (strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:")) {
		return nil, text, nil
	}
	return nil, "", fmt.Errorf("child: %v: %s", err, tailStr(text, 500))
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// judge turns the result of a simulation into the outcome for one property.
func judge(prop string, c *scen.Case, nonT func(map[string]int) bool) Outcome {
	trace := os.Getenv("VERIF_TRACE") != ""
	r, crash, err := simulate(c, trace)
	if os.Getenv("VERIF_TWICE") != "" && err == nil && r != nil { // (to look for nondeterminism)
		r2, _, _ := simulate(c, trace)
		if r2 == nil || fmt.Sprint(r.Virtual, r.Stats, r.Viols) != fmt.Sprint(r2.Virtual, r2.Stats, r2.Viols) {
			return Outcome{Err: fmt.Sprintf("not deterministic: %v, then %v", r, r2)}
		}
	}
	if err != nil {
		return Outcome{Err: err.Error()}
	}
	if crash != "" {
		lines := strings.Split(crash, "\n")
		if strings.HasPrefix(crash, "livelock") {
			return Outcome{Kind: "livelock", Msg: lines[0]}
		}
		first := ""
		for _, l := range lines {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				first = l
				break
			}
		}
		// the stack of the failing goroutine is the first one printed
		stack := crash
		if i := strings.Index(stack, "\ngoroutine "); i >= 0 {
			stack = stack[i+1:]
			if j := strings.Index(stack, "\n\n"); j >= 0 {
				stack = stack[:j]
			}
		}
		// franz-go 1.8.0 dereferences a nil cursor when only the second of its two ListOffsets
		// requests fails (kgo.Client.listOffsetsForBrokerLoad: errToLoaded(err) where err2 is set)
		if strings.Contains(stack, ".handleListOrEpochResults") && strings.Contains(stack, "(*cursor).setOffset") && !strings.Contains(stack, "go-kafka-event-source") {
			return Outcome{Stats: map[string]int{}, Notes: []string{"franz-go: nil cursor after a failed ListOffsets request"}}
		}
		if !strings.Contains(stack, "go-kafka-event-source") && !strings.Contains(stack, "franz-go") {
			return Outcome{Err: "simulation crashed outside the code under test: " + first + "\n" + tailStr(stack, 1500)}
		}
		return Outcome{Kind: "panic", Msg: first, Trace: tail(lines, 200), Stats: map[string]int{}}
	}
	o := Outcome{Stats: r.Stats, Notes: r.Notes, Trace: r.Trace}
	o.stat("max_virtual_s", int(r.Virtual))
	for _, v := range r.Viols {
		for _, p := range v.Props {
			// (after a failure another consumer takes over with nothing lost or duplicated)
			if p == prop || p == "*" || p == os.Getenv("VERIF_ALSO") || prop == "C12" && p == "C01" && r.Stats["failures"] > 0 {
				o.fail(v.Kind, "%s", v.Msg)
				break
			}
		}
	}
	if o.Kind == "" && !r.Complete {
		return Outcome{Err: "simulation incomplete"}
	}
	if o.Kind == "" {
		o.Trace = nil
		if trace {
			o.Trace = r.Trace
		}
		for _, v := range r.Viols {
			o.Notes = append(o.Notes, "other-property "+v.Kind+" "+strings.Join(v.Props, ","))
		}
	}
	o.NonT = nonT(r.Stats)
	return o
}
