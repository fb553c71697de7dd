package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Outcome of one generated case.
type Outcome struct {
	Kind  string // "" or the kind of violation
	Msg   string
	Trace []string
	Err   string // the harness itself failed: not a verdict
	NonT  bool   // non-trivial by the check's rule
	Stats map[string]int
	Notes []string
}

func (o *Outcome) fail(kind, f string, a ...any) {
	if o.Kind == "" {
		o.Kind, o.Msg = kind, fmt.Sprintf(f, a...)
	}
}
func (o *Outcome) stat(k string, n int) {
	if o.Stats == nil {
		o.Stats = map[string]int{}
	}
	o.Stats[k] += n
}

// Check is one generated-input search belonging to a property.
type Check struct {
	Prop, Name      string
	Quick, Thorough int // cases over all shards
	Rule            string
	run             func(t *testing.T, c *Check)
	replay          func(raw []byte) (Outcome, error)
}

var checks []*Check

type Replay struct {
	Property, Check string
	Kind, Message   string
	Case            json.RawMessage
	Trace           []string `json:",omitempty"`
}

type shardLine struct {
	Check  string
	NonT   bool
	Sample string `json:",omitempty"`
	Stats  map[string]int
}

type shardOut struct {
	Checks []*checkOut
	Err    string
}
type checkOut struct {
	Name, Rule    string
	Evals, NonT   int
	Hashes        []uint64 // of the non-trivial cases
	Planned       int
	Stats         map[string]int
	Samples       []string
	Violation     string
	Replay        string
	WallS         float64
	DeadlineHit   bool
	Notes         map[string]int
	HarnessErrors int
	HarnessErr    string
}

var shard shardOut

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

// The case being run is kept in a file, so that a crash of the whole process can be
// attributed to it; a case which does not end is a violation, too.
var (
	curFile   *os.File
	watchFrom atomic.Int64 // when the case began; 0: not watched (simulations run in a process of their own, with limits of their own)
	watchOnce sync.Once
	onHang    func(msg string)
)

const hangCPU, hangWall = 60 * time.Second, 150 * time.Second

func cpuTime() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

func watch(c *Check, raw []byte) {
	if curFile == nil {
		curFile, _ = os.Create(filepath.Join(env("VERIF_OUT", "."), "current.json"))
	}
	b := append([]byte(fmt.Sprintf("%s %s %d\n", c.Prop, c.Name, len(raw))), raw...)
	curFile.WriteAt(b, 0)
	watchFrom.Store(time.Now().UnixNano())
	watchOnce.Do(func() {
		go func() {
			var seen int64
			var cpu time.Duration
			for {
				time.Sleep(time.Second)
				from := watchFrom.Load()
				if from != seen {
					seen, cpu = from, cpuTime()
					continue
				}
				if from == 0 {
					continue
				}
				wall := time.Since(time.Unix(0, from))
				if used := cpuTime() - cpu; used > hangCPU && wall > hangCPU/2 || wall > hangWall {
					onHang(fmt.Sprintf("the case does not end: it has run for %.0fs and used %.0fs of CPU", wall.Seconds(), used.Seconds()))
				}
			}
		}()
	})
}

func safely[C any](run func(C) Outcome, c C) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			o = Outcome{Kind: "panic", Msg: fmt.Sprintf("%v", r), Trace: strings.Split(st, "\n")}
		}
	}()
	return run(c)
}

// reg registers a check: gen draws a case (pure data), run executes and judges it.
func reg[C any](prop, name string, quick, thorough int, rule string, gen func(*rapid.T) C, run func(C) Outcome) {
	c := &Check{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Rule: rule}
	c.replay = func(raw []byte) (Outcome, error) {
		var x C
		if err := json.Unmarshal(raw, &x); err != nil {
			return Outcome{}, err
		}
		onHang = func(m string) {
			fmt.Printf("REPRODUCED hang: %s\n", m)
			os.Exit(1)
		}
		watch(c, raw)
		defer watchFrom.Store(0)
		return safely(run, x), nil
	}
	c.run = func(t *testing.T, c *Check) {
		out := &checkOut{Name: c.Name, Rule: c.Rule, Stats: map[string]int{}, Notes: map[string]int{}}
		shard.Checks = append(shard.Checks, out)
		n := c.Quick
		if env("VERIF_TIER", "quick") == "thorough" {
			n = c.Thorough
		}
		if m := envInt("VERIF_CASES", 0); m > 0 {
			n = m
		}
		shards := envInt("VERIF_SHARDS", 1)
		n = (n + shards - 1) / shards
		out.Planned = n
		flag.Set("rapid.checks", strconv.Itoa(n))
		deadline := time.Now().Add(time.Duration(envInt("VERIF_BUDGET_S", 3600)) * time.Second)
		begin := time.Now()
		defer func() { out.WallS = time.Since(begin).Seconds() }()
		failed := false
		var shrinkEnd time.Time
		rapid.Check(t, func(rt *rapid.T) {
			if !failed && time.Now().After(deadline) {
				out.DeadlineHit = true
				return
			}
			x := gen(rt)
			if failed && time.Now().After(shrinkEnd) {
				// give the minimiser nothing more to accept, except the recorded case
				b, _ := json.Marshal(x)
				if lastFail != nil && string(b) == string(lastFail.Case) {
					rt.Fatalf("violation: %s", lastFail.Kind)
				}
				return
			}
			b, _ := json.Marshal(x)
			onHang = func(m string) {
				if lastFail == nil {
					rb, _ := json.MarshalIndent(&Replay{Property: c.Prop, Check: c.Name, Kind: "hang", Message: m, Case: b}, "", " ")
					os.WriteFile(filepath.Join(env("VERIF_OUT", "."), c.Name+"-fail.json"), rb, 0o644)
				}
				os.Exit(1)
			}
			watch(c, b)
			o := safely(run, x)
			watchFrom.Store(0)
			if o.Err != "" {
				out.HarnessErrors++
				out.HarnessErr = o.Err
				os.WriteFile(filepath.Join(env("VERIF_OUT", "."), "harness-error.json"), b, 0o644)
				return
			}
			if !failed {
				out.Evals++
				if o.NonT {
					out.NonT++
					h := fnv.New64a()
					h.Write(b)
					out.Hashes = append(out.Hashes, h.Sum64()>>1)
				}
				for k, v := range o.Stats {
					if strings.HasPrefix(k, "max_") {
						out.Stats[k] = max(out.Stats[k], v)
					} else {
						out.Stats[k] += v
					}
				}
				for _, nn := range o.Notes {
					if len(out.Notes) < 50 {
						out.Notes[nn]++
					}
				}
				if o.NonT && (out.NonT <= 2 || out.NonT%(n/2+1) == 0) && len(out.Samples) < 4 {
					s := string(b)
					if len(s) > 1500 {
						s = s[:1500] + "..."
					}
					out.Samples = append(out.Samples, s)
				}
			}
			if o.Kind != "" {
				if !failed {
					failed = true
					shrinkEnd = time.Now().Add(time.Duration(envInt("VERIF_SHRINK_S", 20)) * time.Second)
				}
				lastFail = &Replay{Property: c.Prop, Check: c.Name, Kind: o.Kind, Message: o.Msg, Case: b, Trace: tail(o.Trace, 400)}
				rb, _ := json.MarshalIndent(lastFail, "", " ")
				out.Replay = filepath.Join(env("VERIF_OUT", "."), c.Name+"-fail.json")
				os.WriteFile(out.Replay, rb, 0o644)
				out.Violation = o.Kind + ": " + o.Msg
				rt.Fatalf("violation: %s", o.Kind)
			}
		})
	}
	checks = append(checks, c)
}

var lastFail *Replay

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func TestMain(m *testing.M) {
	flag.Parse()
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", fmt.Sprintf("%ds", envInt("VERIF_SHRINK_S", 20)))
	code := m.Run()
	os.Exit(code)
}

// TestProp runs every check of the property named by VERIF_PROP.
func TestProp(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP not set")
	}
	var wg sync.WaitGroup
	defer wg.Wait()
	defer func() {
		b, _ := json.Marshal(shard)
		os.WriteFile(filepath.Join(env("VERIF_OUT", "."), "shard.json"), b, 0o644)
	}()
	only := os.Getenv("VERIF_CHECK")
	for _, c := range checks {
		if c.Prop == prop && (only == "" || only == c.Name) {
			c := c
			lastFail = nil
			t.Run(c.Name, func(t *testing.T) { c.run(t, c) })
		}
	}
}

// TestReplay re-runs the case of a replay file.
func TestReplay(t *testing.T) {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		t.Skip()
	}
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		t.Fatal(err)
	}
	for _, c := range checks {
		if c.Prop == r.Property && c.Name == r.Check {
			o, err := c.replay(r.Case)
			if err != nil {
				t.Fatal(err)
			}
			if os.Getenv("VERIF_TRACE") != "" {
				fmt.Println(strings.Join(o.Trace, "\n"))
			}
			if o.Kind != "" {
				fmt.Printf("REPRODUCED %s: %s\n", o.Kind, o.Msg)
			} else {
				fmt.Printf("NOT-REPRODUCED stats %v err %q\n", o.Stats, o.Err)
			}
			return
		}
	}
	t.Fatal("no such check")
}
