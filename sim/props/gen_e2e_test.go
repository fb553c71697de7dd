package props

import (
	"fmt"
	"slices"
	"sort"

	"pgregory.net/rapid"
	"verifsim/scen"
)

type profile struct {
	modes      []string
	ops        []string // relative weights by repetition
	insts      [2]int
	parts      [2]int
	steps      [2]int
	strategies [][]int
	faults     []string // kinds of fault keys to use
	maxFaults  int
	interj     [2]int
	burst      int // events per produce step
	delays     []int
	gaps       []int
	commitOffs bool
	metrics    bool
	deser      bool
	typed      bool
	batchCfg   string // "" ordinary | "tight"
	split      bool
	hist       bool
	yields     []uint32
	noStalls   bool
	latMaxUs   int
	strict     string
	revokeMs   []int
	sizes      []int
	bigOuts    bool
	every      []int
	chg, delP  int
	statefault bool
	txnErr     bool
	zeroEos    bool
	slowInit   bool
	flood      bool
	bpShapes   bool
	slow       bool
	rush       bool
	assignIj   bool
	waits      bool
}

func pick[T any](t *rapid.T, l string, xs []T) T { return rapid.SampledFrom(xs).Draw(t, l) }
func intr(t *rapid.T, l string, a, b int) int    { return rapid.IntRange(a, b).Draw(t, l) }
func chance(t *rapid.T, l string, n int) bool    { return rapid.IntRange(0, n-1).Draw(t, l) == n-1 }

var allModes = []string{"sync", "sync", "sync", "async", "async2", "mix", "sched", "batch", "bp"}
var incr = [][]int{{3}}
var anyStrategy = [][]int{{3}, {3}, {0}, {1}, {2}, {3, 2}, {3, 0}}

func base() profile {
	return profile{modes: allModes, ops: []string{"produce", "produce", "produce", "txn", "start", "stop", "crash", "sleep"}, insts: [2]int{1, 3}, parts: [2]int{1, 5},
		steps: [2]int{1, 24}, strategies: anyStrategy, burst: 6, delays: []int{0, 0, 0, 1, 3, 20, 200}, gaps: []int{0, 1, 5, 20, 100, 400, 1500, 4000},
		yields: []uint32{0, 200, 2000, 9000}, latMaxUs: 8000, every: []int{20, 100, 700, 3000}}
}

func genEvent(t *rapid.T, p *profile, parts int) scen.Event {
	e := scen.Event{Part: int32(intr(t, "part", 0, parts-1)), Key: fmt.Sprintf("k%d", intr(t, "key", 0, 3)), Mode: pick(t, "mode", p.modes), Outs: intr(t, "outs", 0, 3),
		Dest: int32(intr(t, "dest", -1, 1)), Chg: intr(t, "chg", 0, max(p.chg, 2))}
	if p.bigOuts && chance(t, "big", 4) {
		e.Outs = intr(t, "outs2", 4, 30)
	}
	e.Delay = pick(t, "delay", p.delays)
	if p.slow && chance(t, "slow", 20) {
		e.Delay = 7000 // longer than the session timeout
	}
	if e.Chg > 0 {
		e.Del = chance(t, "del", max(p.delP, 4-p.chg))
		e.Aux = pick(t, "aux", []int{0, 0, 0, 0, 0, 1, 1, 2})
	}
	if len(p.sizes) > 0 {
		e.Size = pick(t, "size", p.sizes)
	}
	if p.bpShapes && e.Mode == "bp" {
		e.BP = pick(t, "bpshape", []int{0, 0, 0, 4, 1, 2, 3, 6})
		e.Outs = intr(t, "bpouts", 0, 5)
	}
	if p.typed {
		e.Type = pick(t, "typ", []string{"", "t1", "t2", "t3", "t4", "t1", "t2", "t3", "t4", "unknown"})
		if p.deser && e.Type != "" && e.Type != "unknown" {
			e.Bad = chance(t, "bad", 3)
		}
	}
	return e
}

var retriable = map[int16][]int16{
	0:  {6, 7, 3, 5}, // produce: not leader, timeout, unknown topic, leader unavailable
	1:  {6, 3},
	2:  {6, 5},
	3:  {5},
	10: {15, 14},
	11: {14, 16},
	14: {14, 16, 27},
	12: {27, 16, 14},
	22: {14, 16, 51},
	24: {14, 16, 51, 3},
	26: {14, 16, 51},
	9:  {14, 16},
	8:  {14, 16},
}

const bpTopic = "bp"

func genFault(t *rapid.T, p *profile) scen.Fault {
	f := scen.Fault{Inst: intr(t, "finst", -1, 2), Nth: intr(t, "nth", 1, 25), Count: 1}
	switch pick(t, "fkind", p.faults) {
	case "net": // the connection breaks before or after the request took effect
		f.Key = pick(t, "fkey", []int16{0, 0, 1, 3, 11, 12, 14, 22, 24, 24, 26, 26, 10, 8, 9, 2})
		f.Kind = pick(t, "fk", []string{"close_before", "close_after"})
		f.Count = intr(t, "fcount", 1, 2)
	case "err":
		f.Key = pick(t, "fkey", []int16{0, 0, 1, 11, 12, 14, 22, 24, 24, 26, 26, 10, 9, 2})
		f.Kind = "err"
		f.Code = pick(t, "code", retriable[f.Key])
		f.Txn = f.Key == 22
		f.Count = intr(t, "fcount", 1, 3)
	case "delay":
		f.Key = pick(t, "fkey", []int16{0, 0, 1, 24, 26, 26, 11, 14, 2, 22})
		f.Kind = "delay"
		f.DelayMs = pick(t, "fdelay", []int{50, 300, 1000, 2500})
	case "crash":
		f.Key = pick(t, "fkey", []int16{0, 0, 24, 26, 26, 26, 1, 11, 14})
		f.Kind = pick(t, "fk", []string{"crash_before", "crash_after"})
	case "bperr": // a record of a batch producer cannot be produced
		f.Key, f.Kind, f.Topic = 0, "err", bpTopic
		f.Code = pick(t, "code", []int16{10, 87, 29})
		f.Nth = intr(t, "nth", 1, 8)
		f.Count = intr(t, "fcount", 1, 3)
		return f
	case "fatal": // a transaction cannot be completed
		f.Key = pick(t, "fkey", []int16{0, 0, 24, 26})
		f.Kind = "err"
		f.Txn = f.Key == 0
		f.Code = pick(t, "code", map[int16][]int16{0: {87, 10, 29, 47}, 24: {53, 47}, 26: {48, 47, 53}}[f.Key])
	}
	if chance(t, "late", 3) {
		f.Nth += intr(t, "nth2", 0, 120)
	}
	return f
}

func genE2E(t *rapid.T, p profile) *scen.Case {
	c := &scen.Case{Kind: "e2e", Seed: uint64(intr(t, "seed", 0, 1<<30)), YieldP: pick(t, "yield", p.yields)}
	if !p.noStalls {
		c.StallP = pick(t, "stall", []uint32{0, 0, 0, 60, 600, 4000})
	}
	c.StmtN = pick(t, "stmt", []uint32{0, 0, 0, 4, 40, 400})
	sc := &scen.E2E{Strict: p.strict}
	c.E2E = sc
	sc.Parts = intr(t, "parts", p.parts[0], p.parts[1])
	sc.OutParts = intr(t, "outparts", 1, 3)
	sc.ClPart = intr(t, "clparts", 1, 5)
	lat := pick(t, "lat", []int{300, 1000, 3000, p.latMaxUs})
	sc.Broker = scen.Broker{Nodes: intr(t, "nodes", 1, 3), Seed: int64(intr(t, "bseed", 0, 1<<20)), LatMinUs: intr(t, "latmin", 50, 250), LatMaxUs: lat,
		MarkerMaxMs: pick(t, "marker", []int{0, 0, 2, 20}), RebalDelMs: pick(t, "rebdel", []int{50, 400, 2000}), FetchMax: pick(t, "fetchmax", []int{0, 0, 400, 3000})}
	if p.strict != "C22" && chance(t, "spikes", 4) {
		sc.Broker.SpikeP = 0.01
		sc.Broker.SpikeMaxMs = 300
	}
	if p.strict == "C10" && chance(t, "idle", 4) {
		sc.IdleS = 16
	}
	if p.commitOffs && chance(t, "idle", 4) {
		sc.IdleS = 8
	}
	if p.split {
		sc.StateSplit = chance(t, "split", 3)
	}
	if p.typed {
		sc.Types = pick(t, "types", []int{4, 4, 3, 2, 1, 0})
	}
	sc.Preset = rapid.Bool().Draw(t, "preset")
	if p.hist && chance(t, "hist", 3) {
		sc.StartOff = pick(t, "startoff", []string{"at", "time", "group", "trim", "end"})
		least := 1 << 20
		for i := 0; i < sc.Parts; i++ {
			h := intr(t, "histn", 0, 8)
			sc.Hist = append(sc.Hist, h)
			sc.From = append(sc.From, intr(t, "histfrom", 0, h))
			least = min(least, h)
			if sc.StartOff == "end" {
				sc.From[i] = h
			}
		}
		if sc.StartOff == "at" {
			from := intr(t, "histat", 0, least)
			for i := range sc.From {
				sc.From[i] = from
			}
		}
	}
	strat := pick(t, "strategies", p.strategies)
	if sc.StartOff != "" && sc.StartOff != "trim" && (slices.Contains(strat, 0) || slices.Contains(strat, 1)) {
		// With an eager protocol, franz-go assigns offsets it is still asking for when the partitions are revoked, and goes
		// on from where that fetch ends when they are assigned again. Asking takes as long as reading the commit log here.
		strat = []int{3}
	}
	n := intr(t, "insts", p.insts[0], p.insts[1])
	for i := 0; i < n; i++ {
		in := scen.Inst{Strategies: strat, SchedConc: intr(t, "sconc", 1, 4), SchedDepth: intr(t, "sdepth", 0, 4), SchedKeys: intr(t, "skeys", 1, 4),
			BatchMax: intr(t, "bmax", 1, 5), BatchConc: intr(t, "bconc", 1, 3), BatchDelay: pick(t, "bdelay", []int{0, 2, 20})}
		in.Pool = intr(t, "pool", 1, 4)
		in.Pending = intr(t, "pending", 1, max(1, in.Pool-1))
		if chance(t, "manypending", 8) {
			in.Pending = intr(t, "pending2", 1, 6)
		}
		in.Target = pick(t, "target", []int{1, 2, 10, 100})
		in.Max = in.Target * pick(t, "maxf", []int{1, 2, 10})
		if p.batchCfg == "tight" || p.batchCfg == "mixed" && rapid.Bool().Draw(t, "tight") || p.batchCfg == "" && chance(t, "tight", 6) {
			in.Target = intr(t, "target2", 1, 6)
			in.Max = in.Target + intr(t, "max2", 0, 6)
		}
		in.DelayMs = pick(t, "bd", []int{1, 5, 20, 100})
		if p.strict == "C22" && rapid.Bool().Draw(t, "longdelay") {
			in.DelayMs = pick(t, "bd2", []int{100, 300, 1000})
			in.Target = pick(t, "target3", []int{2, 10, 50, 200})
			in.Max = in.Target * pick(t, "maxf3", []int{1, 2, 10})
		}
		if p.commitOffs {
			in.CommitOffs = !chance(t, "nocommit", 4)
		}
		if p.waits && chance(t, "waits", 2) {
			in.Wait = pick(t, "wait", []int{1, 2, 3, 4, 5, 6})
			if i > 0 { // (signals belong to a process)
				in.Wait = pick(t, "wait2", []int{1, 6})
			}
		}
		if p.metrics {
			in.Metrics = pick(t, "metrics", []string{"fast", "slow", "slow"})
			if in.Metrics == "slow" {
				in.MetricMs = pick(t, "metricms", []int{5, 100, 3000, 900000})
			}
		}
		if p.deser {
			in.DeserErr = pick(t, "deser", []string{"", "continue", "continue", "continue", "fail", "fail", "fail", "exit"})
			in.LateDef = chance(t, "latedef", 4)
		}
		if p.slowInit && chance(t, "slowinit", 3) {
			in.InitMs = pick(t, "initms", []int{0, 5, 50, 300, 1000, 4000})
			in.CfgMs = pick(t, "cfgms", []int{0, 0, 1, 5, 50, 400})
		}
		in.ZeroEos = p.zeroEos && chance(t, "zeroeos", 10)
		if p.txnErr {
			in.TxnErr = pick(t, "txnerr", []string{"", "", "", "nil", "nil", "exit"})
		}
		if p.assignIj && chance(t, "assignij", 3) {
			in.AssignIj = pick(t, "assignijms", []int{1, 2, 4, 10, 30})
		}
		if len(p.revokeMs) > 0 {
			in.RevokeMs = pick(t, "revokems", p.revokeMs)
			in.ActMs = pick(t, "actms", []int{0, 0, 5, 300})
		}
		sc.Insts = append(sc.Insts, in)
	}
	for i, k := 0, intr(t, "interj", p.interj[0], p.interj[1]); i < k; i++ {
		ij := scen.Interj{EveryMs: pick(t, "every", p.every), Outs: intr(t, "ijouts", 0, 2), Chg: intr(t, "ijchg", 0, 1), Async: chance(t, "ijasync", 3)}
		ij.JitterMs = ij.EveryMs * intr(t, "jit", 0, 9) / 10
		ij.Delay = pick(t, "ijdelay", []int{0, 0, 2, 50})
		sc.Interj = append(sc.Interj, ij)
	}
	ops := p.ops
	if p.flood && chance(t, "floods", 3) {
		ops = append(append([]string{}, ops...), "flood")
	}
	few := false
	if p.rush && chance(t, "rushes", 12) {
		// more events at once than any queue holds, mostly with configurations that let them all be pending
		ops = append(append([]string{}, ops...), "rush")
		if chance(t, "rfew", 2) { // or with few places for pending events
			few = true
			for i := range sc.Insts {
				in := &sc.Insts[i]
				in.Pool, in.Max = intr(t, "fpool", 1, 2), intr(t, "fmax", 1, 3)
				in.Target, in.Pending = in.Max, in.Pool
			}
		}
		for i := range sc.Insts {
			if few {
				break
			}
			sc.Insts[i].Target = pick(t, "rtarget", []int{100, 1000})
			sc.Insts[i].Max = 1000
		}
	}
	sc.Steps = append(sc.Steps, scen.Step{Op: "start", Inst: 0})
	at, rushes, up := 0, 0, make([]bool, n)
	up[0] = true
	ns := intr(t, "nsteps", p.steps[0], p.steps[1])
	id, never := 0, 0
	for i := 0; i < ns; i++ {
		at += pick(t, "gap", p.gaps)
		s := scen.Step{At: at, Op: pick(t, "op", ops), Inst: intr(t, "inst", 0, n-1)}
		// mostly operations on instances that can have them
		switch s.Op {
		case "start", "stop", "crash", "stop2", "stopnow", "interject", "interjectall", "interjectallsync", "signal":
			for k := 0; k < n && up[s.Inst] == (s.Op == "start"); k++ {
				s.Inst = (s.Inst + 1) % n
			}
			if up[s.Inst] == (s.Op == "start") && s.Op != "start" {
				s.Op = "start"
			}
			if s.Op[:2] == "st" || s.Op == "crash" {
				up[s.Inst] = s.Op == "start"
			}
		}
		switch s.Op {
		case "sleep":
			at += pick(t, "sleep", []int{500, 3000, 9000})
			continue
		case "produce", "txn":
			k := intr(t, "nev", 1, p.burst)
			for j := 0; j < k; j++ {
				e := genEvent(t, &p, sc.Parts)
				id++
				e.ID = id
				if e.Mode == "never" {
					if never++; never > 2 {
						e.Mode = "sync"
					}
				}
				s.Events = append(s.Events, e)
			}
			if s.Op == "txn" {
				s.Commit = !chance(t, "abort", 3)
				s.OpenMs = pick(t, "open", []int{0, 0, 10, 700})
			}
		case "interject", "interjectall", "interjectallsync":
			s.Part = int32(intr(t, "ipart", 0, sc.Parts))
			s.Outs = intr(t, "iouts", 0, 2)
			s.N = intr(t, "ichg", 0, 1)
			s.Delay = pick(t, "idelay", []int{0, 0, 2, 50, 1500})
			s.Async = s.Op == "interject" && chance(t, "iasync", 3)
		case "stop2":
			s.N = intr(t, "stopkind", 0, 2)
			s.Delay = pick(t, "stopdelay", []int{0, 5, 300, 4000})
		case "signal":
			s.Inst = 0
			s.N = intr(t, "signal", 0, 3)
		case "flood":
			s.N = pick(t, "floodn", []int{10, 3000})
		case "trickle":
			// a steady stream of single events, each arriving before the batch delay of the one before has passed
			d := sc.Insts[0].DelayMs
			gap := max(1, d*intr(t, "trgap", 3, 9)/10)
			k := intr(t, "trn", 2, min(60, 8+(2*d+700)/gap))
			for j := 0; j < k; j++ {
				id++
				sc.Steps = append(sc.Steps, scen.Step{At: at, Op: "produce", Events: []scen.Event{{ID: id, Part: int32(intr(t, "trpart", 0, sc.Parts-1)), Key: pick(t, "trkey", []string{"a", "b", "c"}), Outs: intr(t, "trouts", 0, 1), Mode: "sync"}}})
				at += gap
			}
			continue
		case "rush":
			if rushes++; rushes > 2 {
				continue
			}
			k, part, mode, d := intr(t, "rn", 1, 900), int32(intr(t, "rpart", 0, sc.Parts-1)), pick(t, "rmode", []string{"async", "async", "async2", "sched", "batch", "sync"}), pick(t, "rdelay", []int{1, 20, 60})
			spread := int32(1)
			if few || chance(t, "rspread", 2) {
				spread = int32(sc.Parts)
			}
			outs, slow := intr(t, "routs", 0, 1), pick(t, "rslow", []int{20, 100, 450, 600})
			for j := 0; j < k; j++ {
				id++
				e := scen.Event{ID: id, Part: (part + int32(j)%spread) % int32(sc.Parts), Key: fmt.Sprintf("k%d", j%4), Mode: mode, Delay: d, Outs: outs}
				switch {
				case j%slow == slow-1: // handlers during which the others complete
					e.Mode, e.Delay = "sync", d*2
				case mode == "sync":
					e.Delay = 0
				case mode == "sched" || mode == "batch":
					e.Delay = 1
				}
				s.Op, s.Events = "produce", append(s.Events, e)
			}
		case "compact":
			s.Part = int32(intr(t, "cpart", 0, sc.Parts-1))
			s.N = intr(t, "keep", 0, 6)
		}
		sc.Steps = append(sc.Steps, s)
	}
	sort.SliceStable(sc.Steps, func(i, j int) bool { return sc.Steps[i].At < sc.Steps[j].At })
	// (the transaction of several slow handlers must not outlive its timeout of 30 s)
	slept := 0
	for _, st := range sc.Steps {
		for i := range st.Events {
			if e := &st.Events[i]; e.Delay >= 100 {
				if slept+e.Delay > 20000 {
					e.Delay = 3
				}
				slept += e.Delay
			}
		}
	}
	if p.strict != "C10" {
		sc.Probe = max(0, intr(t, "probe", -2, 3))
	}
	if len(p.faults) > 0 && p.maxFaults > 0 {
		for i, k := 0, intr(t, "nfaults", 0, p.maxFaults); i < k; i++ {
			sc.Faults = append(sc.Faults, genFault(t, &p))
		}
		// (lost answers and definitive refusals do not go together, see genProd)
		for _, f := range sc.Faults {
			for i := range sc.Faults {
				if g := &sc.Faults[i]; f.Topic == bpTopic && g.Kind == "close_after" {
					g.Kind = "close_before"
				}
			}
		}
	}
	return c
}

func e2e(prop, name string, quick, thorough int, rule string, p profile, nonT func(map[string]int) bool) {
	reg(prop, name, quick, thorough, rule, func(t *rapid.T) *scen.Case { return genE2E(t, p) }, func(c *scen.Case) Outcome { return judge(prop, c, nonT) })
}
