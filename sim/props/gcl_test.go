package props

import (
	"sort"

	"pgregory.net/rapid"
	"verifsim/scen"
)

// ---- C21: a global change log

func genGCL(t *rapid.T, faults bool) *scen.Case {
	c := &scen.Case{Kind: "gcl", Seed: uint64(intr(t, "seed", 0, 1<<30)), YieldP: pick(t, "yield", []uint32{0, 0, 2000})}
	g := &scen.GCL{Broker: scen.Broker{Nodes: intr(t, "nodes", 1, 3), Seed: int64(intr(t, "bseed", 0, 1<<20)), LatMinUs: 50, LatMaxUs: pick(t, "lat", []int{300, 3000, 30000}),
		MarkerMaxMs: pick(t, "marker", []int{0, 0, 20}), FetchMax: pick(t, "fetchmax", []int{0, 0, 150, 1000})}}
	c.GCL = g
	g.Parts = intr(t, "parts", 1, 4)
	g.Paused = chance(t, "paused", 4)
	g.Fork = rapid.Bool().Draw(t, "fork")
	g.SlowMs = pick(t, "slow", []int{0, 0, 1, 30})
	g.Errs = pick(t, "errs", []int{0, 0, 2})
	g.Compact = chance(t, "compact", 3)
	g.Broker.AutoCompact = g.Compact && rapid.Bool().Draw(t, "autocompact")
	wr := []string{"produce", "produce", "txn", "txn"}
	if g.Compact {
		wr = append(wr, "compact")
	}
	op := func(ops []string) scen.GCLOp {
		o := scen.GCLOp{Op: pick(t, "op", ops), Part: intr(t, "part", 0, g.Parts-1), N: intr(t, "n", 1, pick(t, "nmax", []int{2, 6, 40})), Key: intr(t, "key", 0, 3)}
		switch o.Op {
		case "produce", "txn":
			o.Spread = rapid.Bool().Draw(t, "spread")
			if o.Op == "txn" {
				o.Abort = chance(t, "abort", 3)
				o.OpenMs = pick(t, "open", []int{0, 0, 10, 700, 2500})
			}
		case "resume":
			o.N = pick(t, "off", []int{0, 0, 30, 50, 70, 100, 100})
		}
		return o
	}
	for i, k := 0, intr(t, "npre", 0, 5); i < k; i++ {
		g.Pre = append(g.Pre, op(wr))
	}
	at := 0
	ops := append(append([]string{}, wr...), "pause", "pauseall", "resume", "resume")
	for i, k := 0, intr(t, "nops", 0, 14); i < k; i++ {
		o := op(ops)
		at += pick(t, "gap", []int{0, 0, 0, 1, 3, 20, 300, 1500, 6000})
		o.At = at
		g.Ops = append(g.Ops, o)
	}
	if g.Paused {
		for p := 0; p < g.Parts; p++ {
			if !chance(t, "stay", 6) {
				g.Ops = append(g.Ops, scen.GCLOp{At: intr(t, "resat", 0, at+100), Op: "resume", Part: p, N: pick(t, "off", []int{0, 0, 50, 100})})
			}
		}
		sort.SliceStable(g.Ops, func(i, j int) bool { return g.Ops[i].At < g.Ops[j].At })
	}
	if chance(t, "stops", 4) {
		g.StopMs = intr(t, "stopms", 1, at+1000)
	}
	if faults {
		for i, k := 0, intr(t, "nfaults", 1, 3); i < k; i++ {
			f := scen.Fault{Inst: -1, Key: pick(t, "fkey", []int16{1, 1, 1, 2, 2, 3, -2}), Nth: intr(t, "nth", 1, 12), Count: intr(t, "fcount", 1, 3)}
			switch {
			case f.Key == -2:
				f.Kind = "err"
			case rapid.Bool().Draw(t, "net"):
				f.Kind = pick(t, "fk", []string{"close_before", "close_after", "delay"})
				f.DelayMs = pick(t, "fdelay", []int{50, 1000, 3000})
			default:
				f.Kind = "err"
				f.Code = pick(t, "fcode", retriable[f.Key])
			}
			g.Faults = append(g.Faults, f)
		}
	}
	return c
}

func init() {
	simReg("C21", "changelog", 6000, 150000, "records were received and partitions paused, resumed or repositioned, or transactions aborted", func(t *rapid.T) *scen.Case { return genGCL(t, false) }, func(s map[string]int) bool {
		return s["received"] > 0 && s["pauses"]+s["resumes"]+s["aborted"] > 0
	})
	simReg("C21", "faults", 3000, 80000, "records were received although requests or connections failed", func(t *rapid.T) *scen.Case { return genGCL(t, true) }, has("received", "faults"))
}
