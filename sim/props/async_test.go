package props

import (
	"pgregory.net/rapid"
	"verifsim/scen"
)

func genSeed(t *rapid.T, c *scen.Case) *scen.Case {
	c.Seed = rapid.Uint64Range(0, 1<<40).Draw(t, "seed")
	c.YieldP = pick(t, "yield", []uint32{0, 2000, 9000, 20000, 33000})
	return c
}

var durs = []int{0, 0, 1, 2, 5, 20, 300}

func genSched(t *rapid.T) *scen.Case {
	s := &scen.Sched{Conc: intr(t, "conc", 1, 5), Depth: pick(t, "depth", []int{0, 1, 2, 3, 10}), Keys: pick(t, "keys", []int{0, 1, 2, 3, 5, 10}), NilFinal: chance(t, "nilfinal", 6), Parts: intr(t, "parts", 1, 4)}
	if chance(t, "badconfig", 40) {
		s.Conc = intr(t, "badconc", -1, 1)
		s.Depth = intr(t, "baddepth", -2, 1)
	}
	nk := pick(t, "nkeys", []int{1, 2, 4, 8, 16})
	limits := chance(t, "limits", 2)
	ds := durs
	if chance(t, "quick", 3) {
		ds = []int{0}
	}
	n := intr(t, "nops", 1, 60)
	low := 0
	if chance(t, "busy", 3) {
		// more work than there are workers and keys for: calls wait when the limits change, and when it is closed
		s.Conc, s.Keys, s.Parts = intr(t, "conc2", 1, 2), intr(t, "keys2", 1, 4), intr(t, "parts2", 2, 4)
		nk, low, ds = 16, 2, []int{5, 20, 300}
	}
	for i := 0; i < n; i++ {
		k := intr(t, "op", low, 9)
		op := scen.SchedOp{Op: "schedule", Part: intr(t, "part", 0, s.Parts-1)}
		switch {
		case k == 0 || k == 1:
			op.Op, op.N = "sleep", pick(t, "sleep", []int{1, 2, 10, 50, 400})
		case limits && k == 2:
			op.Op, op.Part = "maxkeys", -1
			op.N = pick(t, "max", []int{1, 2, 3, 4, 6, 12, 20})
		case limits && k == 3:
			op.Op, op.Part = "depth", -1
			op.N = pick(t, "newdepth", []int{0, 1, 2, 3, 10})
		case limits && k == 4:
			op.Op, op.Part, op.N = "sleep", -1, pick(t, "csleep", []int{1, 2, 10, 50, 400})
		default:
			op.Key = intr(t, "key", 0, nk-1)
			op.Dur = pick(t, "dur", ds)
			op.Err = chance(t, "err", 4)
			if chance(t, "fin", 4) {
				op.Fin = pick(t, "findur", []int{1, 5, 50})
			}
			if !s.NilFinal && chance(t, "chain", 6) {
				op.Chain = intr(t, "chainkey", 1, nk)
			}
		}
		s.Ops = append(s.Ops, op)
	}
	if chance(t, "close", 4) {
		s.CloseUs = pick(t, "closeat", []int{1, 3, 10, 40, 200, 1000})
	}
	return genSeed(t, &scen.Case{Kind: "sched", Sched: s})
}

func genBatch(t *rapid.T) *scen.Case {
	b := &scen.Batch{Max: pick(t, "max", []int{1, 1, 2, 3, 5, 10}), Conc: intr(t, "conc", 1, 4), DelayUs: pick(t, "delay", []int{1, 5, 20, 100, 0, -20}), Parts: intr(t, "parts", 1, 3)}
	b.Durs = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 5, 30, 200}), 1, 4).Draw(t, "durs")
	nk := pick(t, "nkeys", []int{1, 2, 4, 8})
	mixed := chance(t, "mixed", 2)
	n := intr(t, "nops", 1, 40)
	for i := 0; i < n; i++ {
		op := scen.BatchOp{Op: "add", Part: intr(t, "part", 0, b.Parts-1)}
		if chance(t, "sleep", 4) {
			op.Op, op.N = "sleep", pick(t, "us", []int{1, 3, 15, 60, 300})
		} else {
			op.Key = intr(t, "key", 0, nk-1)
			for j, m := 0, pick(t, "nitems", []int{0, 0, 1, 1, 1, 2, 3, 6}); j < m; j++ {
				k := -1
				if mixed {
					k = intr(t, "ikey", -1, nk-1)
				}
				op.Items = append(op.Items, k)
			}
			op.NilCB = chance(t, "nilcb", 6)
			if chance(t, "fin", 4) {
				op.Fin = pick(t, "findur", []int{1, 5, 50})
			}
			if !op.NilCB && chance(t, "again", 6) {
				op.Again = intr(t, "againn", 1, 3)
			}
		}
		b.Ops = append(b.Ops, op)
	}
	return genSeed(t, &scen.Case{Kind: "batch", Batch: b})
}

func simReg(prop, name string, quick, thorough int, rule string, gen func(*rapid.T) *scen.Case, nonT func(map[string]int) bool) {
	reg(prop, name, quick, thorough, rule, gen, func(c *scen.Case) Outcome { return judge(prop, c, nonT) })
}

func init() {
	simReg("C06", "scheduler", 24000, 400000, "jobs of several keys ran at once, or a call to Schedule had to wait", genSched, func(s map[string]int) bool {
		return s["max_running"] > 1 || s["blocked_calls"] > 0
	})
	simReg("C07", "batcher", 24000, 400000, "a batch of several items was executed, or batches ran at once", genBatch, func(s map[string]int) bool {
		return s["multi"] > 0 || s["max_running"] > 1
	})
}
