package props

import (
	"pgregory.net/rapid"
	"verifsim/scen"
)

// ---- C08, C09: groups of incremental rebalancers

func genRebal(t *rapid.T) *scen.Case {
	c := &scen.Case{Kind: "rebal", Seed: uint64(intr(t, "seed", 0, 1<<30)), YieldP: pick(t, "yield", []uint32{0, 0, 2000})}
	r := &scen.Rebal{Broker: scen.Broker{Nodes: intr(t, "nodes", 1, 2), Seed: int64(intr(t, "bseed", 0, 1<<20)), LatMinUs: 50, LatMaxUs: pick(t, "lat", []int{300, 3000, 60000}),
		RebalDelMs: pick(t, "rebdel", []int{0, 0, 1000, 3000})}}
	c.Rebal = r
	r.Parts = intr(t, "parts", 1, pick(t, "maxparts", []int{3, 6, 12}))
	r.PrepMs = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 100, 1500, 5000, 12000}), 1, 4).Draw(t, "prep")
	for i, n := 0, pick(t, "nfail", []int{0, 0, 0, 1, 3}); i < n; i++ {
		r.FailAt = append(r.FailAt, intr(t, "failat", 0, 10))
	}
	r.RevokeMs = pick(t, "revoke", []int{0, 0, 5, 700})
	r.LingerMs = pick(t, "linger", []int{0, 0, 1, 500, 8000})
	var live []int
	at, next := 0, 0
	for i, n := 0, intr(t, "nops", 1, 10); i < n || next == 0; i++ {
		at += pick(t, "gap", []int{0, 0, 50, 500, 2000, 4000, 9000, 20000, 60000})
		o := scen.RebalOp{At: at, Op: pick(t, "op", []string{"join", "join", "leave", "crash", "close", "restart"})}
		if len(live) == 0 || o.Op == "join" && len(live) < 5 {
			o.Op, o.M = "join", next
			live = append(live, next)
			next++
			r.Ops = append(r.Ops, o)
			continue
		}
		k := intr(t, "which", 0, len(live)-1)
		o.M = live[k]
		restart := o.Op == "restart" || o.Op == "join"
		if restart {
			o.Op = pick(t, "how", []string{"crash", "close", "leave"})
		}
		r.Ops = append(r.Ops, o)
		live = append(live[:k], live[k+1:]...)
		if restart {
			at += pick(t, "rgap", []int{0, 0, 20, 1000})
			r.Ops = append(r.Ops, scen.RebalOp{At: at, Op: "join", M: next})
			live = append(live, next)
			next++
		}
	}
	return c
}

func init() {
	rule := "several generations with a partition prepared for a move, or a member which crashed or left"
	nonT := func(s map[string]int) bool {
		return s["generations"] > 1 && s["prepared"]+s["crashes"]+s["leaves"]+s["closes"] > 0
	}
	simReg("C08", "group", 12000, 300000, rule, genRebal, nonT)
	simReg("C09", "group", 12000, 300000, rule, genRebal, nonT)
}
