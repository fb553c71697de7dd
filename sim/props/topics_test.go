package props

import (
	"strings"

	"pgregory.net/rapid"
	"verifsim/scen"
)

// ---- C20: topic administration

func genTopics(t *rapid.T, faults bool) *scen.Case {
	c := &scen.Case{Kind: "topics", Seed: uint64(intr(t, "seed", 0, 1<<30)), YieldP: pick(t, "yield", []uint32{0, 0, 2000})}
	x := &scen.Topics{Broker: scen.Broker{Nodes: intr(t, "nodes", 1, 4), Seed: int64(intr(t, "bseed", 0, 1<<20)), LatMinUs: 50, LatMaxUs: pick(t, "lat", []int{300, 3000, 30000})}}
	c.Topics = x
	if x.Split = chance(t, "split", 3); x.Split {
		x.StateNodes = intr(t, "snodes", 1, 4)
	}
	topics, groups, states := []string{"a", "b"}, []string{"g", "h"}, []string{"", "", "s"}
	if chance(t, "odd", 6) {
		topics = append(topics, "", "no such name", strings.Repeat("n", 240))
		groups = append(groups, "", "my group", strings.Repeat("g", 240))
	}
	names := []string{"a", "b", "a", "x", "s", "gkes_commit_log_g", "gkes_commit_log_h", "gkes_change_log_a_g", "gkes_change_log_a_g", "gkes_change_log_b_h", "gkes_change_log_a_h", "gkes_change_log_a"}
	for i, k := 0, intr(t, "npre", 0, 4); i < k; i++ {
		p := scen.PreTopic{Name: pick(t, "pre", names), Parts: intr(t, "preparts", 1, 5)}
		n := x.Broker.Nodes
		if p.State = x.Split && chance(t, "prestate", 2); p.State {
			n = x.StateNodes
		}
		p.RF = intr(t, "prerf", 1, n)
		x.Pre = append(x.Pre, p)
	}
	for i, k := 0, intr(t, "nops", 1, 5); i < k; i++ {
		o := scen.TopicOp{Op: pick(t, "op", []string{"source", "source", "source", "dest", "dest", "delete"}), Topic: pick(t, "topic", topics), Group: pick(t, "group", groups),
			State: pick(t, "state", states), Parts: pick(t, "parts", []int{1, 2, 3, 3, 5, 12}), RF: pick(t, "rf", []int{0, 1, 1, 2, 3}), Min: pick(t, "min", []int{0, 0, 1, 2, 3}),
			ClP: pick(t, "clp", []int{0, 0, 1, 3, 7}), Conc: pick(t, "conc", []int{1, 1, 1, 2, 4})}
		if chance(t, "noparts", 12) {
			o.Parts = 0
		}
		x.Ops = append(x.Ops, o)
	}
	if faults {
		for i, k := 0, intr(t, "nfaults", 1, 3); i < k; i++ {
			f := scen.Fault{Inst: intr(t, "finst", -1, len(x.Ops)-1), Nth: intr(t, "nth", 1, 4), Count: intr(t, "fcount", 1, 3)}
			f.Key = pick(t, "fkey", []int16{3, 3, 3, 19, 19, 19, 20, -2})
			switch {
			case f.Key == -2:
				f.Kind = "err"
				f.Count = pick(t, "ndial", []int{1, 3, 20})
			case chance(t, "net", 3):
				f.Kind = pick(t, "fk", []string{"close_before", "close_after", "delay"})
				f.DelayMs = pick(t, "fdelay", []int{50, 1000, 9000})
			default:
				f.Kind = "err"
				f.Code = pick(t, "fcode", map[int16][]int16{3: {3, 3, 5, 29, 17, -1}, 19: {41, 7, 29, 44, 37, -1}, 20: {41, 7, 29, 3}}[f.Key])
			}
			x.Faults = append(x.Faults, f)
		}
	}
	return c
}

func init() {
	simReg("C20", "provision", 6000, 200000, "topics were created by several callers or adopted, or a mismatch was reported", func(t *rapid.T) *scen.Case { return genTopics(t, false) }, func(s map[string]int) bool {
		return s["created"] > 1 || s["adopted"] > 0 || s["mismatches"] > 0 || s["dests"] > 0
	})
	simReg("C20", "faults", 4000, 100000, "an operation met a broker error or a broken connection", func(t *rapid.T) *scen.Case { return genTopics(t, true) }, has("ops_with_faults"))
	simReg("C22", "config", 1600, 40000, "invalid and valid configurations were tried", genConfig, has("accepted", "refused"))
}

func genConfig(t *rapid.T) *scen.Case {
	c := &scen.Case{Kind: "config", Seed: uint64(intr(t, "seed", 0, 1<<30))}
	x := &scen.Config{Broker: scen.Broker{Nodes: 1, LatMinUs: 50, LatMaxUs: 300}}
	c.Config = x
	for i, k := 0, intr(t, "ncfg", 1, 12); i < k; i++ {
		e := scen.EosCfg{Pool: intr(t, "pool", 1, 20), Pending: intr(t, "pending", 1, 20), Target: pick(t, "target", []int{1, 1, 2, 1000, 100000}), DelayUs: pick(t, "delay", []int{1000, 1000, 1001, 10000, 3600000000})}
		e.Max = e.Target + pick(t, "max", []int{0, 0, 1, 1000})
		// at most two things wrong, and sometimes only the default's shape
		for _, what := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"pool", "pending", "target", "max", "delay", "order", "all"}), 0, 2, rapid.ID[string]).Draw(t, "wrong") {
			v := pick(t, "bad", []int{0, 0, -1, -1 << 31})
			switch what {
			case "pool":
				e.Pool = v
			case "pending":
				e.Pending = v
			case "target":
				e.Target = v
			case "max":
				e.Max = v
			case "delay":
				e.DelayUs = pick(t, "baddelay", []int{0, -1, 1, 10, 999, -1000})
			case "order":
				e.Max = intr(t, "under", 1, max(1, e.Target-1))
			case "all":
				e = scen.EosCfg{}
				if chance(t, "one", 2) { // everything but one left out
					*pick(t, "field", []*int{&e.Pool, &e.Pending, &e.Target, &e.Max, &e.DelayUs}) = pick(t, "only", []int{1, 3, 1000, 10000})
				}
			}
		}
		x.Cfgs = append(x.Cfgs, e)
	}
	return c
}
