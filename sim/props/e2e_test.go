package props

import "verifsim/scen"

// has: all of these things were counted
func has(ks ...string) func(map[string]int) bool {
	return func(s map[string]int) bool {
		for _, k := range ks {
			if s[k] == 0 {
				return false
			}
		}
		return true
	}
}

func init() {
	// C01
	p := base()
	p.slow, p.rush = true, true
	p.hist, p.zeroEos, p.slowInit = true, true, true
	e2e("C01", "e2e", 4000, 60000, "at least one transaction with records committed while a consumer crashed, stopped or a partition was handed over", p, func(s map[string]int) bool {
		return s["commits"] > 0 && s["crashes"]+s["crash_fault"]+s["stops"]+s["revoked"] > 0
	})
	p = base()
	p.faults, p.maxFaults = []string{"net", "err", "delay", "fatal", "crash", "crash"}, 3
	p.split = true
	p.interj, p.every = [2]int{0, 1}, []int{300, 3000}
	p.hist, p.slowInit = true, true
	e2e("C01", "faults", 2400, 40000, "a fault or crash hit a run that committed transactions", p, func(s map[string]int) bool {
		return s["commits"] > 0 && s["crashes"]+s["crash_fault"]+s["aborted_txns"]+s["faults"] > 0
	})

	// C02
	p = base()
	p.modes = []string{"sync", "sync", "sync", "sync", "mix", "async"}
	p.burst, p.bigOuts = 12, true
	p.batchCfg = "mixed"
	p.parts = [2]int{1, 3}
	p.rush = true
	p.hist, p.slowInit = true, true
	e2e("C02", "order", 4000, 60000, "records of handlers of one partition were committed to one destination partition by more than one transaction", p, has("ordered_across_txns"))
	p.faults, p.maxFaults = []string{"net", "err", "delay", "fatal"}, 3
	p.interj, p.every = [2]int{0, 1}, []int{300, 3000}
	e2e("C02", "faults", 1200, 20000, "as order, and a fault was injected", p, has("ordered_across_txns", "faults"))

	// C03
	p = base()
	p.ops = []string{"produce", "produce", "produce", "txn", "start", "stop", "crash", "sleep", "compact"}
	p.modes = []string{"sync", "sync", "sync", "async", "mix", "sched", "batch"}
	p.strategies = [][]int{{3}, {3}, {3}, {0}, {2}, {3, 2}}
	p.chg, p.delP = 3, 3
	p.split = true
	p.hist, p.slowInit = true, true
	e2e("C03", "stores", 3200, 50000, "a partition with committed state was taken over", p, has("takeovers_state"))
	p.faults, p.maxFaults = []string{"net", "err", "delay", "fatal", "crash"}, 3
	p.statefault = true
	e2e("C03", "faults", 1600, 20000, "a partition with committed state was taken over in a run with injected faults or crashes", p, has("takeovers_state", "faults"))

	// C04
	p = base()
	p.ops = []string{"produce", "produce", "produce", "txn", "txn", "start", "stop", "crash", "crash", "sleep", "compact"}
	p.modes = []string{"sync", "async", "async", "async2", "mix", "sched", "batch", "bp"}
	p.delays = []int{0, 1, 3, 20, 200, 1000}
	p.split = true
	p.slow, p.rush = true, true
	p.interj, p.every = [2]int{0, 1}, []int{20, 300, 3000}
	p.hist, p.slowInit = true, true
	e2e("C04", "resume", 3200, 50000, "a consumer resumed a partition from a committed position greater than 0", p, has("resumed"))
	p.faults, p.maxFaults = []string{"net", "err", "delay", "fatal", "crash"}, 3
	e2e("C04", "faults", 1600, 20000, "a consumer resumed a partition from a committed position in a run with faults", p, has("resumed", "faults"))

	// C05
	p = base()
	p.ops = []string{"produce", "produce", "produce", "start", "stop", "sleep", "interject", "interjectall", "interjectallsync"}
	p.modes = []string{"sync", "async", "async2", "mix", "sched", "batch", "bp"}
	p.delays = []int{0, 1, 3, 20, 100}
	p.parts = [2]int{1, 3}
	p.interj, p.every = [2]int{0, 2}, []int{20, 100, 700}
	p.rush = true
	p.batchCfg = "mixed"
	e2e("C05", "threads", 3200, 50000, "asynchronous completions and interjections ran, and a partition was revoked", p, func(s map[string]int) bool {
		return s["async"] > 0 && s["revoked_after_events"] > 0 && s["ticks"]+s["oneoffs_ran"]+s["ijall"] > 0
	})

	// C06, C07: within a consumer
	p = base()
	p.modes = []string{"sched", "sched", "sched", "sched", "batch", "sync"}
	p.burst, p.delays = 12, []int{0, 0, 1, 3, 20}
	p.ops = []string{"produce", "produce", "produce", "start", "stop", "sleep"}
	e2e("C06", "consumer", 1200, 40000, "jobs of several keys ran at once", p, func(s map[string]int) bool { return s["max_job_running"] > 1 })
	p.modes = []string{"batch", "batch", "batch", "batch", "sched", "sync"}
	e2e("C07", "consumer", 1200, 40000, "batches of several items were executed", p, has("batches_of_several"))

	// C10
	p = base()
	p.ops = []string{"produce", "produce", "start", "stop", "sleep", "interject", "interject", "interject", "interjectall", "interjectallsync", "crash"}
	p.parts = [2]int{1, 3}
	p.delays = []int{0, 0, 1, 20}
	p.interj = [2]int{0, 2}
	p.assignIj, p.slowInit = true, true
	p.strict = "C10"
	p.noStalls = true
	e2e("C10", "interject", 3200, 50000, "interjections of both kinds ran", p, func(s map[string]int) bool { return s["ticks"] > 0 && s["oneoffs_ran"]+s["ijall"] > 0 })
	p.strict = ""
	p.ops = append(p.ops, "stopnow")
	p.faults, p.maxFaults = []string{"net", "err", "delay", "fatal"}, 2
	e2e("C10", "failures", 1600, 20000, "one-off interjections were asked for in a run with faults or an immediate stop", p, func(s map[string]int) bool {
		return s["oneoffs"]+s["ijall"] > 0 && s["faults"]+s["stopnow"] > 0
	})

	// C11
	p = base()
	p.ops = []string{"produce", "produce", "txn", "start", "start", "stop", "stop", "sleep"}
	p.insts = [2]int{1, 4}
	p.slowInit = true
	p.revokeMs = []int{0, 0, 20, 300}
	p.delays = []int{0, 0, 1, 20, 300}
	p.split = true
	p.slow = true
	e2e("C11", "lifecycle", 3200, 50000, "a partition that had handled events was revoked", p, has("revoked_after_events"))
	p.faults, p.maxFaults = []string{"net", "err", "delay"}, 3
	e2e("C11", "faults", 1200, 20000, "a partition that had handled events was revoked in a run with faults", p, has("revoked_after_events", "faults"))

	// C12
	p = base()
	p.ops = []string{"produce", "produce", "produce", "txn", "start", "stop", "stop2", "stopnow", "signal", "sleep"}
	p.waits = true
	p.modes = append([]string{"never"}, allModes...)
	p.faults, p.maxFaults = []string{"fatal", "fatal", "delay", "err"}, 2
	p.delays = []int{0, 0, 1, 20, 300}
	p.txnErr = true
	e2e("C12", "failures", 2400, 40000, "a transaction failed, or a consumer was stopped while handling events", p, func(s map[string]int) bool {
		return s["txn_errors"] > 0 || s["stops"]+s["stopnow"] > 0 && s["commits"] > 0
	})
	p.faults, p.maxFaults = nil, 0
	p.modes = allModes
	p.slow = true
	p.ops = []string{"produce", "produce", "produce", "txn", "start", "stop", "stop2", "signal", "sleep"}
	e2e("C12", "stop", 2400, 40000, "a consumer that committed transactions was stopped", p, has("stops", "commits"))

	// C13
	p = base()
	p.typed, p.deser = true, true
	p.modes = []string{"sync", "sync", "sync", "sync", "async", "async", "never"}
	p.delays = []int{0, 0, 1, 20}
	e2e("C13", "routing", 2400, 50000, "records of registered types and undecodable records were handled", p, has("typed", "deser_errors"))

	// C22
	p = base()
	p.noStalls = true
	p.batchCfg = "tight"
	p.bigOuts, p.burst = true, 20
	p.parts = [2]int{1, 4}
	p.insts = [2]int{1, 2}
	p.modes = []string{"sync", "sync", "sync", "async", "mix"}
	p.delays = []int{0, 0, 0, 1}
	p.ops = []string{"produce", "produce", "produce", "produce", "sleep", "trickle"}
	p.strict = "C22"
	p.zeroEos = true
	p.interj, p.every = [2]int{0, 1}, []int{300, 3000}
	e2e("C22", "bounds", 3200, 50000, "a transaction reached its target size or held several events", p, func(s map[string]int) bool { return s["max_events_in_txn"] > 1 })

	// C24
	p = base()
	p.commitOffs = true
	p.ops = []string{"produce", "produce", "produce", "txn", "start", "stop", "crash", "sleep", "sleep"}
	p.split = true
	p.hist, p.slowInit = true, true
	e2e("C24", "offsets", 3200, 50000, "group offsets were committed", p, has("group_offset_commits"))
	p.faults, p.maxFaults = []string{"net", "err", "delay", "crash"}, 3
	e2e("C24", "faults", 1200, 20000, "group offsets were committed in a run with faults", p, has("group_offset_commits", "faults"))

	// C25
	p = base()
	p.metrics = true
	p.ops = []string{"produce", "produce", "produce", "txn", "start", "stop", "stopnow", "sleep"}
	p.delays = []int{0, 0, 1, 20}
	p.split = true
	p.flood = true
	e2e("C25", "metrics", 3200, 40000, "commit metrics were delivered", p, has("metrics"))
	p.faults, p.maxFaults = []string{"net", "err", "delay", "fatal"}, 3
	e2e("C25", "faults", 1200, 20000, "commit metrics were delivered in a run with faults", p, has("metrics", "faults"))

	// C26
	p = base()
	p.modes = []string{"bp", "bp", "bp", "bp", "sync"}
	p.bpShapes = true
	p.delays = []int{0, 0, 0, 1, 3, 20, 20, 200}
	p.ops = []string{"produce", "produce", "produce", "start", "stop", "sleep"}
	e2e("C26", "batchproducer", 2400, 40000, "batches of records were produced", p, has("bp_batches"))
	p.faults, p.maxFaults = []string{"net", "err", "delay", "bperr", "bperr"}, 3
	e2e("C26", "faults", 1600, 20000, "batches of records were produced in a run with faults", p, has("bp_batches", "faults"))
	_ = scen.Case{}
}
