package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"verifsim/kfake"
	"verifsim/scen"
)

// Topic administration: creating sources and destinations, deleting sources, against
// clusters with topics of their own, with broker errors and broken connections.

var c20 = []string{"C20"}

type topicDesc struct {
	parts, rf int
	cfg       string
	min       int // 0: not set
	compact   bool
	topic     *kfake.Topic
}

type topicsWorld struct {
	t       *scen.Topics
	src, st *kfake.Cluster
	srcN    int
	stN     int
}

func describe(c *kfake.Cluster) map[string]topicDesc {
	c.Lock()
	defer c.Unlock()
	out := map[string]topicDesc{}
	for _, n := range c.TopicNamesLocked() {
		t := c.TopicLocked(n)
		d := topicDesc{parts: len(t.Parts), rf: t.RF, topic: t}
		var cs []string
		for k, v := range t.Config {
			cs = append(cs, k+"="+v)
		}
		sort.Strings(cs)
		d.cfg = strings.Join(cs, ",")
		d.min, _ = strconv.Atoi(t.Config["min.insync.replicas"])
		d.compact = strings.Contains(t.Config["cleanup.policy"], "compact")
		out[n] = d
	}
	return out
}

func (d topicDesc) String() string {
	return fmt.Sprintf("%d partitions, replication %d, %s", d.parts, d.rf, d.cfg)
}

func hits(cs ...*kfake.Cluster) int {
	n := 0
	for i, c := range cs {
		if i > 0 && c == cs[0] {
			continue
		}
		c.Lock()
		for _, v := range c.FaultHits {
			n += v
		}
		c.Unlock()
	}
	return n
}

type topicsResult struct {
	src *streams.Source
	dst streams.Destination
	err error
	pan string
}

func runTopics(t *scen.Topics) {
	w := &topicsWorld{t: t, srcN: max(1, t.Broker.Nodes)}
	w.src = kfake.New(brokerCfg(t.Broker))
	w.st, w.stN = w.src, w.srcN
	if t.Split {
		b := t.Broker
		b.Nodes, b.Seed = t.StateNodes, b.Seed+1
		w.st, w.stN = kfake.New(brokerCfg(b)), max(1, b.Nodes)
	}
	for _, f := range t.Faults {
		kf := kfake.Fault{Inst: f.Inst, Key: f.Key, Nth: f.Nth, Count: f.Count, Kind: f.Kind, Code: f.Code, Delay: ms(f.DelayMs)}
		w.src.Faults = append(w.src.Faults, kf)
		if t.Split {
			w.st.Faults = append(w.st.Faults, kf)
		}
	}
	for _, p := range t.Pre {
		c := w.src
		if p.State {
			c = w.st
		}
		c.Lock()
		c.CreateTopicLocked(p.Name, p.Parts, p.RF, map[string]string{"retention.ms": "12345"})
		c.Unlock()
	}
	for i := range t.Ops {
		w.op(i, &t.Ops[i])
		time.Sleep(10 * time.Millisecond)
	}
	for _, c := range []*kfake.Cluster{w.src, w.st} {
		for _, u := range c.Unsupported {
			viol("harness", []string{"harness"}, "%s", u)
		}
	}
}

func (w *topicsWorld) op(n int, op *scen.TopicOp) {
	sc := w.src.NewClient(fmt.Sprintf("op%d", n))
	stc := sc
	if w.t.Split {
		stc = w.st.NewClient(fmt.Sprintf("op%d", n))
	}
	cfg := streams.EventSourceConfig{GroupId: op.Group, Topic: op.Topic, StateStoreTopic: op.State, NumPartitions: op.Parts,
		ReplicationFactor: op.RF, MinInSync: op.Min, CommitLogPartitions: op.ClP, SourceCluster: sc}
	if w.t.Split {
		cfg.StateCluster = stc
	}
	before, sbefore := describe(w.src), describe(w.st)
	h0 := hits(w.src, w.st)
	trace("op %d: %+v", n, *op)
	conc := max(1, op.Conc)
	rs := make([]topicsResult, conc)
	var wg sync.WaitGroup
	for i := 0; i < conc; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					rs[i].pan = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
			}()
			switch op.Op {
			case "source":
				rs[i].src, rs[i].err = streams.CreateSource(cfg)
			case "dest":
				rs[i].dst, rs[i].err = streams.CreateDestination(streams.Destination{DefaultTopic: op.Topic, NumPartitions: op.Parts, ReplicationFactor: op.RF, MinInSync: op.Min, Cluster: sc})
			case "delete":
				rs[i].err = streams.DeleteSource(cfg)
			}
		}()
	}
	began := time.Now()
	wg.Wait()
	statMax("max_op_s", int(time.Since(began).Seconds()))
	faulted := hits(w.src, w.st) > h0
	if faulted {
		stat("ops_with_faults", 1)
	}
	after, safter := describe(w.src), describe(w.st)
	for i := range rs {
		trace("op %d caller %d: error %v", n, i, rs[i].err)
		if rs[i].pan != "" {
			viol("panic", c20, "op %d (%+v) panics: %s", n, *op, rs[i].pan)
			return
		}
		if rs[i].err != nil {
			stat("errors", 1)
		}
	}
	clog, state := "gkes_commit_log_"+op.Group, op.State
	if state == "" {
		state = "gkes_change_log_" + op.Topic + "_" + op.Group
	}
	// only the topics concerned appear or disappear, and no existing one is altered
	own := map[string]bool{op.Topic: true}
	sown := map[string]bool{clog: true, state: true}
	if !w.t.Split {
		own[clog], own[state] = true, true
		sown = own
	}
	if op.Op == "dest" {
		own, sown = map[string]bool{op.Topic: true}, map[string]bool{}
		if !w.t.Split {
			sown = own
		}
	}
	w.untouched(n, op, "source cluster", before, after, own)
	if w.t.Split {
		w.untouched(n, op, "state cluster", sbefore, safter, sown)
	}
	switch op.Op {
	case "source":
		w.source(n, op, rs, before, after, sbefore, safter, clog, state, faulted)
	case "dest":
		w.dest(n, op, rs, before, after, faulted)
	case "delete":
		stat("deletes", 1)
		for _, r := range rs {
			if r.err == nil && !faulted {
				for name, m := range map[string]map[string]topicDesc{op.Topic: after, clog: safter, state: safter} {
					if _, ok := m[name]; ok {
						viol("not-deleted", c20, "op %d (%+v): topic %s still exists", n, *op, name)
					}
				}
			}
		}
	}
}

func (w *topicsWorld) untouched(n int, op *scen.TopicOp, where string, before, after map[string]topicDesc, own map[string]bool) {
	for name, b := range before {
		a, ok := after[name]
		if !ok {
			if op.Op != "delete" || !own[name] {
				viol("destroyed", c20, "op %d (%+v): topic %s of the %s is gone", n, *op, name, where)
			}
			continue
		}
		if a != b {
			viol("altered", c20, "op %d (%+v): topic %s of the %s had %v, now it has %v", n, *op, name, where, b, a)
		}
	}
	for name, a := range after {
		if _, ok := before[name]; !ok && (op.Op == "delete" || !own[name]) {
			viol("stray", c20, "op %d (%+v): topic %s (%v) appears on the %s", n, *op, name, a, where)
		}
	}
}

func legalName(s string) bool {
	return len(s) <= 249 && s != "" && strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-") == ""
}

func (w *topicsWorld) source(n int, op *scen.TopicOp, rs []topicsResult, before, after, sbefore, safter map[string]topicDesc, clog, state string, faulted bool) {
	rf := max(1, op.RF)
	rfs := []int{rf}
	sb, sExisted := before[op.Topic]
	parts := op.Parts
	valid := op.Topic != "" && op.Group != "" && legalName(clog) && legalName(state) && legalName(op.Topic)
	if sExisted {
		parts = sb.parts
		rfs = append(rfs, sb.rf)
	} else {
		valid = valid && op.Parts > 0 && rf <= w.srcN
	}
	cb, cExisted := sbefore[clog]
	tb, tExisted := sbefore[state]
	if !cExisted || !tExisted {
		for _, r := range rfs {
			valid = valid && r <= w.stN
		}
	}
	mismatch := tExisted && tb.parts != parts
	for _, r := range rs {
		if r.err != nil {
			if !faulted && valid && !mismatch {
				viol("refused", c20, "op %d (%+v): error %v although nothing failed (source topic before: %v)", n, *op, r.err, sb)
			}
			if mismatch {
				stat("mismatches", 1)
			}
			continue
		}
		if mismatch {
			viol("mismatch", c20, "op %d (%+v): no error although the state topic %s has %d partitions and the source topic %d", n, *op, state, tb.parts, parts)
			continue
		}
		sa, ok := after[op.Topic]
		if !ok {
			viol("missing", c20, "op %d (%+v): source topic does not exist", n, *op)
			continue
		}
		stat("created", 1)
		if sExisted {
			stat("adopted", 1)
		} else {
			w.made(n, op, "source topic "+op.Topic, sa, parts, []int{rf}, false)
		}
		if r.src == nil {
			viol("resolved", c20, "op %d (%+v): neither Source nor error", n, *op)
			continue
		}
		if r.src.NumPartitions() != sa.parts || r.src.Config().NumPartitions != sa.parts {
			viol("resolved", c20, "op %d (%+v): resolved Source has %d partitions, the topic %d", n, *op, r.src.NumPartitions(), sa.parts)
		}
		if g, s := r.src.CommitLogTopicNameForGroupId(), r.src.StateStoreTopicName(); g != clog || s != state || r.src.Topic() != op.Topic || r.src.GroupId() != op.Group {
			viol("resolved", c20, "op %d (%+v): resolved Source is of topic %s group %s commit log %s state %s", n, *op, r.src.Topic(), r.src.GroupId(), g, s)
		}
		if ca, ok := safter[clog]; !ok {
			viol("missing", c20, "op %d (%+v): commit log %s does not exist", n, *op, clog)
		} else {
			want := op.ClP
			if want <= 0 {
				want = 5
			}
			if !cExisted {
				w.made(n, op, "commit log "+clog, ca, want, rfs, true)
			}
			if got := r.src.Config().CommitLogPartitions; got != ca.parts && !(got <= 0 && ca.parts == 5) {
				viol("resolved", c20, "op %d (%+v): resolved Source has %d commit log partitions, the topic %d", n, *op, got, ca.parts)
			}
		}
		_ = cb
		if ta, ok := safter[state]; !ok {
			viol("missing", c20, "op %d (%+v): state topic %s does not exist", n, *op, state)
		} else if !tExisted {
			w.made(n, op, "state topic "+state, ta, sa.parts, rfs, true)
		}
	}
}

func (w *topicsWorld) made(n int, op *scen.TopicOp, what string, d topicDesc, parts int, rfs []int, compact bool) {
	rfOK := false
	for _, r := range rfs {
		rfOK = rfOK || r == d.rf
	}
	if d.parts != parts || !rfOK || d.compact != compact {
		viol("settings", c20, "op %d (%+v): %s was created with %v; wanted %d partitions, replication %v, compact %v", n, *op, what, d, parts, rfs, compact)
	}
	m := max(1, d.min)
	want := min(max(1, op.Min), d.rf)
	if m != want && !(op.Min >= d.rf && m == max(1, d.rf-1)) && !(op.Op == "dest" && m == op.Min) {
		viol("settings", c20, "op %d (%+v): %s was created with %v; wanted min.insync.replicas %d", n, *op, what, d, want)
	}
}

func (w *topicsWorld) dest(n int, op *scen.TopicOp, rs []topicsResult, before, after map[string]topicDesc, faulted bool) {
	_, existed := before[op.Topic]
	valid := legalName(op.Topic) && (existed || max(1, op.RF) <= w.srcN)
	for _, r := range rs {
		if r.err != nil {
			if !faulted && valid {
				viol("refused", c20, "op %d (%+v): error %v although nothing failed", n, *op, r.err)
			}
			continue
		}
		d, ok := after[op.Topic]
		if !ok {
			viol("missing", c20, "op %d (%+v): no error, but destination topic does not exist", n, *op)
			continue
		}
		stat("dests", 1)
		if !existed {
			w.made(n, op, "destination "+op.Topic, d, max(1, op.Parts), []int{max(1, op.RF)}, false)
		}
		if r.dst.DefaultTopic != op.Topic {
			viol("resolved", c20, "op %d (%+v): resolved Destination has topic %q", n, *op, r.dst.DefaultTopic)
		}
	}
}
