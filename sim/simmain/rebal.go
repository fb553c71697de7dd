package main

import (
	"context"
	"fmt"
	"sort"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"verifsim/kfake"
	"verifsim/plan"
	"verifsim/scen"
)

// A consumer group whose members use the incremental rebalancer, each with a handler which takes
// its time to prepare partitions.

const (
	rbTopic = "events"
	rbGroup = "grp"
)

type rbMember struct {
	w       *rbWorld
	i       int
	inst    *kfake.Client
	cl      *kgo.Client
	ir      streams.IncrementalGroupRebalancer
	owned   map[int32]bool
	cancel  map[int32]chan struct{}
	started bool
	dead    bool // crashed
	closed  bool
	leaving bool
	left    bool
	leftAt  time.Time
	busy    int // preparations under way
	stop    context.CancelFunc
}

type rbWorld struct {
	r       *scen.Rebal
	c       *kfake.Cluster
	ms      []*rbMember
	preps   int
	gens    int
	lastGen time.Time
	given   map[string][]int32
	leavers []*rbMember
	kicked  map[*kfake.Client]bool
}

func (m *rbMember) Client() *kgo.Client { return m.cl }

func (m *rbMember) PrepareTopicPartition(tp streams.TopicPartition) {
	w := m.w
	n := w.preps
	w.preps++
	d := 0
	if len(w.r.PrepMs) > 0 {
		d = w.r.PrepMs[n%len(w.r.PrepMs)]
	}
	fail := false
	for _, x := range w.r.FailAt {
		fail = fail || x == n
	}
	trace("m%d prepares %d for %d ms, fails %v", m.i, tp.Partition, d, fail)
	stat("prepared", 1)
	if tp.Topic != rbTopic {
		viol("prepare-topic", []string{"C09"}, "m%d is asked to prepare %v", m.i, tp)
		return
	}
	stop := make(chan struct{})
	if m.cancel[tp.Partition] != nil {
		// (like an EventSource, which is preparing it already)
		return
	}
	m.cancel[tp.Partition] = stop
	m.busy++
	go func() {
		select {
		case <-time.After(ms(d)):
		case <-stop:
			m.busy--
			return
		}
		m.busy--
		if m.dead || m.closed {
			return
		}
		trace("m%d reports %d failed %v", m.i, tp.Partition, fail)
		if fail {
			delete(m.cancel, tp.Partition)
			stat("failed", 1)
			m.ir.PartitionPreparationFailed(tp)
		} else {
			m.ir.PartitionPrepared(tp)
		}
	}()
}

func (m *rbMember) ForgetPreparedTopicPartition(tp streams.TopicPartition) {
	trace("m%d forgets %v", m.i, tp.Partition)
	stat("forgotten", 1)
	c := m.cancel[tp.Partition]
	if c == nil {
		viol("forget", []string{"C09"}, "m%d is asked to forget partition %d, which it has not prepared", m.i, tp.Partition)
		return
	}
	close(c)
	delete(m.cancel, tp.Partition)
}

func (w *rbWorld) alive(m *rbMember) bool { return m.started && !m.dead && !m.closed }

func (m *rbMember) assigned(_ context.Context, _ *kgo.Client, as map[string][]int32) {
	if m.dead || m.closed {
		return
	}
	w := m.w
	for t, ps := range as {
		trace("m%d assigned %v", m.i, ps)
		var tps []streams.TopicPartition
		for _, p := range ps {
			if m.left {
				viol("assigned-after-leave", []string{"C09"}, "m%d is assigned partition %d after it was told that it has left", m.i, p)
			}
			for _, o := range w.ms {
				if o != m && w.alive(o) && o.owned[p] && !w.kicked[o.inst] {
					viol("two-owners", []string{"C08"}, "partition %d is assigned to m%d while m%d still owns it", p, m.i, o.i)
				}
			}
			m.owned[p] = true
			delete(m.cancel, p)
			tps = append(tps, streams.TopicPartition{Partition: p, Topic: t})
		}
		m.ir.PartitionsAssigned(tps...)
	}
}

func (m *rbMember) revoked(_ context.Context, _ *kgo.Client, as map[string][]int32) {
	if m.dead {
		return
	}
	for _, ps := range as {
		trace("m%d revoked %v", m.i, ps)
		if m.w.r.RevokeMs > 0 {
			time.Sleep(ms(m.w.r.RevokeMs))
		}
		for _, p := range ps {
			delete(m.owned, p)
		}
	}
	m.w.kicked[m.inst] = false
}

func (m *rbMember) start() {
	w := m.w
	m.started = true
	m.inst = w.c.NewClient(fmt.Sprintf("m%d", m.i))
	m.ir = streams.IncrementalRebalancer(m)
	m.owned, m.cancel = map[int32]bool{}, map[int32]chan struct{}{}
	opts := []kgo.Opt{
		kgo.Balancers(m.ir), kgo.ConsumerGroup(rbGroup), kgo.ConsumeTopics(rbTopic),
		kgo.OnPartitionsAssigned(m.assigned), kgo.OnPartitionsRevoked(m.revoked), kgo.OnPartitionsLost(m.revoked),
		kgo.SessionTimeout(6 * time.Second), kgo.FetchMaxWait(time.Second), kgo.DisableAutoCommit(),
	}
	cl, err := streams.NewClient(m.inst, opts...)
	if err != nil {
		viol("client", []string{"C08", "C09"}, "%v", err)
		return
	}
	m.cl = cl
	ctx, cancel := context.WithCancel(context.Background())
	m.stop = cancel
	go func() {
		for ctx.Err() == nil {
			if f := cl.PollFetches(ctx); f.IsClientClosed() {
				return
			}
		}
	}()
}

func (m *rbMember) close() {
	m.stop()
	m.cl.Close()
	m.closed = true
	trace("m%d closed", m.i)
}

func (w *rbWorld) others(m *rbMember) int {
	n := 0
	for _, o := range w.ms {
		if o != m && w.alive(o) && !o.leaving {
			n++
		}
	}
	return n
}

func (w *rbWorld) onPlan(group string, gen int32, pms []kfake.PlanMember) {
	w.gens++
	w.lastGen = time.Now()
	var ms []*plan.Member
	for _, pm := range pms {
		m := &plan.Member{ID: pm.ID, Meta: pm.Meta, Assign: pm.Assign}
		if err := m.Decode(rbTopic); err != nil {
			viol("encoding", []string{"C08", "C09"}, "generation %d: %v", gen, err)
			return
		}
		trace("gen %d %v", gen, m)
		ms = append(ms, m)
	}
	for _, f := range plan.Judge(w.r.Parts, ms, true) {
		viol(f.Kind, []string{f.Prop}, "generation %d: %s", gen, f.Msg)
	}
	stat("generations", 1)
}

func runRebal(r *scen.Rebal) {
	w := &rbWorld{r: r, given: map[string][]int32{}, kicked: map[*kfake.Client]bool{}}
	w.c = kfake.New(brokerCfg(r.Broker))
	for _, f := range r.Faults {
		w.c.Faults = append(w.c.Faults, kfake.Fault{Inst: f.Inst, Key: f.Key, Nth: f.Nth, Count: f.Count, Kind: f.Kind, Code: f.Code, Delay: ms(f.DelayMs)})
	}
	w.c.OnPlan = w.onPlan
	w.c.OnGroup = func(_, what string, cl *kfake.Client, id string) {
		trace("group %s %s", what, id)
		if what == "session-timeout" || what == "rebalance-timeout" {
			w.kicked[cl] = true
			stat("kicked", 1)
		}
	}
	w.c.Lock()
	w.c.CreateTopicLocked(rbTopic, r.Parts, 1, nil)
	w.c.Unlock()
	for _, o := range r.Ops {
		for len(w.ms) <= o.M {
			w.ms = append(w.ms, &rbMember{w: w, i: len(w.ms)})
		}
	}
	at := 0
	for _, o := range r.Ops {
		if o.At > at {
			time.Sleep(ms(o.At - at))
			at = o.At
		}
		m := w.ms[o.M]
		switch {
		case o.Op == "join" && !m.started:
			trace("m%d joins", m.i)
			stat("joins", 1)
			m.start()
		case o.Op == "crash" && w.alive(m) && !m.left:
			trace("m%d crashes", m.i)
			stat("crashes", 1)
			m.dead = true
			m.stop()
			m.inst.Crash()
		case o.Op == "close" && w.alive(m) && !m.leaving:
			trace("m%d closes", m.i)
			stat("closes", 1)
			m.leaving = true // no longer counts
			go m.close()
		case o.Op == "leave" && w.alive(m) && !m.leaving:
			trace("m%d leaves", m.i)
			stat("leaves", 1)
			m.leaving = true
			w.leavers = append(w.leavers, m)
			c := m.ir.GracefullyLeaveGroup()
			go func() {
				<-c
				if m.dead {
					return
				}
				trace("m%d may leave, others %d", m.i, w.others(m))
				m.left, m.leftAt = true, time.Now()
				stat("left", 1)
				time.Sleep(ms(r.LingerMs))
				m.close()
			}()
		}
	}
	// the group settles
	maxPrep := 0
	for _, d := range r.PrepMs {
		maxPrep = max(maxPrep, d)
	}
	began := time.Now()
	limit := 2*time.Minute + time.Duration(2*r.Parts*len(w.ms)+len(r.FailAt)+10)*(12*time.Second+ms(maxPrep)+3*ms(r.RevokeMs))
	for {
		time.Sleep(time.Second)
		busy := 0
		for _, m := range w.ms {
			if w.alive(m) {
				busy += m.busy
			}
		}
		if busy == 0 && time.Since(w.lastGen) > 40*time.Second && time.Since(began) > 40*time.Second {
			break
		}
		if time.Since(began) > limit {
			viol("unsettled", []string{"C09"}, "%v after the last change, the group still rebalances", time.Since(began))
			break
		}
	}
	var counts []int
	owner := map[int32]int{}
	desc := ""
	nact := 0
	for _, m := range w.ms {
		if !w.alive(m) {
			continue
		}
		var ps []int32
		for p := range m.owned {
			ps = append(ps, p)
			owner[p]++
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
		desc += fmt.Sprintf("m%d %v leaving %v; ", m.i, ps, m.leaving)
		if m.leaving {
			viol("not-left", []string{"C09"}, "m%d owns %v and has not left, %v after the last change", m.i, ps, time.Since(began))
			continue
		}
		nact++
		counts = append(counts, len(ps))
	}
	if nact > 0 {
		for p := int32(0); int(p) < r.Parts; p++ {
			if owner[p] != 1 {
				viol("not-owned", []string{"C08"}, "partition %d is owned by %d members in the end: %s", p, owner[p], desc)
			}
		}
		if lo, hi := plan.Spread(counts); hi-lo > 1 {
			viol("unbalanced", []string{"C09"}, "the group has settled, but is not balanced: %s", desc)
		}
	}
	statMax("active", nact)
	w.c.OnPlan = nil
	for _, m := range w.ms {
		if w.alive(m) {
			m.dead = true
			m.stop()
			m.inst.Crash()
		}
	}
	for k, n := range w.c.FaultHits {
		stat("faults", n)
		stat("fault_"+k, n)
	}
	for _, u := range w.c.Unsupported {
		res.Notes = append(res.Notes, "unsupported: "+u)
	}
}
