package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"sort"
	"sync"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
	"pgregory.net/rapid"
	"verifsim/plan"
)

// ---- C08, C09: single plans of the incremental rebalancer

var offlineClient = sync.OnceValue(func() *kgo.Client {
	cl, err := kgo.NewClient(kgo.SeedBrokers("nowhere:9092"), kgo.Dialer(func(context.Context, string, string) (net.Conn, error) {
		return nil, errors.New("offline")
	}))
	if err != nil {
		panic(err)
	}
	return cl
})

type rebalHandler struct {
	mu       sync.Mutex
	prepared map[streams.TopicPartition]int
	forgot   map[streams.TopicPartition]int
}

func (h *rebalHandler) PrepareTopicPartition(tp streams.TopicPartition) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.prepared[tp]++
}
func (h *rebalHandler) ForgetPreparedTopicPartition(tp streams.TopicPartition) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.forgot[tp]++
}
func (h *rebalHandler) Client() *kgo.Client { return offlineClient() }

func newRebalHandler() *rebalHandler {
	return &rebalHandler{prepared: map[streams.TopicPartition]int{}, forgot: map[streams.TopicPartition]int{}}
}

const rebalTopic = "events"

type rebalMember struct {
	Status             int
	LeftAt             int64
	Owned, Prep, Ready []int32
	Plain              bool // reports nothing beyond what it owns
	Raw                []byte
}
type rebalPlan struct {
	Parts   int
	Members []rebalMember
}

func (m *rebalMember) meta() []byte {
	if m.Raw != nil {
		return m.Raw
	}
	k := kmsg.NewConsumerMemberMetadata()
	k.Version = 1
	k.Topics = []string{rebalTopic}
	if len(m.Owned) > 0 {
		o := kmsg.NewConsumerMemberMetadataOwnedPartition()
		o.Topic, o.Partitions = rebalTopic, m.Owned
		k.OwnedPartitions = append(k.OwnedPartitions, o)
	}
	if !m.Plain {
		tps := func(ps []int32) []streams.TopicPartition {
			out := []streams.TopicPartition{}
			for _, p := range ps {
				out = append(out, streams.TopicPartition{Partition: p, Topic: rebalTopic})
			}
			return out
		}
		k.UserData, _ = json.Marshal(streams.IncrGroupMemberMeta{Preparing: tps(m.Prep), Ready: tps(m.Ready), Status: streams.MemberStatus(m.Status), LeftAt: m.LeftAt})
	}
	return k.AppendTo(nil)
}

func genRebalPlan(t *rapid.T) rebalPlan {
	c := rebalPlan{Parts: pick(t, "parts", []int{1, 2, 3, 4, 5, 7, 10, 12, 20, 33, 64})}
	n := intr(t, "members", 1, pick(t, "maxm", []int{2, 3, 5, 12}))
	for i := 0; i < n; i++ {
		m := rebalMember{}
		if chance(t, "leaving", 4) {
			m.Status = pick(t, "status", []int{1, 1, 1, 2})
			m.LeftAt = int64(pick(t, "left", []int{0, 1, 1, 2, 1700000000000}))
		}
		m.Plain = chance(t, "plain", 10)
		if chance(t, "bad", 60) {
			m.Raw = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "raw")
			if m.Raw == nil {
				m.Raw = []byte{}
			}
		}
		c.Members = append(c.Members, m)
	}
	gone, skew := intr(t, "gone", 0, 3), rapid.Bool().Draw(t, "skew")
	rec := intr(t, "rec", 0, pick(t, "maxrec", []int{0, 1, 1, 2, 6}))
	for p := int32(0); int(p) < c.Parts; p++ {
		if gone > 0 && chance(t, "unowned", 4) {
			continue
		}
		k := 1
		if chance(t, "double", 50) {
			k = 2
		}
		for ; k > 0; k-- {
			i := intr(t, "owner", 0, n-1)
			if skew {
				i = i * i / n
			}
			m := &c.Members[i]
			m.Owned = append(m.Owned, p)
		}
	}
	for i := range c.Members {
		m := &c.Members[i]
		sort.Slice(m.Owned, func(a, b int) bool { return m.Owned[a] < m.Owned[b] })
		for j := 1; j < len(m.Owned); j++ {
			if m.Owned[j] == m.Owned[j-1] {
				m.Owned = append(m.Owned[:j], m.Owned[j+1:]...)
				j--
			}
		}
	}
	for ; rec > 0; rec-- {
		m := &c.Members[intr(t, "recip", 0, n-1)]
		p := int32(intr(t, "recp", 0, c.Parts-1))
		dup := false
		for _, q := range append(append([]int32{}, m.Prep...), m.Ready...) {
			dup = dup || q == p
		}
		if dup {
			continue
		}
		if rapid.Bool().Draw(t, "ready") {
			m.Ready = append(m.Ready, p)
		} else {
			m.Prep = append(m.Prep, p)
		}
	}
	return c
}

func runRebalPlan(prop string) func(c rebalPlan) Outcome {
	return func(c rebalPlan) (o Outcome) {
		ir := streams.IncrementalRebalancer(newRebalHandler())
		var jm []kmsg.JoinGroupResponseMember
		var ms []*plan.Member
		bad := false
		active := 0
		for i := range c.Members {
			m := kmsg.NewJoinGroupResponseMember()
			m.MemberID = fmt.Sprintf("m%02d", i)
			m.ProtocolMetadata = c.Members[i].meta()
			jm = append(jm, m)
			pm := &plan.Member{ID: m.MemberID, Meta: m.ProtocolMetadata}
			if pm.Decode(rebalTopic) != nil {
				bad = true
			} else if !pm.Leaving() {
				active++
			}
			ms = append(ms, pm)
		}
		b, topics, err := ir.MemberBalancer(jm)
		if err != nil {
			if !bad {
				o.fail("plan-error", "MemberBalancer fails: %v", err)
			}
			return
		}
		if bad {
			// (the library's decoder is the only judge of that)
			return
		}
		interested := false
		for i := range c.Members {
			interested = interested || c.Members[i].Raw == nil
		}
		if _, ok := topics[rebalTopic]; !ok && interested {
			o.fail("plan-topics", "the members' topics are %v", topics)
			return
		}
		assigned := map[string][]byte{}
		var into kgo.IntoSyncAssignment
		if be, ok := b.(kgo.GroupMemberBalancerOrError); ok {
			into, err = be.BalanceOrError(map[string]int32{rebalTopic: int32(c.Parts)})
		} else {
			into = b.Balance(map[string]int32{rebalTopic: int32(c.Parts)})
		}
		if err != nil {
			o.fail("plan-error", "BalanceOrError fails: %v", err)
			return
		}
		for _, a := range into.IntoSyncAssignment() {
			if assigned[a.MemberID] != nil {
				o.fail("plan-twice", "%s is given two assignments", a.MemberID)
				return
			}
			assigned[a.MemberID] = a.MemberAssignment
		}
		for _, m := range ms {
			if assigned[m.ID] == nil {
				o.fail("plan-nothing", "%s is given no assignment", m.ID)
				return
			}
			*m = plan.Member{ID: m.ID, Meta: m.Meta, Assign: assigned[m.ID]}
			if err := m.Decode(rebalTopic); err != nil {
				o.fail("plan-encoding", "%v", err)
				return
			}
			o.stat("moved", len(m.Ready))
			o.stat("prepare", len(m.Prepare))
			o.stat("forget", len(m.Forget))
			if m.Leaving() {
				o.stat("leaving", 1)
			}
		}
		o.NonT = active > 0 && len(ms) > 1
		for _, f := range plan.Judge(c.Parts, ms, false) {
			if f.Prop == prop {
				o.fail(f.Kind, "%s", f.Msg)
			}
		}
		return
	}
}

// ---- C09: one member's side

type rebalStep struct {
	Op              string // sync | prepared | failed | assigned | leave
	Prepare, Forget []int32
	Give            int
	P               int32
}

type rebalSide struct {
	Steps []rebalStep
}

func genRebalSide(t *rapid.T) rebalSide {
	var c rebalSide
	few := func(l string) (out []int32) {
		seen := map[int32]bool{}
		for i, n := 0, pick(t, l+"n", []int{0, 0, 1, 1, 2, 4}); i < n; i++ {
			p := int32(intr(t, l, 0, 5))
			if !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
		return
	}
	for i, n := 0, intr(t, "steps", 1, 14); i < n; i++ {
		s := rebalStep{Op: pick(t, "op", []string{"sync", "sync", "sync", "sync", "prepared", "prepared", "failed", "assigned", "leave"}), P: int32(intr(t, "p", 0, 5))}
		if s.Op == "leave" && !chance(t, "really", 3) {
			s.Op = "sync"
		}
		if s.Op == "sync" {
			s.Prepare, s.Forget, s.Give = few("prep"), few("forget"), pick(t, "give", []int{0, 1, 3})
			for _, p := range s.Prepare { // never both at once
				for j, q := range s.Forget {
					if p == q {
						s.Forget = append(s.Forget[:j], s.Forget[j+1:]...)
						break
					}
				}
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runRebalSide(c rebalSide) (o Outcome) {
	h := newRebalHandler()
	ir := streams.IncrementalRebalancer(h)
	tp := func(p int32) streams.TopicPartition { return streams.TopicPartition{Partition: p, Topic: rebalTopic} }
	tps := func(ps []int32) (out []streams.TopicPartition) {
		for _, p := range ps {
			out = append(out, tp(p))
		}
		return
	}
	preparing, ready := map[int32]bool{}, map[int32]bool{}
	prepared, forgot := map[streams.TopicPartition]int{}, map[streams.TopicPartition]int{}
	var left <-chan struct{}
	done := false
	list := func(m map[int32]bool) []int32 {
		out := []int32{}
		for p := range m {
			out = append(out, p)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return out
	}
	srt := func(ps []int32) []int32 {
		out := append([]int32{}, ps...)
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return out
	}
	for i, s := range c.Steps {
		if done {
			break // it has left
		}
		switch s.Op {
		case "sync":
			a := kmsg.NewConsumerMemberAssignment()
			a.UserData, _ = json.Marshal(streams.IncrGroupMemberInstructions{Prepare: tps(s.Prepare), Forget: tps(s.Forget)})
			t := kmsg.NewConsumerMemberAssignmentTopic()
			t.Topic = rebalTopic
			for p := 0; p < s.Give; p++ {
				t.Partitions = append(t.Partitions, int32(10+p))
			}
			if s.Give > 0 {
				a.Topics = append(a.Topics, t)
			}
			got, err := ir.ParseSyncAssignment(a.AppendTo(nil))
			if err != nil || fmt.Sprint(srt(got[rebalTopic])) != fmt.Sprint(srt(t.Partitions)) || len(got) > 1 {
				o.fail("side-assignment", "step %d: assigned %v, parsed as %v, %v", i, t.Partitions, got, err)
				return
			}
			if left != nil && s.Give == 0 {
				done = true
				continue
			}
			for _, p := range s.Prepare {
				if !preparing[p] {
					preparing[p] = true
					prepared[tp(p)]++
					o.stat("prepare", 1)
				}
			}
			for _, p := range s.Forget {
				if preparing[p] || ready[p] {
					delete(preparing, p)
					delete(ready, p)
					forgot[tp(p)]++
					o.stat("forget", 1)
				}
			}
		case "prepared":
			ir.PartitionPrepared(tp(s.P))
			if preparing[s.P] {
				delete(preparing, s.P)
				ready[s.P] = true
			} else {
				o.stat("late", 1)
			}
		case "failed":
			ir.PartitionPreparationFailed(tp(s.P))
			delete(preparing, s.P)
			delete(ready, s.P)
		case "assigned":
			ir.PartitionsAssigned(tp(s.P))
			delete(preparing, s.P)
			delete(ready, s.P)
		case "leave":
			c := ir.GracefullyLeaveGroup()
			if left != nil && c != left {
				o.fail("side-leave", "step %d: another channel for the second call", i)
				return
			}
			left = c
		}
		m := &plan.Member{ID: "m", Meta: ir.JoinGroupMetadata([]string{rebalTopic}, map[string][]int32{rebalTopic: {1, 2}}, 1)}
		if err := m.Decode(rebalTopic); err != nil {
			o.fail("side-report", "step %d: %v", i, err)
			return
		}
		st := streams.ActiveMember
		if left != nil {
			st = streams.InactiveMember
		}
		if m.Status != st || fmt.Sprint(srt(m.Preparing)) != fmt.Sprint(list(preparing)) || fmt.Sprint(srt(m.Ready)) != fmt.Sprint(list(ready)) || fmt.Sprint(m.Owned) != "[1 2]" {
			o.fail("side-report", "after step %d (%+v) the member reports status %d preparing %v ready %v owned %v; expected status %d preparing %v ready %v owned [1 2]",
				i, s, m.Status, srt(m.Preparing), srt(m.Ready), m.Owned, st, list(preparing), list(ready))
			return
		}
		if left != nil {
			select {
			case <-left:
				o.fail("side-leave", "after step %d the leave completes, although the member still owns partitions", i)
				return
			default:
			}
		}
	}
	if done {
		select {
		case <-left:
			o.stat("left", 1)
		case <-time.After(2 * time.Second):
			o.fail("side-leave", "the member owns nothing any more, but its leave does not complete")
			return
		}
	}
	// the handler is called in the background
	same := func(a, b map[streams.TopicPartition]int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	for k := 0; ; k++ {
		h.mu.Lock()
		okP, okF := same(h.prepared, prepared), same(h.forgot, forgot)
		msg := fmt.Sprintf("prepared %v, forgot %v; instructed to prepare %v and to forget %v", h.prepared, h.forgot, prepared, forgot)
		h.mu.Unlock()
		if okP && okF {
			break
		}
		if k > 400 {
			o.fail("side-instructions", "%s", msg)
			return
		}
		time.Sleep(time.Millisecond * time.Duration(k/10))
	}
	o.NonT = o.Stats["prepare"]+o.Stats["forget"]+o.Stats["left"] > 0
	return
}

func init() {
	reg("C08", "plan", 400000, 3000000, "several members, at least one of which is not leaving", genRebalPlan, runRebalPlan("C08"))
	reg("C09", "plan", 400000, 3000000, "several members, at least one of which is not leaving", genRebalPlan, runRebalPlan("C09"))
	reg("C09", "member", 20000, 600000, "the member was instructed to prepare or forget a partition, or left", genRebalSide, runRebalSide)
}
