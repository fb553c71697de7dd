package kfake

import (
	"fmt"
	"sort"
	"time"

	"github.com/twmb/franz-go/pkg/kerr"
	"github.com/twmb/franz-go/pkg/kmsg"
)

type member struct {
	id        string
	cl        *Client
	protos    []kmsg.JoinGroupRequestProtocol
	session   time.Duration
	rebalance time.Duration
	joining   chan *kmsg.JoinGroupResponse
	joinReq   *kmsg.JoinGroupRequest
	syncing   chan *kmsg.SyncGroupResponse
	assign    []byte
	timer     *time.Timer
	deadline  time.Time
}

// PlanMember is what a member reported, and was assigned in return.
type PlanMember struct {
	ID           string
	Client       *Client
	Meta, Assign []byte
}

// Group is the coordinator state of one consumer group.
type Group struct {
	c        *Cluster
	ID       string
	State    string // Empty PreparingRebalance CompletingRebalance Stable
	Gen      int32
	Proto    string
	ProtoTyp string
	leader   string
	members  map[string]*member
	order    []string
	pending  map[string]bool
	offsets  map[TP]int64
	initial  bool
	rbSeq    int
	counter  int
	Rounds   int
}

func (c *Cluster) groupLocked(id string) *Group {
	g := c.groups[id]
	if g == nil {
		g = &Group{c: c, ID: id, State: "Empty", members: map[string]*member{}, pending: map[string]bool{}, offsets: map[TP]int64{}}
		c.groups[id] = g
	}
	return g
}

// GroupInfoLocked reports generation, state and the client index of each member.
func (c *Cluster) GroupInfoLocked(id string) (gen int32, state string, clients []int) {
	g := c.groups[id]
	if g == nil {
		return 0, "Empty", nil
	}
	for _, m := range g.order {
		clients = append(clients, g.members[m].cl.Idx)
	}
	return g.Gen, g.State, clients
}

// GroupMembersLocked lists the clients of the current members.
func (c *Cluster) GroupMembersLocked(id string) []*Client {
	g := c.groups[id]
	if g == nil {
		return nil
	}
	var out []*Client
	for _, m := range g.order {
		if mm := g.members[m]; mm != nil {
			out = append(out, mm.cl)
		}
	}
	return out
}

// GroupAssignLocked returns the raw assignment per client index.
func (c *Cluster) GroupAssignLocked(id string) map[int][]byte {
	out := map[int][]byte{}
	if g := c.groups[id]; g != nil {
		for _, m := range g.members {
			out[m.cl.Idx] = m.assign
		}
	}
	return out
}

// SetGroupOffsetLocked commits an offset as a former member of the group.
func (c *Cluster) SetGroupOffsetLocked(id string, tp TP, off int64) {
	c.groupLocked(id).offsets[tp] = off
}

func (c *Cluster) GroupOffsetLocked(id string, tp TP) (int64, bool) {
	if g := c.groups[id]; g != nil {
		o, ok := g.offsets[tp]
		return o, ok
	}
	return 0, false
}

func (g *Group) note(what string, m *member) {
	if g.c.OnGroup != nil {
		id, cl := "", (*Client)(nil)
		if m != nil {
			id, cl = m.id, m.cl
		}
		g.c.OnGroup(g.ID, what, cl, id)
	}
}

func sameProtos(a, b []kmsg.JoinGroupRequestProtocol) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || string(a[i].Metadata) != string(b[i].Metadata) {
			return false
		}
	}
	return true
}

func (c *Cluster) join(cl *Client, req *kmsg.JoinGroupRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.JoinGroupResponse)
	c.mu.Lock()
	if cl.dead {
		c.mu.Unlock()
		return nil
	}
	g := c.groupLocked(req.Group)
	fail := func(e *kerr.Error) kmsg.Response {
		c.mu.Unlock()
		resp.ErrorCode = e.Code
		resp.MemberID = req.MemberID
		resp.Generation = -1
		return resp
	}
	if len(req.Protocols) == 0 {
		return fail(kerr.InconsistentGroupProtocol)
	}
	var m *member
	if req.MemberID == "" {
		g.counter++
		id := fmt.Sprintf("m-%s-%d", cl.Name, g.counter)
		if req.Version >= 4 {
			g.pending[id] = true
			c.mu.Unlock()
			resp.ErrorCode = kerr.MemberIDRequired.Code
			resp.MemberID = id
			resp.Generation = -1
			return resp
		}
		m = &member{id: id}
	} else if g.members[req.MemberID] != nil {
		m = g.members[req.MemberID]
	} else if g.pending[req.MemberID] {
		delete(g.pending, req.MemberID)
		m = &member{id: req.MemberID}
	} else {
		return fail(kerr.UnknownMemberID)
	}
	isNew := g.members[m.id] == nil
	if len(g.members) > 0 && !g.supports(req.Protocols, m.id) {
		return fail(kerr.InconsistentGroupProtocol)
	}
	changed := isNew || !sameProtos(m.protos, req.Protocols)
	m.cl = cl
	m.protos = req.Protocols
	m.session = time.Duration(req.SessionTimeoutMillis) * time.Millisecond
	m.rebalance = time.Duration(req.RebalanceTimeoutMillis) * time.Millisecond
	g.ProtoTyp = req.ProtocolType
	wasEmpty := len(g.members) == 0
	if isNew {
		g.members[m.id] = m
		g.order = append(g.order, m.id)
		if g.leader == "" {
			g.leader = m.id
		}
		g.note("add", m)
	}
	g.touch(m)
	if m.joining != nil { // retried on another connection
		close(m.joining)
		m.joining = nil
	}
	switch {
	case g.State == "Stable" && !changed && m.id != g.leader, g.State == "CompletingRebalance" && !changed:
		g.fillJoin(resp, m)
		c.mu.Unlock()
		return resp
	}
	ch := make(chan *kmsg.JoinGroupResponse, 1)
	m.joining = ch
	m.joinReq = req
	if m.timer != nil {
		m.timer.Stop() // alive while it waits
	}
	if g.State != "PreparingRebalance" {
		delay := time.Duration(0)
		if wasEmpty {
			delay = c.cfg.RebalanceDelay
		}
		g.prepare(delay)
	}
	g.tryComplete(false)
	c.mu.Unlock()
	r, ok := <-ch
	if !ok {
		resp.ErrorCode = kerr.UnknownMemberID.Code
		return resp
	}
	return r
}

func (g *Group) supports(ps []kmsg.JoinGroupRequestProtocol, self string) bool {
	for _, p := range ps {
		all := true
		for id, m := range g.members {
			if id == self {
				continue
			}
			has := false
			for _, q := range m.protos {
				has = has || q.Name == p.Name
			}
			all = all && has
		}
		if all {
			return true
		}
	}
	return false
}

func (g *Group) fillJoin(resp *kmsg.JoinGroupResponse, m *member) {
	resp.Generation = g.Gen
	p := g.Proto
	resp.Protocol = &p
	pt := g.ProtoTyp
	resp.ProtocolType = &pt
	resp.LeaderID = g.leader
	resp.MemberID = m.id
	if m.id == g.leader {
		for _, id := range g.order {
			o := g.members[id]
			rm := kmsg.NewJoinGroupResponseMember()
			rm.MemberID = id
			for _, q := range o.protos {
				if q.Name == g.Proto {
					rm.ProtocolMetadata = q.Metadata
				}
			}
			resp.Members = append(resp.Members, rm)
		}
	}
}

// prepare starts a rebalance.
func (g *Group) prepare(initialDelay time.Duration) {
	g.State = "PreparingRebalance"
	g.note("prepare", nil)
	g.rbSeq++
	seq := g.rbSeq
	for _, id := range g.order {
		m := g.members[id]
		if m.syncing != nil {
			m.syncing <- errSync(kerr.RebalanceInProgress.Code)
			m.syncing = nil
		}
	}
	g.initial = initialDelay > 0
	max := initialDelay
	if initialDelay == 0 {
		for _, m := range g.members {
			if m.rebalance > max {
				max = m.rebalance
			}
		}
	}
	time.AfterFunc(max, func() {
		g.c.mu.Lock()
		defer g.c.mu.Unlock()
		if g.State == "PreparingRebalance" && g.rbSeq == seq {
			g.initial = false
			g.tryComplete(true)
		}
	})
}

func errSync(code int16) *kmsg.SyncGroupResponse {
	r := kmsg.NewPtrSyncGroupResponse()
	r.ErrorCode = code
	r.MemberAssignment = []byte{}
	return r
}

func (g *Group) tryComplete(timeout bool) {
	if g.State != "PreparingRebalance" || g.initial {
		return
	}
	for _, id := range append([]string(nil), g.order...) {
		if g.members[id].joining == nil {
			if !timeout {
				return
			}
			g.remove(g.members[id], "rebalance-timeout")
		}
	}
	if len(g.members) == 0 {
		g.State = "Empty"
		g.Gen++
		g.note("empty", nil)
		return
	}
	g.Gen++
	g.Rounds++
	g.Proto = g.selectProto()
	g.State = "CompletingRebalance"
	g.note("complete", nil)
	for _, id := range g.order {
		m := g.members[id]
		resp := m.joinReq.ResponseKind().(*kmsg.JoinGroupResponse)
		g.fillJoin(resp, m)
		m.assign = nil
		ch := m.joining
		m.joining = nil
		g.touch(m)
		ch <- resp
	}
}

func (g *Group) selectProto() string {
	votes := map[string]int{}
	for _, id := range g.order {
		for _, p := range g.members[id].protos {
			if g.supports([]kmsg.JoinGroupRequestProtocol{p}, "") {
				votes[p.Name]++
				break
			}
		}
	}
	best := ""
	var names []string
	for n := range votes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if best == "" || votes[n] > votes[best] {
			best = n
		}
	}
	return best
}

func (g *Group) touch(m *member) {
	if m.timer != nil {
		m.timer.Stop()
	}
	var t *time.Timer
	t = time.AfterFunc(m.session, func() {
		g.c.mu.Lock()
		defer g.c.mu.Unlock()
		if g.members[m.id] == m && m.timer == t && m.joining == nil {
			g.removeAndRebalance(m, "session-timeout")
		}
	})
	m.timer = t
}

func (g *Group) remove(m *member, why string) {
	delete(g.members, m.id)
	for i, id := range g.order {
		if id == m.id {
			g.order = append(g.order[:i:i], g.order[i+1:]...)
			break
		}
	}
	if m.timer != nil {
		m.timer.Stop()
	}
	if m.joining != nil {
		close(m.joining)
		m.joining = nil
	}
	if m.syncing != nil {
		m.syncing <- errSync(kerr.UnknownMemberID.Code)
		m.syncing = nil
	}
	if g.leader == m.id {
		g.leader = ""
		if len(g.order) > 0 {
			g.leader = g.order[0]
		}
	}
	g.note(why, m)
}

func (g *Group) removeAndRebalance(m *member, why string) {
	g.remove(m, why)
	switch g.State {
	case "Stable", "CompletingRebalance":
		g.prepare(0)
		g.tryComplete(false)
	case "PreparingRebalance":
		g.tryComplete(false)
	}
}

// connection of a dead client that was waiting in join: its member goes by session timeout
func (c *Cluster) syncGroup(cl *Client, req *kmsg.SyncGroupRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.SyncGroupResponse)
	resp.MemberAssignment = []byte{}
	c.mu.Lock()
	g := c.groups[req.Group]
	var m *member
	if g != nil {
		m = g.members[req.MemberID]
	}
	fail := func(e *kerr.Error) kmsg.Response {
		c.mu.Unlock()
		resp.ErrorCode = e.Code
		return resp
	}
	if m == nil {
		return fail(kerr.UnknownMemberID)
	}
	if req.Generation != g.Gen {
		return fail(kerr.IllegalGeneration)
	}
	g.touch(m)
	switch g.State {
	case "PreparingRebalance":
		return fail(kerr.RebalanceInProgress)
	case "Stable":
		resp.MemberAssignment = m.assign
		if resp.MemberAssignment == nil {
			resp.MemberAssignment = []byte{}
		}
		c.mu.Unlock()
		return resp
	case "CompletingRebalance":
		ch := make(chan *kmsg.SyncGroupResponse, 1)
		m.syncing = ch
		if m.id == g.leader {
			for _, a := range req.GroupAssignment {
				if o := g.members[a.MemberID]; o != nil {
					o.assign = a.MemberAssignment
				}
			}
			g.State = "Stable"
			g.note("stable", m)
			if g.c.OnPlan != nil {
				var ms []PlanMember
				for _, id := range g.order {
					o := g.members[id]
					pm := PlanMember{ID: id, Client: o.cl, Assign: o.assign}
					for _, q := range o.protos {
						if q.Name == g.Proto {
							pm.Meta = q.Metadata
						}
					}
					ms = append(ms, pm)
				}
				g.c.OnPlan(g.ID, g.Gen, ms)
			}
			for _, id := range g.order {
				o := g.members[id]
				if o.syncing != nil {
					r := kmsg.NewPtrSyncGroupResponse()
					r.MemberAssignment = o.assign
					if r.MemberAssignment == nil {
						r.MemberAssignment = []byte{}
					}
					o.syncing <- r
					o.syncing = nil
				}
				g.touch(o)
			}
		}
		c.mu.Unlock()
		r := <-ch
		return r
	}
	return fail(kerr.UnknownMemberID)
}

func (c *Cluster) heartbeat(req *kmsg.HeartbeatRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.HeartbeatResponse)
	g := c.groups[req.Group]
	if g == nil || g.members[req.MemberID] == nil {
		resp.ErrorCode = kerr.UnknownMemberID.Code
		return resp
	}
	if req.Generation != g.Gen {
		resp.ErrorCode = kerr.IllegalGeneration.Code
		return resp
	}
	m := g.members[req.MemberID]
	if m.joining == nil {
		g.touch(m)
	}
	if g.State == "PreparingRebalance" {
		resp.ErrorCode = kerr.RebalanceInProgress.Code
	}
	return resp
}

func (c *Cluster) leave(cl *Client, req *kmsg.LeaveGroupRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.LeaveGroupResponse)
	g := c.groups[req.Group]
	one := func(id string) int16 {
		if g == nil || g.members[id] == nil {
			if g != nil && g.pending[id] {
				delete(g.pending, id)
				return 0
			}
			return kerr.UnknownMemberID.Code
		}
		g.removeAndRebalance(g.members[id], "leave")
		return 0
	}
	if req.Version < 3 {
		resp.ErrorCode = one(req.MemberID)
		return resp
	}
	for _, m := range req.Members {
		rm := kmsg.NewLeaveGroupResponseMember()
		rm.MemberID = m.MemberID
		rm.ErrorCode = one(m.MemberID)
		resp.Members = append(resp.Members, rm)
	}
	return resp
}

func (c *Cluster) describe(req *kmsg.DescribeGroupsRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.DescribeGroupsResponse)
	for _, id := range req.Groups {
		rg := kmsg.NewDescribeGroupsResponseGroup()
		rg.Group = id
		g := c.groups[id]
		if g == nil {
			rg.State = "Dead"
		} else {
			rg.State = g.State
			rg.ProtocolType = g.ProtoTyp
			if g.State == "Stable" || g.State == "CompletingRebalance" {
				rg.Protocol = g.Proto
			}
			for _, mid := range g.order {
				m := g.members[mid]
				rm := kmsg.NewDescribeGroupsResponseGroupMember()
				rm.MemberID = mid
				rm.MemberAssignment = m.assign
				for _, q := range m.protos {
					if q.Name == g.Proto {
						rm.ProtocolMetadata = q.Metadata
					}
				}
				rg.Members = append(rg.Members, rm)
			}
		}
		resp.Groups = append(resp.Groups, rg)
	}
	return resp
}

func (c *Cluster) offsetCommit(cl *Client, req *kmsg.OffsetCommitRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.OffsetCommitResponse)
	g := c.groupLocked(req.Group)
	code := int16(0)
	if req.Generation >= 0 || req.MemberID != "" {
		m := g.members[req.MemberID]
		if m == nil {
			code = kerr.UnknownMemberID.Code
		} else if req.Generation != g.Gen {
			code = kerr.IllegalGeneration.Code
		} else if g.State == "CompletingRebalance" {
			code = kerr.RebalanceInProgress.Code
		} else if m.joining == nil {
			g.touch(m)
		}
	} else if len(g.members) > 0 {
		code = kerr.UnknownMemberID.Code
	}
	for _, t := range req.Topics {
		rt := kmsg.NewOffsetCommitResponseTopic()
		rt.Topic = t.Topic
		for _, p := range t.Partitions {
			rp := kmsg.NewOffsetCommitResponseTopicPartition()
			rp.Partition, rp.ErrorCode = p.Partition, code
			if code == 0 {
				g.offsets[TP{t.Topic, p.Partition}] = p.Offset
				if c.OnOffsetCommit != nil {
					c.OnOffsetCommit(req.Group, cl, TP{t.Topic, p.Partition}, p.Offset)
				}
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

func (c *Cluster) offsetFetch(req *kmsg.OffsetFetchRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.OffsetFetchResponse)
	g := c.groupLocked(req.Group)
	for _, t := range req.Topics {
		rt := kmsg.NewOffsetFetchResponseTopic()
		rt.Topic = t.Topic
		for _, p := range t.Partitions {
			rp := kmsg.NewOffsetFetchResponseTopicPartition()
			rp.Partition = p
			rp.Offset = -1
			rp.LeaderEpoch = -1
			if o, ok := g.offsets[TP{t.Topic, p}]; ok {
				rp.Offset = o
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

// SetGroupOffset presets an offset of the ordinary consumer group.
func (c *Cluster) SetGroupOffset(group string, tp TP, off int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.groupLocked(group).offsets[tp] = off
}
