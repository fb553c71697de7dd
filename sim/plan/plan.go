// Package plan judges what an incremental rebalancer decided in one generation of a group:
// the members' reports on one side, their assignments and instructions on the other.
package plan

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// Member is one member's report and what it was given.
type Member struct {
	ID           string
	Meta, Assign []byte

	Status    streams.MemberStatus
	Owned     []int32
	Preparing []int32
	Ready     []int32
	Given     []int32
	Prepare   []int32
	Forget    []int32
}

func (m *Member) Leaving() bool { return m.Status != streams.ActiveMember }

type Finding struct {
	Prop, Kind, Msg string
}

func has(l []int32, p int32) bool {
	for _, x := range l {
		if x == p {
			return true
		}
	}
	return false
}

func ofTopic(tps []streams.TopicPartition, topic string) (out []int32) {
	for _, tp := range tps {
		if tp.Topic == topic && !has(out, tp.Partition) {
			out = append(out, tp.Partition)
		}
	}
	return
}

// Decode fills in what the bytes say.
func (m *Member) Decode(topic string) error {
	var meta kmsg.ConsumerMemberMetadata
	if err := meta.ReadFrom(m.Meta); err != nil {
		return fmt.Errorf("metadata of %s: %v", m.ID, err)
	}
	for _, o := range meta.OwnedPartitions {
		if o.Topic == topic {
			m.Owned = append(m.Owned, o.Partitions...)
		}
	}
	if len(meta.UserData) > 0 {
		var u streams.IncrGroupMemberMeta
		if err := json.Unmarshal(meta.UserData, &u); err == nil {
			m.Status, m.Preparing, m.Ready = u.Status, ofTopic(u.Preparing, topic), ofTopic(u.Ready, topic)
		}
	}
	if len(m.Assign) == 0 {
		return nil
	}
	var a kmsg.ConsumerMemberAssignment
	if err := a.ReadFrom(m.Assign); err != nil {
		return fmt.Errorf("assignment of %s: %v", m.ID, err)
	}
	for _, t := range a.Topics {
		if t.Topic == topic {
			m.Given = append(m.Given, t.Partitions...)
		}
	}
	var ins streams.IncrGroupMemberInstructions
	if len(a.UserData) > 0 {
		if err := json.Unmarshal(a.UserData, &ins); err != nil {
			return fmt.Errorf("instructions of %s: %v", m.ID, err)
		}
	}
	m.Prepare, m.Forget = ofTopic(ins.Prepare, topic), ofTopic(ins.Forget, topic)
	return nil
}

func (m *Member) String() string {
	return fmt.Sprintf("%s{status %d owned %v preparing %v ready %v -> given %v prepare %v forget %v}", m.ID, m.Status, m.Owned, m.Preparing, m.Ready, m.Given, m.Prepare, m.Forget)
}

// Budget is the number of partitions which may be in receivership at any time.
const Budget = 1

// Judge compares one generation's plan with the two properties. `history` says that the reports
// come from a group which has always used the strategy.
func Judge(parts int, ms []*Member, history bool) (fs []Finding) {
	find := func(prop, kind, f string, a ...any) {
		msg := fmt.Sprintf(f, a...)
		for _, m := range ms {
			msg += "\n    " + m.String()
		}
		fs = append(fs, Finding{prop, kind, msg})
	}
	owners, readys, preps, holders := map[int32][]*Member{}, map[int32][]*Member{}, map[int32][]*Member{}, map[int32][]*Member{}
	active := 0
	for _, m := range ms {
		if !m.Leaving() {
			active++
			for _, p := range m.Ready {
				readys[p] = append(readys[p], m)
			}
			for _, p := range m.Preparing {
				preps[p] = append(preps[p], m)
			}
		}
		for _, p := range m.Owned {
			owners[p] = append(owners[p], m)
		}
		seen := map[int32]bool{}
		for _, p := range m.Given {
			if seen[p] {
				find("C08", "plan-twice", "%s is given partition %d twice", m.ID, p)
			}
			seen[p] = true
			holders[p] = append(holders[p], m)
			if p < 0 || int(p) >= parts && !has(m.Owned, p) {
				find("C08", "plan-unknown", "%s is given partition %d of a topic with %d partitions", m.ID, p, parts)
			}
		}
	}
	is := func(l []*Member, m *Member) bool {
		for _, x := range l {
			if x == m {
				return true
			}
		}
		return false
	}
	for p := int32(0); int(p) < parts; p++ {
		h, o := holders[p], owners[p]
		if len(h) > 1 {
			find("C08", "plan-two-owners", "partition %d is given to %d members", p, len(h))
			continue
		}
		if active == 0 {
			if len(h) > 0 {
				find("C09", "plan-last-leaver", "only leaving members remain, but %s is given partition %d", h[0].ID, p)
			}
			continue
		}
		switch {
		case len(o) == 0 && len(h) == 0:
			find("C08", "plan-unassigned", "nobody owns partition %d, and nobody is given it", p)
		case len(o) == 0:
			if h[0].Leaving() {
				find("C08", "plan-to-leaver", "partition %d is given to the leaving member %s", p, h[0].ID)
			}
			if n := len(readys[p]) + len(preps[p]); n > 0 && !is(readys[p], h[0]) && !is(preps[p], h[0]) {
				find("C08", "plan-unprepared", "partition %d is given to %s although another member prepared it", p, h[0].ID)
			}
			if len(readys[p]) > 0 && len(preps[p]) == 0 && !is(readys[p], h[0]) {
				find("C08", "plan-unprepared", "partition %d is given to %s although another member is ready for it", p, h[0].ID)
			}
		case len(h) == 0:
			// its owner gives it up, for somebody who is ready
			to := 0
			for _, m := range readys[p] {
				if len(o) > 1 || m != o[0] {
					to++
				}
			}
			if to == 0 {
				find("C08", "plan-unprepared", "partition %d is taken from its owner %s although nobody else is ready for it", p, o[0].ID)
			}
		default:
			if !is(o, h[0]) {
				find("C08", "plan-not-revoked", "partition %d is given to %s while %s still owns it", p, h[0].ID, o[0].ID)
			}
			if len(o) == 1 && len(readys[p]) == 1 && readys[p][0] != o[0] && len(preps[p]) == 0 {
				find("C09", "plan-not-delivered", "%s is ready for partition %d, but %s keeps it", readys[p][0].ID, p, o[0].ID)
			}
		}
	}
	// preparations
	moving := map[int32]bool{}
	for _, m := range ms {
		if m.Leaving() {
			for _, p := range append(append([]int32{}, m.Preparing...), m.Ready...) {
				if !has(m.Forget, p) {
					find("C09", "plan-not-forgotten", "%s is leaving, but it is not told to forget partition %d", m.ID, p)
				}
			}
			continue
		}
		for _, p := range append(append([]int32{}, m.Preparing...), m.Ready...) {
			if !is(owners[p], m) {
				moving[p] = true
			}
		}
	}
	was := len(moving)
	asked := 0
	for _, m := range ms {
		for _, p := range m.Prepare {
			asked++
			switch {
			case m.Leaving():
				find("C09", "plan-prepare-leaver", "the leaving member %s is asked to prepare partition %d", m.ID, p)
			case len(owners[p]) == 1 && is(owners[p], m):
				find("C09", "plan-prepare-owner", "%s is asked to prepare partition %d, which it owns", m.ID, p)
			case p < 0 || int(p) >= parts:
				find("C09", "plan-prepare-unknown", "%s is asked to prepare partition %d of a topic with %d partitions", m.ID, p, parts)
			case has(m.Given, p):
				find("C09", "plan-prepare-given", "%s is asked to prepare partition %d, which it is given", m.ID, p)
			}
		}
	}
	if left := Budget - was; asked > 0 && asked > left {
		find("C09", "plan-budget", "%d partitions are being moved already, and members are asked to prepare %d more", was, asked)
	}
	if history && was > Budget {
		find("C09", "plan-budget", "%d partitions are being moved at the same time", was)
	}
	return
}

// Spread is the least and the greatest number of partitions.
func Spread(ns []int) (int, int) {
	sort.Ints(ns)
	return ns[0], ns[len(ns)-1]
}
