package kfake

import (
	"encoding/binary"
	"hash/fnv"
	"sort"
	"time"

	"github.com/twmb/franz-go/pkg/kerr"
	"github.com/twmb/franz-go/pkg/kmsg"
)

var apiVersions = map[int16][2]int16{
	0:  {3, 8},  // Produce
	1:  {4, 11}, // Fetch
	2:  {1, 5},  // ListOffsets
	3:  {4, 8},  // Metadata
	8:  {2, 7},  // OffsetCommit
	9:  {1, 5},  // OffsetFetch
	10: {0, 2},  // FindCoordinator
	11: {2, 5},  // JoinGroup
	12: {0, 3},  // Heartbeat
	13: {0, 3},  // LeaveGroup
	14: {0, 3},  // SyncGroup
	15: {0, 4},  // DescribeGroups
	18: {0, 3},  // ApiVersions
	19: {2, 4},  // CreateTopics
	20: {1, 3},  // DeleteTopics
	22: {0, 4},  // InitProducerID
	23: {2, 3},  // OffsetForLeaderEpoch
	24: {0, 1},  // AddPartitionsToTxn
	26: {0, 1},  // EndTxn
}

func apiKeys() (out []kmsg.ApiVersionsResponseApiKey) {
	var ks []int
	for k := range apiVersions {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		a := kmsg.NewApiVersionsResponseApiKey()
		a.ApiKey, a.MinVersion, a.MaxVersion = int16(k), apiVersions[int16(k)][0], apiVersions[int16(k)][1]
		out = append(out, a)
	}
	return
}

func (c *Cluster) nodeOf(s string, p int32) int32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return int32((h.Sum32()&0xffff + uint32(p)) % uint32(c.cfg.Nodes))
}

func (sc *srvConn) handle(kreq kmsg.Request) kmsg.Response {
	c := sc.c
	switch req := kreq.(type) {
	case *kmsg.FetchRequest:
		return sc.fetch(req)
	case *kmsg.JoinGroupRequest:
		return c.join(sc.cl, req)
	case *kmsg.SyncGroupRequest:
		return c.syncGroup(sc.cl, req)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	switch req := kreq.(type) {
	case *kmsg.ApiVersionsRequest:
		resp := req.ResponseKind().(*kmsg.ApiVersionsResponse)
		resp.ApiKeys = apiKeys()
		return resp
	case *kmsg.MetadataRequest:
		return c.metadata(req)
	case *kmsg.ProduceRequest:
		return c.produce(sc.cl, req)
	case *kmsg.ListOffsetsRequest:
		return c.listOffsets(req)
	case *kmsg.OffsetForLeaderEpochRequest:
		return c.leaderEpoch(req)
	case *kmsg.FindCoordinatorRequest:
		resp := req.ResponseKind().(*kmsg.FindCoordinatorResponse)
		id := c.nodeOf(req.CoordinatorKey, int32(req.CoordinatorType))
		resp.NodeID, resp.Host, resp.Port = id, c.host(id), 9092
		return resp
	case *kmsg.CreateTopicsRequest:
		resp := req.ResponseKind().(*kmsg.CreateTopicsResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewCreateTopicsResponseTopic()
			rt.Topic = t.Topic
			cfg := map[string]string{}
			for _, kv := range t.Configs {
				if kv.Value != nil {
					cfg[kv.Name] = *kv.Value
				}
			}
			rt.ErrorCode = c.createTopicLocked(t.Topic, int(t.NumPartitions), int(t.ReplicationFactor), cfg, req.ValidateOnly)
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	case *kmsg.DeleteTopicsRequest:
		resp := req.ResponseKind().(*kmsg.DeleteTopicsResponse)
		for _, n := range req.TopicNames {
			rt := kmsg.NewDeleteTopicsResponseTopic()
			name := n
			rt.Topic = &name
			if _, ok := c.topics[n]; ok {
				delete(c.topics, n)
			} else {
				rt.ErrorCode = kerr.UnknownTopicOrPartition.Code
			}
			resp.Topics = append(resp.Topics, rt)
		}
		c.notifyLocked()
		return resp
	case *kmsg.InitProducerIDRequest:
		return c.initPID(sc.cl, req)
	case *kmsg.AddPartitionsToTxnRequest:
		return c.addPartitions(sc.cl, req)
	case *kmsg.EndTxnRequest:
		return c.endTxn(req)
	case *kmsg.HeartbeatRequest:
		return c.heartbeat(req)
	case *kmsg.LeaveGroupRequest:
		return c.leave(sc.cl, req)
	case *kmsg.DescribeGroupsRequest:
		return c.describe(req)
	case *kmsg.OffsetCommitRequest:
		return c.offsetCommit(sc.cl, req)
	case *kmsg.OffsetFetchRequest:
		return c.offsetFetch(req)
	}
	return nil
}

func (c *Cluster) host(id int32) string { return []string{"b0", "b1", "b2", "b3", "b4"}[id] }

func (c *Cluster) metadata(req *kmsg.MetadataRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.MetadataResponse)
	for i := int32(0); i < int32(c.cfg.Nodes); i++ {
		b := kmsg.NewMetadataResponseBroker()
		b.NodeID, b.Host, b.Port = i, c.host(i), 9092
		resp.Brokers = append(resp.Brokers, b)
	}
	id := "kfake"
	resp.ClusterID = &id
	resp.ControllerID = 0
	var names []string
	if req.Topics == nil {
		names = c.TopicNamesLocked()
	}
	for _, t := range req.Topics {
		if t.Topic != nil {
			names = append(names, *t.Topic)
		}
	}
	for _, n := range names {
		n := n
		rt := kmsg.NewMetadataResponseTopic()
		rt.Topic = &n
		t := c.topics[n]
		if t == nil {
			rt.ErrorCode = kerr.UnknownTopicOrPartition.Code
		} else {
			for _, p := range t.Parts {
				rp := kmsg.NewMetadataResponseTopicPartition()
				rp.Partition = p.P
				rp.Leader = c.nodeOf(n, p.P)
				rp.LeaderEpoch = 0
				for r := 0; r < t.RF; r++ {
					rp.Replicas = append(rp.Replicas, (rp.Leader+int32(r))%int32(c.cfg.Nodes))
				}
				rp.ISR = rp.Replicas
				rt.Partitions = append(rt.Partitions, rp)
			}
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

func (c *Cluster) produce(cl *Client, req *kmsg.ProduceRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.ProduceResponse)
	for _, t := range req.Topics {
		rt := kmsg.NewProduceResponseTopic()
		rt.Topic = t.Topic
		for _, p := range t.Partitions {
			rp := kmsg.NewProduceResponseTopicPartition()
			rp.Partition = p.Partition
			rp.BaseOffset = -1
			rp.LogAppendTime = -1
			rp.ErrorCode, rp.BaseOffset = c.appendBatch(cl, t.Topic, p.Partition, p.Records)
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	c.notifyLocked()
	if req.Acks == 0 {
		return nil
	}
	return resp
}

func (c *Cluster) appendBatch(cl *Client, topic string, pn int32, raw []byte) (int16, int64) {
	t := c.topics[topic]
	if t == nil || int(pn) >= len(t.Parts) {
		return kerr.UnknownTopicOrPartition.Code, -1
	}
	part := t.Parts[pn]
	raw = append([]byte(nil), raw...)
	rb, recs, err := parseBatch(raw)
	if err != nil {
		c.Unsupported = append(c.Unsupported, "produce: "+err.Error())
		return kerr.CorruptMessage.Code, -1
	}
	txnal := rb.Attributes&0x10 != 0
	var txn *Txn
	if rb.ProducerID >= 0 {
		ps := c.prod[rb.ProducerID]
		if ps == nil {
			return kerr.UnknownProducerID.Code, -1
		}
		if rb.ProducerEpoch < ps.epoch {
			return kerr.InvalidProducerEpoch.Code, -1
		}
		if txnal {
			if ps.cur == nil {
				return kerr.InvalidTxnState.Code, -1
			}
			if _, ok := ps.cur.Parts[TP{topic, pn}]; !ok {
				return kerr.InvalidTxnState.Code, -1
			}
			txn = ps.cur
		} else if ps.txnID != "" {
			return kerr.InvalidTxnState.Code, -1
		}
		st := part.seqs[rb.ProducerID]
		if st == nil || st.epoch != rb.ProducerEpoch {
			if rb.FirstSequence != 0 {
				if st != nil || true {
					return kerr.OutOfOrderSequenceNumber.Code, -1
				}
			}
			st = &seqState{epoch: rb.ProducerEpoch}
			part.seqs[rb.ProducerID] = st
		}
		for _, l := range st.last {
			if l.seq == rb.FirstSequence && l.num == rb.NumRecords {
				return 0, l.base // duplicate
			}
		}
		if rb.FirstSequence != st.next {
			return kerr.OutOfOrderSequenceNumber.Code, -1
		}
		st.next += rb.NumRecords
		st.last = append(st.last, struct {
			seq  int32
			num  int32
			base int64
		}{rb.FirstSequence, rb.NumRecords, part.Next})
		if len(st.last) > 5 {
			st.last = st.last[1:]
		}
	}
	base := part.Next
	binary.BigEndian.PutUint64(raw, uint64(base))
	binary.BigEndian.PutUint32(raw[12:], 0)
	b := &Batch{Base: base, Last: base + int64(rb.LastOffsetDelta), PID: rb.ProducerID, Epoch: rb.ProducerEpoch, Seq: rb.FirstSequence,
		Num: rb.NumRecords, Txn: txn, Inst: cl, Recs: recs, raw: raw}
	for _, r := range recs {
		r.Offset += base
		r.Txn = txn
	}
	part.Batches = append(part.Batches, b)
	part.Next = b.Last + 1
	if txn != nil {
		tp := TP{topic, pn}
		if txn.Parts[tp] < 0 {
			txn.Parts[tp] = base
			part.open[txn.PID] = base
		}
		txn.Batches = append(txn.Batches, &TxnBatch{tp, b})
		if n := c.OpenTxnsLocked(nil); n > c.MaxOpenTxns {
			c.MaxOpenTxns = n
		}
	}
	if c.OnAppend != nil {
		c.OnAppend(part, b)
	}
	if c.cfg.AutoCompact && t.Config["cleanup.policy"] == "compact" && c.rng.Intn(8) == 0 {
		c.CompactLocked(topic, pn, c.rng.Intn(6))
	}
	return 0, base
}

func (sc *srvConn) fetch(req *kmsg.FetchRequest) kmsg.Response {
	c := sc.c
	deadline := time.Now().Add(time.Duration(req.MaxWaitMillis) * time.Millisecond)
	for {
		c.mu.Lock()
		resp := req.ResponseKind().(*kmsg.FetchResponse)
		total := 0
		errs := false
		for _, t := range req.Topics {
			rt := kmsg.NewFetchResponseTopic()
			rt.Topic = t.Topic
			topic := c.topics[t.Topic]
			for _, p := range t.Partitions {
				rp := kmsg.NewFetchResponseTopicPartition()
				rp.Partition = p.Partition
				rp.PreferredReadReplica = -1
				if topic == nil || int(p.Partition) >= len(topic.Parts) {
					rp.ErrorCode = kerr.UnknownTopicOrPartition.Code
					errs = true
					rt.Partitions = append(rt.Partitions, rp)
					continue
				}
				part := topic.Parts[p.Partition]
				lso := part.lso()
				rp.HighWatermark, rp.LastStableOffset, rp.LogStartOffset = part.Next, lso, part.Start
				end := part.Next
				if req.IsolationLevel == 1 {
					end = lso
				}
				if p.FetchOffset > part.Next || p.FetchOffset < part.Start {
					rp.ErrorCode = kerr.OffsetOutOfRange.Code
					errs = true
					rt.Partitions = append(rt.Partitions, rp)
					continue
				}
				i := sort.Search(len(part.Batches), func(i int) bool { return part.Batches[i].Last >= p.FetchOffset })
				var data []byte
				last := p.FetchOffset
				for ; i < len(part.Batches); i++ {
					b := part.Batches[i]
					if b.Base >= end {
						break
					}
					max := int(p.PartitionMaxBytes)
					if c.cfg.FetchMax > 0 && c.cfg.FetchMax < max {
						max = c.cfg.FetchMax
					}
					if len(data) > 0 && (len(data)+len(b.raw) > max || total+len(data)+len(b.raw) > int(req.MaxBytes)) {
						break
					}
					if len(data) == 0 && total > int(req.MaxBytes) {
						break
					}
					data = append(data, b.raw...)
					last = b.Last
				}
				if req.IsolationLevel == 1 {
					for _, a := range part.aborted {
						if a.last >= p.FetchOffset && a.first <= last {
							ab := kmsg.NewFetchResponseTopicPartitionAbortedTransaction()
							ab.ProducerID, ab.FirstOffset = a.pid, a.first
							rp.AbortedTransactions = append(rp.AbortedTransactions, ab)
						}
					}
					sort.Slice(rp.AbortedTransactions, func(i, j int) bool {
						return rp.AbortedTransactions[i].FirstOffset < rp.AbortedTransactions[j].FirstOffset
					})
				}
				rp.RecordBatches = data
				if data == nil {
					rp.RecordBatches = []byte{}
				}
				total += len(data)
				rt.Partitions = append(rt.Partitions, rp)
			}
			resp.Topics = append(resp.Topics, rt)
		}
		ch := c.changed
		dead := sc.cl.dead
		c.mu.Unlock()
		left := time.Until(deadline)
		if errs || dead || total >= int(req.MinBytes) || left <= 0 {
			return resp
		}
		tm := time.NewTimer(left)
		select {
		case <-ch:
		case <-tm.C:
		}
		tm.Stop()
	}
}

func (c *Cluster) listOffsets(req *kmsg.ListOffsetsRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.ListOffsetsResponse)
	for _, t := range req.Topics {
		rt := kmsg.NewListOffsetsResponseTopic()
		rt.Topic = t.Topic
		topic := c.topics[t.Topic]
		for _, p := range t.Partitions {
			rp := kmsg.NewListOffsetsResponseTopicPartition()
			rp.Partition = p.Partition
			rp.LeaderEpoch = 0
			if topic == nil || int(p.Partition) >= len(topic.Parts) {
				rp.ErrorCode = kerr.UnknownTopicOrPartition.Code
			} else {
				part := topic.Parts[p.Partition]
				end := part.Next
				if req.IsolationLevel == 1 {
					end = part.lso()
				}
				switch p.Timestamp {
				case -1:
					rp.Offset = end
				case -2:
					rp.Offset = part.Start
				default:
					rp.Offset, rp.Timestamp = -1, -1
				search:
					for _, b := range part.Batches {
						if b.Control || b.Base >= end {
							continue
						}
						for _, r := range b.Recs {
							if r.Timestamp >= p.Timestamp {
								rp.Offset, rp.Timestamp = r.Offset, r.Timestamp
								break search
							}
						}
					}
				}
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

func (c *Cluster) leaderEpoch(req *kmsg.OffsetForLeaderEpochRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.OffsetForLeaderEpochResponse)
	for _, t := range req.Topics {
		rt := kmsg.NewOffsetForLeaderEpochResponseTopic()
		rt.Topic = t.Topic
		topic := c.topics[t.Topic]
		for _, p := range t.Partitions {
			rp := kmsg.NewOffsetForLeaderEpochResponseTopicPartition()
			rp.Partition = p.Partition
			if topic == nil || int(p.Partition) >= len(topic.Parts) {
				rp.ErrorCode = kerr.UnknownTopicOrPartition.Code
			} else {
				rp.LeaderEpoch = 0
				rp.EndOffset = topic.Parts[p.Partition].Next
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

// ---- transactions ----

func (c *Cluster) initPID(cl *Client, req *kmsg.InitProducerIDRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.InitProducerIDResponse)
	if req.TransactionalID == nil {
		c.nextPID++
		ps := &producerState{pid: c.nextPID}
		c.prod[ps.pid] = ps
		resp.ProducerID, resp.ProducerEpoch = ps.pid, 0
		return resp
	}
	to := time.Duration(req.TransactionTimeoutMillis) * time.Millisecond
	if to <= 0 || to > c.cfg.TxnMaxTimeout {
		resp.ErrorCode = kerr.InvalidTransactionTimeout.Code
		return resp
	}
	ps := c.txnIDs[*req.TransactionalID]
	if ps == nil {
		c.nextPID++
		ps = &producerState{pid: c.nextPID, txnID: *req.TransactionalID}
		c.prod[ps.pid] = ps
		c.txnIDs[ps.txnID] = ps
	} else {
		if ps.pending != nil {
			resp.ErrorCode = kerr.ConcurrentTransactions.Code
			return resp
		}
		if req.ProducerID >= 0 && (req.ProducerID != ps.pid || req.ProducerEpoch != ps.epoch) {
			resp.ErrorCode = kerr.ProducerFenced.Code
			return resp
		}
		ps.epoch++
		if ps.cur != nil {
			c.decideLocked(ps, false, "init")
			if ps.pending != nil {
				resp.ErrorCode = kerr.ConcurrentTransactions.Code
				return resp
			}
		}
	}
	ps.timeout = to
	resp.ProducerID, resp.ProducerEpoch = ps.pid, ps.epoch
	return resp
}

func (c *Cluster) addPartitions(cl *Client, req *kmsg.AddPartitionsToTxnRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.AddPartitionsToTxnResponse)
	code := int16(0)
	ps := c.txnIDs[req.TransactionalID]
	switch {
	case ps == nil || ps.pid != req.ProducerID:
		code = kerr.InvalidProducerIDMapping.Code
	case ps.epoch != req.ProducerEpoch:
		code = kerr.InvalidProducerEpoch.Code
	case ps.pending != nil:
		code = kerr.ConcurrentTransactions.Code
	}
	bad := map[TP]bool{}
	if code == 0 {
		for _, t := range req.Topics {
			for _, p := range t.Partitions {
				if topic := c.topics[t.Topic]; topic == nil || int(p) >= len(topic.Parts) {
					bad[TP{t.Topic, p}] = true
				}
			}
		}
		if len(bad) == 0 {
			if ps.cur == nil {
				t := &Txn{ID: ps.txnID, PID: ps.pid, Epoch: ps.epoch, Inst: cl, Begin: time.Now(), Parts: map[TP]int64{}}
				ps.cur = t
				to := ps.timeout
				ps.timer = time.AfterFunc(to, func() {
					c.mu.Lock()
					defer c.mu.Unlock()
					if ps.cur == t {
						ps.epoch++
						c.decideLocked(ps, false, "timeout")
						c.notifyLocked()
					}
				})
				if c.OnTxnBegin != nil {
					c.OnTxnBegin(t)
				}
			}
			for _, t := range req.Topics {
				for _, p := range t.Partitions {
					tp := TP{t.Topic, p}
					if _, ok := ps.cur.Parts[tp]; !ok {
						ps.cur.Parts[tp] = -1
						ps.cur.Order = append(ps.cur.Order, tp)
					}
				}
			}
		}
	}
	for _, t := range req.Topics {
		rt := kmsg.NewAddPartitionsToTxnResponseTopic()
		rt.Topic = t.Topic
		for _, p := range t.Partitions {
			rp := kmsg.NewAddPartitionsToTxnResponseTopicPartition()
			rp.Partition = p
			rp.ErrorCode = code
			if len(bad) > 0 {
				rp.ErrorCode = kerr.OperationNotAttempted.Code
				if bad[TP{t.Topic, p}] {
					rp.ErrorCode = kerr.UnknownTopicOrPartition.Code
				}
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		resp.Topics = append(resp.Topics, rt)
	}
	return resp
}

func (c *Cluster) endTxn(req *kmsg.EndTxnRequest) kmsg.Response {
	resp := req.ResponseKind().(*kmsg.EndTxnResponse)
	ps := c.txnIDs[req.TransactionalID]
	switch {
	case ps == nil || ps.pid != req.ProducerID:
		resp.ErrorCode = kerr.InvalidProducerIDMapping.Code
	case ps.epoch != req.ProducerEpoch:
		resp.ErrorCode = kerr.InvalidProducerEpoch.Code
	case ps.pending != nil:
		if ps.pending.Commit == req.Commit {
			return resp // retried while markers are written
		}
		resp.ErrorCode = kerr.InvalidTxnState.Code
	case ps.cur == nil:
		resp.ErrorCode = kerr.InvalidTxnState.Code
	default:
		c.decideLocked(ps, req.Commit, "end")
		c.notifyLocked()
	}
	return resp
}

func errorResponse(kreq kmsg.Request, code int16, only string) kmsg.Response {
	switch req := kreq.(type) {
	case *kmsg.ProduceRequest:
		resp := req.ResponseKind().(*kmsg.ProduceResponse)
		hit := false
		for _, t := range req.Topics {
			if only != "" && t.Topic != only {
				return nil
			}
			hit = true
			rt := kmsg.NewProduceResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewProduceResponseTopicPartition()
				rp.Partition, rp.ErrorCode, rp.BaseOffset, rp.LogAppendTime = p.Partition, code, -1, -1
				rt.Partitions = append(rt.Partitions, rp)
			}
			resp.Topics = append(resp.Topics, rt)
		}
		if !hit {
			return nil
		}
		return resp
	case *kmsg.EndTxnRequest:
		resp := req.ResponseKind().(*kmsg.EndTxnResponse)
		resp.ErrorCode = code
		return resp
	case *kmsg.InitProducerIDRequest:
		resp := req.ResponseKind().(*kmsg.InitProducerIDResponse)
		resp.ErrorCode = code
		resp.ProducerID = -1
		return resp
	case *kmsg.AddPartitionsToTxnRequest:
		resp := req.ResponseKind().(*kmsg.AddPartitionsToTxnResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewAddPartitionsToTxnResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewAddPartitionsToTxnResponseTopicPartition()
				rp.Partition, rp.ErrorCode = p, code
				rt.Partitions = append(rt.Partitions, rp)
			}
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	case *kmsg.FindCoordinatorRequest:
		resp := req.ResponseKind().(*kmsg.FindCoordinatorResponse)
		resp.ErrorCode = code
		return resp
	case *kmsg.HeartbeatRequest:
		resp := req.ResponseKind().(*kmsg.HeartbeatResponse)
		resp.ErrorCode = code
		return resp
	case *kmsg.CreateTopicsRequest:
		resp := req.ResponseKind().(*kmsg.CreateTopicsResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewCreateTopicsResponseTopic()
			rt.Topic, rt.ErrorCode = t.Topic, code
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	case *kmsg.DeleteTopicsRequest:
		resp := req.ResponseKind().(*kmsg.DeleteTopicsResponse)
		for _, n := range req.TopicNames {
			n := n
			rt := kmsg.NewDeleteTopicsResponseTopic()
			rt.Topic, rt.ErrorCode = &n, code
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	case *kmsg.MetadataRequest:
		resp := req.ResponseKind().(*kmsg.MetadataResponse)
		b := kmsg.NewMetadataResponseBroker()
		b.NodeID, b.Host, b.Port = 0, "b0", 9092
		resp.Brokers = append(resp.Brokers, b)
		for _, t := range req.Topics {
			rt := kmsg.NewMetadataResponseTopic()
			rt.Topic, rt.ErrorCode = t.Topic, code
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	case *kmsg.FetchRequest:
		resp := req.ResponseKind().(*kmsg.FetchResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewFetchResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewFetchResponseTopicPartition()
				rp.Partition, rp.ErrorCode, rp.HighWatermark, rp.LastStableOffset = p.Partition, code, -1, -1
				rp.RecordBatches = []byte{}
				rt.Partitions = append(rt.Partitions, rp)
			}
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	}
	return nil
}
