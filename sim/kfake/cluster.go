package kfake

import (
	"github.com/twmb/franz-go/pkg/kmsg"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/twmb/franz-go/pkg/kerr"
)

type Config struct {
	Nodes          int
	Seed           int64
	LatMin         time.Duration // one-way, per request
	LatMax         time.Duration
	SpikeP         float64 // chance that a request takes SpikeMax longer at most
	SpikeMax       time.Duration
	MarkerMax      time.Duration // delay of txn markers after the decision, per partition
	RebalanceDelay time.Duration // group.initial.rebalance.delay
	FetchMax       int           // cap on record bytes per partition and fetch (0: none)
	TxnMaxTimeout  time.Duration
	AutoCompact    bool // compact compacted topics now and then
}

type TP struct {
	Topic string
	P     int32
}

// Txn is one transaction attempt.
type Txn struct {
	ID      string
	PID     int64
	Epoch   int16
	Inst    *Client
	Begin   time.Time
	Parts   map[TP]int64 // first offset, -1 when only added
	Order   []TP
	Decided bool
	Commit  bool
	EndAt   time.Time
	Cause   string
	Batches []*TxnBatch
	markers int // markers still to write
}

type TxnBatch struct {
	TP TP
	B  *Batch
}

type abortRange struct{ pid, first, last int64 }

type seqState struct {
	epoch int16
	next  int32
	last  []struct {
		seq  int32
		num  int32
		base int64
	}
}

type Partition struct {
	Topic   string
	P       int32
	Batches []*Batch
	Next    int64
	Start   int64           // records before it have been deleted
	open    map[int64]int64 // pid -> first offset of undecided (or unmarked) txn
	aborted []abortRange
	seqs    map[int64]*seqState
}

func (p *Partition) lso() int64 {
	l := p.Next
	for _, f := range p.open {
		if f < l {
			l = f
		}
	}
	return l
}

type Topic struct {
	Name   string
	Parts  []*Partition
	RF     int
	Config map[string]string
}

type producerState struct {
	pid     int64
	epoch   int16
	txnID   string
	timeout time.Duration
	cur     *Txn
	pending *Txn // decided, markers outstanding
	timer   *time.Timer
}

// Client is one network identity (for instance one consumer process).
type Client struct {
	c    *Cluster
	Name string
	Idx  int
	dead bool
	// ConfigDelay is how long Config takes.
	ConfigDelay time.Duration
	conns       map[*srvConn]struct{}
	counts      map[int16]int
	Frozen      bool
}

type Fault struct {
	Inst  int    // client index, -1 any
	Key   int16  // request key, -1 any
	Nth   int    // 1-based count of matching requests of that client
	Count int    // how many consecutive ones (default 1)
	Kind  string // err | close_before | close_after | crash_before | crash_after | delay
	Code  int16
	Delay time.Duration
	Txn   bool // only transactional produce requests (Nth counts those)
	hits  int
	Topic string // only produce requests with this topic (Nth counts those)
	seen  map[*Client]int
}

type Cluster struct {
	cfg     Config
	mu      sync.Mutex
	rng     *rand.Rand
	topics  map[string]*Topic
	groups  map[string]*Group
	prod    map[int64]*producerState
	txnIDs  map[string]*producerState
	nextPID int64
	changed chan struct{}
	Faults  []Fault
	clients []*Client
	latRng  *rand.Rand

	// hooks, called with the lock held: they may only use the *Locked accessors
	OnTxnEnd       func(*Txn)
	OnTxnBegin     func(*Txn)
	OnAppend       func(*Partition, *Batch)
	OnOffsetCommit func(group string, cl *Client, tp TP, off int64)
	OnCrashFault   func(*Client)
	OnRequest      func(cl *Client, conn string, req kmsg.Request)
	nconn          int
	OnGroup        func(group, what string, cl *Client, member string)
	OnPlan         func(group string, gen int32, members []PlanMember)
	Unsupported    []string
	Requests       int
	KeyCount       map[int16]int
	MaxOpenTxns    int
	FaultHits      map[string]int
}

func New(cfg Config) *Cluster {
	if cfg.Nodes == 0 {
		cfg.Nodes = 1
	}
	if cfg.TxnMaxTimeout == 0 {
		cfg.TxnMaxTimeout = 15 * time.Minute
	}
	return &Cluster{cfg: cfg, rng: rand.New(rand.NewSource(cfg.Seed)), latRng: rand.New(rand.NewSource(cfg.Seed ^ 0x5bd1e995)),
		topics: map[string]*Topic{}, groups: map[string]*Group{}, prod: map[int64]*producerState{}, txnIDs: map[string]*producerState{},
		nextPID: 1000, changed: make(chan struct{}), KeyCount: map[int16]int{}, FaultHits: map[string]int{}}
}

func (c *Cluster) Lock()   { c.mu.Lock() }
func (c *Cluster) Unlock() { c.mu.Unlock() }

func (c *Cluster) NewClient(name string) *Client {
	c.mu.Lock()
	defer c.mu.Unlock()
	cl := &Client{c: c, Name: name, Idx: len(c.clients), conns: map[*srvConn]struct{}{}, counts: map[int16]int{}}
	c.clients = append(c.clients, cl)
	return cl
}

func (c *Cluster) notifyLocked() {
	close(c.changed)
	c.changed = make(chan struct{})
}

func (c *Cluster) TopicLocked(name string) *Topic { return c.topics[name] }

func (c *Cluster) TopicNamesLocked() []string {
	var out []string
	for n := range c.topics {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (c *Cluster) CreateTopicLocked(name string, parts, rf int, cfg map[string]string) int16 {
	return c.createTopicLocked(name, parts, rf, cfg, false)
}

func (c *Cluster) createTopicLocked(name string, parts, rf int, cfg map[string]string, validateOnly bool) int16 {
	if name == "" || len(name) > 249 || strings.Trim(name, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-") != "" {
		return kerr.InvalidTopicException.Code
	}
	if _, ok := c.topics[name]; ok {
		return kerr.TopicAlreadyExists.Code
	}
	if parts == -1 {
		parts = 1
	}
	if rf == -1 {
		rf = 1
	}
	if parts <= 0 {
		return kerr.InvalidPartitions.Code
	}
	if rf <= 0 || rf > c.cfg.Nodes {
		return kerr.InvalidReplicationFactor.Code
	}
	for k, v := range cfg {
		ok := false
		switch k {
		case "min.insync.replicas":
			n, err := strconv.Atoi(v)
			ok = err == nil && n >= 1
		case "cleanup.policy":
			ok = v == "delete" || v == "compact" || v == "compact,delete" || v == "delete,compact"
		case "min.cleanable.dirty.ratio":
			f, err := strconv.ParseFloat(v, 64)
			ok = err == nil && f >= 0 && f <= 1
		case "retention.ms", "retention.bytes", "segment.bytes", "segment.ms", "compression.type", "max.message.bytes", "delete.retention.ms", "min.compaction.lag.ms", "max.compaction.lag.ms", "message.timestamp.type", "unclean.leader.election.enable":
			ok = v != ""
		}
		if !ok {
			return kerr.InvalidConfig.Code
		}
	}
	if validateOnly {
		return 0
	}
	t := &Topic{Name: name, RF: rf, Config: cfg}
	for i := 0; i < parts; i++ {
		t.Parts = append(t.Parts, &Partition{Topic: name, P: int32(i), open: map[int64]int64{}, seqs: map[int64]*seqState{}})
	}
	c.topics[name] = t
	return 0
}

// TrimLocked deletes the records before an offset.
func (c *Cluster) TrimLocked(topic string, p int32, off int64) {
	part := c.topics[topic].Parts[p]
	part.Start = off
	for len(part.Batches) > 0 && part.Batches[0].Last < off {
		part.Batches = part.Batches[1:]
	}
}

// AppendPlain appends records directly (as an external, non-transactional producer).
func (c *Cluster) AppendPlain(topic string, p int32, recs ...*Rec) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.appendPlainLocked(topic, p, nil, recs...)
	c.notifyLocked()
}

func (c *Cluster) appendPlainLocked(topic string, p int32, txn *Txn, recs ...*Rec) *Batch {
	part := c.topics[topic].Parts[p]
	base := part.Next
	for i, r := range recs {
		r.Offset = base + int64(i)
		if r.Timestamp == 0 {
			r.Timestamp = time.Now().UnixMilli()
		}
		r.Txn = txn
	}
	last := base + int64(len(recs)) - 1
	b := &Batch{Base: base, Last: last, PID: -1, Epoch: -1, Seq: -1, Num: int32(len(recs)), Recs: recs, Txn: txn}
	attrs := int16(0)
	if txn != nil {
		attrs = 0x10
		b.PID, b.Epoch, b.Seq = txn.PID, txn.Epoch, 0
		for _, r := range recs {
			r.PID = txn.PID
		}
	}
	b.raw = encodeBatch(base, last, b.PID, b.Epoch, b.Seq, attrs, recs)
	part.Batches = append(part.Batches, b)
	part.Next = last + 1
	if txn != nil {
		if f, ok := txn.Parts[TP{topic, p}]; !ok || f < 0 {
			txn.Parts[TP{topic, p}] = base
			part.open[txn.PID] = base
		}
		txn.Batches = append(txn.Batches, &TxnBatch{TP{topic, p}, b})
	}
	if c.OnAppend != nil {
		c.OnAppend(part, b)
	}
	return b
}

// ExternalTxn writes recs to several partitions in one transaction of an outside
// producer and decides it at once (or leaves it open for openFor first).
func (c *Cluster) ExternalTxn(commit bool, openFor time.Duration, recs map[TP][]*Rec) *Txn {
	c.mu.Lock()
	c.nextPID++
	t := &Txn{ID: "ext", PID: c.nextPID, Begin: time.Now(), Parts: map[TP]int64{}}
	var tps []TP
	for tp := range recs {
		tps = append(tps, tp)
	}
	sort.Slice(tps, func(i, j int) bool {
		return tps[i].Topic < tps[j].Topic || tps[i].Topic == tps[j].Topic && tps[i].P < tps[j].P
	})
	for _, tp := range tps {
		c.appendPlainLocked(tp.Topic, tp.P, t, recs[tp]...)
		t.Order = append(t.Order, tp)
	}
	c.notifyLocked()
	fin := func() {
		t.Decided, t.Commit, t.EndAt = true, commit, time.Now()
		for _, tp := range tps {
			c.writeMarkerLocked(tp, t)
		}
		c.notifyLocked()
	}
	if openFor == 0 {
		fin()
	}
	c.mu.Unlock()
	if openFor > 0 {
		time.AfterFunc(openFor, func() { c.mu.Lock(); fin(); c.mu.Unlock() })
	}
	return t
}

func (c *Cluster) writeMarkerLocked(tp TP, t *Txn) {
	topic := c.topics[tp.Topic]
	if topic == nil {
		return
	}
	part := topic.Parts[tp.P]
	first, ok := part.open[t.PID]
	if !ok {
		return // only added, nothing written: Kafka writes a marker here too, harmless to skip
	}
	delete(part.open, t.PID)
	b := controlBatch(part.Next, t.PID, t.Epoch, t.Commit)
	part.Batches = append(part.Batches, b)
	if !t.Commit {
		part.aborted = append(part.aborted, abortRange{t.PID, first, part.Next})
	}
	part.Next++
}

// decideLocked ends a transaction; markers follow, each after its own delay.
func (c *Cluster) decideLocked(ps *producerState, commit bool, cause string) {
	t := ps.cur
	if t == nil {
		return
	}
	ps.cur = nil
	if ps.timer != nil {
		ps.timer.Stop()
	}
	t.Decided, t.Commit, t.EndAt, t.Cause = true, commit, time.Now(), cause
	if c.OnTxnEnd != nil {
		c.OnTxnEnd(t)
	}
	ps.pending = t
	t.markers = len(t.Order)
	if t.markers == 0 {
		ps.pending = nil
	}
	for _, tp := range t.Order {
		tp := tp
		fin := func() {
			c.writeMarkerLocked(tp, t)
			t.markers--
			if t.markers == 0 && ps.pending == t {
				ps.pending = nil
			}
			c.notifyLocked()
		}
		d := time.Duration(0)
		if c.cfg.MarkerMax > 0 {
			d = time.Duration(c.rng.Int63n(int64(c.cfg.MarkerMax) + 1))
		}
		if d == 0 {
			fin()
		} else {
			time.AfterFunc(d, func() { c.mu.Lock(); fin(); c.mu.Unlock() })
		}
	}
}

// CommittedLocked returns the records visible to a read-committed reader once all
// markers of decided transactions are written (the logical state): plain records and
// records of committed transactions, in log order, control records left out.
func (c *Cluster) CommittedLocked(topic string, p int32) []*Rec {
	t := c.topics[topic]
	if t == nil {
		return nil
	}
	var out []*Rec
	for _, b := range t.Parts[p].Batches {
		if b.Control || (b.Txn != nil && !(b.Txn.Decided && b.Txn.Commit)) {
			continue
		}
		out = append(out, b.Recs...)
	}
	return out
}

func (c *Cluster) OpenTxnsLocked(inst *Client) int {
	n := 0
	for _, ps := range c.prod {
		if ps.cur != nil && (inst == nil || ps.cur.Inst == inst) && len(ps.cur.Batches) > 0 {
			n++
		}
	}
	return n
}

// CompactLocked removes superseded records (same key later in the log) below the LSO.
func (c *Cluster) CompactLocked(topic string, p int32, keepTail int) int {
	t := c.topics[topic]
	if t == nil {
		return 0
	}
	part := t.Parts[p]
	lso := part.lso()
	limit := lso - int64(keepTail)
	latest := map[string]int64{}
	vis := func(b *Batch) bool {
		return !b.Control && (b.Txn == nil || (b.Txn.Decided && b.Txn.Commit))
	}
	for _, b := range part.Batches {
		if b.Last >= lso {
			break
		}
		if vis(b) {
			for _, r := range b.Recs {
				latest[string(r.Key)] = r.Offset
			}
		}
	}
	removed := 0
	var keep []*Batch
	for _, b := range part.Batches {
		if b.Control || b.Last >= limit || !vis(b) {
			keep = append(keep, b)
			continue
		}
		var recs []*Rec
		for _, r := range b.Recs {
			if latest[string(r.Key)] > r.Offset {
				removed++
				continue
			}
			recs = append(recs, r)
		}
		if len(recs) == 0 {
			continue
		}
		if len(recs) != len(b.Recs) {
			attrs := int16(0)
			if b.Txn != nil {
				attrs = 0x10
			}
			nb := *b
			nb.Recs = recs
			nb.raw = encodeBatch(b.Base, b.Last, b.PID, b.Epoch, b.Seq, attrs, recs)
			b = &nb
		}
		keep = append(keep, b)
	}
	part.Batches = keep
	return removed
}

// Crash cuts the client off for good.
func (cl *Client) Crash() {
	cl.c.mu.Lock()
	defer cl.c.mu.Unlock()
	cl.crashLocked()
}

func (cl *Client) crashLocked() {
	cl.dead = true
	for sc := range cl.conns {
		sc.grace = cl.c.rng.Intn(3) // requests already in the broker's hands
		sc.clientSide.Close()
	}
}

func (cl *Client) Dead() bool { return cl.dead }
